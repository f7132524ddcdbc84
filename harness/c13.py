"""C13: module collections (spec/Collections.tla)."""
import torch
from fastforward import mpath
from fastforward.mpath import fragments as fr
from vf import world
from vf.world import errname


class Boom(Exception):
    pass


class World:
    def __init__(self, cfg):
        self.names = cfg["names"]
        self.mods = [torch.nn.Module()]
        self.full = [""]
        for p, a in self.names:
            m = torch.nn.Sequential() if cfg.get("seq") else torch.nn.Module()
            self.mods[p].add_module(a, m)
            self.mods.append(m)
            self.full.append((self.full[p] + "." if p else "") + a)
        self.root = self.mods[0]
        self.colls = []

    def pos(self, m):
        return next((i for i, x in enumerate(self.mods) if x is m), -7)

    def code(self, r):
        return 1000 * self.full.index(r.full_name) + self.pos(r.module)

    def codes(self, c):
        cs = [self.code(r) for r in c]
        for r in c:
            if r.parent_attribute != r.full_name.split(".")[-1]:
                return ["bad result"]
        if len(c) != len(cs) or [self.code(c[i]) for i in range(len(c))] != cs or [(self.full.index(n), self.pos(m)) for n, m in c.named_modules()] != [divmod(x, 1000) for x in cs] \
                or [self.pos(m) for m in c.modules()] != [x % 1000 for x in cs] or [self.pos(b) for _, b in c.parents()] != [x % 1000 for x in cs]:
            return ["inconsistent views"]
        return sorted(cs)

    def fresh(self):
        self.mods.append(torch.nn.Module())
        return self.mods[-1]

    def model(self):
        res = []
        for n in self.full[1:]:
            try:
                res.append(self.pos(self.root.get_submodule(n)))
            except AttributeError:
                res.append(-1)
        return res

    def apply(self, e):
        op = e["op"]
        if op == "search":
            want = {self.full[i] for i in e["sel"]}
            if e.get("how") == "pred":
                paths = {}
                def walk(m, pre):
                    for n, c in m.named_children():
                        paths[id(c)] = pre + n
                        walk(c, pre + n + ".")
                walk(self.root, "")
                q = mpath.root / mpath.Selector(None, fr.PredicateFragment(lambda n, m: paths.get(id(m)) in want))
            else:
                alts = [mpath.query(n.replace(".", "/")) for n in sorted(want)] or [mpath.query("nothing")]
                q = alts[0]
                for a in alts[1:]:
                    q = q | a
            c = mpath.search(q, self.root)
            self.colls.append(c)
            return self.codes(c)
        if op in ("union", "intersection", "difference", "symmetric_difference"):
            a, b = self.colls[e["a"] - 1], self.colls[e["b"] - 1]
            sym = {"union": "__or__", "intersection": "__and__", "difference": "__sub__", "symmetric_difference": "__xor__"}[op]
            c = getattr(a, op)(b) if e.get("method") else getattr(a, sym)(b)
            if type(c) is not type(a):
                return ["type"]
            self.colls.append(c)
            return [self.codes(c), self.codes(a), self.codes(b)]
        if op == "apply":
            c = self.colls[e["a"] - 1]
            e["order"] = [self.code(r) for r in c]
            calls = []

            def f(name, mod):
                calls.append(1000 * self.full.index(name) + self.pos(mod))
                if self.full.index(name) == e["fail"]:
                    raise Boom()
                if not e["update"]:
                    return torch.nn.Module()
                return self.fresh() if self.full.index(name) in e["change"] else None
            try:
                c.apply(f, safe=e["safe"], update=e["update"])
                end = "ok"
            except Boom:
                end = "raised"
            except ValueError:
                end = "refused"
            return [end, calls, self.codes(c), self.model()]
        if op == "map":
            c = self.colls[e["a"] - 1]
            r = c.map(lambda n, m: 1000 * self.full.index(n) + self.pos(m))
            return sorted(r) if r == [self.code(x) for x in c] else ["order"]
        if op == "set":
            p, a = self.names[e["name"] - 1]
            try:
                parent = self.root.get_submodule(self.full[p]) if p else self.root
                setattr(parent, a, self.fresh()) if hasattr(parent, a) else parent.add_module(a, self.fresh())
            except AttributeError:
                pass
            return self.model()
        c = self.colls[e["a"] - 1]
        if e["how"] == "del":
            if len(c):
                i = e["i"] % len(c)
                del c[i]
        else:
            s = slice(*[None if x == "" else x for x in e["slice"]])
            c2 = c[s]
            if [self.code(r) for r in c2] != [self.code(r) for r in c][s]:
                return ["slice"]
            self.colls[e["a"] - 1] = c = c2
        e["keep"] = self.codes(c)
        return self.codes(c)


def drive(cfg, evs):
    w, res = World(cfg), []
    for e in evs:
        e = dict(e)
        try:
            out = w.apply(e)
        except Exception as ex:
            out = errname(ex)
        res.append({**e, "out": out})
    return res


def rand_trace(rng, i):
    names = []
    for k in range(rng.randint(2, 7)):
        p = rng.randint(0, k) if rng.random() < .5 else 0
        a = rng.choice("abcd") + (str(k) if rng.random() < .3 else "")
        names.append([p, a if [p, a] not in names else f"{a}{k}"])
    n = len(names)
    evs, nc = [], 0
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .3 or nc == 0:
            evs.append(dict(op="search", sel=rng.sample(range(1, n + 1), rng.randint(0, n)), how=rng.choice(["pred", "query"]))); nc += 1
        elif r < .55:
            evs.append(dict(op=rng.choice(["union", "intersection", "difference", "symmetric_difference"]), a=rng.randint(1, nc), b=rng.randint(1, nc), method=rng.random() < .5)); nc += 1
        elif r < .78:
            evs.append(dict(op="apply", a=rng.randint(1, nc), order=[], change=rng.sample(range(1, n + 1), rng.randint(0, n)), safe=rng.random() < .6, update=rng.random() < .85, fail=rng.choice([0, 0, 0, rng.randint(1, n)])))
        elif r < .84:
            evs.append(dict(op="map", a=rng.randint(1, nc)))
        elif r < .92:
            evs.append(dict(op="set", name=rng.randint(1, n)))
        elif rng.random() < .5:
            evs.append(dict(op="take", how="del", i=rng.randint(0, 9), a=rng.randint(1, nc), keep=[]))
        else:
            evs.append(dict(op="take", how="slice", slice=[rng.choice(["", 0, 1, 2]), rng.choice(["", 1, 3, -1]), rng.choice(["", "", 2, -1])], a=rng.randint(1, nc), keep=[]))
    cfg = dict(names=names)
    return dict(id=f"rand{i}", cfg=cfg, events=drive({**cfg, "seq": rng.random() < .5}, evs))


def roots(ctx):
    """Collections of different models do not mix, and neither do other objects."""
    a, b = (torch.nn.Sequential(torch.nn.ReLU()) for _ in range(2))
    ca, cb = mpath.search("*", a), mpath.search("*", b)
    got = []
    for op in ("union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__", "__xor__"):
        try:
            getattr(ca, op)(cb)
            got.append("mixed")
        except ValueError:
            got.append("refused")
    for f in (lambda: ca | {1}, lambda: ca & [2], lambda: ca - 3, lambda: ca ^ None):
        try:
            f()
            got.append("mixed")
        except TypeError:
            got.append("refused")
    ctx.compare(got, ["refused"] * 12, "roots", "collections of different models")
    got = [ca == mpath.search("0", a), ca == cb, ca == [1], ca[0] == mpath.search("**", a)[0], ca[0] == cb[0]]
    c2 = mpath.search("nothing", a)
    c2.append(ca[0])
    got += [c2 == ca, len(c2), len(mpath.search("nothing", a))]
    ctx.compare(got, [True, False, False, True, False, True, 1, 0], "equality", "comparison of collections")


def shared(ctx):
    """A module at several locations is one result of a search; updates go to the location of the result."""
    s = torch.nn.ReLU()
    root = torch.nn.Sequential(s, torch.nn.Sequential(s))
    c = mpath.search("1/*", root)
    new = torch.nn.SiLU()
    c.apply(lambda n, m: new)
    ctx.compare([c[0].module is new, root[1][0] is new, root[0] is s], [True, True, True], "shared", "replacing one location of a shared module")


def run(ctx):
    ctx.model_check("CollectionsMC", f"INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(3, 4)}\n", workers=8)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(2500, 20000))]
    ctx.validate("CollectionsTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
    roots(ctx)
    shared(ctx)
