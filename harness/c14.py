"""C14: quantizer initialization by rules and collections (spec/QuantInit.tla)."""
import torch
import fastforward as ff
from fastforward import mpath
from harness import c15
from harness.c15 import rand_cfg, rand_put, rand_query
from vf.world import errname


class World(c15.World):
    def __init__(self, cfg):
        super().__init__(cfg)
        world = self
        self.rules = {}
        self.calls = []
        self.colls = []

        class Scored(ff.QuantizationConfig):
            def precedence_score(self, rule, result):
                sc = world.rules[rule.factory]
                return sc[world.loc(result) - 1] if cfg["scored"] == "location" else sc[0]

        self.make = ff.QuantizationConfig if cfg["scored"] == "no" else Scored
        self.config = self.make()

    def loc(self, result):
        for i, l in enumerate(self.cfg["loc"]):
            if (l["host"].replace("/", ".") + f".q{i + 1}") == result.full_name:
                return i + 1
        return -1

    def factory(self, e):
        """A class with keyword arguments, a factory of the class, or a function."""
        class Q(ff.nn.LinearQuantizer):
            pass
        how = e["fhow"] % 3
        if how == 0:
            return Q, dict(num_bits=e["kind"])
        if how == 1:
            return Q.factory(e["kind"]), {}

        def f(name, existing):
            try:
                if self.root.get_submodule(name) is not existing:
                    self.calls.append(-1)
            except AttributeError:
                self.calls.append(-2)
            self.calls.append(existing)
            return Q(e["kind"])
        return f, {}

    def apply(self, e):
        op = e["op"]
        if op == "rule":
            f, kw = self.factory(e)
            self.rules[f] = e["score"]
            r = self.config.add_rule(mpath.query(self.query(e)) if e.get("obj") else self.query(e), f, **kw)
            return "ok" if r is self.config else "not chained"
        if op == "norules":
            self.config = self.make()
            return "ok"
        if op in ("init", "cinit"):
            n = len(self.cfg["loc"])
            before = [self.get(l) for l in range(1, n + 1)]
            self.calls = []
            kw = dict(overwrite_policy=e["policy"], safe=e["safe"])
            if e["policy"] == "error" and e["dflt"]:
                kw.pop("overwrite_policy")
            e["etype"] = ""
            try:
                if op == "init":
                    self.config.initialize(self.root, **kw)
                else:
                    f, fk = self.factory(e)
                    self.colls[e["c"] - 1].initialize(f, **kw, **fk)
                end = "ok"
            except Exception as ex:
                e["etype"], end = type(ex).__name__, "refused"
            if op == "cinit":
                stale = [getattr(r.parent, r.parent_attribute) is r.module for r in self.colls[e["c"] - 1]]
                return [end, stale, self.view()]
            if end != "ok":
                return [end, [], self.view()] if not self.calls else ["called factories before refusing"]
            # which quantizer was made from which: all that changed
            codes = []
            for l in range(1, n + 1):
                q = self.get(l)
                if q is not before[l - 1]:
                    codes.append(100 * (1 + next(i for i, x in enumerate(before) if x is before[l - 1])) + self.kind(q))
            made = [c for c in self.calls if not isinstance(c, int)]
            if -1 in self.calls or -2 in self.calls or len(set(map(id, made))) != len(made) or any(all(c is not b for b in before) for c in made):
                return ["bad calls"]
            return [end, sorted(set(codes)), self.view()]
        if op == "coll":
            c = self.find(e)
            self.colls.append(c)
            e["found"] = [self.loc(r) for r in c]
            return "ok"
        if op == "append":
            d = self.colls[e["from"] - 1]
            if len(d):
                self.colls[e["c"] - 1].append(d[e["i"] % len(d)])
            return "ok"
        return super().apply(e)


def rand_trace(rng, i):
    cfg = rand_cfg(rng)
    cfg["scored"] = rng.choice(["no", "no", "rule", "location"])
    n = len(cfg["loc"])
    L = lambda: rng.randint(1, n)
    evs = []
    for l in range(1, n + 1):
        if rng.random() < .9:
            p = rand_put(rng, cfg)
            p["at"] = l
            if rng.random() < .6:
                p.update(kind=0, has=True)
            evs.append(p)
    share = cfg["scored"] != "location"
    if share and rng.random() < .5:
        evs += [dict(op="share", at=L(), of=L()) for _ in range(rng.randint(1, 2))]
    kinds = iter(range(5, 60))
    nc = 0
    pol = lambda: rng.choice(["error", "error", "skip", "overwrite", "overwrite", "bogus"])
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < .4:
            evs.append(dict(op="rule", kind=next(kinds), score=[rng.randint(0, 3) for _ in range(n)], fhow=rng.randint(0, 2), obj=rng.random() < .3, **rand_query(rng, cfg)))
        elif r < .62:
            evs.append(dict(op="init", policy=pol(), safe=rng.random() < .8, dflt=rng.random() < .5))
        elif r < .72 or (r < .85 and nc == 0):
            evs.append(dict(op="coll", found=[], **rand_query(rng, cfg)))
            nc += 1
        elif r < .85:
            evs.append(dict(op="cinit", c=rng.randint(1, nc), policy=pol(), safe=rng.random() < .7, kind=next(kinds), fhow=rng.randint(0, 2), dflt=rng.random() < .5))
        elif r < .88 and nc:
            evs.append({"op": "append", "c": rng.randint(1, nc), "from": rng.randint(1, nc), "i": rng.randint(0, 5)})
        elif r < .93:
            evs.append(dict(op="find", **rand_query(rng, cfg)))
        elif r < .95:
            evs.append(dict(op="norules"))
        elif r < .97 and share:
            evs.append(dict(op="share", at=L(), of=L()))
        else:
            evs.append(rand_put(rng, cfg))
    return dict(id=f"rand{i}", cfg=cfg, events=c15.drive(cfg, evs, World))


class UserLinear(torch.nn.Linear):
    pass


def names_in_rules(ctx):
    """Classes named in the query of a rule are those visible where the rule is added."""
    def local():
        class Here(torch.nn.ReLU):
            pass
        root = torch.nn.Sequential(UserLinear(2, 2), Here(), torch.nn.Linear(2, 2))
        for m in root:
            m.q = ff.nn.QuantizerStub("a")
        ff.QuantizationConfig().add_rule("**/[cls:UserLinear]/*", ff.nn.LinearQuantizer, num_bits=3).add_rule("**/[cls:Here]/*", ff.nn.LinearQuantizer, num_bits=4).initialize(root)
        got = [getattr(m.q, "num_bits", 0) for m in root]
        ff.find_quantizers(root, "**/[cls:Here]/q").initialize(ff.nn.LinearQuantizer, num_bits=5, overwrite_policy="overwrite")
        ctx.compare(got + [root[1].q.num_bits], [3, 4, 0, 5], "context", "rule queries naming classes")
    local()


def collection_members(ctx):
    """Quantizer collections hold quantizers only."""
    root = ff.quantize_model(torch.nn.Sequential(torch.nn.Linear(2, 2)))
    c = ff.find_quantizers(root, "**")
    ctx.compare(sorted(r.full_name for r in c), sorted(f"0.{n}_quantizer" for n in ("input", "weight", "bias", "output")), "members", "only quantizers")
    try:
        c.append(mpath.search("*", root)[0])
        got = "accepted"
    except ValueError:
        got = "refused"
    ctx.compare(got, "refused", "members:append", "a module that is no quantizer")


def run(ctx):
    ctx.model_check("QuantInitMC", f"INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(4, 5)}\n", workers=8)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(2500, 20000))]
    ctx.validate("QuantInitTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}", workers=8)
    names_in_rules(ctx)
    collection_members(ctx)
