"""C24: reducing a graph's resolution preserves what it computes (spec/Reduce.tla)."""
import contextlib
import torch
from fastforward._orchestration import graph_module as gm
from fastforward._orchestration import data_flow as df
from harness import c20
from harness.graphs import T, apply, raw, Graphs, KEYNAME
from vf import world

REFUSED = (ValueError, KeyError)


def attr(v, k):
    return v[k] if k < 10 else v[KEYNAME[k]] if k < 20 else getattr(v, KEYNAME[k])


class Original(torch.nn.Module):
    """The module a subgraph was made from: computes the same, on values."""
    def __init__(self, label, rec, kwnames, log):
        super().__init__()
        self.label, self.log = label, log
        self.names = [n for _, n in rec["ins"] if n not in kwnames]
        self.ids = {n: i for i, n in rec["ins"]}
        self.nodes, self.outs = list(rec["nodes"]), list(rec["outs"])

    def forward(self, *args, **kw):
        assert len(args) == len(self.names)
        ins = {self.ids[n]: v for n, v in [*zip(self.names, args), *kw.items()]}
        val, todo = {}, list(self.nodes)

        def get(r):
            return {"in": lambda: ins[r[1]], "node": lambda: val[r[1]], "const": lambda: T(r[1]), "attr": lambda: attr(get(r[1]), r[2])}[r[0]]()
        while todo:
            n = next(n for n in todo if all(b in val for b in n["deps"]))
            todo.remove(n)
            self.log.append(n["label"])
            val[n["id"]] = apply(n["label"], [get(r) for r in n["args"]], {f"k{k}": get(r) for k, r in n["kw"]})
        outs = tuple(get(r) for r in self.outs)
        return outs if len(outs) > 1 else outs[0]


def base(r):
    while r[0] == "attr":
        r = r[1]
    return r


def remap(r, bind):
    if r[0] == "in":
        return bind.get(r[1], r)
    return ["attr", remap(r[1], bind), r[2]] if r[0] == "attr" else r


class World(c20.World):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.rec = [dict(ins=[], nodes=[], outs=[]) for _ in self.g]

    def node(self, i, label, args, kw):
        return dict(id=i, label=label, args=args, kw=kw, deps=[b[1] for b in map(base, [*args, *(r for _, r in kw)]) if b[0] == "node"])

    def apply(self, e):
        if e["op"] == "reduce":
            return self.reduce(self.g[e["g"] - 1], e)
        if e["op"] == "sub":
            return self.sub(e)
        out = super().apply(e)
        rec = self.rec[e["g"] - 1]
        if out[0] == "ok":
            if e["op"] == "input":
                rec["ins"].append((e["id"], e["name"]))
            elif e["op"] == "node":
                rec["nodes"].append(self.node(e["id"], e["label"], e["args"], e["kw"]))
            elif e["op"] == "output":
                rec["outs"] += e["refs"]
        return out

    def sub(self, e):
        h, rec = self.rec[e["h"] - 1], self.rec[e["g"] - 1]
        made = {}

        def original(label, log):
            made["m"] = Original(label, h, [k for k, _ in e["kw"]], log)
            return made["m"]
        saved, c20.Target = c20.Target, original
        try:
            out = super().apply(e)
        finally:
            c20.Target = saved
        if out[0] != "refused":
            names = [n for _, n in h["ins"]]
            bind = dict(zip([i for i, _ in h["ins"]], e["args"]))
            bind.update({dict((n, i) for i, n in h["ins"])[k]: r for k, r in e["kw"]})
            rec["nodes"] += [self.node(n["id"], n["label"], [remap(r, bind) for r in n["args"]], [[k, remap(r, bind)] for k, r in n["kw"]]) for n in h["nodes"]]
            if e["orig"]:
                self.targets[e["label"], "mod"] = made["m"]
        return out

    def reduce(self, g, e):
        e.update(refused=False, failed=False, rows=[], again=[], log=[], deleg=[[] for _ in e["specs"]], remapped=True)
        def mod(label):
            return self.targets.setdefault((label, "mod"), c20.Target(label, self.log))
        specs, want, fns = [], [], []
        for i, s in enumerate(e["specs"]):
            m = [mod(l) for l in s["mods"]]
            region = {"mod": lambda: m[0], "span": lambda: gm.Span(*m), "group": lambda: gm.Group(tuple(m))}[s["kind"]]()
            fns.append(self.delegate(i, e))
            specs.append(gm.SubgraphSpec(region, fns[-1], flows=[df.InputActivations("any")] * (i % 2)))
            want.append(region)
        try:
            small, new = gm.reduce_resolution(g, specs)
        except REFUSED as ex:
            e["refused"], e["why"] = True, repr(ex)[:200]
            return "right"
        self.regions = [n.region for n in new]
        e["remapped"] = len(new) == len(specs) and all(
            n.fn is s.fn and list(n.flows) == list(s.flows) and list(n.delegate.contexts) == list(s.delegate.contexts) and
            (n.region is s.region if isinstance(s.region, torch.nn.Module) else isinstance(n.region, torch.nn.Module)) for s, n in zip(specs, new))
        args = [[T(v) for v in s] for _, s in e["ins"]]
        self.log.clear()
        try:
            e["rows"] = self.rows(small(*args))
            e["log"] = list(self.log)
            e["again"] = self.rows(g(*args))
        except (*REFUSED, TypeError, RuntimeError) as ex:
            e["failed"], e["why"] = True, repr(ex)[:200]
        return "right"

    def delegate(self, i, e):
        def fn(module, bundle):
            d = dict(same=module is self.regions[i], batches=[], outs=[])
            rows = []
            for args, kw in bundle:
                d["batches"].append([[raw(a) for a in args], [[int(k[1:]) if k[0] == "k" else k, raw(v)] for k, v in sorted(kw.items())]])
                if e["call"]:
                    y = module(*args, **kw)
                    rows.append([] if y is None else [raw(v) for v in y] if type(y) is tuple else [raw(y)])
            d["outs"] = [list(c) for c in zip(*rows)]
            e["deleg"][i].append(d)
        return fn

    def rows(self, y):
        if y is None:
            return []
        batches = [y] if type(y) is not dict else list(next(iter(y.values())))
        return [[raw(v) for v in b] if type(b) is tuple else [raw(b)] for b in batches]


def specs(rng, gen, g):
    leaves = [e for e in gen.ev if e["op"] == "node" and (e["g"] == g or e["id"] in gen.nodes_in.get(g, set())) and e["how"] == "mod"]
    folds = [e for e in gen.ev if e["op"] == "sub" and e["orig"] and (e["g"] == g or e["id"] in gen.folds_in.get(g, set()))]
    lab = lambda pool: rng.choice(pool)["label"]
    res = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        r = rng.random()
        if r < .05:
            res.append(dict(kind="mod", mods=[99]))
        elif r < .3 and folds:
            res.append(dict(kind="mod", mods=[lab(folds)]))
        elif r < .55 and leaves:
            res.append(dict(kind="mod", mods=[lab(leaves)]))
        elif r < .8 and len(leaves) > 1:
            a, b = sorted(rng.sample(range(len(leaves)), 2))
            if rng.random() < .7 and (deep := chain(rng, leaves)):
                res.append(dict(kind="span", mods=deep))
            else:
                res.append(dict(kind="span", mods=[leaves[a]["label"], leaves[b]["label"]]))
        elif leaves:
            k = siblings(rng, leaves) if rng.random() < .8 else [lab(leaves) for _ in range(rng.randint(1, 3))]
            res.append(dict(kind="group", mods=k))
    return res


def chain(rng, leaves):
    by = {e["id"]: e for e in leaves}
    pairs = []
    for e in leaves:
        for r in [*e["args"], *(x for _, x in e["kw"])]:
            b = base(r)
            if b[0] == "node" and b[1] in by:
                pairs.append((by[b[1]], e))
    if not pairs:
        return None
    a, b = rng.choice(pairs)
    for _ in range(2):
        more = [q for p, q in pairs if p is b]
        if more and rng.random() < .6:
            b = rng.choice(more)
    return [a["label"], b["label"]]


def siblings(rng, leaves):
    groups = {}
    for e in leaves:
        groups.setdefault(str(sorted({str(base(r)) for r in [*e["args"], *(x for _, x in e["kw"])] if base(r)[0] == "node"})), []).append(e["label"])
    k = rng.choice(list(groups.values()))
    return sorted(set(rng.sample(k, min(len(k), rng.randint(1, 3)))))


class Gen(c20.Gen):
    def __init__(self, rng):
        super().__init__(rng)
        self.nodes_in, self.folds_in = {}, {}

    def sub(self, g, h):
        super().sub(g, h)
        if self.ev[-1]["op"] == "sub":
            s = self.folds_in.setdefault(g, set())
            s.update(self.folds_in.get(h, set()))
            s.update(e["id"] for e in self.ev if e["op"] == "sub" and e["g"] == h and e["orig"])
            if self.rng.random() < .7:
                self.ev[-1]["orig"] = True

    def ref(self, g, pool, depth=0):  # mostly build on what is there
        if pool and self.rng.random() < .3:
            r = self.rng.choice(pool[-3:])
            return ["node", r] if isinstance(r, int) else r
        return super().ref(g, pool, depth)


def rand_trace(rng, i):
    gen = Gen(rng)
    n = rng.randint(1, 3)
    for g in range(1, n + 1):
        gen.build(g, list(range(1, g)))
    evs = []
    for e in gen.ev:
        if e["op"] == "run" or (e["op"] == "output" and any(base(r)[0] != "node" or base(r)[1] > gen.next for r in e["refs"])):
            continue
        e = {**e, "order": []}
        if e["op"] == "node":
            me = e["id"]
            if any(base(r) == ["node", me] for r in e["args"]):
                continue
            if rng.random() < .85:
                e["label"] = 100 + me
            if rng.random() < .6:
                e["how"] = "mod"
        if e["op"] == "sub":
            e["label"] = 100 + e["id"]
        evs.append(e)
    gen.ev = evs
    evs = list(evs)
    for g in [n, rng.randint(1, n)]:
        for _ in range(rng.randint(1, 3)):
            b = rng.choice([1, 1, 2, 3])
            ins = [[nme, [rng.randrange(1000) for _ in range(b)]] for _, nme in gen.ins[g]]
            evs.append(dict(op="reduce", g=g, specs=specs(rng, gen, g), ins=ins, call=rng.random() < .5))
    return dict(id=f"rand{i}", cfg=dict(graphs=n), events=world.drive(World, dict(graphs=n), evs))


def run(ctx):
    hs = ctx.generate("ReduceMC", f"INIT Init\nNEXT Next\nINVARIANTS Emit Partition Coarse Runs\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE Pairs = {str(ctx.thorough).upper()}\n")
    for h in hs:
        for e in h:
            if e["op"] == "node":
                e["name"] = c20.nodename(e["id"])
    ask = [dict(id=f"gen{i}", cfg=dict(graphs=1), events=world.drive(World, dict(graphs=1), h)) for i, h in enumerate(hs[:: ctx.scale(3, 1)])]
    ctx.validate("ReduceTrace", ask, key=lambda t, i, x: f"gen:{t['events'][i]['op']}:{x if isinstance(x, str) else ''}")
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1500, 9000))]
    red = [e for t in traces for e in t["events"] if e["op"] == "reduce"]
    ctx.notes["reductions"] = dict(total=len(red), accepted=sum(not e["refused"] and not e["failed"] for e in red), with_requests=sum(bool(e["specs"]) and not e["refused"] for e in red),
                                   spans=sum(any(s["kind"] == "span" for s in e["specs"]) and not e["refused"] for e in red),
                                   groups=sum(any(s["kind"] == "group" for s in e["specs"]) and not e["refused"] for e in red))
    ctx.validate("ReduceTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}:{x if isinstance(x, str) else ''}")
