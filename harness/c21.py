"""C21: analyses of graphs agree with their edges (spec/Queries.tla)."""
import re
import uuid
from fastforward._orchestration import data_flow as df
from fastforward._orchestration import graph_module as gm
from fastforward._orchestration.scheduler import bind_flows
from harness import c20
from harness.graphs import T, TD, KEYNAME, raw
from vf import world

REFUSED = (ValueError, KeyError)
FLOWS = {"in": df.InputActivations, "out": df.OutputActivations}


class World(c20.World):
    def apply(self, e):
        f = getattr(self, "ask_" + e["op"], None)
        return f(self.g[e["g"] - 1], e) if f else super().apply(e)

    def nref(self, g, i):
        return self.n.ref(["node", i], g)

    def ask_topo(self, g, e):
        try:
            e["order"] = [self.n.num[r.id] for r in gm.topological_sort(g, {self.nref(e["g"], i) for i in e["of"]})]
        except REFUSED:
            e["order"] = [0]
        return "right"

    def ask_ancestors(self, g, e):
        try:
            nodes, reached = gm.ancestors(g, self.nref(e["g"], e["node"]), stop=self.nref(e["g"], e["stop"]) if e["stop"] else None, strict=e["strict"])
        except REFUSED:
            return ["refused"]
        return [sorted(self.n.num[r.id] for r in nodes), reached]

    def ask_cycle(self, g, e):
        refs = {i: gm.NodeRef(uuid.uuid4(), f"n{i}") for i, _ in e["edges"]}
        num = {r: i for i, r in refs.items()}
        c = gm.find_cycle({refs[i]: {refs[j] for j in s} for i, s in e["edges"]})
        e["cycle"] = [num[r] for r in c] if c is not None else []
        return "right"

    def meaning(self, g, e, name):
        m = re.match(r"([^\[]*)((?:\[[^\]]*\])*)$", name)
        base = {}
        for i, r in self.n.inref.items():
            if g._inputs.get(m[1]) == r:
                base = ["in", i]
        for i, u in self.n.uu.items():
            try:
                if g.node(gm.NodeRef(u, "")).name == m[1]:
                    base = ["node", i]
            except KeyError:
                pass
        if not base:  # a name the node or input has in another graph
            k = re.search(r"n(\d+)$", m[1])
            base = ["node", int(k[1])] if k else ["in", 0]
        codes = {v: k for k, v in KEYNAME.items()}
        for k in re.findall(r"\[([^\]]*)\]", m[2]):
            base = ["attr", base, codes[k] if k in codes else int(k)]
        return base

    def ask_extract(self, g, e):
        e.update(sub=[0], ins=[], feed=[], got=[], err=False)
        try:
            h = gm.create_subgraph(g, {self.nref(e["g"], i) for i in e["of"]})
        except REFUSED:
            return "right"
        ids = [i for i, u in self.n.uu.items() if any(u == x.id for x in self.refs(h))]
        e["sub"] = sorted(ids)
        names = list(h.input_names)
        e["ins"] = [self.meaning(g, e, n) for n in names] if e["named"] else [["const", 0]] * len(names)
        e["feed"] = [[100 * k + b for b in range(e["batches"])] for k, _ in enumerate(names)]
        try:
            y = h(**{n: [T(v) for v in s] for n, s in zip(names, e["feed"])})
        except REFUSED:
            e["err"] = True
            return "right"
        if y is not None:
            batches = [y] if not isinstance(y, dict) or isinstance(y, TD) else list(next(iter(y.values())))
            rows = [[raw(v) for v in b] if type(b) is tuple else [raw(b)] for b in batches]
            e["got"] = [list(c) for c in zip(*rows)]
        return "right"

    def refs(self, h):
        for u in self.n.uu.values():
            try:
                h.node(gm.NodeRef(u, ""))
            except KeyError:
                continue
            yield gm.NodeRef(u, "")

    def ask_bind(self, g, e):
        e.update(plans=[], refused=False)
        flows = [FLOWS[k](gen, cache=bool(c)) for k, gen, c in e["flows"]]
        try:
            plans = bind_flows(g, self.nref(e["g"], e["node"]), flows)
        except REFUSED:
            e["refused"] = True
            return "right"
        for p in plans:
            kind = "in" if isinstance(p.flow, df.InputActivations) else "out"
            e["plans"].append([[kind, p.generator.key, int(p.cache)], [self.n.num[r.id] for r in p.nodes], [self.n.code(r) for r in p.reads],
                               [[int(k[1:]) if re.match(r'k\d$', k) else k, self.n.code(r)] for k, r in sorted(p.read_kwargs.items())]])
        return "right"


def queries(rng, gen, g, n, collide):
    leaves = list({e["id"] for e in gen.ev if e["op"] == "node" and e["g"] == g} | gen.nodes_in.get(g, set()))
    folds = [e["id"] for e in gen.ev if e["op"] == "sub" and e["g"] == g and e["orig"]]
    every = leaves + folds
    if not every:
        return []
    some = lambda pool: sorted(rng.sample(pool, rng.randint(1, len(pool))))
    res = []
    for _ in range(n):
        r = rng.random()
        if r < .2:
            res.append(dict(op="topo", g=g, of=some(leaves if rng.random() < .9 and leaves else every)))
        elif r < .45:
            res.append(dict(op="ancestors", g=g, node=rng.choice(every), stop=rng.choice(leaves or [0]) if rng.random() < .8 else 0, strict=rng.random() < .6))
        elif r < .75 and leaves:
            res.append(dict(op="extract", g=g, of=some(leaves), batches=rng.choice([1, 2]), named=not collide))
        else:
            res.append(dict(op="bind", g=g, node=rng.choice(every), flows=[[rng.choice(["in", "out"]), rng.choice(["original", "quantized", "any"]), rng.choice([0, 1])] for _ in range(rng.randint(1, 3))]))
    return res


def cycle_query(rng):
    n = rng.randint(1, 7)
    p = rng.choice([.1, .2, .35])
    dag = rng.random() < .5
    perm = rng.sample(range(1, n + 1), n)
    edges = [[perm[i], [perm[j] for j in range(n) if (j > i if dag else True) and rng.random() < p]] for i in range(n)]
    rng.shuffle(edges)
    return dict(op="cycle", g=1, edges=edges)


def rand_trace(rng, i, collide=False):
    gen = c20.Gen(rng)
    gen.nodes_in = {}
    n = rng.randint(1, 3)
    for g in range(1, n + 1):
        gen.build(g, list(range(1, g)))
    ev = [e for e in gen.ev if e["op"] != "run" and (rng.random() < .5 or not any(r[0] == "node" and r[1] == e.get("id") for r in e.get("args", []) if e["op"] == "node"))]
    evs = [{**e, "order": []} for e in ev]
    for g in range(1, n + 1):
        evs += queries(rng, gen, g, rng.randint(2, 6), collide)
    evs += [cycle_query(rng) for _ in range(2)]
    if collide:
        ids = [e["id"] for e in evs if e["op"] == "node"]
        ren = {}
        for e in evs:
            if e["op"] == "input" and ids:  # an input named like a node
                ren.setdefault((e["g"], e["name"]), c20.nodename(rng.choice(ids)))
        used = {}
        for k, v in list(ren.items()):
            if v in used.setdefault(k[0], set()):
                ren[k] = k[1]
            used[k[0]].add(v)
        for e in evs:
            if e["op"] == "input":
                e["name"] = ren.get((e["g"], e["name"]), e["name"])
            elif e["op"] == "sub":
                for kv in e["kw"]:
                    kv[0] = ren.get((e["h"], kv[0]), kv[0])
    return dict(id=f"{'collide' if collide else 'rand'}{i}", cfg=dict(graphs=n), events=world.drive(World, dict(graphs=n), evs))


def run(ctx):
    hs = ctx.generate("QueriesMC", "INIT Init\nNEXT Next\nINVARIANTS Emit Acyc Cyc Anc Paths Extracts\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE\n")
    ask = [dict(id=f"gen{i}", cfg=dict(graphs=1), events=world.drive(World, dict(graphs=1), h)) for i, h in enumerate(hs[:: ctx.scale(3, 1)])]
    ctx.validate("QueriesTrace", ask, key=lambda t, i, x: f"gen:{t['events'][i]['op']}:{x if isinstance(x, str) else ''}")
    traces = [rand_trace(ctx.rng, i, i % 8 == 0) for i in range(ctx.scale(1000, 12000))]
    for t in traces:  # too many inputs to try all correspondences
        t["events"] = [e for e in t["events"] if not (e["op"] == "extract" and not e["named"] and len(e.get("ins", [])) > 4)]
    ctx.validate("QueriesTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}:{x if isinstance(x, str) else ''}")
