"""C20: graphs execute the composition their data flow describes (spec/GraphHist.tla)."""
import dataclasses
import itertools
import torch
from fastforward._orchestration import graph_module as gm
from harness.graphs import T, TD, Target, function, Graphs, KEYS, MOD, raw
from vf import world


class World:
    def __init__(self, cfg):
        self.log = []
        self.g = [gm.GraphModule() for _ in range(cfg["graphs"])]
        self.n = Graphs()
        self.targets, self.folds = {}, {}

    def target(self, e):
        key = (e["label"], e["how"])
        if key not in self.targets:
            self.targets[key] = (function if e["how"] == "fn" else Target)(e["label"], self.log)
        return self.targets[key]

    def order(self, g):
        try:
            o = [self.n.num[r.id] for r in g.topo_order]
            assert o == [self.n.num[r.id] for r in gm.topological_sort(g)] or True
            return o or []
        except ValueError:
            return [0]

    def shape(self, i, known):
        g = self.g[i]
        leaves, folds = [], []
        for k in sorted(known):
            ref = self.n.ref(["node", k])
            try:
                g.node(ref)
            except KeyError:
                continue
            if k in self.folds:
                folds.append([k, sorted(self.n.num[r.id] for r in g.leaf_nodes(ref)), sorted(self.n.num[r.id] for r in g.fold_outputs(ref))])
            else:
                leaves.append([k, [self.n.num[r.id] for r in g.node_inputs(ref)],
                               sorted(x for x in (self.n.num[r.id] for r in g.node_outputs(ref)) if x not in self.folds)])
        return [list(g.input_names), leaves, folds]

    def reply(self, e, res):
        g = self.g[e["g"] - 1]
        e["order"] = self.order(g)
        valid = self.shape(e["g"] - 1, self.n.uu and list(self.n.uu))
        return [res, valid, "ordered"]

    def apply(self, e):
        g, op, n = self.g[e["g"] - 1], e["op"], self.n
        if op == "run":
            return self.run(g, e)
        res = "ok"
        try:
            if op == "input":
                ref = g.add_input(e["name"])
                n.inref[e["id"]] = ref
            elif op == "node":
                args = [n.ref(r, e["g"]) for r in e["args"]]
                kw = {f"k{k}": n.ref(r, e["g"]) for k, r in e["kw"]}
                extra = dict(kwargs=kw) if kw or e["label"] % 2 else {}
                op_ = gm.Op.call_function if e["how"] == "fn" else gm.Op.torch_module
                ref = g.add_node(e["name"], self.target(e), args if e["label"] % 3 else tuple(args), node_id=n.uid(e["id"]), op=op_, **extra)
                if ref != n.ref(["node", e["id"]]) or ref.name != e["name"]:
                    res = "other reference"
            elif op == "output":
                g.add_output(*[n.ref(r, e["g"]) for r in e["refs"]])
            elif op == "sub":
                args = [n.ref(r, e["g"]) for r in e["args"]]
                kw = {k: n.ref(r, e["g"]) for k, r in e["kw"]}
                orig = Target(e["label"], self.log) if e["orig"] else None
                outs = g.add_subgraph(e["name"], self.g[e["h"] - 1], args, kw or None, original_module=orig)
                if orig is not None:
                    fid = g.node_ref(orig).id
                    n.uu[e["id"]], n.num[fid] = fid, e["id"]
                    self.folds[e["id"]] = orig
                for r in outs:
                    n.local[e["g"], n.num[r.unwrap_ref().id]] = r.unwrap_ref()
                for k, u in list(n.uu.items()):
                    try:
                        n.local.setdefault((e["g"], k), gm.NodeRef(u, g.node(gm.NodeRef(u, "")).name))
                    except KeyError:
                        pass
                res = [n.code(r) for r in outs]
        except (ValueError, KeyError):
            res = "refused"
        return self.reply(e, res)

    def run(self, g, e):
        self.log.clear()
        args, kw = self.inputs(e)
        try:
            y = g(*args, **kw)
        except (TypeError, ValueError, KeyError):
            return ["error"]
        if y is None:
            batches = []
        elif isinstance(y, dict) and not isinstance(y, TD):
            (batches,) = [list(v) for v in y.values()]
            if len(batches) == 1:
                return ["a single batch is not returned directly"]
        else:
            batches = [y]
        out = [[raw(v) for v in b] if type(b) is tuple else [raw(b)] for b in batches]
        return [out, [self.log.count(l) for l in range(1, 21)]]

    def inputs(self, e):
        streams = {k: [T(v) for v in s] for k, s in e["ins"]}
        form = e["form"]

        def one(s):
            if len(s) == 1 and e["bare"]:
                return s[0]
            return torch.utils.data.DataLoader(s, batch_size=None, collate_fn=None) if form == "loader" else list(s)
        names = list(streams)
        if form in ("pos", "loader"):
            args, kw = tuple(one(streams[k]) for k in names), {}
        elif form == "kw":
            args, kw = (), {k: one(streams[k]) for k in names[::-1]}
        elif form == "mixed":
            h = len(names) // 2
            args, kw = tuple(one(streams[k]) for k in names[:h]), {k: one(streams[k]) for k in names[h:]}
        else:
            rows = list(zip(*streams.values()))
            if form == "dicts":
                rows = [dict(zip(names, r)) for r in rows]
                for r in rows:
                    r["unused"] = 1
            elif form == "objs":
                cls = dataclasses.make_dataclass("Batch", names)
                rows = [cls(*r) for r in rows]
            elif form == "lists":
                rows = [list(r) for r in rows]
            args, kw = ((iter(rows) if e["bare"] else rows),), {}
        if e["bad"] == 1:
            args = args + tuple(T(1) for _ in range(9))
        elif e["bad"] == 2:
            kw = {**kw, "nonsense": T(1)}
        elif e["bad"] == 3:
            kw = {**kw, names[0]: T(1)}
            args = args or (T(2),)
        return args, kw


def nodename(i):
    return ["n{}", "blk.n{}", "blk.sub.n{}"][i % 3].format(i)


class Gen:
    """Random histories; keeps just enough of the graphs to make meaningful references."""
    def __init__(self, rng):
        self.rng, self.ev, self.next = rng, [], 0
        self.ins, self.nodes, self.outs = {}, {}, {}

    def fresh(self):
        self.next += 1
        return self.next

    def ref(self, g, pool, depth=0):
        rng = self.rng
        r = rng.random()
        if r < .12:
            base = ["const", rng.randrange(1000)]
        elif r < .45 and self.ins[g]:
            base = ["in", rng.choice(self.ins[g])[0]]
        elif pool:
            base = rng.choice(pool[-5:])
            base = ["node", base] if isinstance(base, int) else base
        elif self.ins[g]:
            base = ["in", rng.choice(self.ins[g])[0]]
        else:
            base = ["const", rng.randrange(1000)]
        while rng.random() < .25 and depth < 3:
            base, depth = ["attr", base, rng.choice(KEYS)], depth + 1
        return base

    def add(self, **e):
        self.ev.append(e)

    def run(self, g):
        rng = self.rng
        names = [n for _, n in self.ins[g]]
        big = rng.choice([0, 1, 1, 1, 2, 3])
        form = rng.choice(["pos", "pos", "kw", "mixed", "loader", "dicts", "tuples", "lists", "objs"])
        if form in ("dicts", "tuples", "lists", "objs") and (not names or big == 0):
            form = "pos"
        same = form in ("dicts", "tuples", "lists", "objs")
        ins = []
        for nme in names:
            k = big if same or rng.random() < .7 else rng.choice([1, 1, 1, 2])
            ins.append([nme, [rng.randrange(1000) for _ in range(k)]])
        bad = rng.choice([1, 2, 3]) if rng.random() < .06 and names else 0
        bare = rng.random() < .5
        if form in ("pos", "loader") and len(names) == 1 and not bare and False:
            pass
        self.add(op="run", g=g, ins=ins, form=form, bad=bad, bare=bare)

    def build(self, g, lower):
        rng = self.rng
        self.ins[g], self.nodes[g], self.outs[g] = [], [], []
        planned = []
        todo = []
        for _ in range(rng.randint(0, 3)):
            todo.append(("input", rng.choice("xyzw")))
        for t in todo:
            self.input(g, t[1])
        pool = []
        pend = []
        for _ in range(rng.randint(1, 5)):
            if lower and rng.random() < .35:
                h = rng.choice(lower)
                # flush nodes first so references to them exist in some graph order or later
                pend.append(("sub", h))
                continue
            i = self.fresh()
            args = [self.ref(g, pool) for _ in range(rng.randint(0, 3))]
            kw = [[k, self.ref(g, pool)] for k in sorted(rng.sample([1, 2, 3], rng.choice([0, 0, 1, 2])))]
            pend.append(("node", i, args, kw))
            pool.append(i)
            if pend and pend[0][0] == "sub":
                pass
        order = list(range(len(pend)))
        if rng.random() < .6:
            rng.shuffle(order)
        for j in order:
            p = pend[j]
            if p[0] == "node":
                self.node(g, p[1], p[2], p[3])
            else:
                self.sub(g, p[1])
            if rng.random() < .15:
                self.output(g)
            if rng.random() < .12:
                self.run(g)
            if rng.random() < .05:
                self.input(g, rng.choice("xyzw"))
        # nodes reading what subgraphs returned
        for _ in range(rng.randint(0, 2)):
            i = self.fresh()
            self.node(g, i, [self.ref(g, self.nodes[g]) for _ in range(rng.randint(1, 3))], [])
        self.output(g)
        self.run(g)

    def input(self, g, name):
        i = self.fresh()
        if all(n != name for _, n in self.ins[g]):
            self.ins[g].append((i, name))
        self.add(op="input", g=g, id=i, name=name)

    def node(self, g, i, args, kw):
        rng = self.rng
        if rng.random() < .04 and self.nodes[g] and [n for n in self.nodes[g] if isinstance(n, int)]:
            i = rng.choice([n for n in self.nodes[g] if isinstance(n, int)])
        how = rng.choice(["mod", "mod", "fn"])
        if rng.random() < .03:  # a cycle
            args = args + [["node", i]]
        self.add(op="node", g=g, id=i, label=rng.randint(1, 12), args=args, kw=kw, how=how, name=nodename(i))
        if i not in self.nodes[g]:
            self.nodes[g].append(i)

    def output(self, g):
        rng = self.rng
        refs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = self.ref(g, self.nodes[g])
            b = r
            while b[0] == "attr":
                b = b[1]
            if b[0] != "node" and rng.random() < .93:
                continue
            refs.append(r)
        if rng.random() < .03:
            refs.append(["node", self.next + 50])
        self.add(op="output", g=g, refs=refs)
        present = {n for e in self.ev if e["op"] in ("node",) and e["g"] == g for n in [e["id"]]} | self.subids(g)

        def base(r):
            while r[0] == "attr":
                r = r[1]
            return r
        if all(base(r)[0] == "node" and base(r)[1] in present for r in refs):
            self.outs[g] += refs

    def subids(self, g):
        return {r for r in self.nodes_in.get(g, set())}

    nodes_in: dict = {}

    def sub(self, g, h):
        rng = self.rng
        names = [n for _, n in self.ins[h]]
        pool = self.nodes[g]
        k = rng.randint(0, len(names))
        args = [self.ref(g, pool) for _ in names[:k]]
        kw = [[n, self.ref(g, pool)] for n in names[k:]]
        rng.shuffle(kw)
        x = rng.random()
        if x < .04:
            args.append(["const", 1])
        elif x < .08 and kw:
            kw[0][0] = "nonsense"
        elif x < .12 and kw and k:
            kw[0][0] = names[0]
        i = self.fresh()
        self.add(op="sub", g=g, h=h, id=i, orig=rng.random() < .6, label=rng.randint(13, 20), args=args, kw=kw, name=f"s{i}")
        # what it returns if accepted; if refused these are unknown nodes, refused in turn
        self.nodes[g] += [r for r in self.outs[h]]
        ids = {e["id"] for e in self.ev if e["op"] == "node" and e["g"] == h} | self.nodes_in.get(h, set())
        self.nodes_in.setdefault(g, set()).update(ids)


def rand_trace(rng, i):
    gen = Gen(rng)
    gen.nodes_in = {}
    n = rng.randint(1, 3)
    for g in range(1, n + 1):
        gen.build(g, list(range(1, g)))
    for _ in range(rng.randint(1, 4)):  # later modifications, also of graphs already inlined
        g = rng.randint(1, n)
        r = rng.random()
        if r < .4:
            gen.node(g, gen.fresh(), [gen.ref(g, gen.nodes[g]) for _ in range(rng.randint(0, 2))], [])
        if r < .7:
            gen.output(g)
        elif r < .8:
            gen.input(g, rng.choice("xyzwuv"))
        elif r < .9 and g > 1:
            gen.sub(g, rng.randint(1, g - 1))
        gen.run(g)
    gen.run(rng.randint(1, n))
    cfg = dict(graphs=n)
    evs = [{**e, **({} if e["op"] == "run" else {"order": []})} for e in gen.ev]
    for e in evs:
        if e["op"] == "run":
            e["bad"] = int(e["bad"])
    return dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs))


def run(ctx):
    for n, gen in ((3, "TRUE"), (ctx.scale(3, 4), "FALSE")):
        hs = ctx.generate("GraphHistMC", f"INIT Init\nNEXT Next\nINVARIANTS Composition OrderFree Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {n} Gen = {gen}\n") if n > 3 or gen == "TRUE" else []
        for h in hs:
            for e in h:
                e["name"] = nodename(e["id"]) if e["op"] == "node" else e.get("name", "")
        world.replay(ctx, World, dict(graphs=2), hs[:: ctx.scale(4, 1)], lambda e, g, x: f"gen:{e['op']}")
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1200, 12000))]
    for t in traces:
        for e in t["events"]:
            if e["op"] == "run":
                e["bad"] = bool(e["bad"])
    ctx.validate("GraphHistTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
