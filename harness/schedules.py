"""Graphs with optimizers, run instruction by instruction on values and modules with (pretended) devices."""
import collections
import contextlib
import dataclasses
import torch
from fastforward._orchestration import graph_module as gm
from fastforward._orchestration import instruction_engine as ie
from harness.graphs import fold, Graphs

DEV = {c: torch.device(c) for c in ("cuda:0", "cpu", "cuda:1")}
MODE = [0]


class FT(torch.Tensor):
    """A tensor that is nothing but a hash on a device."""
    @staticmethod
    def __new__(cls, h, dev, up=(), param=False):
        t = torch.Tensor._make_subclass(cls, torch.zeros(1), False)
        t.h, t.dev, t.up = h, torch.device(dev), tuple(up)
        if param:
            t._is_param = True
        return t

    device = property(lambda self: self.dev)

    def to(self, *args, **kw):
        dev = kw.get("device", args[0] if args else None)
        return FT(self.h, dev if isinstance(dev, (str, torch.device)) else self.dev, self.up)

    def cpu(self):
        return self.to("cpu")

    def cuda(self, device=None):
        return self.to("cuda:0")

    @property
    def data(self):
        return FT(self.h, self.dev, self.up)

    @data.setter
    def data(self, v):
        self.h, self.dev = v.h, v.dev

    def __repr__(self, **kw):
        return f"FT({self.h}, {self.dev})"


class OD(collections.OrderedDict):
    """A mapping like the outputs of huggingface models."""
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


NT = collections.namedtuple("NT", ["a1", "a2"])


@dataclasses.dataclass
class DC:
    a1: object
    a2: object = dataclasses.field(init=False, default=None)


@dataclasses.dataclass(frozen=True)
class DF:
    a1: object
    a2: object


def mk(cls):
    def f(a, b):
        if cls is DC:
            r = DC(a)
            r.a2 = b
            return r
        return cls(a, b)
    return f


# kind -> (keys, inner kinds, constructor)
KINDS = {
    0: None, 1: None,
    2: ((0, 1), (0, 4), lambda a, b: (a, b, None)),
    3: ((0, 1), (6, 0), lambda a, b: [a, b]),
    4: ((10, 11), (0, 6), lambda a, b: {"i1": a, "i2": b, "n": 3}),
    5: ((10, 11), (3, 0), lambda a, b: OD(i1=a, i2=b)),
    6: ((20, 21), (0, 0), mk(NT)),
    7: ((20, 21), (0, 6), mk(DC)),
    8: ((20, 21), (2, 0), mk(DF)),
}
NAME = {0: 0, 1: 1, 10: "i1", 11: "i2", 20: "a1", 21: "a2"}


def kind_of(label):
    return label % 9


def build(h, kind, dev, up=()):
    k = KINDS[kind]
    if k is None:
        return FT(h, dev, up)
    keys, inner, make = k
    return make(*[build(fold(31337, [h, key + 50]), i, dev, (*up, h)) for key, i in zip(keys, inner)])


def leaves(v):
    if isinstance(v, torch.Tensor):
        return [v]
    if isinstance(v, dict):
        return [l for x in v.values() for l in leaves(x)]
    if isinstance(v, (list, tuple)):
        return [l for x in v for l in leaves(x)]
    if dataclasses.is_dataclass(v):
        return [l for f in dataclasses.fields(v) for l in leaves(getattr(v, f.name))]
    return []


def same(v, w):
    if type(v) is not type(w):
        return False
    if isinstance(v, torch.Tensor):
        return v.h == w.h
    if isinstance(v, dict):
        return list(v) == list(w) and all(same(v[k], w[k]) for k in v)
    if isinstance(v, (list, tuple)):
        return len(v) == len(w) and all(map(same, v, w))
    if dataclasses.is_dataclass(v):
        return all(same(getattr(v, f.name), getattr(w, f.name)) for f in dataclasses.fields(v))
    return v == w


def height(v):
    if isinstance(v, torch.Tensor):
        return 0
    first = v[0] if isinstance(v, (list, tuple)) else next(iter(v.values())) if isinstance(v, dict) else getattr(v, "a1")
    return 1 + height(first)


def raw(v):
    """The hash of an intact value of any kind, else -5."""
    if isinstance(v, int):
        return v
    try:
        ls = leaves(v)
        n = height(v)
        path = (*ls[0].up, ls[0].h)
        h = path[len(path) - 1 - n]
        return h if any(same(v, build(h, k, "cpu")) for k in KINDS) else -5
    except Exception:
        return -5


def on(dev, *values):
    return all(l.device == dev for v in values for l in leaves(v))


class Ctx:
    """A context that values depend on."""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old, MODE[0] = MODE[0], self.n

    def __exit__(self, *a):
        MODE[0] = self.old


class Node(torch.nn.Module):
    def __init__(self, label, world, params):
        super().__init__()
        self.label, self._world, self.version = label, [world], 0
        for name, (p, kind) in params.items():
            if kind == "buffer":
                self.register_buffer(name, p)
            elif kind == "scratch":
                self.register_buffer(name, p, persistent=False)
            elif kind == "module":
                self.add_module(name, p)
            else:
                self.register_parameter(name, p)

    def state(self):
        return [*self.parameters(), *self.buffers()]

    def forward(self, *args, **kw):
        return self._world[0].call(self, self.label + 300 * self.version, args, kw, module=True)


def function(label, world):
    def f(*args, **kw):
        return world.call(None, label, args, kw, module=False)
    return f


class Register(ie.ActivationRegister):
    """The register of values, reporting what is done to it."""
    world = None

    def store_all(self, ref, mapping):
        mapping = dict(mapping)
        super().store_all(ref, mapping)
        if self.world is not None:
            self.world.stored(ref, mapping)

    def delete(self, ref, context=None):
        super().delete(ref, context)
        if self.world is not None:
            self.world.deleted(ref)


class World:
    def __init__(self, cfg):
        self.cfg, self.events, self.runs, self.live_at = cfg, [], [], None
        self.n, self.quiet, self.placed = Graphs(), False, True
        self.compute, self.storage = DEV[cfg["compute"]], DEV[cfg["storage"]]
        self.g = gm.GraphModule()
        self.ctx = {0: gm.DEFAULT_CONTEXT, **{i: Ctx(i) for i in (1, 2)}}
        self.modules, self.functions = {}, {}
        shared = FT(5, cfg["devs"][0], param=True)
        for l, style in cfg["styles"]:
            d = lambda i: DEV[cfg["devs"][(l + i) % len(cfg["devs"])]]
            w = lambda i, p=True: FT(l * 10 + i, d(i), param=p)
            inner = next(iter(self.modules.values()), None)
            self.modules[l] = Node(l, self, {
                0: {"weight": (w(0), "param")},
                1: {"weight": (w(0), "param"), "scale": (w(1, False), "buffer")},
                2: {"weight": (shared, "param"), "bias": (w(1), "param")},
                3: {"sub": (Node(-1, self, {"weight": (w(0), "param"), "mask": (w(2, False), "scratch")}), "module"), "bias": (w(1), "param")},
                4: {},
                5: {"scale": (w(1, False), "buffer")},
                6: {"first": (inner or Node(-1, self, {"weight": (w(0), "param")}), "module")},
            }[style])
        for i, name in cfg["g"]["ins"]:
            self.n.inref[i] = self.g.add_input(name)
        for n in cfg["g"]["nodes"]:
            t = self.modules[n["label"]] if n["how"] == "mod" else self.functions.setdefault(n["label"], function(n["label"], self))
            args = [self.ref(r) for r in n["args"]]
            kw = {f"k{k}": self.ref(r) for k, r in n["kw"]}
            r = self.g.add_node(f"n{n['id']}", t, args, kw)
            self.n.local[0, n["id"]] = r
            self.n.num[r.id] = n["id"]
        if cfg["g"]["outs"]:
            self.g.add_output(*[self.ref(r) for r in cfg["g"]["outs"]])
        for d in cfg["deleg"]:
            r = self.n.local[0, d["id"]]
            self.g._nodes[r.id] = dataclasses.replace(self.g._nodes[r.id], delegate=gm.Delegate(self.delegate(d), [self.ctx[c] for c in d["ctx"]]))

    def ref(self, r):
        return gm.Const(r[1]) if r[0] == "const" else self.n.ref(r) if r[0] != "attr" else self.attr(self.ref(r[1]), r[2])

    def attr(self, b, k):
        return getattr(b, NAME[k]) if k >= 20 else b[NAME[k]]

    def code(self, ref):
        return ["const", ref.value] if isinstance(ref, gm.Const) else ["attr", self.code(ref.reference), next(k for k, v in NAME.items() if v == ref.attribute)] \
            if isinstance(ref, gm.AttributeRef) else ["node", self.n.num[ref.id]] if isinstance(ref, gm.NodeRef) else ["in", next(k for k, v in self.n.inref.items() if v == ref)]

    # -- what is observed
    def call(self, m, label, args, kw, module):
        ts = [*args, *kw.values()]
        state = m.state() if m is not None else []
        where = [l.device for v in ts for l in leaves(v)]
        if self.cfg["off"]:
            if module:
                self.placed &= on(self.compute, *ts, *state)
            else:
                self.placed &= len(set(where)) <= 1
        if not self.quiet:
            if not self.runs:
                self.live_at = self.live()
            self.runs.append([MODE[0], [raw(a) for a in args], [[int(k[1:]), raw(v)] for k, v in sorted(kw.items())]])
        s = []
        for k in sorted(kw):
            s += [int(k[1:]), raw(kw[k])]
        base = label % 300
        dev = state[0].device if state else where[0] if where else DEV[("cuda:0", "cpu", "cuda:1")[base % 3]]
        h = fold(fold((label + 3000 * MODE[0]) * 7919 % 999983, [raw(a) for a in args]), s)
        return build(h, kind_of(base), dev)

    def take(self):
        runs, self.runs, live, self.live_at, placed, self.placed = self.runs, [], self.live_at, None, self.placed, True
        return dict(runs=runs, live=live if live is not None else [], placed=placed)

    def live(self):
        refs = {self.key(r): r for r in self.refs}
        return [self.code(r) for r in refs.values() if r in self.register]

    def key(self, r):
        return str(self.code(r))

    def stored(self, ref, mapping):
        self.refs.append(ref)
        ctxs = [next(i for i, c in self.ctx.items() if c is k) for k in mapping]
        if isinstance(ref, gm.Const):
            return
        self.events.append(dict(op="store", ref=self.code(ref), ctxs=ctxs, vals=[[raw(b) for b in d] for d in mapping.values()], **self.take()))

    def deleted(self, ref):
        if not isinstance(ref, gm.Const):
            self.events.append(dict(op="delete", ref=self.code(ref)))

    def delegate(self, d):
        def fn(module, *bundles):
            before = self.take()
            live = self.live()
            n = next(n for n in self.cfg["g"]["nodes"] if n["id"] == d["id"])
            got = [[(a, k) for a, k in b] for b in bundles]
            placed = not self.cfg["off"] or on(self.compute, *module.state(), *[v for b in got for a, k in b for v in (*a, *k.values())])
            if d["call"]:
                self.quiet = True
                for b, c in zip(got, d["ctx"]):
                    with self.ctx[c]:
                        for a, k in b:
                            module(*a, **k)
                self.quiet = False
                placed &= self.take()["placed"]
            if d["bump"]:
                module.version += 1
                for name, p in list(module.named_parameters(recurse=False)):
                    if d["fresh"] and p.h != 5:
                        setattr(module, name, FT(p.h + 1, p.device, param=True))
            self.events.append(dict(op="optimize", id=d["id"], same=module is self.modules[n["label"]], runs=before["runs"], live=live, placed=placed,
                                    bundles=[[[[raw(v) for v in a], [[int(x[1:]), raw(v)] for x, v in sorted(k.items())]] for a, k in b] for b in got]))
        return fn

    # -- running
    def where(self):
        return [[[n, str(p.device)] for n, p in [*m.named_parameters(), *m.named_buffers()]] for m in self.modules.values()]

    def run(self):
        cfg = self.cfg
        homes = self.where()
        program = ie.InstructionScheduler().schedule(self.g)
        passes = []
        if cfg["opt"]:
            passes.append(ie.optimization_only_pass)
        if cfg["life"]:
            passes.append(ie.lifetime_management_pass)
        if cfg["off"]:
            passes.append(ie.OffloadEverything(self.compute, self.storage).create_instruction_pass(self.g))
        ins = {i: s for i, s in cfg["ins"]}
        kinds = {i: k for i, k in cfg["inkinds"]}
        devs = list(DEV.values())
        args = [[build(h, kinds[i], devs[(h + i) % 3]) for h in ins[i]] for i, _ in cfg["g"]["ins"]]
        args = [a[0] if len(a) == 1 and a[0] is not None and not isinstance(a[0], list) else a for a in args]
        rows, failed = [], None
        try:
            program = ie.InstructionPasses.apply(program, passes)
            start = ie.InstructionEngine.prepare_input_register(program.input_refs, tuple(args), {}, program.contexts)
            self.register, self.refs = Register(), list(self.n.inref.values())
            for r in self.refs:
                self.register.store_all(r, dict(start.items_for(r)))
            self.register.world = self
            res = ie.InstructionEngine.run_instructions(program.instructions, self.register)
            self.register.world = None
            if res is not None:
                out = res[gm.DEFAULT_CONTEXT]
                rows = [[raw(v) for v in b] if len(cfg["g"]["outs"]) > 1 else [raw(b)] for b in out]
        except (KeyError, AttributeError, TypeError, ValueError, RuntimeError, IndexError) as ex:
            failed = repr(ex)[:200]
        e = dict(op="end" if failed is None else "error", rows=rows, live=self.live() if failed is None else [], home=not cfg["off"] or self.where() == homes, **({} if failed is None else {"why": failed}))
        t = self.take()
        self.events.append({**e, "runs": t["runs"]})
        for e in self.events:
            e["out"] = "right"
        return self.events


# -- random programs

def paths(kind, ref, depth=0):
    res = [ref]
    if KINDS[kind]:
        for k, i in zip(*KINDS[kind][:2]):
            res += paths(i, ["attr", ref, k], depth + 1)
    return res


def rand_cfg(rng, off):
    nin = rng.choice([1, 1, 2, 3])
    ins = [[90 + i, f"x{i}"] for i in range(nin)]
    inkinds = [[i, rng.choice([0, 0, 1, 2, 4, 5, 6, 7, 8])] for i, _ in ins]
    b = rng.choice([1, 1, 2, 3])
    streams = [[i, [rng.randrange(999983) for _ in range(rng.choice([1, b, b]))]] for i, _ in ins]
    pool = [(r, None) for i, k in inkinds for r in paths(k, ["in", i])]
    nodes, styles = [], {}
    labels = list(range(1, 40))
    rng.shuffle(labels)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    fresh = []
    for i in range(1, n + 1):
        how = "mod" if rng.random() < .75 else "fn"
        old = [x["label"] for x in nodes if x["how"] == how]
        label = rng.choice(old) if old and rng.random() < .25 else labels.pop()
        if how == "fn" and label < 100 and label not in old:
            label += 100

        def pick():
            if rng.random() < .08:
                return ["const", rng.randrange(1000)]
            if fresh and rng.random() < .55:
                return rng.choice(fresh[-8:])
            return rng.choice(pool)[0]
        args = [pick() for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]) if i > 1 else rng.choice([0, 1, 1, 2]))]
        kw = [[k, pick()] for k in sorted(rng.sample(range(1, 5), rng.choice([0, 0, 0, 1, 2])))]
        if args and rng.random() < .15:
            args.append(rng.choice(args))
        if how == "mod":
            real = [r for r in [*args, *(r for _, r in kw)] if r[0] != "const"]
            styles.setdefault(label, None)
            if styles[label] is None or styles[label] == 4:
                styles[label] = rng.choice([0, 0, 1, 2, 3, 4, 5, 6] if real and styles[label] is None else [styles[label] if real else 0])
        nodes.append(dict(id=i, label=label, how=how, outs=[], args=args, kw=kw, parent=0, fold=False))
        fresh += paths(kind_of(label), ["node", i])
    mods = [x["id"] for x in nodes if x["how"] == "mod"]
    deleg = []
    for i in mods:
        if rng.random() < rng.choice([.2, .5, .9]):
            deleg.append(dict(id=i, ctx=rng.choice([[0], [0], [1], [1, 2], [2, 0], [0, 1], [1, 0, 2]]), bump=rng.random() < .8, call=rng.random() < .5, fresh=rng.random() < .5))
    outs = []
    cand = [r for r in fresh]
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        if cand:
            outs.append(rng.choice(cand[-10:] if rng.random() < .7 else cand))
    devs = [rng.choice(["cuda:0", "cpu", "cuda:1", "cpu"]) for _ in range(rng.choice([1, 1, 3]))]
    comp, stor = rng.choice([("cuda:0", "cpu")] * 5 + [("cuda:1", "cuda:0"), ("cpu", "cuda:0"), ("cpu", "cpu")])
    return dict(g=dict(ins=ins, nodes=nodes, outs=outs), ins=streams, inkinds=inkinds, styles=[[l, s] for l, s in styles.items()], devs=devs,
                deleg=deleg, opt=rng.random() < .5, life=rng.random() < .6, off=off, compute=comp, storage=stor)
