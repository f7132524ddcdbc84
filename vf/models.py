"""Random programs over modules (spec/TraceModel.tla) and torch models that run them."""
from __future__ import annotations

import fastforward as ff
import torch
from torch import nn

M = 101


def tensor(v, n=1):
    return torch.full((n,), float(v), dtype=torch.float64)


def param(v):
    return nn.Parameter(torch.tensor(float(v), dtype=torch.float64))


class Leaf(nn.Module):
    def __init__(self, w, b):
        super().__init__()
        self.w, self.b = param(w), param(b)


class Aff(Leaf):
    def forward(self, x):
        return (x * self.w + self.b) % M


class Opt(Leaf):
    def forward(self, x, y=None, k=3):
        return (x * self.w + k) % M if y is None else (x * self.w - y + k + self.b) % M


class Two(Leaf):
    def forward(self, x, y):
        return (x * self.w - y + self.b) % M


class Pair(Leaf):
    def forward(self, x):
        return (x * self.w) % M, (x + self.b) % M


class One(Leaf):
    def forward(self, x):
        return ((x * self.w + self.b) % M,)


class Dict(Leaf):
    def forward(self, x):
        return {"v": (x * self.w) % M, "u": (x - self.b) % M}


class Lst(Leaf):
    def forward(self, xs):
        return (xs[0] * self.w - xs[1] + self.b) % M


class Base(Leaf):
    pass


class Quantized(ff.nn.QuantizedModule, Base):
    """An affine function with a weight that is quantized to multiples of 4."""

    def __init_quantization__(self):
        super().__init_quantization__()
        self.weight_quantizer = ff.nn.QuantizerStub("parameter/weight")

    def forward(self, x):
        y = ff.nn.functional.mul(x, self.weight_quantizer(self.w))
        return (y + self.b) % M


def quantized(w, b):
    m = ff.quantize_model(nn.Sequential(Base(w, b)), extra_conversion={Base: Quantized})[0]
    m.weight_quantizer = ff.nn.LinearQuantizer(8, param_dtype=torch.float64)
    m.weight_quantizer.quantization_range = (-512., 508.)
    return m


KINDS = dict(aff=Aff, opt=Opt, two=Two, pair=Pair, one=One, dict=Dict, lst=Lst)
RESULT = dict(aff="s", opt="s", two="s", pair=("t", ["s", "s"]), one=("t", ["s"]), dict=("d", ["s", "s"], ["v", "u"]), lst="s")
RESULT["quant"] = "s"
BUILD = {**KINDS, "quant": quantized}
SIGN = {"add": "+", "sub": "-", "mul": "*"}


# ---------------------------------------------------------------- structures
def ref(i, p=()):
    return dict(t="v", i=i, p=list(p), k=0, xs=[], ks=[])


def const(k):
    return dict(t="c", i=0, p=[], k=k, xs=[], ks=[])


NONE = dict(t="n", i=0, p=[], k=0, xs=[], ks=[])


def struct(t, xs, ks=()):
    return dict(t=t, i=0, p=[], k=0, xs=list(xs), ks=list(ks))


def source(o, types):
    """Python source of a structure; types: type of each variable (1-based)."""
    if o["t"] == "v":
        s, t = f"v{o['i']}", types[o["i"]]
        for p in o["p"]:
            s += f"[{t[2][p - 1]!r}]" if t[0] == "d" else f"[{p - 1}]"
            t = t[1][p - 1]
        return s
    if o["t"] == "c":
        return repr(o["k"])
    if o["t"] == "n":
        return "None"
    xs = [source(x, types) for x in o["xs"]]
    if o["t"] == "t":
        return "(" + "".join(x + ", " for x in xs) + ")"
    if o["t"] == "l":
        return "[" + ", ".join(xs) + "]"
    return "{" + ", ".join(f"{k!r}: {x}" for k, x in zip(o["ks"], xs)) + "}"


def type_of(o, types):
    if o["t"] == "v":
        t = types[o["i"]]
        for p in o["p"]:
            t = t[1][p - 1]
        return t
    if o["t"] in "cn":
        return {"c": "k", "n": "n"}[o["t"]]
    return (o["t"], [type_of(x, types) for x in o["xs"]], o["ks"])


def elements(t, p=()):
    if isinstance(t, str):
        return [(p, t)]
    return [e for i, x in enumerate(t[1]) for e in elements(x, (*p, i + 1))]


class Gen:
    """Random program; every tensor that is computed is used."""

    def __init__(self, rng, *, reads=True, reuse=.25, mixed=0., sizes=True, depth=2, leaves=(2, 4), modes=False, extra=()):
        if reads and sizes:  # parameters are not repeated, i.e. they have no size
            reads = rng.random() < .5
            sizes = not reads
        self.modes, self.extra = modes, extra
        self.rng, self.reads, self.reuse, self.mixed_p, self.sizes = rng, reads, reuse, mixed, sizes
        self.mods, self.conv, self.mixed, self.names, self.types = [], {}, False, {}, {}
        self.comp([("s")] * rng.choice([1, 1, 1, 2, 3]), depth, leaves, root=True)

    def new(self, d):
        self.mods.append(d)
        return len(self.mods)

    def comp(self, ins, depth, leaves, root=False):
        rng = self.rng
        d = dict(k="comp", n=len(ins), kids=[], stmts=[], out=NONE, tr=1)
        me = self.new(d)
        types = {i + 1: t for i, t in enumerate(ins)}
        unused = [(i, p) for i, t in types.items() for p, e in elements(t) if e == "s"] if not root or rng.random() < .7 else []
        self.own = None

        def scalars():
            return [(i, p) for i, t in types.items() for p, e in elements(t) if e == "s"]

        def pick():
            c = unused if unused and rng.random() < .75 else scalars()
            x = rng.choice(c)
            if x in unused:
                unused.remove(x)
            return ref(*x)

        def arg(t):
            if t == "s":
                return pick()
            if t == "k":
                ks = [(i, p) for i, tt in types.items() for p, e in elements(tt) if e == "k"]
                return ref(*rng.choice(ks)) if ks and rng.random() < .4 else const(rng.randint(0, 9))
            if t == "n":
                return NONE
            return struct(t[0], [arg(x) for x in t[1]], t[2])

        steps = rng.randint(*leaves)
        for _ in range(steps):
            r = rng.random()
            i = d["n"] + len(d["stmts"]) + 1
            if r < .72 or not d["stmts"]:
                own = [m for m in d["kids"] if m != me]
                shared = [m for m in self.conv if m not in d["kids"] and m in self.types]
                x = rng.random()
                if own and x < self.reuse:
                    m = rng.choice(own)
                elif shared and x < self.reuse + .08:
                    m = rng.choice(shared)
                elif depth > 0 and rng.random() < .4:
                    m = None
                else:
                    k = rng.choice([*KINDS, "aff", "aff", "aff", "opt", *self.extra])
                    m = self.new(dict(k=k, n=0, kids=[], stmts=[], out=NONE))
                if m is None:
                    n_in = rng.choice([1, 1, 2, 2, 3])
                    ins2 = [rng.choice(["s", "s", "s", "s", "k", ("l", ["s", "s"], []), ("d", ["s", "s"], ["q", "a"])]) if j else "s" for j in range(n_in)]
                    rng.shuffle(ins2)
                    m = self.comp(ins2, depth - 1, (1, 3))
                if m not in d["kids"]:
                    d["kids"].append(m)
                if m not in self.conv or (self.mixed_p and rng.random() < self.mixed_p):
                    c = self.convention(m)
                    self.mixed |= m in self.conv and self.conv[m] != c
                    self.conv[m] = c
                pos, kw = self.conv[m]
                s = dict(op="call", m=d["kids"].index(m) + 1, args=[arg(t) for t in pos], kw=[dict(name=a, val=arg(t)) for a, t in kw])
                t = self.types[m]
            elif r < .80 and self.reads and any(self.mods[m - 1]["k"] != "comp" for m in d["kids"]):
                m = rng.choice([j + 1 for j, m in enumerate(d["kids"]) if self.mods[m - 1]["k"] != "comp"])
                s, t = dict(op=rng.choice("wb"), m=m, args=[], kw=[]), "s"
            elif r < .83 and self.modes:
                s, t = dict(op="mode", m=0, args=[pick()], kw=[]), "s"
            elif r < .86 and self.sizes:
                s, t = dict(op="size", m=0, args=[pick()], kw=[]), "s"
            else:
                other = arg("k") if rng.random() < .4 else pick()
                s, t = dict(op=rng.choice(list(SIGN)), m=0, args=[pick(), other], kw=[]), "s"
            d["stmts"].append(s)
            types[i] = t
            unused += [(i, p) for p, e in elements(t) if e == "s"]
        # everything that is not used yet is returned
        rest = [ref(*u) for u in unused] or [ref(*rng.choice(scalars()))]
        if rng.random() < .2:
            rest.append(ref(*rng.choice(scalars())))
        if rng.random() < .15:
            rest.append(rng.choice([NONE, const(rng.randint(0, 9))]))
        rng.shuffle(rest)
        if len(rest) == 1 and rng.random() < .8:
            d["out"] = rest[0]
        else:
            if len(rest) > 2 and rng.random() < .4:
                rest = [struct(rng.choice("tl"), rest[:2]), *rest[2:]]
            k = rng.choice("tttld")
            d["out"] = struct(k, rest, rng.sample("zyxabc", len(rest)) if k == "d" and len(rest) <= 6 else [])
            if k == "d" and not d["out"]["ks"]:
                d["out"]["t"] = "t"
        self.types[me] = type_of(d["out"], types)
        d_types = types
        self.names[me] = (list(ins), d_types)
        return me

    def convention(self, m):
        """How a module is called: types of positional arguments, and of keyword arguments."""
        rng, k = self.rng, self.mods[m - 1]["k"]
        self.types.setdefault(m, RESULT.get(k))
        if k == "comp":
            ps = [(f"p{i}", t) for i, t in enumerate(self.names[m][0])]
        elif k == "opt":
            ps = [("x", "s")] + rng.choice([[], [("y", "s")], [("y", "n")], [("y", "s"), ("k", "k")], [("k", "k")], [("y", "n"), ("k", "k")]])
        elif k == "two":
            ps = [("x", "s"), ("y", "s")]
        elif k == "lst":
            ps = [("xs", (rng.choice("lt"), ["s", "s"], []))]
        else:
            ps = [("x", "s")]
        gap = k == "opt" and [p[0] for p in ps] == ["x", "k"]
        npos = rng.choice([len(ps), len(ps), rng.randint(0, len(ps))])
        if gap:
            npos = min(npos, 1)
        kw = ps[npos:]
        rng.shuffle(kw)
        return [t for _, t in ps[:npos]], kw

    def source(self, m):
        return forward_source(self.mods[m - 1], self.names[m][1])

    def cfg(self):
        return dict(mods=self.mods, w=[[0, 0] if d["k"] == "comp" else [self.rng.randint(1, 9), self.rng.randint(0, 9)] for d in self.mods])

    def calls(self, start=1):
        """Number of calls of each module in one run (of module `start`)."""
        n = [0] * (len(self.mods) + 1)

        def go(m):
            n[m] += 1
            d = self.mods[m - 1]
            for s in d["stmts"]:
                if s["op"] == "call":
                    go(d["kids"][s["m"] - 1])
        go(start)
        return n


def forward_source(d, types):
    """Python source of the forward of a module; types: type of each variable (1-based)."""
    src = f"def forward(self{''.join(f', p{i}' for i in range(d['n']))}):\n"
    src += "".join(f"    v{i + 1} = p{i}\n" for i in range(d["n"]))
    for j, s in enumerate(d["stmts"]):
        a = [source(x, types) for x in s["args"]]
        if s["op"] == "call":
            a += [f"{q['name']}={source(q['val'], types)}" for q in s["kw"]]
            e = f"self.k{s['m']}({', '.join(a)})"
        elif s["op"] in "wb":
            e = f"self.k{s['m']}.{s['op']} * 1"
        elif s["op"] == "mode":
            e = f"({a[0]} + int(self.training)) % {M}"
        elif s["op"] == "size":
            e = f"({a[0]} * {a[0]}.shape[0]) % {M}"
        else:
            e = f"({a[0]} {SIGN[s['op']]} {a[1]}) % {M}"
        src += f"    v{d['n'] + j + 1} = {e}\n"
    return src + f"    return {source(d['out'], types)}\n"


def plain_types(mods, m):
    """Types of the variables of a module that is given numbers only."""
    d = mods[m - 1]
    types = {i + 1: "s" for i in range(d["n"])}
    for j, s in enumerate(d["stmts"]):
        k = d["kids"][s["m"] - 1] if s["op"] == "call" else 0
        kd = mods[k - 1] if k else None
        types[d["n"] + j + 1] = "s" if not k else type_of(kd["out"], plain_types(mods, k)) if kd["k"] == "comp" else RESULT[kd["k"]]
    return types


def plain_source(mods, m):
    return forward_source(mods[m - 1], plain_types(mods, m))


def build(mods, sources, w, name=lambda m, j: f"k{j}"):
    """The torch model of a program: list of modules, the first is the model."""
    objs = []
    for i, d in enumerate(mods):
        if d["k"] == "comp":
            ns = {}
            exec(sources[i], ns)
            objs.append(type(f"Comp{i + 1}", (nn.Module,), {"forward": ns["forward"]})())
        else:
            objs.append(BUILD[d["k"]](*w[i]))
    for d, o in zip(mods, objs):
        for j, m in enumerate(d["kids"]):
            setattr(o, f"k{j + 1}", objs[m - 1])
    return objs


def view(x):
    """A value as the specification shows it."""
    if isinstance(x, torch.Tensor):
        vs = set(x.detach().flatten().tolist())
        v = vs.pop() if len(vs) == 1 else None
        return ["s", int(v)] if v is not None and v == int(v) else ["s", repr(x)]
    if x is None:
        return ["n"]
    if isinstance(x, (tuple, list)):
        return ["t" if isinstance(x, tuple) else "l", [], [view(v) for v in x]]
    if isinstance(x, dict):
        return ["d", list(x), [view(v) for v in x.values()]]
    return ["k", x]
