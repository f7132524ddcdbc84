"""Real graphs for the specification Graph.tla: opaque values, labelled targets, references."""
import dataclasses
import uuid
import torch
from fastforward._orchestration import graph_module as gm

MOD = 999983


def fold(acc, s):
    for x in s:
        acc = (acc * 1009 + x + 7) % MOD
    return acc


class T:
    """Opaque value: a hash, with elements and attributes."""
    __iter__ = None

    def __init__(self, h):
        self.h = h

    def __getitem__(self, k):
        if isinstance(k, int) and not isinstance(k, bool):
            return T(fold(31337, [self.h, k + 50]))
        if k in ("i1", "i2"):
            return T(fold(31337, [self.h, {"i1": 10, "i2": 11}[k] + 50]))
        raise KeyError(k) if self.h % 3 == 0 else TypeError(k) if self.h % 3 == 1 else IndexError(k)

    def __getattr__(self, k):
        if k in ("a1", "a2"):
            return T(fold(31337, [self.h, {"a1": 20, "a2": 21}[k] + 50]))
        raise AttributeError(k)

    def __repr__(self):
        return f"T({self.h})"


KEYS = [0, 1, 2, -1, 10, 11, 20, 21]
KEYNAME = {10: "i1", 11: "i2", 20: "a1", 21: "a2"}


class TL(list):
    """The same as a list whose plain contents mean nothing."""
    def __init__(self, h):
        super().__init__([1, 2])
        self.h = h

    __getitem__, __getattr__, __repr__ = T.__getitem__, T.__getattr__, T.__repr__


class TD(dict):
    def __init__(self, h):
        super().__init__(x=1)
        self.h = h

    __getitem__, __getattr__, __repr__ = T.__getitem__, T.__getattr__, T.__repr__


class TT(tuple):
    def __new__(cls, h):
        self = super().__new__(cls, (1,))
        self.h = h
        return self

    __getitem__, __getattr__, __repr__ = T.__getitem__, T.__getattr__, T.__repr__


KINDS = [T, TL, TD, TT, T, T]


def raw(v):
    return v.h if isinstance(v, (T, TL, TD, TT)) else -5


def apply(label, args, kw):
    s = []
    for k in sorted(kw):
        s += [int(k[1:]), raw(kw[k])]
    return KINDS[label % 6](fold(fold(label * 7919 % MOD, [raw(a) for a in args]), s))


class Target(torch.nn.Module):
    def __init__(self, label, log):
        super().__init__()
        self.label, self._log = label, log

    def forward(self, *args, **kw):
        self._log.append(self.label)
        return apply(self.label, args, kw)


def function(label, log):
    def f(*args, **kw):
        log.append(label)
        return apply(label, args, kw)
    return f


class Graphs:
    """References and nodes by number."""
    def __init__(self):
        self.uu, self.num, self.inref = {}, {}, {}
        self.local = {}  # (graph, node) -> the reference an operation returned

    def uid(self, i):
        if i not in self.uu:
            self.uu[i] = uuid.uuid4()
            self.num[self.uu[i]] = i
        return self.uu[i]

    def ref(self, r, g=0):
        if r[0] == "in":
            return self.inref[r[1]]
        if r[0] == "node":
            if (g, r[1]) in self.local:
                return self.local[g, r[1]]
            return gm.NodeRef(self.uid(r[1]), ["n{}", "blk.n{}", "blk.sub.n{}"][r[1] % 3].format(r[1]))
        if r[0] == "const":
            return gm.Const(T(r[1]))
        b = self.ref(r[1], g)
        k = r[2]
        return b[k] if k < 10 else (b[KEYNAME[k]] if k % 2 else getattr(b, KEYNAME[k]))

    def code(self, ref):
        if isinstance(ref, gm.AttributeRef):
            k = ref.attribute
            return ["attr", self.code(ref.reference), k if isinstance(k, int) else {v: n for n, v in KEYNAME.items()}[k]]
        if isinstance(ref, gm.NodeRef):
            return ["node", self.num[ref.id]]
        if isinstance(ref, gm.Const):
            return ["const", raw(ref.value)]
        if isinstance(ref, gm.InputRef):
            return ["in", next((k for k, r in self.inref.items() if r == ref), 0)]
        return ["?"]
