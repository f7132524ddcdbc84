"""C11: converting models to quantized form (spec/Convert.tla)."""
import contextlib, copy, itertools, sys, types
import torch
import fastforward as ff
from fastforward.exceptions import QuantizationError
from fastforward.nn.quantized_module import SKIP_QUANTIZATION, filter_quantized_module_map, quantized_module_map
from vf import world
from vf.world import errname

PK = {}
for _n in ("m1", "m1.sub", "m1x"):
    PK[_n] = types.ModuleType("vf_" + _n)
    sys.modules["vf_" + _n] = PK[_n]


class Node(torch.nn.Module):
    """Computes w * x + sum of its children."""

    def __init__(self, w):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.tensor(float(w)))
        self.register_buffer("buf", torch.tensor(1.0 + w))

    def forward(self, x):
        y = self.weight * x + self.buf
        for name, c in self.named_children():
            if name.startswith("kid"):
                y = y + c(x)
        return y


class A(Node): pass
class B(Node): pass
class C(Node): pass
class D(Node): pass


P = torch.nn.Module  # a plain module; never called


class Z(ff.nn.Quantizer):
    def quantize(self, data):
        return data * 2


def qclass(name, bases, stubs, mod, registered):
    def init(self):
        super(cls, self).__init_quantization__()
        for s in stubs:
            setattr(self, s, ff.nn.QuantizerStub(**{"input_quantizer" if s[0] == "i" else "output_quantizer": True}))
    ns = dict(__init_quantization__=init, __module__="vf_" + mod)
    cls = type(ff.nn.QuantizedModule)(name, bases, ns, include_in_module_map=registered)
    return cls


Q = ff.nn.QuantizedModule
QA = qclass("QA", (Q, A), ["in_q", "out_q"], "m1", True)
QA2 = qclass("QA2", (Q, A), ["in_q"], "m1", False)
QB1 = qclass("QB1", (B, Q), ["w_q"], "m1", True)
QB2 = qclass("QB2", (Q, B), ["w_q", "out_q"], "m1x", True)
QC = qclass("QC", (Q, C), [], "m1", False)
QD = qclass("QD", (D, Q), ["d_q"], "m1.sub", True)
QP = qclass("QP", (Q,), ["in_q"], "m1", False)
QQA = qclass("QQA", (QA,), ["more_q"], "m1", False)
CLS = dict(A=A, B=B, C=C, D=D, P=P, Z=Z, QA=QA, QA2=QA2, QB1=QB1, QB2=QB2, QC=QC, QD=QD, QP=QP, QQA=QQA)
NAME = {v: k for k, v in CLS.items()}
PKG = dict(m1="m1", m1x="m1x", sub="m1.sub")


def snapshot(m):
    kids = {n: c for n, c in m.named_children()}
    return dict(params=[(n, id(p)) for n, p in m.named_parameters(recurse=False)], bufs=[(n, id(p)) for n, p in m.named_buffers(recurse=False)],
                mode=m.training, hooks=[list(m._forward_hooks), list(m._forward_pre_hooks), list(m._backward_hooks)], attr=getattr(m, "extra_attr", None),
                kids=[(n, id(c)) for n, c in kids.items()])


class World:
    def __init__(self, cfg):
        self.stack = contextlib.ExitStack()
        self.cms = []
        self.mods = []
        for i, t in enumerate(cfg["types"]):
            c = CLS[t]
            m = c() if t in ("P", "Z") else c.__mro__[[k in (A, B, C, D) for k in c.__mro__].index(True)](i + 1) if t not in ("QP",) else QP()
            if t[0] == "Q" and t != "QP":  # built unquantized, then given its class, as the library does
                m.__class__ = c
                m.__init_quantization__()
                for n, k in list(m.named_children()):
                    delattr(m, n)
            elif t == "QP":
                del m.in_q
            self.mods.append(m)
        for i, ks in enumerate(cfg["kids"]):
            for j, k in enumerate(ks):
                torch.nn.Module.__setattr__(self.mods[i], f"kid{j}", self.mods[k - 1])
        for i, m in enumerate(self.mods):
            m.extra_attr = [i]
            if i % 2:
                m.eval()
            m.register_forward_hook(lambda mod, a, o: o)
            m.register_forward_pre_hook(lambda mod, a: None)
        self.n0 = [len(list(m.children())) for m in self.mods]
        self.callable = not any(t in ("P", "QP") for t in cfg["types"])
        self.y0 = self.value()

    def value(self):
        if not self.callable:
            return None
        with torch.no_grad(), ff.strict_quantization(False):
            return float(self.mods[0](torch.tensor(3.0)))

    def close(self):
        while self.cms:
            self.cms.pop().__exit__(None, None, None)

    def extra(self, e):
        d = {}
        for k, v in e["extra"]:
            d[CLS[k]] = SKIP_QUANTIZATION if v == "skip" else CLS[v]
        return d if e["extra"] or e.get("empty") else None

    def apply(self, e):
        op = e["op"]
        if op == "filter":
            cm = filter_quantized_module_map(*[PK[PKG[m]] for m in e["mods"]])
            cm.__enter__()
            self.cms.append(cm)
            return ["ok"]
        if op == "unfilter":
            cm = self.cms.pop()
            if e.get("raises"):
                with contextlib.suppress(KeyError):
                    cm.__exit__(KeyError, KeyError("x"), None)
            else:
                cm.__exit__(None, None, None)
            return ["ok"]
        if op == "map":
            g = quantized_module_map()
            return [NAME[g[CLS[b]]] if CLS[b] in g else "none" for b in "ABD"]
        root = self.mods[e["root"] - 1]
        extra = self.extra(e)
        given = dict(extra) if extra is not None else None
        if op == "surrogates":
            r = ff.surrogate_quantized_modules(root, extra_conversion=extra, ignore_global_module_map=e["ignore"])
            for k, v in r.items():
                if not (issubclass(v, k) and issubclass(v, Q) and v not in quantized_module_map().values()):
                    return ["bad surrogate", str(k)]
            # with the surrogates conversion always succeeds; tried on a copy
            full = {**(extra or {}), **r}
            try:
                ff.quantize_model(copy.deepcopy(root), extra_conversion=full, skip_quantized_modules=True, ignore_global_module_map=e["ignore"])
            except QuantizationError:
                return ["surrogates incomplete"]
            return sorted((NAME[k] for k in r), key=["A", "B", "C", "D", "P"].index)
        before = [snapshot(m) for m in self.mods]
        try:
            r = ff.quantize_model(root, recursive=e["recursive"], extra_conversion=extra, skip_quantized_modules=e["skipq"], ignore_global_module_map=e["ignore"])
            res = "ok" if r is root else "other module returned"
        except QuantizationError:
            res = "error"
        if extra != given:
            return ["extra_conversion modified"]
        after = [snapshot(m) for m in self.mods]
        for i, (a, b) in enumerate(zip(before, after)):
            ka, kb = dict(a.pop("kids")), dict(b.pop("kids"))
            if a != b:
                return ["not preserved", i, repr(a), repr(b)]
            new = {n: k for n, k in kb.items() if ka.get(n) != k}
            if any(n not in kb for n in ka) or any(n.startswith("kid") for n in new):
                return ["submodule lost", i]
            for n in new:
                q = getattr(self.mods[i], n)
                if type(q) is not ff.nn.QuantizerStub or q.quant_metadata is None:
                    return ["not a stub", i, n]
        if self.y0 is not None and self.value() != self.y0:
            return ["function changed", self.y0, self.value()]
        return [res, [NAME.get(type(m), type(m).__name__) for m in self.mods], [len(list(m.children())) - n for m, n in zip(self.mods, self.n0)]]


EXTRAS = [["C", "QC"], ["C", "skip"], ["P", "QP"], ["P", "skip"], ["A", "QA2"], ["A", "skip"], ["QA", "QQA"], ["QA", "skip"], ["QB2", "QB1"], ["QC", "skip"], ["D", "skip"], ["B", "QB1"], ["QQA", "skip"], ["QD", "skip"], ["QB2", "skip"], ["QA2", "skip"], ["QP", "skip"], ["QB1", "skip"]]


def rand_trace(rng, i):
    n = rng.randint(2, 7)
    ts = [rng.choice(["A", "A", "B", "B", "D", "C", "QA", "P", "Z"][: rng.choice([5, 6, 9])]) for _ in range(n)]
    if ts[0] == "Z":
        ts[0] = "A"
    kids = [[] for _ in range(n)]
    for j in range(1, n):
        ps = [p for p in range(j) if ts[p] != "Z"]
        for p in rng.sample(ps, min(len(ps), rng.choice([1, 1, 1, 2]))):
            for _ in range(rng.choice([1, 1, 1, 2])):
                kids[p].append(j + 1)
    for k in kids:
        rng.shuffle(k)
    evs, nf = [], 0
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        root = 1 if rng.random() < .6 else rng.choice([i + 1 for i in range(n) if ts[i] != "Z"])
        full = rng.random() < .5
        extra = list({k[0]: k for k in rng.sample(EXTRAS, rng.randint(0, 5))}.values()) if not full else [["C", "QC"], ["P", rng.choice(["QP", "skip"])]]
        ignore = rng.random() < .3
        if ignore and rng.random() < .7:
            full = [["A", rng.choice(["QA", "QA2", "skip"])], ["B", rng.choice(["QB1", "QB2"])], ["D", "QD"], ["C", "QC"], ["P", rng.choice(["QP", "skip"])]]
            extra = rng.sample(full, rng.choice([4, 5, 5, 5]))
        if r < .65:
            evs.append(dict(op="convert", root=root, recursive=rng.random() < .75, extra=extra, skipq=rng.random() < .5, ignore=ignore, empty=rng.random() < .5))
        elif r < .75:
            evs.append(dict(op="surrogates", root=root, extra=extra, ignore=ignore))
        elif r < .85 or not nf:
            evs.append(dict(op="filter", mods=rng.sample(["m1", "m1x", "sub"], rng.randint(0, 2)))); nf += 1
        elif r < .93:
            evs.append(dict(op="unfilter", raises=rng.random() < .5)); nf -= 1
        if rng.random() < .3:
            evs.append(dict(op="map"))
    cfg = dict(types=ts, kids=kids)
    return dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs))


def builtin_models(rng):
    T = torch.nn
    r = rng.choice
    yield "Linear", T.Linear(3, 4, bias=r([True, False])), torch.randn(2, 3)
    yield "Conv1d", T.Conv1d(4, 4, r([1, 2, 3]), stride=r([1, 2]), padding=r([0, 1, "valid"]), dilation=r([1, 2]), groups=r([1, 2]), bias=r([True, False])), torch.randn(2, 4, 9)
    yield "Conv2d", T.Conv2d(4, 4, r([1, (2, 3)]), stride=r([1, (2, 1)]), padding=r([0, (1, 0)]), dilation=r([1, 2]), groups=r([1, 2, 4]), bias=r([True, False])), torch.randn(1, 4, 7, 8)
    yield "Embedding", T.Embedding(6, 3, padding_idx=r([None, 2])), torch.randint(0, 6, (2, 4))
    yield "LayerNorm", T.LayerNorm(r([(3,), (2, 3)]), eps=r([1e-5, .5]), elementwise_affine=r([True, False]), bias=r([True, True, False])), torch.randn(4, 2, 3)
    yield "ReLU", T.ReLU(inplace=r([True, False])), torch.randn(5)
    yield "SiLU", T.SiLU(), torch.randn(5)
    shared = T.ReLU()
    yield "Sequential", T.Sequential(T.Linear(3, 3), shared, T.Sequential(T.LayerNorm(3), shared), T.Linear(3, 2, bias=False)), torch.randn(2, 3)


class Dicts(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.d = torch.nn.ModuleDict(dict(a=torch.nn.Linear(2, 2), b=torch.nn.ReLU()))
        self.l = torch.nn.ModuleList([torch.nn.Linear(2, 2), torch.nn.ReLU()])
        self.pl = torch.nn.ParameterList([torch.ones(2), torch.zeros(2)])
        self.pd = torch.nn.ParameterDict(dict(x=torch.ones(2)))

    def forward(self, x):
        for m in list(self.l) + list(self.d.values()):
            x = m(x)
        return x + self.pl[0] - self.pd["x"] * 3 + self.pl[1] + len(self.d) + len(self.pl)


class QDicts(ff.nn.QuantizedModule, Dicts):
    pass


def builtins(ctx):
    for k in range(ctx.scale(25, 150)):
        torch.manual_seed(ctx.rng.randrange(10**6))
        models = list(builtin_models(ctx.rng)) + [("Dicts", Dicts(), torch.randn(3, 2))]
        for name, m, x in models:
            ref = copy.deepcopy(m)
            if k % 3 == 0:
                m.eval()
            sd = {n: (id(v)) for n, v in itertools.chain(m.named_parameters(), m.named_buffers())}
            names = [n for n, _ in m.named_modules(remove_duplicate=False)]
            got = []
            try:
                if k % 2 and name in ("Linear", "Conv1d", "Conv2d", "Embedding", "LayerNorm", "ReLU", "SiLU"):
                    # converted as part of a container
                    wrapped = torch.nn.ModuleList([m])
                    ff.quantize_model(wrapped)
                else:
                    ff.quantize_model(m)
                with ff.strict_quantization(False), torch.no_grad():
                    a, b = m(x.clone()), ref(x.clone())
                got.append(bool(torch.equal(a, b)))
                got.append({n: id(v) for n, v in itertools.chain(m.named_parameters(), m.named_buffers())} == sd)
                got.append([n for n, c in m.named_modules(remove_duplicate=False) if not isinstance(c, ff.nn.Quantizer)] == names)
                got.append(all(type(c) is ff.nn.QuantizerStub for c in m.modules() if isinstance(c, ff.nn.Quantizer)))
                got.append(all(isinstance(c, Q) for c in m.modules() if not isinstance(c, ff.nn.Quantizer)))
                got.append(m.training == (k % 3 != 0))
                # an independently constructed quantized module behaves like a converted one
                got.append(sorted(n for n, c in type(m).__mro__[0].__call__ and m.named_children() if isinstance(c, ff.nn.Quantizer)) == sorted(set(dict(m.named_children())) - set(dict(ref.named_children()))))
            except Exception as e:
                got = errname(e) + [str(e)[:200]]
            ctx.compare(got, [True] * 7, f"builtin:{name}", [name, k, repr(ref)])


def registration(ctx):
    """Counterparts become known when their class is defined, and the newest wins."""
    class E(torch.nn.Module): pass
    got = []
    try:
        ff.quantize_model(E())
    except QuantizationError:
        got.append("unknown")
    class QE(Q, E): pass
    got.append(type(ff.quantize_model(E())) is QE)
    class QE2(Q, E): pass
    got.append(type(ff.quantize_model(E())) is QE2)
    class QE3(Q, E, include_in_module_map=False): pass
    got.append(type(ff.quantize_model(E())) is QE2)
    class QE4(QE): pass
    got.append(type(ff.quantize_model(E())) is QE4)
    class F(E): pass  # subclasses are not converted by their parent's counterpart
    try:
        ff.quantize_model(F())
    except QuantizationError:
        got.append("unknown")
    class G(torch.nn.Module): pass
    class QEG(Q, E, G): pass  # several counterparts: up to the user
    class QEG2(QEG): pass
    got += [type(ff.quantize_model(E())) is QE4, G in quantized_module_map()]
    class QE5(QE):  # quantizing children during initialization
        def __init_quantization__(self):
            super().__init_quantization__()
            self.quantize_children()
    e = E()
    e.kid0 = E()
    e.kid0.kid1 = torch.nn.ReLU()
    ff.quantize_model(e)
    got += [type(e) is QE5, type(e.kid0) is QE5, isinstance(e.kid0.kid1, ff.nn.QuantizedRelu)]
    ctx.compare(got, ["unknown", True, True, True, True, "unknown", True, False, True, True, True], "registration", "class definitions")


def run(ctx):
    out = ctx.generate("ConvertMC", f"INIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 1 Gen = TRUE Wide = {str(ctx.thorough).upper()}\n", workers=8)
    for cfg, h in out:
        world.replay(ctx, World, cfg, [h], lambda e, g, x: f"gen:{e['op']}")
    ctx.notes["exhaustive_conversions"] = len(out)
    if ctx.thorough:
        ctx.model_check("ConvertMC", "INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 3 Gen = FALSE Wide = FALSE\n", workers=8)
    else:
        ctx.model_check("ConvertMC", "INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 2 Gen = FALSE Wide = FALSE\n", workers=8)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1500, 12000))]
    ctx.validate("ConvertTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
    builtins(ctx)
    registration(ctx)
