"""C29: the life of quantizers (spec/Lifecycle.tla)."""
import copy
import io
import logging
import pickle

import torch
import yaml
import fastforward as ff
from fastforward.nn.dynamic_linear_quantizer import DynamicLinearQuantizer
from vf import world

logging.getLogger("fastforward").setLevel(logging.CRITICAL)
D, OU = 1024, 840
GRAN = {"t": ff.PerTensor(), "c": ff.PerChannel(0)}
DT = {"float32": torch.float32, "float64": torch.float64}
STATIC = {"sym": dict(symmetric=True, allow_one_sided=False), "one": dict(symmetric=True, allow_one_sided=True), "asym": dict(symmetric=False)}


class Sub(ff.nn.LinearQuantizer):
    """A user's quantizer."""

    def __init__(self, num_bits, note="n", **kw):
        super().__init__(num_bits, **kw)
        self.note = note


def make(e):
    k = e["kind"]
    if k == "stub":
        return ff.nn.QuantizerStub("activation/output", shape=(e["bits"],))
    kw = dict(granularity=GRAN[e["gran"]])
    if k in STATIC:
        cls = Sub if e.get("sub") else ff.nn.LinearQuantizer
        return cls(e["bits"], param_dtype=DT[e["dtype"]], **STATIC[k], **kw)
    return DynamicLinearQuantizer(e["bits"], **STATIC[k[3:]], **kw)


def ints(t, unit):
    """A tensor of whole units, as integers (and whatever it is otherwise)."""
    v = t.detach().double().flatten() * unit
    if not bool(torch.isfinite(v).all()) or float(v.abs().max()) > 2**30:
        return ["strange"]
    r = v.round()
    return r.long().tolist() if torch.allclose(v, r, rtol=1e-5, atol=1e-3) else ["fraction"]


def lazy(t):
    return torch.nn.parameter.is_lazy(t)


class World:
    def __init__(self, cfg):
        self.qs, self.meta = [], []

    def view1(self, q, m):
        r = dict(kind=m["kind"], bits=m["bits"], gran=m["gran"], dtype=m["dtype"], scale=[], offset=[], grad=True)
        if m["kind"] == "stub":
            assert isinstance(q, ff.nn.QuantizerStub) and q.is_stub() and not list(q.parameters())
            r["bits"] = q.quant_metadata.shape[0] if getattr(q, "quant_metadata", None) else m["bits"]
            return r
        r["bits"] = q.num_bits
        r["gran"] = next((k for k, g in GRAN.items() if q.granularity == g), "?") if (q.per_tensor, q.per_channel) in ((True, False), (False, True)) else "??"
        kind = m["kind"].removeprefix("dyn")
        if q.symmetric != STATIC[kind]["symmetric"] or (q.symmetric and q.allow_one_sided != STATIC[kind]["allow_one_sided"]):
            r["kind"] = "changed"
        if m["kind"] in STATIC:
            if (q.offset is None) != (kind == "sym") or (kind != "sym" and isinstance(q.offset, torch.nn.Parameter) != (kind == "asym")):
                r["kind"] = "changed offset"
            if set(dict(q.named_parameters())) != ({"scale", "offset"} if kind == "asym" else {"scale"}):
                r["kind"] = "changed parameters"
            if m["sub"] and (type(q) is not Sub or q.note != "n"):
                r["kind"] = "changed class"
            ps = [q.scale] + ([q.offset] if kind == "asym" else [])
            r["grad"] = all(p.requires_grad for p in ps)
            if r["grad"] != any(p.requires_grad for p in ps):
                r["grad"] = "mixed"
            ts = [q.scale] + ([q.offset] if q.offset is not None else [])
            if any(str(t.dtype)[6:] != r["dtype"] for t in ts):
                r["dtype"] = ",".join(str(t.dtype)[6:] for t in ts)
            if not lazy(q.scale):
                r["scale"] = ints(q.scale, D) if q.scale.dim() == 1 else ["shape"]
            if q.offset is not None and not lazy(q.offset):
                r["offset"] = ints(q.offset, OU) if q.offset.dim() == 1 else ["shape"]
            if q.has_uninitialized_params != any(lazy(t) for t in ts):
                r["kind"] = "wrong about initialization"
        return r

    def view(self):
        return [[*self.view1(q, m).values()] for q, m in zip(self.qs, self.meta)]

    def apply(self, e):
        try:
            res = self.run(e)
        except Exception as ex:
            if isinstance(ex, AssertionError):
                raise
            res = ["refused"]
        return [res, self.view()]

    def add(self, q, m):
        self.qs.append(q)
        self.meta.append(dict(m))

    def run(self, e):
        op = e["op"]
        q = self.qs[e["q"] - 1] if "q" in e else None
        if op == "new":
            self.add(make(e), dict(kind=e["kind"], bits=e["bits"], gran=e["gran"], dtype=e["dtype"], sub=e.get("sub", False)))
        elif op == "range":
            lo, hi = ([v / D for v in e[k]] for k in ("lo", "hi"))
            form = e["form"]
            if form == "float" and len(lo) == len(hi) == 1:
                q.quantization_range = (lo[0], hi[0])
            elif form in ("tensor", "float"):
                q.quantization_range = (torch.tensor(lo), torch.tensor(hi))
            elif form == "single":
                q.quantization_range = lo[0]
            elif form == "triple":
                q.quantization_range = (lo[0], hi[0], hi[0])
            elif form == "column":
                q.quantization_range = (torch.tensor(lo)[:, None], torch.tensor(hi)[:, None])
            elif form == "none":
                q.quantization_range = (lo[0], None)
        elif op == "getrange":
            lo, hi = q.quantization_range
            if lo is None and hi is None:
                return ["range", []]
            b = [(t.detach().double().flatten() * D * OU).round() for t in (lo, hi)]
            return ["range", torch.stack(b, 1).long().tolist() if max(t.abs().max() for t in b) < 2**30 else [["strange"] * 2]]
        elif op == "reset":
            q.reset_parameters()
        elif op == "bits":
            q.num_bits = e["bits"]
        elif op == "gran":
            q.granularity = GRAN[e["gran"]]
        elif op == "train":
            with torch.no_grad():
                q.scale.mul_(e["k"])
        elif op == "freeze":
            q.requires_grad_(e["grad"])
        elif op == "copy":
            qs = [self.qs[i - 1] for i in e["qs"]]
            box = torch.nn.ModuleList([*qs, qs[0]])
            how = e["how"]
            if how == "deepcopy":
                box = copy.deepcopy(box)
            elif how == "twice":
                box = copy.deepcopy(copy.deepcopy(box))
            elif how == "one":
                box = [*(copy.deepcopy(x) for x in qs)]
                box.append(box[0])
            elif how == "pickle":
                box = pickle.loads(pickle.dumps(box, protocol=2 + len(qs) % 4))
            else:
                b = io.BytesIO()
                torch.save(box, b)
                b.seek(0)
                box = torch.load(b, weights_only=False)
            same = box[-1] is box[0] and not any(x is y for x in box for y in self.qs)
            for x, i in zip(list(box)[:-1], e["qs"]):
                self.add(x, self.meta[i - 1])
            return ["same", e["qs"]] if same else ["identity lost"]
        elif op == "overridden":  # is not stored
            h = q.register_override(lambda ctx, fn, args, kwargs: fn(*args, **kwargs))
            try:
                box = torch.nn.ModuleList([q]) if e["box"] else q
                {"pickle": pickle.dumps, "save": lambda x: torch.save(x, io.BytesIO()),
                 "yaml": lambda x: yaml.dump(q)}[e["how"]](box)
            finally:
                h.remove()
        elif op == "yaml":
            self.add(yaml.load(yaml.dump(q), Loader=yaml.Loader), self.meta[e["q"] - 1])
        elif op == "load":
            src = self.qs[e["src"] - 1].state_dict(keep_vars=True)
            prefix = e.get("prefix", "")
            sd = {k: src[k] for k in e["keys"] if k in src}
            if prefix:
                torch.nn.ModuleDict({prefix: q}).load_state_dict({f"{prefix}.{k}": v for k, v in sd.items()}, strict=e["strict"])
            else:
                q.load_state_dict(sd, strict=e["strict"])
        elif op == "quantize":
            x = torch.tensor(e["x"], dtype=torch.float32) / D
            y = q(x)
            if y is x:
                return ["identity"]
            codes = y.int_repr() if hasattr(y, "int_repr") else y.raw_data
            back = q(y.dequantize())
            if self.meta[e["q"] - 1]["kind"] in STATIC and not torch.equal(back.dequantize(), y.dequantize()):
                return ["unstable"]
            return ["codes", codes.long().tolist()]
        return ["ok"]


BITS = [2, 2, 3, 4, 4]


def rand_range(rng, kind, n):
    m = rng.choice([1, 1, n, n, 2, 3])
    lo, hi = [], []
    for _ in range(m):
        a = rng.choice([0, 0, 1, 1, 2, 4, -1])
        b = rng.randint(max(1, 1 - a), 4)
        lo.append(-840 * a)
        hi.append(840 * b)
    if rng.random() < .1:
        lo = [min(lo)]
    if rng.random() < .05:
        hi = [max(hi), max(hi), max(hi)]
    return lo, hi


def rand_x(rng, dyn):
    w = rng.randint(2, 4)
    x = [[rng.choice([0, 840 * rng.randint(-4, 4), rng.randint(-4000, 4000)]) for _ in range(w)] for _ in range(2)]
    if dyn:  # extremes of every row at whole units; the range of the tensor is that of one of the rows or their union
        for r in x:
            a, b = rng.randint(0, 4), rng.randint(1, 4)
            r[:] = [max(-840 * a, min(840 * b, v)) for v in r]
            i, j = rng.sample(range(w), 2)
            r[i], r[j] = -840 * a, 840 * b
    return x


def rand_events(rng, n):
    kinds, dts, evs = [], [], []
    while len(evs) < n:
        r = rng.random()
        k = len(kinds)
        if k == 0 or (r < .12 and k < 8):
            kind = rng.choice(["sym", "one", "asym", "sym", "one", "asym", "stub", "dynsym", "dynone", "dynasym"])
            dt = rng.choice(["float32", "float32", "float64"]) if kind in STATIC else "float32"
            evs.append(dict(op="new", kind=kind, bits=rng.choice(BITS), gran=rng.choice("ttc"), dtype=dt, sub=kind in STATIC and rng.random() < .3))
            kinds.append(kind)
            dts.append(dt)
            continue
        q = rng.randint(1, k)
        kind = kinds[q - 1]
        static = kind in STATIC
        if r < .4 and static:
            lo, hi = rand_range(rng, kind, rng.choice([1, 2]))
            evs.append(dict(op="range", q=q, lo=lo, hi=hi, form=rng.choice(["tensor"] * 6 + ["float", "float", "single", "triple", "column", "none"])))
        elif r < .45 and static:
            evs.append(dict(op="getrange", q=q))
        elif r < .49:
            evs.append(dict(op="reset", q=q))
        elif r < .53 and kind != "stub":
            evs.append(dict(op="bits", q=q, bits=rng.choice(BITS)))
        elif r < .56 and kind != "stub":
            evs.append(dict(op="gran", q=q, gran=rng.choice("tc")))
        elif r < .59 and static:
            evs.append(dict(op="train", q=q, k=rng.choice([1, 2, 3])))
        elif r < .62 and static:
            evs.append(dict(op="freeze", q=q, grad=rng.random() < .5))
        elif r < .74 and k < 8:
            qs = rng.sample(range(1, k + 1), rng.randint(1, min(2, k)))
            how = rng.choice(["deepcopy", "deepcopy", "twice", "one", "pickle", "save"])
            if any(dts[i - 1] != "float32" for i in qs) and how in ("pickle", "save"):
                how = "deepcopy"  # torch does not pickle the type of an uninitialized parameter
            evs.append(dict(op="copy", qs=qs, how=how))
            for i in qs:
                kinds.append(kinds[i - 1])
                dts.append(dts[i - 1])
        elif r < .755:
            how = rng.choice(["pickle", "save", "yaml"])
            evs.append(dict(op="overridden", q=q, how=how, box=rng.random() < .5))
        elif r < .78 and k < 8:
            evs.append(dict(op="yaml", q=q))
            kinds.append(kind)
            dts.append(dts[q - 1])
        elif r < .87 and static:
            src = [i for i in range(1, k + 1) if kinds[i - 1] in STATIC]
            evs.append(dict(op="load", q=q, src=rng.choice(src), keys=rng.choice([["scale", "offset"]] * 3 + [["scale"], ["offset"], []]), strict=rng.random() < .6, prefix=rng.choice(["", "", "a", "scale"])))
            if rng.random() < .35:  # possibly only a part of the parameters was loaded
                lo, hi = rand_range(rng, kind, rng.choice([1, 2]))
                evs.append(dict(op="range", q=q, lo=lo, hi=hi, form="tensor"))
        else:
            evs.append(dict(op="quantize", q=q, x=rand_x(rng, not static)))
    return evs


class Guard(World):
    """Loads only from initialized parameters; trains only initialized quantizers."""

    def apply(self, e):
        if e["op"] == "load":
            s = self.qs[e["src"] - 1]
            e["keys"] = [k for k in e["keys"] if getattr(s, k) is None or not lazy(getattr(s, k))]
        elif e["op"] in ("train", "freeze") and self.qs[e["q"] - 1].has_uninitialized_params:
            e["op"] = "getrange"
        return super().apply(e)


def drive(cfg, evs):
    w, res = Guard(cfg), []
    for e in evs:
        e = dict(e)
        try:
            out = w.apply(e)
        except Exception as ex:
            out = world.errname(ex)
        if e["op"] == "getrange":
            e["got"] = out[0][1] if out[0][0] == "range" else []
        res.append({**e, "out": out})
    return res


def run(ctx):
    ctx.model_check("LifecycleMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(4, 5)} Gen = FALSE\n", workers=8)
    hs = ctx.generate("LifecycleMC", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 4 Gen = TRUE\n", workers=8)
    rng = ctx.rng
    rng.shuffle(hs)
    world.replay(ctx, World, {}, hs[: ctx.scale(4000, 20000)], lambda e, got, exp: f"replay:{e['op']}")
    traces = [dict(id=f"rand{i}", cfg=dict(none=0), events=drive({}, rand_events(rng, rng.randint(4, 24)))) for i in range(ctx.scale(3000, 25000))]
    evs = [e for t in traces for e in t["events"]]
    ctx.notes["events"] = {op: [sum(e["op"] == op for e in evs), sum(e["op"] == op and e["out"][0] == ["refused"] for e in evs)] for op in sorted({e["op"] for e in evs})}
    ctx.validate("LifecycleTrace", traces, key=lambda t, i, x: f"{t['events'][i]['op']}:{x[0][0]}")
