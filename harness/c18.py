"""C18: fusing and freezing weight quantizers (spec/Fuse.tla)."""
import torch
import fastforward as ff
from fastforward.quantization import find_weight_quantizers, freeze_parameters, fuse_qdq_weights, stub_weight_quantizers
from fastforward.quantization.fuse import ConventionDiscovery
from vf import world
from vf.world import drive

SLOTS = ("input", "weight", "bias", "output")


class Minus(ff.nn.Quantizer):
    def quantize(self, data):
        return data - 1


class ScaledLinear(torch.nn.Linear):
    pass


class QuantizedScaledLinear(ff.nn.QuantizedModule, ScaledLinear):
    """Quantizes what is computed from its weight."""

    def __init_quantization__(self):
        super().__init_quantization__()
        for s in SLOTS:
            setattr(self, "scaled" if s == "weight" else f"{s}_quantizer", ff.nn.QuantizerStub(*(["parameter/bias"] if s == "bias" else [])))

    def forward(self, x):
        x = self.input_quantizer(x)
        y = x.dequantize() * self.scaled(2 * self.weight).dequantize().flatten() + self.bias_quantizer(self.bias).dequantize()
        return self.output_quantizer(y)


class Chain(torch.nn.Module):
    def __init__(self, layers):
        super().__init__()
        inner = torch.nn.Module()
        inner.layers = torch.nn.ModuleList(layers[1:])
        self.head, self.inner = layers[0], inner

    def layer(self, i):
        return self.head if i == 1 else self.inner.layers[i - 2]

    def forward(self, x, visits):
        for l in visits:
            x = self.layer(l)(x)
            x = x.dequantize()
        return x


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        layers = []
        for l in cfg["layers"]:
            m = ff.quantize_model(torch.nn.Sequential((ScaledLinear if l["kind"] == "scaled" else torch.nn.Linear)(1, 1)), extra_conversion={ScaledLinear: QuantizedScaledLinear})[0]
            layers.append(m)
        first = {}
        for l, m in zip(cfg["layers"], layers):
            m.weight = first.setdefault(l["w"], m.weight)
        self.m = Chain(layers)
        self.layers = layers
        self.first = first
        with torch.no_grad():
            for i, v in enumerate(cfg["w"]):
                if i + 1 in first:
                    first[i + 1].fill_(v)
            for m, v in zip(layers, cfg["b"]):
                m.bias.fill_(v)
        self.w = list(cfg["w"])

    def attr(self, l, slot):
        return "scaled" if slot == "weight" and self.cfg["layers"][l - 1]["kind"] == "scaled" else f"{slot}_quantizer"

    def get(self, l, slot):
        return getattr(self.layers[l - 1], self.attr(l, slot))

    def set(self, l, slot, q):
        setattr(self.layers[l - 1], self.attr(l, slot), q)

    def view(self):
        ws = [int(self.first[i + 1].item()) if i + 1 in self.first and float(self.first[i + 1]).is_integer() else (self.w[i] if i + 1 not in self.first else "?") for i in range(len(self.w))]
        bs = [int(m.bias.item()) if float(m.bias).is_integer() else "?" for m in self.layers]
        locs, pars, seen, over = [], [], {}, 0
        for l in range(1, len(self.layers) + 1):
            for s in SLOTS:
                q = self.get(l, s)
                k = len(locs) + 1
                if isinstance(q, ff.nn.QuantizerStub):
                    locs.append(0)
                    pars.append([])
                    over += len(q._quantizer_overrides)
                    continue
                locs.append(seen.setdefault(id(q), k))
                pars.append([0, 3] if isinstance(q, Minus) else [int(q.scale.item()), q.num_bits])
                if locs[-1] == k:
                    over += len(q._quantizer_overrides)
        return [ws, bs, locs, pars, over]

    def discovery(self, e):
        d = ConventionDiscovery() if e["par"] == "weight" else ConventionDiscovery("bias", tag="parameter/bias")
        if e["sel"] == list(range(1, len(self.layers) + 1)) and e["dflt"]:
            return dict(discovery=d) if e["par"] == "bias" else {}

        def chosen(model):
            for m, a, q in d(model):
                if any(m is self.layers[l - 1] for l in e["sel"]):
                    yield m, a, q
        return dict(discovery=chosen)

    def y(self, visits, x):
        with ff.strict_quantization(False), torch.no_grad():
            y = float(self.m(torch.tensor([[float(x)]]), visits))
        return int(y) if y.is_integer() else "?"

    def apply(self, e):
        return [self.do(e), self.view()]

    def do(self, e):
        op = e["op"]
        off = ff.disable_quantization(self.m) if e.get("disabled") else None
        if off:
            off.__enter__()
        try:
            if op == "put":
                if e["kind"] == "minus":
                    q = Minus()
                else:
                    q = ff.nn.LinearQuantizer(e["bits"], granularity=ff.PerChannel(0) if e["slot"] in ("weight", "bias") and e["pc"] else ff.PerTensor())
                    q.quantization_range = (-float(e["s"] * 2 ** (e["bits"] - 1)), float(e["s"] * (2 ** (e["bits"] - 1) - 1)))
                self.set(e["l"], e["slot"], q)
            elif op == "share":
                self.set(e["l"], e["slot"], self.get(e["m"], e["src"]))
            elif op == "stub":
                self.set(e["l"], e["slot"], ff.nn.QuantizerStub())
            elif op == "setw":
                with torch.no_grad():
                    self.first[e["i"]].fill_(e["v"])
            elif op == "forward":
                return self.y(e["visits"], e["x"])
            elif op == "find":
                found = find_weight_quantizers(self.m)
                ls = [next(i + 1 for i, x in enumerate(self.layers) if x is m) for m, a, q in found if a == "weight" and q is m.weight_quantizer]
                return sorted(ls) if len(ls) == len(found) else "wrong targets"
            elif op == "fuse":
                fuse_qdq_weights(self.m, stub_quantizers=e["stub"], **self.discovery(e))
            elif op == "stubw":
                stub_weight_quantizers(self.m, **self.discovery(e))
            elif op == "freeze":
                ms = [self.layers[l - 1] for l in e["sel"]]
                if e["whole"]:
                    ms = self.m if e["whole"] == 1 else [self.m, self.layers[0]] if e["whole"] == 2 else [self.m]
                elif len(ms) == 1:
                    ms = ms[0]
                ys = []

                try:
                    with freeze_parameters(ms, **({} if e["remove"] and e["dflt"] else dict(remove_quantizers=e["remove"]))):
                        for p in e["passes"]:
                            ys.append(self.y(p["visits"], p["x"]))
                        if e["boom"]:
                            raise world.boom()
                    if e["boom"]:
                        return "exception lost"
                except tuple(world.BOOMS):
                    pass
                return ys
            return "ok"
        except ff.exceptions.QuantizationError as ex:
            return type(ex).__name__
        finally:
            if off:
                off.__exit__(None, None, None)


def rand_trace(rng, i):
    n = rng.randint(1, 4)
    mode = rng.choice(["fuse", "fuse", "freeze"])
    nw = max(1, n - rng.choice([0, 0, 1, 2]))
    layers = [dict(kind="scaled" if rng.random() < .2 else "linear", w=l + 1 if l < nw else rng.randint(1, nw)) for l in range(n)]
    # the weights of scaled layers are not tied while freezing
    cfg = dict(layers=layers, w=[rng.randint(-12, 12) for _ in range(nw)], b=[rng.randint(-12, 12) for _ in range(n)])
    ls = list(range(1, n + 1))
    tied = lambda l: [m for m in ls if layers[m - 1]["w"] == layers[l - 1]["w"]]
    evs = []

    def place(e):
        l, slot = e["l"], e["slot"]
        evs.append(e)
        if slot == "weight" and mode == "freeze":
            for m in tied(l):
                if m != l:
                    evs.append(dict(op="share", l=m, m=l, slot="weight", src="weight"))

    def edit():
        l, slot = rng.choice(ls), rng.choice(["weight"] * 4 + ["bias", "bias", "input", "output"])
        r = rng.random()
        if r < .65:
            minus = slot in ("weight", "bias") and rng.random() < .2
            place(dict(op="put", l=l, slot=slot, kind="minus" if minus else "linear", s=0 if minus else rng.choice([1, 2, 3, 4]), bits=3 if minus else rng.choice([3, 4, 8]), pc=rng.random() < .5))
        elif r < .85:
            same = [m for m in ls if layers[m - 1]["kind"] == layers[l - 1]["kind"] or slot != "weight"]
            m, src = rng.choice(same), slot
            if mode == "freeze" and rng.random() < .35:
                m, src = rng.choice([l, m]), rng.choice(SLOTS)
            place(dict(op="share", l=l, m=m, slot=slot, src=src))
        elif r < .92:
            place(dict(op="stub", l=l, slot=slot))
        else:
            evs.append(dict(op="setw", i=rng.randint(1, nw), v=rng.randint(-12, 12)))

    def sel():
        s = ls if rng.random() < .6 else sorted(rng.sample(ls, rng.randint(1, n)))
        return s

    def visits():
        v = list(ls) if rng.random() < .6 else [rng.choice(ls) for _ in range(rng.randint(1, 4))]
        return v

    if mode == "freeze":
        # kinds of tied layers agree, as quantizers do
        for l in layers:
            l["kind"] = layers[[x["w"] for x in layers].index(l["w"])]["kind"]
    for _ in range(rng.randint(1, 8)):
        edit()
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .25:
            edit()
        elif r < .45:
            evs.append(dict(op="forward", visits=visits(), x=rng.randint(-5, 5), disabled=rng.random() < .1))
        elif r < .5 and mode == "fuse":
            evs.append(dict(op="find"))
        elif mode == "fuse":
            e = dict(op="fuse" if rng.random() < .85 else "stubw", par=rng.choice(["weight", "weight", "bias"]), sel=sel(), stub=rng.random() < .5, dflt=rng.random() < .7, disabled=rng.random() < .12)
            evs.append(e)
            if rng.random() < .3:
                evs.append(dict(e))
        else:
            s = sel()
            whole = rng.choice([0, 1, 2, 3]) if s == ls else 0
            evs.append(dict(op="freeze", sel=s, remove=rng.random() < .6, dflt=rng.random() < .7, disabled=rng.random() < .1, boom=rng.random() < .15, whole=whole,
                            passes=[dict(visits=visits(), x=rng.randint(-5, 5)) for _ in range(rng.choice([0, 1, 1, 1, 1, 2]))]))
        if rng.random() < .3:
            evs.append(dict(op="forward", visits=list(ls), x=rng.randint(-5, 5), disabled=False))
    return dict(id=f"rand{i}", cfg=cfg, events=drive(World, cfg, evs))


def run(ctx):
    ctx.model_check("FuseMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(4, 5)}\n", workers=8)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(3000, 25000))]
    ctx.validate("FuseTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}", workers=8)
