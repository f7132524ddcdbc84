"""C06: strict quantization (spec/Strict.tla)."""
import itertools
import operator
import warnings
import torch
import fastforward as ff
from fastforward.exceptions import QuantizationError
from vf.world import errname

F = ff.nn.functional
TF = torch.nn.functional
gen = torch.Generator()


def rnd(*shape, pos=False):
    x = torch.randn(shape, generator=gen)
    return x.abs() + .25 if pos else x


def quant(x, bits=6, offset=True):
    q = ff.nn.LinearQuantizer(bits, symmetric=not offset, allow_one_sided=False)
    q.quantization_range = (-3.0, 4.0)
    return q(x).detach()


def out_quantizer(kind):
    if kind == "none":
        return None
    if kind == "stub":
        return ff.nn.QuantizerStub()
    q = ff.nn.LinearQuantizer(4, symmetric=False)
    q.quantization_range = (-2.0, 3.0)
    return q


# name -> (reference, [(parameter, role, tensor maker)], [keyword argument sets])
P1 = lambda: rnd(2, 3)
OPS = {
    "linear": (TF.linear, [("input", "Q", P1), ("weight", "Q", lambda: rnd(4, 3)), ("bias", "M", lambda: rnd(4))], [{}]),
    "conv1d": (TF.conv1d, [("input", "Q", lambda: rnd(1, 2, 6)), ("weight", "Q", lambda: rnd(2, 2, 3)), ("bias", "M", lambda: rnd(2))], [{}, dict(stride=2, padding=1)]),
    "conv2d": (TF.conv2d, [("input", "Q", lambda: rnd(1, 2, 5, 5)), ("weight", "Q", lambda: rnd(2, 1, 3, 3)), ("bias", "M", lambda: rnd(2))], [dict(groups=2), dict(groups=2, stride=(2, 1), padding=(1, 0), dilation=1)]),
    "conv3d": (TF.conv3d, [("input", "Q", lambda: rnd(1, 1, 3, 3, 3)), ("weight", "Q", lambda: rnd(2, 1, 2, 2, 2)), ("bias", "M", lambda: rnd(2))], [{}, dict(dilation=2)]),
    "softmax": (TF.softmax, [("input", "Q", P1)], [dict(dim=0), dict(dim=-1)]),
    "relu": (TF.relu, [("input", "Q", P1)], [{}]),
    "sigmoid": (torch.sigmoid, [("input", "Q", P1)], [{}]),
    "conv_transpose1d": (TF.conv_transpose1d, [("input", "Q", lambda: rnd(1, 2, 4)), ("weight", "Q", lambda: rnd(2, 2, 3)), ("bias", "M", lambda: rnd(2))], [{}, dict(stride=2, padding=1, output_padding=1)]),
    "conv_transpose2d": (TF.conv_transpose2d, [("input", "Q", lambda: rnd(1, 2, 3, 3)), ("weight", "Q", lambda: rnd(2, 2, 2, 2)), ("bias", "M", lambda: rnd(2))], [{}, dict(stride=2, dilation=2)]),
    "conv_transpose3d": (TF.conv_transpose3d, [("input", "Q", lambda: rnd(1, 1, 2, 2, 2)), ("weight", "Q", lambda: rnd(1, 2, 2, 2, 2)), ("bias", "M", lambda: rnd(2))], [{}]),
    "avg_pool1d": (TF.avg_pool1d, [("input", "Q", lambda: rnd(1, 2, 6))], [dict(kernel_size=2, stride=2), dict(kernel_size=3, stride=1, padding=1, count_include_pad=False)]),
    "avg_pool2d": (TF.avg_pool2d, [("input", "Q", lambda: rnd(1, 1, 5, 5))], [dict(kernel_size=2, stride=2), dict(kernel_size=2, stride=2, ceil_mode=True)]),
    "avg_pool3d": (TF.avg_pool3d, [("input", "Q", lambda: rnd(1, 1, 4, 4, 4))], [dict(kernel_size=2, stride=1)]),
    "embedding": (TF.embedding, [("input", "T", lambda: torch.tensor([0, 2, 1])), ("weight", "Q", lambda: rnd(4, 3))], [{}, dict(padding_idx=1)]),
    "layer_norm": (TF.layer_norm, [("input", "Q", P1), ("weight", "QO", lambda: rnd(3)), ("bias", "M", lambda: rnd(3))], [dict(normalized_shape=(3,)), dict(normalized_shape=(3,), eps=.1)]),
    "matmul": (torch.matmul, [("input", "Q", lambda: rnd(2, 2, 3)), ("other", "Q", lambda: rnd(3, 2))], [{}]),
    "mm": (torch.mm, [("input", "Q", P1), ("mat2", "Q", lambda: rnd(3, 2))], [{}]),
    "bmm": (torch.bmm, [("input", "Q", lambda: rnd(2, 2, 3)), ("mat2", "Q", lambda: rnd(2, 3, 2))], [{}]),
    "add": (torch.add, [("input", "Q", P1), ("other", "QS", P1)], [{}, dict(alpha=3)]),
    "sub": (torch.sub, [("input", "Q", P1), ("other", "QS", P1)], [{}, dict(alpha=2)]),
    "mul": (torch.mul, [("input", "Q", P1), ("other", "QS", P1)], [{}]),
    "div": (torch.div, [("input", "Q", P1), ("other", "QS", lambda: rnd(2, 3, pos=True))], [{}]),
    "pow": (torch.pow, [("input", "Q", lambda: rnd(2, 3, pos=True)), ("exponent", "QS", P1)], [{}]),
    "sum": (torch.sum, [("input", "Q", P1)], [{}, dict(dim=1)]),
    "negative": (torch.negative, [("input", "Q", P1)], [{}]),
    "positive": (torch.positive, [("input", "Q", P1)], [{}]),
    "floor_divide": (torch.floor_divide, [("input", "Q", P1), ("other", "QS", lambda: rnd(2, 3, pos=True))], [{}]),
    "remainder": (torch.remainder, [("input", "Q", P1), ("other", "QS", lambda: rnd(2, 3, pos=True))], [{}]),
    "silu": (TF.silu, [("input", "Q", P1)], [{}]),
    "gelu": (TF.gelu, [("input", "Q", P1)], [{}, dict(approximate="tanh")]),
    "dropout": (TF.dropout, [("input", "Q", P1)], [dict(training=False), dict(p=0.0), dict(p=1.0)]),
    "permute": (torch.permute, [("input", "Q", P1)], [dict(dims=(1, 0))]),
    "index_add": (torch.index_add, [("input", "Q", lambda: rnd(3, 2)), ("index", "T", lambda: torch.tensor([0, 2])), ("source", "Q", lambda: rnd(2, 2))], [dict(dim=0), dict(dim=0, alpha=2)]),
    "cumsum": (torch.cumsum, [("input", "Q", P1)], [dict(dim=1)]),
    "pad": (TF.pad, [("input", "Q", P1)], [dict(pad=[1, 2]), dict(pad=[0, 1], mode="constant", value=1.5), dict(pad=[1, 1], mode="reflect")]),
    "max_pool2d": (TF.max_pool2d, [("input", "Q", lambda: rnd(1, 1, 4, 4))], [dict(kernel_size=2), dict(kernel_size=3, stride=1, padding=1)]),
    "interpolate": (TF.interpolate, [("input", "Q", lambda: rnd(1, 1, 2, 2))], [dict(size=(4, 4)), dict(scale_factor=2.0, mode="bilinear", align_corners=True)]),
    "unfold": (TF.unfold, [("input", "Q", lambda: rnd(1, 1, 4, 4))], [dict(kernel_size=2), dict(kernel_size=2, stride=2, padding=1)]),
    "ones_like": (torch.ones_like, [("input", "Q", P1)], [{}]),
    "zeros_like": (torch.zeros_like, [("input", "Q", P1)], [dict(dtype=torch.float64)]),
    "full_like": (torch.full_like, [("input", "Q", P1)], [dict(fill_value=1.25)]),
    "exp": (torch.exp, [("input", "Q", P1)], [{}]),
    "sin": (torch.sin, [("input", "Q", P1)], [{}]),
    "cos": (torch.cos, [("input", "Q", P1)], [{}]),
    "rms_norm": (TF.rms_norm, [("input", "Q", P1), ("weight", "QO", lambda: rnd(3))], [dict(normalized_shape=(3,)), dict(normalized_shape=(3,), eps=.1)]),
}
KINDS = {"Q": "qp", "QO": "qpn", "QS": "qps", "M": "qpn", "T": "p"}


def deq(t):
    if isinstance(t, ff.QuantizedTensor):
        return t.dequantize()
    if isinstance(t, (list, tuple)):
        return type(t)(deq(x) for x in t)
    return t


def make(kind, maker):
    if kind == "n":
        return None
    if kind == "s":
        return 1.5
    x = maker()
    return quant(x, offset=gen.initial_seed() % 2 == 0 or x.numel() % 2 == 0) if kind == "q" else x


def classify(fn, ref, out):
    """[outcome] of a call, with the value compared to the reference."""
    try:
        r = fn()
    except QuantizationError:
        return ["error"]
    except NotImplementedError:
        return ["unsupported"]
    except Exception as e:
        return errname(e) + [str(e)[:200]]
    want = ref()
    isq = isinstance(r, ff.QuantizedTensor)
    if out == "real":
        want = out_quantizer("real")(want)
        if not isq:
            return ["value", "plain"]
        if not torch.equal(r.raw_data, want.raw_data):
            return ["wrong codes"]
    val = lambda t: t.dequantize() if isinstance(t, ff.QuantizedTensor) else t
    a, b = val(r), val(want)
    flat = lambda t: [t] if isinstance(t, torch.Tensor) else list(t) if isinstance(t, (tuple, list)) else None
    if flat(a) is None or flat(b) is None:
        return ["value", "quantized" if isq else "plain"] if a == b else ["wrong value", repr(a), repr(b)]
    for x, y in zip(flat(a), flat(b), strict=True):
        if not isinstance(x, torch.Tensor) or not isinstance(y, torch.Tensor):
            if x != y:
                return ["wrong value", repr(x)[:100], repr(y)[:100]]
            continue
        if x.shape != y.shape or x.dtype != y.dtype or not torch.allclose(x.double(), y.double(), rtol=1e-6, atol=1e-7, equal_nan=True):
            return ["wrong value", str(x)[:100], str(y)[:100]]
    return ["value", "quantized" if isq else "plain"]


def operators(ctx):
    ins, runs = [], []
    for name, (ref, params, kwsets) in OPS.items():
        combos = list(itertools.product(*[KINDS[r] for _, r, _ in params]))
        for kinds in combos:
            for ambient, call, out in itertools.product([True, False], ["unset", "on", "off"], ["none", "stub", "real"]):
                kernel = name == "mul" and kinds == ("q", "s") and out in ("none", "stub")
                for kw in (kwsets if ctx.thorough else [ctx.rng.choice(kwsets)]):
                    ins.append(dict(op="operator", ambient=ambient, call=call, out=out, kernel=kernel, inplace=False, args=[[r, k] for (_, r, _), k in zip(params, kinds)]))
                    runs.append((name, kinds, kw))
    # concatenation: sequences of operands
    for kinds in [k for n in (1, 2, 3) for k in itertools.product("qp", repeat=n)]:
        for ambient, call, out in itertools.product([True, False], ["unset", "on", "off"], ["none", "stub", "real"]):
            for shared in (True, False):
                ins.append(dict(op="operator", ambient=ambient, call=call, out=out, inplace=False, args=[["Q", k] for k in kinds],
                                kernel=out == "none" and set(kinds) == {"q"} and (shared or len(kinds) == 1)))
                runs.append(("cat", kinds, shared))
    for x, e, (name, kinds, kw) in zip(ins, ctx.evaluate("StrictOracle", ins), runs):
        gen.manual_seed(ctx.rng.randrange(10**6))
        if name == "cat":
            ts = [quant(rnd(2, 2), bits=6 if kw or i == 0 else 5) if k == "q" else rnd(2, 2) for i, k in enumerate(kinds)]
            call = lambda **k: F.cat(ts, 1, **k)
            ref = lambda: torch.cat([deq(t) for t in ts], 1)
        else:
            r, params, _ = OPS[name]
            vals = [make(k, m) for (_, _, m), k in zip(params, kinds)]
            named = {p: v for (p, _, _), v in zip(params, vals) if v is not None}
            split = ctx.rng.random() < .5 and "n" not in kinds and name not in ("layer_norm", "rms_norm", "index_add")
            call = (lambda **k: getattr(F, name)(*vals, **kw, **k)) if split else (lambda **k: getattr(F, name)(**named, **kw, **k))
            ref = lambda: r(*[deq(v) for v in named.values()], **kw) if name not in ("layer_norm", "rms_norm", "index_add") else r(**{p: deq(v) for p, v in named.items()}, **kw)
        opts = {}
        if x["call"] != "unset":
            opts["strict_quantization"] = x["call"] == "on"
        if x["out"] != "none":
            opts["output_quantizer"] = out_quantizer(x["out"])
        with ff.strict_quantization(x["ambient"]):
            got = classify(lambda: call(**opts), ref, "none" if x["kernel"] else x["out"])
            if ff.get_strict_quantization() != x["ambient"]:
                got = ["flag changed"]
        ctx.compare(got, e, f"operator:{name}", [x, name, kinds, str(kw)])


# torch functions and methods on (quantized x, plain y); kernels: those with a quantized implementation
TORCH = {
    "add": lambda x, y: x + y, "radd": lambda x, y: y + x, "torch.add": lambda x, y: torch.add(x, y), "sub": lambda x, y: x - y, "neg": lambda x, y: -x,
    "matmul": lambda x, y: x @ y.T, "rmatmul": lambda x, y: torch.matmul(y.T, x), "linear": lambda x, y: TF.linear(x, y),
    "sum": lambda x, y: x.sum(), "sumdim": lambda x, y: torch.sum(x, dim=1), "mean": lambda x, y: x.mean(0), "max": lambda x, y: torch.max(x), "maxdim": lambda x, y: x.max(1).values,
    "relu": lambda x, y: torch.relu(x), "softmax": lambda x, y: x.softmax(-1), "exp": lambda x, y: torch.exp(x), "abs": lambda x, y: abs(x), "gt": lambda x, y: x > 0, "eq": lambda x, y: x == y,
    "where": lambda x, y: torch.where(y > 0, x, y), "stack": lambda x, y: torch.stack([x, y]), "nested": lambda x, y: torch.cat(tensors=(y, x), dim=1), "kwarg": lambda x, y: torch.add(y, other=x),
    "einsum": lambda x, y: torch.einsum("ij,kj->ik", x, y), "norm": lambda x, y: x.norm(), "clamp": lambda x, y: x.clamp(-1, 1), "flip": lambda x, y: x.flip(0),
    "permute": lambda x, y: x.permute(1, 0), "T": lambda x, y: x.T, "split": lambda x, y: x.split(1), "chunk": lambda x, y: torch.chunk(x, 2), "flatten": lambda x, y: x.flatten(),
    "iadd": lambda x, y: ff_iadd(x, y), "imul": lambda x, y: ff_imul(x, y), "lerp": lambda x, y: torch.lerp(x, y, .5), "addcmul": lambda x, y: torch.addcmul(y, x, y), "item": lambda x, y: x.sum().item(),
    "tolist": lambda x, y: x.tolist(), "index_select": lambda x, y: torch.index_select(x, 0, torch.tensor([1, 0])), "gather": lambda x, y: x.gather(1, torch.zeros(2, 1, dtype=torch.long)),
    "outer": lambda x, y: torch.outer(x[0], y[0]),
    "std": lambda x, y: x.std(), "isnan": lambda x, y: torch.isnan(x), "allclose": lambda x, y: torch.allclose(x, y), "repeat": lambda x, y: x.repeat(2, 1), "tile": lambda x, y: torch.tile(x, (2,)), "div": lambda x, y: x / 2, "rdiv": lambda x, y: 1 / x,
    "pow": lambda x, y: x ** 2, "mulq": lambda x, y: x * y, "dot": lambda x, y: torch.vdot(x.flatten(), y.flatten()), "roll": lambda x, y: torch.roll(x, 1), "argmax": lambda x, y: x.argmax(), "sort": lambda x, y: torch.sort(x).values, "log": lambda x, y: x.exp().log(), "zeros_like": lambda x, y: torch.zeros_like(x), "squeeze": lambda x, y: x.squeeze(0), "unbind": lambda x, y: torch.unbind(x),
}
KERNELS = {
    "reshape": lambda x, y: x.reshape(-1), "view": lambda x, y: x.view(3, 2), "transpose": lambda x, y: x.transpose(0, 1), "getitem": lambda x, y: x[:, 1:], "unsqueeze": lambda x, y: x.unsqueeze(0), "expand": lambda x, y: x.expand(2, 2, 3), "mul": lambda x, y: x * 2, "rmul": lambda x, y: 3 * x, "contiguous": lambda x, y: x.transpose(0, 1).contiguous(), "clone": lambda x, y: x.clone(), "detach": lambda x, y: x.detach(), "cat": lambda x, y: torch.cat([x, x]), "take": lambda x, y: torch.take_along_dim(x, torch.zeros(2, 1, dtype=torch.long), dim=1), "topk": lambda x, y: x.topk(2).values,
}
INPLACE = ["add_", "mul_", "zero_", "copy_", "clamp_", "relu_", "sub_", "fill_", "neg_", "exp_", "masked_fill_", "transpose_", "unsqueeze_", "normal_"]
META = {"shape": lambda x: tuple(x.shape), "dtype": lambda x: x.dtype, "device": lambda x: str(x.device), "dim": lambda x: x.dim(), "ndim": lambda x: x.ndim, "numel": lambda x: x.numel(), "size": lambda x: tuple(x.size()), "is_floating_point": lambda x: torch.is_floating_point(x), "is_complex": lambda x: x.is_complex(), "requires_grad": lambda x: x.requires_grad, "is_contiguous": lambda x: x.is_contiguous()}


def ff_iadd(x, y):
    x += y
    return x


def ff_imul(x, y):
    x *= y
    return x


def torch_calls(ctx):
    ins, runs = [], []
    for ambient in (True, False):
        for table, kernel in ((TORCH, False), (KERNELS, True)):
            for name in table:
                for kinds in ("qp", "qq") if table is TORCH else ("qp",):
                    ins.append(dict(op="torch", ambient=ambient, kernel=kernel, inplace=False, args=[["T", k] for k in kinds]))
                    runs.append((name, table[name], kinds))
        for name in INPLACE:
            ins.append(dict(op="torch", ambient=ambient, kernel=False, inplace=True, args=[["T", "q"]]))
            runs.append((name, None, "q"))
    for x, e, (name, fn, kinds) in zip(ins, ctx.evaluate("StrictOracle", ins), runs):
        gen.manual_seed(7)
        a = rnd(2, 3)
        qa = quant(a)
        before = qa.raw_data.clone()
        b = quant(rnd(2, 3), bits=5) if kinds[-1] == "q" and len(kinds) > 1 else rnd(2, 3)
        if fn is None:
            args = dict(add_=(1.0,), mul_=(2.0,), copy_=(a,), clamp_=(0, 1), sub_=(1.0,), fill_=(0.0,), masked_fill_=(a > 0, 0.0), transpose_=(0, 1), unsqueeze_=(0,)).get(name, ())
            call, ref = (lambda: getattr(qa, name)(*args)), (lambda: None)
        else:
            call, ref = (lambda: fn(qa, b)), (lambda: fn(deq(qa), deq(b)))
        if name in ("iadd", "imul"):
            ref = lambda: (deq(qa) + deq(b)) if name == "iadd" else deq(qa) * deq(b)
        with ff.strict_quantization(x["ambient"]):
            got = classify(call, ref, "none")
        if not torch.equal(qa.raw_data, before):
            got = ["operand modified"]
        ctx.compare(got, e, f"torch:{name}", [x, name, kinds])
    for ambient in (True, False):
        for name, fn in META.items():
            x = quant(rnd(2, 3))
            with ff.strict_quantization(ambient):
                try:
                    got = fn(x)
                except Exception as ex:
                    got = errname(ex)
            ctx.compare(got, fn(x.raw_data), f"metadata:{name}", [ambient, name])


ARITH = "add sub mul truediv floordiv mod pow matmul and or xor lshift rshift".split()
OTHER = "lt le eq ne gt ge neg abs invert bool int float len contains getitem".split()
RAW = {"Tensor.data_ptr", "Tensor.const_data_ptr", "Tensor.storage", "torch.fbgemm_pack_gemm_matrix_fp16"}  # raw storage
LOOSE = {"torch.linalg.linalg_lstsq"}
CASTS = {"Tensor." + n for n in "bfloat16 byte cdouble cfloat chalf char double float half int long short bool".split()}


def overridable():
    """Every function that a tensor subclass may override, except in-place, random-shape and bookkeeping ones."""
    for ns, fs in torch.overrides.get_overridable_functions().items():
        if not (isinstance(ns, type(torch)) or ns is torch.Tensor):
            continue
        for f in fs:
            n = getattr(f, "__name__", "")
            if n.startswith("__") and n.strip("_") not in OTHER and n.strip("_") not in ARITH and n.strip("_")[1:] not in ARITH:
                continue
            if n.startswith("_") != n.startswith("__") or (n.endswith("_") and not n.startswith("__")):
                continue
            if not n.startswith(("empty", "register", "set_", "resize", "rand", "seed", "initial")):
                yield getattr(ns, "__name__", "Tensor") + "." + n, f
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul"):
        for n in (n, "i" + n):
            yield "operator." + n, getattr(operator, n)
    for d in (torch.int32, torch.float64, torch.float16, torch.int8):
        yield f"to.{d}", lambda x, d=d: x.to(d)
        yield f"to.cpu.{d}", lambda x, d=d: x.to("cpu", d)
        yield f"to.kw.{d}", lambda x, d=d: x.to(dtype=d)


def norm(r):
    if isinstance(r, torch.Tensor):
        d = deq(r).detach()
        return [str(d.dtype).replace("torch.", ""), list(d.shape), d.reshape(-1).tolist()]
    return [norm(x) for x in r] if isinstance(r, (tuple, list)) else r


def close(a, b):
    """Equal up to the rounding of scaled parameters."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b)) or (a != a and b != b)
    return repr(a) == repr(b)


def has(r, cls):
    return isinstance(r, cls) or (isinstance(r, (tuple, list)) and any(has(x, cls) for x in r))


def outcome(f, args):
    torch.manual_seed(0)
    try:
        r = f(*args)
        return ("quantized" if has(r, ff.QuantizedTensor) else "plain"), norm(r)
    except QuantizationError:
        return "error", None
    except NotImplementedError:
        return "unsupported", None
    except Exception as e:
        return "fails", type(e).__name__


def sweep(ctx):
    """Every overridable function, called in every way in which it accepts the dequantized operands."""
    g = torch.Generator().manual_seed(ctx.rng.randrange(10**6))
    for shape in ((3, 3), (1, 1)):
        sweep_shape(ctx, g, shape)


def sweep_shape(ctx, g, shape):
    x1, x2, y = (torch.randn(*shape, generator=g) for _ in range(3))
    qa, qb, qy = quant(x1), quant(x2), quant(y, bits=5)
    def Y():
        return y.clone()

    ways = [lambda x: (x,), lambda x: (x, Y()), lambda x: (Y(), x), lambda x: (x, 0), lambda x: (x, 1.5), lambda x: (x, 0, 1), lambda x: (x, [0]),
            lambda x: (x, Y(), Y()), lambda x: (x, torch.int32), lambda x: ([x, Y()],), lambda x: (x, 0, torch.tensor([0, shape[0] - 1])), lambda x: (Y(), 0, x)]
    ins, obs = [], []
    for name, f in overridable():
        for k, way in enumerate(ways[:1] if name.startswith("to.") else ways):
            ref = outcome(f, way(qa.dequantize()))
            if ref[0] in ("error", "unsupported", "fails"):
                continue
            for ambient in (True, False):
                with ff.strict_quantization(ambient):
                    a, b = outcome(f, way(qa)), outcome(f, way(qb))
                if a[0] not in ("error", "unsupported", "fails") and repr(a) == repr(b) and name not in CASTS and not name.startswith("to."):
                    if ambient or not close(a, ref):
                        continue  # tells nothing about the values
                if name in RAW or (name, k) == ("Tensor.view", 8):  # documented: view(dtype) is refused
                    continue
                kernel = a[0] == "quantized" or name in CASTS or name.startswith("to.")
                ins.append(dict(op="torch", ambient=ambient, kernel=kernel, inplace=False, args=[["T", "q"]]))
                got = [a[0]] if a[0] in ("error", "unsupported") else ["fails", a[1]] if a[0] == "fails" else ["value", "quantized"]
                if got[0] == "value" and not close(a[1], ref[1]) and name not in LOOSE:
                    got = ["wrong value", repr(a[1])[:200], repr(ref[1])[:200]]
                obs.append((name, k, got))
    for x, e, (name, k, got) in zip(ins, ctx.evaluate("StrictOracle", ins), obs):
        if got[0] == "unsupported":
            continue  # loud
        ctx.compare(got[:1] if got[0] == "value" else got, e[:1], f"sweep:{name}", [x, name, k])
    ctx.notes["overridable_calls"] = ctx.notes.get("overridable_calls", 0) + len(obs)


def modules(ctx):
    def mods():
        e = torch.nn.Embedding(5, 3)
        return {
            "Linear": (torch.nn.Linear(3, 4), [("Q", "input_quantizer", P1()), ("Q", "weight_quantizer", None), ("M", "bias_quantizer", None)]),
            "Conv1d": (torch.nn.Conv1d(2, 3, 2), [("Q", "input_quantizer", rnd(1, 2, 5)), ("Q", "weight_quantizer", None), ("M", "bias_quantizer", None)]),
            "Conv2d": (torch.nn.Conv2d(2, 2, 2, padding=1, stride=2), [("Q", "input_quantizer", rnd(1, 2, 4, 4)), ("Q", "weight_quantizer", None), ("M", "bias_quantizer", None)]),
            "LayerNorm": (torch.nn.LayerNorm(3), [("Q", "input_quantizer", P1()), ("QO", "weight_quantizer", None), ("M", "bias_quantizer", None)]),
            "ReLU": (torch.nn.ReLU(), [("Q", "input_quantizer", P1())]),
            "SiLU": (torch.nn.SiLU(), [("Q", "input_quantizer", P1())]),
            "Embedding": (e, [("T", None, torch.tensor([[0, 3]])), ("Q", "weight_quantizer", None)]),
        }
    ins, runs = [], []
    for name, (_, params) in mods().items():
        for qs in itertools.product(*[["stub", "real"] if q else ["stub"] for _, q, _ in params]):
            for inp in ("p", "q"):
                if params[0][0] == "T" and inp == "q" or inp == "q" and qs[0] == "real":
                    continue
                for ambient, out in itertools.product([True, False], ["stub", "real"]):
                    ins.append(dict(op="module", ambient=ambient, call="unset", out=out, kernel=False, inplace=False, quantizers=list(qs),
                                    args=[[r, inp if i == 0 else "p"] for i, (r, _, _) in enumerate(params)]))
                    runs.append((name, qs, inp))
    for x, e, (name, qs, inp) in zip(ins, ctx.evaluate("StrictOracle", ins), runs):
        gen.manual_seed(3)
        torch.manual_seed(5)
        mod, params = mods()[name]
        ref = mods()[name][0]
        ref.load_state_dict(mod.state_dict())
        m = torch.nn.Sequential(mod)
        ff.quantize_model(m)
        qm = m[0]
        data = params[0][2]
        val = quant(data) if inp == "q" else data
        act = deq(val)
        for (role, qn, _), k in zip(params, qs):
            if k == "real":
                q = ff.nn.LinearQuantizer(6, symmetric=False)
                q.quantization_range = (-2.0, 2.0)
                setattr(qm, qn, q)
                with torch.no_grad():
                    if qn == "input_quantizer":
                        act = deq(q(act))
                    else:
                        p = getattr(ref, qn.replace("_quantizer", ""))
                        p.copy_(deq(q(p)))
        qm.output_quantizer = out_quantizer(x["out"])
        with ff.strict_quantization(x["ambient"]):
            got = classify(lambda: qm(val), lambda: ref(act), x["out"])
        ctx.compare(got, e, f"module:{name}", [x, name, qs, inp])


def run(ctx):
    warnings.simplefilter("ignore")
    ctx.model_check("StrictMC", "INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\n", workers=8)
    operators(ctx)
    torch_calls(ctx)
    sweep(ctx)
    modules(ctx)
    ctx.notes["operators"] = len(OPS) + 1
    ctx.notes["torch_functions"] = len(TORCH) + len(KERNELS) + len(INPLACE)
