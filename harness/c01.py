"""C01: affine codes and values (spec/Affine.tla)."""
import torch
import fastforward as ff
from fastforward.quantization import affine
from fastforward.quantization.affine import static
from vf.world import errname
from harness.affine import rand_case, tensor, ints, make_quantizer
from harness.c03 import mk

APIS = ["granularity", "quantizer", "context", "values", "specific", "requantize", "export"]
HOLD = {torch.int8: 8, torch.int16: 16, torch.int32: 32, torch.int64: 64, torch.uint8: 0, torch.float16: 12,
        torch.bfloat16: 9, torch.float32: 25, torch.float64: 54}


def observe(x, api, dtype, qdtype, perm, scalar, unit=1.0):
    D, shape = x["D"], x["shape"]
    data = tensor(x["x"], D, shape, dtype, perm, unit)
    before = data.clone()
    none = x["noff"]
    scale = tensor(x["S"], D, [-1], dtype, unit=unit)
    offset = None if none else tensor(x["O"], 4, [-1], dtype)
    g = mk(x["g"])
    if scalar and scale.numel() == 1 and api in ("granularity", "specific", "context"):
        scale, offset = scale.item(), None if none else offset.item()
    try:
        if api == "quantizer":
            q = make_quantizer(x["b"], g, scale, offset, qdtype, dtype)(data)
        elif api == "export":
            qz = make_quantizer(x["b"], g, scale, offset, qdtype, dtype)
            with ff.export_mode(True):
                d = qz(data)
            q = None
        elif api == "context":
            c = static.quantization_context(scale, offset, g, x["b"], qdtype)
            q = c.quantization_fn.quantize(data, c.quantization_params)
        elif api == "values":  # dequantized to the data type of the context
            other = torch.float64 if dtype != torch.float64 else torch.float32
            c = static.quantization_context(scale, offset, g, x["b"], qdtype).with_changes(dequantize_dtype=other)
            q = c.quantization_fn.quantize(data, c.quantization_params)
        elif api == "specific":
            k = x["g"][0]
            if k == "tensor":
                q = affine.quantize_per_tensor(data, scale, offset, x["b"], qdtype)
            elif k == "channel":
                q = affine.quantize_per_channel(data, scale, offset, g.channel_dims, x["b"], qdtype)
            elif k == "block" and len(x["g"][1]) == 1 and len(x["g"][3]) == 1 and len(shape) == 2 and x["g"][1] != x["g"][3]:
                q = affine.quantize_per_block(data, scale, offset, x["g"][3][0], x["g"][1][0], x["g"][2][0], x["b"], qdtype)
            else:
                t = g.tile_size(data.shape)
                q = affine.quantize_by_tile(data, scale, offset, t, x["b"], qdtype)
        else:
            q = affine.quantize_per_granularity(data, scale, offset, g, x["b"], qdtype)
    except (ValueError, IndexError):
        return [-1]
    except RuntimeError as e:
        if "not enough" in str(e) or "bits" in str(e):
            return ["refused dtype"]
        return errname(e)
    except Exception as e:
        return errname(e)
    if not torch.equal(data, before):
        return ["data modified"]
    if q is not None:
        if q.raw_data.shape != data.shape or q.raw_data.dtype != (qdtype or dtype) or q.shape != data.shape:
            return ["storage", str(q.raw_data.dtype), list(q.raw_data.shape)]
        d = q.dequantize()
    if api == "values" and q is not None:
        if d.dtype != other:
            return ["dequantized as", str(d.dtype)]
        if unit != 1.0 and dtype == torch.float64:  # only the codes: float32 cannot hold the values
            return [ints(q.raw_data), None]
    elif d.dtype != dtype or d.shape != data.shape:
        return ["dequantized as", str(d.dtype), list(d.shape)]
    d, values = d.detach(), d.detach().double() / unit
    if q is None:
        return [None, ints(values, D)]
    if api == "requantize":  # the grid is a fixed point
        r = affine.quantize_per_granularity(d, scale, offset, g, x["b"], qdtype)
        if not torch.equal(r.raw_data, q.raw_data) or not torch.equal(r.dequantize(), d):
            return ["not a fixed point"]
    return [ints(q.raw_data), ints(values, D)]


def gen(rng):
    shape, g, n = rand_case(rng)
    fine = rng.random() < .06  # scalar parameters with more digits than the default data type holds
    if fine:
        shape, g, n = [rng.randint(4, 24)], ["tensor"], 1
    N = torch.Size(shape).numel()
    b = rng.choice([1, 2, 2, 3, 3, 4, 4, 4, 8, 8, 8, 12, 16])
    low = rng.random()
    dtype = torch.float64 if fine else torch.float32 if low < .6 else rng.choice([torch.float64, torch.float16, torch.bfloat16])
    if dtype in (torch.float16, torch.bfloat16):
        D, S = rng.choice([1, 2, 8]), [rng.choice([1, 2, 4, 8, 16]) for _ in range(n)]
        xmax, omax, b = 63, 32, min(b, 8)
    else:
        D = rng.choice([1, 2, 16, 64])
        S = [rng.choice([1, 2, 3, 5, 7, 16, 37, 100]) for _ in range(n)]
        xmax, omax = rng.choice([5, 50, 500, 20000]), rng.choice([8, 40, 800])
    # bit widths that the storage type can just or just not hold
    qd = None if rng.random() < .4 else rng.choice(list(HOLD))
    edge = HOLD[qd or dtype] + rng.randint(0, 1)
    if rng.random() < .15 and 1 < edge < (14 if dtype in (torch.float16, torch.bfloat16) else 29):
        b = edge
    # parameters that have digits that smaller types do not hold: data and scale in this unit
    unit = 1.0
    if fine or rng.random() < .4 and dtype == torch.float64:
        unit = 1 + 2.0 ** -30
    elif rng.random() < .4 and dtype == torch.float32 and xmax <= 500 and b <= 4:
        unit = 1 + 2.0 ** -10
    if fine:
        S = [rng.choice([2, 4, 16, 100])]
    none = rng.random() < .35
    O = [0] * n if none else [rng.randint(-omax, omax) for _ in range(n)]
    if not none and rng.random() < .3:  # all-even grid of ties
        O = [4 * (o // 4) + 2 for o in O]
    xs = []
    for _ in range(N):
        k = rng.random()
        s = rng.choice(S)
        m = max(1, xmax // max(S))
        if k < .3:  # exact ties of some tile
            v = s * rng.randint(-m, m) + (s // 2 if s % 2 == 0 else 0)
        elif k < .45 and b <= 16:  # around the clip bounds
            v = s * (rng.choice([-2 ** (b - 1), 2 ** (b - 1) - 1]) + rng.randint(-2, 2)) + rng.randint(0, s)
        else:
            v = rng.randint(-xmax, xmax)
        xs.append(max(-xmax, min(xmax, v)) if dtype != torch.float64 and dtype != torch.float32 else v)
    x = dict(op="static", shape=shape, g=g, x=xs, S=S, O=O, b=b, D=D, noff=none)
    perm = list(range(len(shape)))
    rng.shuffle(perm)
    return x, (rng.choice(APIS), dtype, qd, perm if rng.random() < .5 else None, fine or rng.random() < .5, unit)


def run(ctx):
    q = not ctx.thorough
    cfg = ("INIT Init\nNEXT Next\nINVARIANTS Inv Rounding Ranges Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE "
           + ("XMax = 24 SMax = 4 OMax = 9 BMax = 4\n" if q else "XMax = 50 SMax = 8 OMax = 26 BMax = 5\n"))
    cols = ctx.generate("AffineMC", cfg, workers=8)
    for S, O, b, codes, deqs in cols:
        xm = len(codes) // 2
        data = torch.arange(-xm, xm + 1, dtype=torch.float32) / 4
        for none in ([False, True] if O == 0 else [False]):
            r = affine.quantize_per_tensor(data, torch.tensor([S / 4]), None if none else torch.tensor([O / 4]), b)
            ctx.compare([ints(r.raw_data), ints(r.dequantize(), 4)], [codes, deqs], "grid", [S, O, b])
    ctx.notes["grid_columns"] = len(cols)
    cases = [gen(ctx.rng) for _ in range(ctx.scale(2500, 20000))]
    exp = ctx.evaluate("AffineOracle", [c[0] for c in cases])
    for (x, how), e in zip(cases, exp):
        api, dtype, qd = how[:3]
        if e != [-1]:
            if x["b"] > HOLD[qd or dtype]:
                e = ["refused dtype"]
            elif api == "export":
                e = [None, e[1]]
            elif api == "values" and dtype == torch.float64 and how[-1] != 1.0:
                e = [e[0], None]
        got = observe(x, *how)
        ctx.compare(got, e, "static:" + api, [x, [str(h) for h in how]])
    # the number of parameters must match the number of tiles
    for n in (1, 2, 3, 4, 6):
        for m in (2, 3, 5):
            x = dict(op="static", shape=[n, 2], g=["channel", [0], True], x=list(range(2 * n)), S=[1] * m, O=[0] * m, b=8, D=1, noff=False)
            got = observe(x, "granularity", torch.float32, None, None, False)
            ok = len(got) == 2 and isinstance(got[0], list)
            ctx.compare(ok, n == m or n == 1 and False, "parameter-count", [n, m])
    meta(ctx)


def meta(ctx):
    """The fake kernels (used by export and compilation) announce what the real ones produce."""
    from torch._subclasses.fake_tensor import FakeTensorMode
    for dt in (torch.float32, torch.float64, torch.float16):
        for qd in (torch.int8, torch.int32, torch.float32, torch.float64, torch.float16):
            def chain(data, scale, off):
                a = torch.ops.fastforward.quantize_by_tile(data, scale, [1, 4], 4, qd, off)
                b = torch.ops.fastforward.dequantize_by_tile(a, scale, [1, 4], off, dt)
                c, s, o = torch.ops.fastforward.quantize_dynamic_by_tile(data, [1, 2], 4, False, True, qd)
                return [[str(t.dtype), list(t.shape)] for t in (a, b, c)] + [list(s.shape), list(o.shape)]
            args = lambda: (torch.ones(2, 4, dtype=dt), torch.ones(2, dtype=dt), torch.zeros(2, dtype=dt))
            with FakeTensorMode():
                fake = chain(*args())
            ctx.compare(fake, chain(*args()), "fake-kernel", [str(dt), str(qd)])
