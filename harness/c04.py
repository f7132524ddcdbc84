"""C04: quantization parameters for ranges, range setting, dynamic quantization (spec/Affine.tla)."""
import math
import torch
import fastforward as ff
from fastforward.quantization import affine
from fastforward.quantization.affine import dynamic
from vf.world import errname
from harness.affine import rand_case, tensor, ints
from harness.c03 import mk

REL = 1e-5


def near(a, num, den, unit):
    want = num / den / unit
    return math.isclose(a, want, rel_tol=REL, abs_tol=1e-12)


def check_params(scale, offset, e, x):
    """Compare parameters with the rationals the specification gives."""
    kind, S, O = e[0], e[1], e[2]
    sc = scale.detach().reshape(-1).double().tolist()
    if len(sc) != len(S):
        return ["number of scales", len(sc)]
    if any(not (v > 0 and math.isfinite(v)) for v in sc):
        return ["scale not positive", sc]
    for v, (p, q) in zip(sc, S):
        if p == 0:
            if v > 1e-5:
                return ["scale of an empty range", v]
        elif not near(v, p, q, x["D"]):
            return ["scale", v, p / q / x["D"]]
    if kind == "symmetric":
        if offset is not None and bool((offset != 0).any()):
            return ["offset of symmetric parameters", offset.tolist()]
        return None
    if offset is None:
        return ["no offset"]
    for v, (p, q), (sp, _) in zip(offset.detach().reshape(-1).double().tolist(), O, S):
        if not math.isfinite(v):
            return ["offset not finite", v]
        if sp and abs(v - p / q) > max(1e-3, 2 * REL * abs(p / q)):
            return ["offset", v, p / q]
    return None


def range_case(rng):
    n = rng.randint(1, 5)
    D = rng.choice([1, 2, 8, 64])
    mx = rng.choice([1, 10, 1000])
    mode = rng.random()
    lo, hi = [], []
    for _ in range(n):
        a, b = sorted((rng.randint(-mx, mx), rng.randint(-mx, mx)))
        if mode < .35:
            a, b = sorted((abs(a), abs(b)))
        elif mode < .45:
            a = 0
            b = abs(b)
        elif mode < .5:
            a, b = sorted((-abs(a), -abs(b)))
        if rng.random() < .1:
            b = a
        if rng.random() < .05:
            a = b = 0
        lo.append(a)
        hi.append(b)
    return dict(op="range", lo=lo, hi=hi, b=rng.choice([2, 3, 4, 8]), sym=rng.random() < .5, allow=rng.random() < .5, D=D)


def covers(q, x):
    """Every value of the range is represented at most half a step away."""
    for t, (lo, hi) in enumerate(zip(x["lo"], x["hi"])):
        for k in range(9):
            v = (lo + (hi - lo) * k / 8) / x["D"]
            data = torch.zeros(len(x["lo"]))
            data[t] = v
            step = float(q.scale.reshape(-1)[t])
            d = float(q(data).dequantize()[t])
            if abs(d - v) > step * (.5 + 1e-3) + abs(v) * 1e-5:
                return ["not covered", t, v, d, step]
    return None


def ranges(ctx):
    cases = [range_case(ctx.rng) for _ in range(ctx.scale(1500, 15000))]
    exp = ctx.evaluate("AffineOracle", cases)
    for i, (x, e) in enumerate(zip(cases, exp)):
        lo, hi = tensor(x["lo"], x["D"], [-1]), tensor(x["hi"], x["D"], [-1])
        s, o = affine.parameters_for_range(lo, hi, x["b"], x["sym"], x["allow"])
        ctx.compare(check_params(s, o, e, x), None, "parameters", x)
        # through a quantizer, from a fresh or an already initialized one
        q = ff.nn.LinearQuantizer(x["b"], symmetric=x["sym"], allow_one_sided=x["allow"],
                                  granularity=ff.PerChannel(0), quantized_dtype=None)
        n = len(x["lo"])
        try:
            if i % 2:
                q.quantization_range = (torch.full((n,), -3.0 if i % 3 else 1.0), torch.full((n,), 5.0))
            q.quantization_range = (lo, hi) if n > 1 or i % 5 else (lo.item(), hi.item())
            got = check_params(q.scale, q.offset, e, x)
            if got is None:
                a, b = q.quantization_range
                a, b = a.reshape(-1).tolist(), b.reshape(-1).tolist()
                for t, ((lp, lq), (hp, hq)) in enumerate(e[3]):
                    if e[1][t][0] == 0:
                        continue
                    wl, wh = lp / lq / x["D"], hp / hq / x["D"]
                    tol = 1e-4 * max(abs(wl), abs(wh), 1e-9)
                    if abs(a[t] - wl) > tol or abs(b[t] - wh) > tol:
                        got = ["range read back", a[t], b[t], wl, wh]
            if got is None and i % 3 == 0:
                got = covers(q, x)
            if got is None:
                op = q.operator_for_range(lo, hi, torch.Size([n]))
                d = (lo + hi) / 2
                if not torch.equal(op(d).dequantize(), q(d).dequantize()):
                    got = ["operator_for_range differs from the quantizer"]
        except Exception as ex:
            got = errname(ex)
        ctx.compare(got, None, "range-setting", x)


def dyn_case(rng):
    shape, g, n = rand_case(rng, 40, valid=True)
    N = torch.Size(shape).numel()
    mx = rng.choice([3, 40, 1000])
    k = rng.random()
    xs = [rng.randint(-mx, mx) for _ in range(N)]
    if k < .3:
        xs = [abs(v) for v in xs]
    elif k < .4:
        xs = [-abs(v) for v in xs]
    elif k < .45:
        xs = [0] * N
    return dict(op="dynamic", shape=shape, g=g, x=xs, b=rng.choice([2, 3, 4, 8]), sym=rng.random() < .5, allow=rng.random() < .5, D=rng.choice([1, 4, 64]))


def dynamics(ctx):
    cases = [dyn_case(ctx.rng) for _ in range(ctx.scale(1500, 12000))]
    exp = ctx.evaluate("AffineOracle", cases)
    decided = 0
    for i, (x, e) in enumerate(zip(cases, exp)):
        data = tensor(x["x"], x["D"], x["shape"])
        g = mk(x["g"])
        try:
            if i % 2:
                qz = ff.nn.DynamicLinearQuantizer(x["b"], granularity=g, symmetric=x["sym"], allow_one_sided=x["allow"])
                qz(torch.randn(x["shape"]))  # parameters never come from earlier data
                q = qz(data)
            elif i % 4:
                c = dynamic.quantization_context(g, x["b"], x["sym"], x["allow"])
                q = c.quantization_fn.quantize(data, c.quantization_params)
            else:
                q = dynamic.quantize_per_granularity(data, g, x["b"], x["sym"], x["allow"])
            a = q.quant_args()
            got = check_params(a.scale, None, ["symmetric", e[1], []], x)
            off = [0.0] * len(e[1]) if a.offset is None else a.offset.reshape(-1).tolist()
            raw, deq = q.raw_data.reshape(-1).tolist(), q.dequantize().reshape(-1)
            sc = a.scale.reshape(-1)
            if got is None:
                for k, c in enumerate(e[4]):
                    if c:
                        decided += 1
                        if raw[k] not in c:
                            got = ["code", k, raw[k], c]
                            break
            if got is None:
                for t, r in enumerate(e[3]):
                    if e[1][t][0] and abs(off[t] - r) > (1.01 if not all(e[4]) else 0):
                        got = ["offset", t, off[t], r]
            lim = 2 ** (x["b"] - 1)
            if got is None and not all(-lim <= v <= lim - 1 and v == int(v) for v in raw):
                got = ["codes off the grid", raw]
            if got is None:  # every observed value is represented up to half a step
                step = float(sc.max())
                err = float((deq - data.reshape(-1)).abs().max())
                if err > step * 1.001 + 1e-5 * float(data.abs().max()):
                    got = ["not represented", err, step]
        except Exception as ex:
            got = errname(ex)
        ctx.compare(got, None, "dynamic", x)
    ctx.notes["dynamic_codes_decided"] = decided


def setting(ctx):
    """Malformed ranges are refused, leaving the quantizer as it was."""
    for bad in [1.0, (1.0,), (1.0, 2.0, 3.0), (torch.zeros(3), torch.ones(3))]:
        q = ff.nn.LinearQuantizer(4, symmetric=False, granularity=ff.PerChannel(0))
        q.quantization_range = (torch.tensor([-1.0, -2.0]), torch.tensor([1.0, 4.0]))
        before = [q.scale.detach().clone(), q.offset.detach().clone()]
        try:
            q.quantization_range = bad
            got = "accepted"
        except Exception:
            got = "refused"
        ctx.compare([got, torch.equal(q.scale, before[0]), torch.equal(q.offset, before[1])], ["refused", True, True], "bad-range", repr(bad))


def run(ctx):
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Ranges\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = FALSE XMax = 1 SMax = 1 OMax = 1 BMax = 8\n"
    ctx.model_check("AffineMC", cfg, workers=8)
    ranges(ctx)
    dynamics(ctx)
    setting(ctx)
