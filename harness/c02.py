"""C02: gradients through quantization (spec/Affine.tla)."""
import torch
import fastforward as ff
from fastforward.quantization import affine
from fastforward.quantization.affine import dynamic
from fastforward.quantization.ste import ste
from harness.affine import rand_case, tensor, ints, make_quantizer
from harness.c03 import mk
from harness.c04 import dyn_case
from vf.world import errname


def observe(x, api, dtype, pshape, qdtype, perm):
    D, shape = x["D"], x["shape"]
    data = tensor(x["x"], D, shape, dtype, perm).requires_grad_()
    g = mk(x["g"])
    S = tensor(x["S"], D, [-1], dtype)
    O = None if x["noff"] else tensor(x["O"], 4, [-1], dtype)
    if pshape and api == "function":
        S = S.reshape(-1, 1)
        O = None if O is None else O.reshape(-1, 1)
    grad = tensor(x["G"], 1, shape, dtype)
    try:
        if api == "quantizer":
            q = make_quantizer(x["b"], g, S, O, qdtype, dtype)
            out = q(data).dequantize()
            S, O = q.scale, q.offset
        elif api == "export":
            q = make_quantizer(x["b"], g, S, O, qdtype, dtype)
            with ff.export_mode(True):
                out = q(data)
            S, O = q.scale, q.offset
        elif api == "implicit":  # dequantized by an ordinary operation
            S.requires_grad_()
            O is not None and O.requires_grad_()
            with ff.strict_quantization(False):
                out = affine.quantize_per_granularity(data, S, O, g, x["b"], qdtype) * 1
        else:
            S.requires_grad_()
            O is not None and O.requires_grad_()
            out = affine.quantize_per_granularity(data, S, O, g, x["b"], qdtype).dequantize()
        out.backward(grad)
    except Exception as e:
        return errname(e)
    if S.grad is None or S.grad.shape != S.shape or (O is not None and (O.grad is None or O.grad.shape != O.shape)):
        return ["parameter gradient missing or misshapen"]
    sg = (S.grad.detach().to(torch.float64).reshape(-1) * torch.tensor(x["S"], dtype=torch.float64))
    return [ints(data.grad), ints(sg), None if O is None else ints(O.grad, D)]


def gen(rng):
    shape, g, n = rand_case(rng, 36, valid=True)
    N = torch.Size(shape).numel()
    b = rng.choice([1, 2, 3, 4, 8])
    D = rng.choice([1, 4, 16])
    S = [rng.choice([1, 2, 4, 8]) for _ in range(n)]
    none = rng.random() < .3
    O = [0] * n if none else [rng.randint(-20, 20) for _ in range(n)]
    xs = []
    for _ in range(N):
        s, o = rng.choice(S), rng.choice(O) // 4
        if rng.random() < .6:
            v = s * (o + rng.choice([-2 ** (b - 1), 2 ** (b - 1) - 1])) + rng.randint(-s, s)
        else:
            v = rng.randint(-60, 60)
        xs.append(v)
    x = dict(op="grad", shape=shape, g=g, x=xs, S=S, O=O, b=b, D=D, noff=none, G=[rng.randint(-7, 7) for _ in range(N)])
    dtype = rng.choice([torch.float32, torch.float32, torch.float64])
    perm = list(range(len(shape)))
    rng.shuffle(perm)
    return x, (rng.choice(["function", "function", "quantizer", "implicit", "export"]), dtype, rng.random() < .4,
               rng.choice([None, None, torch.float32, torch.float64]), perm if rng.random() < .4 else None)


def run(ctx):
    cfg = ("INIT Init\nNEXT Next\nINVARIANTS Inv Rounding\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = FALSE "
           "XMax = 24 SMax = 5 OMax = 9 BMax = 4\n")
    ctx.model_check("AffineMC", cfg, workers=8)
    cases = [gen(ctx.rng) for _ in range(ctx.scale(2500, 15000))]
    exp = ctx.evaluate("AffineOracle", [c[0] for c in cases])
    for (x, how), e in zip(cases, exp):
        if x["noff"]:
            e = [e[0], e[1], None]
        ctx.compare(observe(x, *how), e, "grad:" + how[0], [x, [str(h) for h in how]])
    sweep(ctx)
    dynamics(ctx)
    surrogates(ctx)


def sweep(ctx):
    """Every element around both clip bounds, one parameter each, all alone in its tile."""
    ins = []
    for b in (1, 2, 3):
        for S in (1, 2, 4):
            for O in ((0, 2, 6, -2, -5) if ctx.thorough else (0, 2, -5)):
                lim = S * (2 ** (b - 1) + 3)
                xs = list(range(-lim, lim + 1))
                n = len(xs)
                ins.append(dict(op="grad", shape=[n], g=["channel", [0], True], x=xs, S=[S] * n, O=[O] * n, b=b, D=4, noff=False, G=[3] * n))
    exp = ctx.evaluate("AffineOracle", ins)
    for x, e in zip(ins, exp):
        ctx.compare(observe(x, "function", torch.float32, False, None, None), e, "grad-sweep", x)


def dynamics(ctx):
    """With parameters determined from the data itself: the gradient of every element inside the clip range."""
    cases = [dyn_case(ctx.rng) for _ in range(ctx.scale(400, 4000))]
    exp = ctx.evaluate("AffineOracle", cases)
    decided = 0
    for i, (x, e) in enumerate(zip(cases, exp)):
        data = tensor(x["x"], x["D"], x["shape"]).requires_grad_()
        g, N = mk(x["g"]), len(x["x"])
        G = [ctx.rng.randint(-9, 9) for _ in range(N)]
        try:
            if i % 2:
                q = ff.nn.DynamicLinearQuantizer(x["b"], granularity=g, symmetric=x["sym"], allow_one_sided=x["allow"])(data)
            else:
                q = dynamic.quantize_per_granularity(data, g, x["b"], x["sym"], x["allow"])
            q.dequantize().backward(tensor(G, 1, x["shape"]))
            lim = 2 ** (x["b"] - 1)
            inside = [bool(c) and min(c) > -lim and max(c) < lim - 1 for c in e[4]]
            decided += sum(inside)
            got = [v for v, k in zip(data.grad.reshape(-1).tolist(), inside) if k]
        except Exception as ex:
            got = errname(ex)
        ctx.compare(got, [v for v, k in zip(G, inside) if k], "dynamic-grad", x)
    ctx.notes["dynamic_gradients_decided"] = decided


def surrogates(ctx):
    """Any function of unchanged shape wrapped as straight-through: its value, and the gradient of the identity."""
    fns = dict(round=torch.round, sign=torch.sign, scaled=lambda x, k=1: torch.floor(x * k), zero=torch.zeros_like)
    for name, f in fns.items():
        for _ in range(ctx.scale(10, 60)):
            shape, _g, _n = rand_case(ctx.rng, 24, valid=True)
            N = torch.Size(shape).numel()
            x = tensor([ctx.rng.randint(-99, 99) for _ in range(N)], 8, shape).requires_grad_()
            G = tensor([ctx.rng.randint(-9, 9) for _ in range(N)], 1, shape)
            args = (ctx.rng.randint(1, 5),) if name == "scaled" else ()
            out = ste(f)(x * 3, *args)
            out.backward(G)
            ctx.compare([torch.equal(out, f(x.detach() * 3, *args)), ints(x.grad)], [True, ints(G * 3)], "surrogate:" + name, shape)
    try:
        got = list(ste(torch.sum)(torch.ones(3)).shape)
    except RuntimeError:
        got = "refused"
    ctx.compare(got, "refused", "surrogate-shape", [3])
