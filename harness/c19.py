"""C19: GPTQ (spec/GPTQ.tla)."""
import torch
import fastforward as ff
from fastforward.quantization import granularity as gr
from fastforward.quantization.gptq import gptq
from vf.world import errname

U = 2 ** 14


def make_gran(g, rb, cb):
    return {"tensor": lambda: gr.PerTensor(), "ch0": lambda: gr.PerChannel(0), "ch1": lambda: gr.PerChannel(1), "ch01": lambda: gr.PerChannel((0, 1)),
            "tile": lambda: gr.PerTile((rb, cb)), "blk": lambda: gr.PerBlock(block_dims=(1,), block_sizes=(cb,), per_channel_dims=(0,)),
            "blkrow": lambda: gr.PerBlock(block_dims=(0, 1), block_sizes=(rb, cb))}[g]()


def divs(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def data_for(rng, c):
    """Features (columns of the flattened weight) x samples with the Hessian whose inverse's factor is D L."""
    n, order, dead = c["cols"], c["order"], set(c["dead"])
    L = torch.tensor(c["l"], dtype=torch.float64) / 4
    live = [p for p in range(n) if order[p] - 1 not in dead]
    L = L[live][:, live]
    k = len(live)
    D = torch.tensor([rng.choice([0.25, 0.5]) for _ in live], dtype=torch.float64)
    Li = torch.linalg.inv(L)
    if c["actorder"]:
        prev = 1.0
        for j in reversed(range(k)):
            rest = sum((Li[j, m] / D[m]) ** 2 for m in range(j + 1, k))
            want = max(prev * 1.2 + 0.3, float(rest) + 0.5)
            D[j] = 1 / (want - float(rest)) ** 0.5
            prev = want
    Ui = torch.linalg.inv(D[:, None] * L)
    H = Ui @ Ui.T
    pd = c["damp"]
    delta = pd * (float(torch.diag(H).sum()) + (n - k)) / (n + pd * k)
    H = H - delta * torch.eye(k, dtype=torch.float64)
    ev = torch.linalg.eigvalsh(H) if k else torch.ones(1)
    if k and (ev.min() < 2e-3 or ev.max() / ev.min() > 3e4):
        return None
    if c["actorder"] and k and torch.diag(H).min() < 1.1:
        return None
    g = torch.Generator().manual_seed(rng.randrange(10 ** 6))
    m = k + rng.randint(0, 4)  # samples
    rot = torch.linalg.qr(torch.randn(m, m, dtype=torch.float64, generator=g))[0][:k] if k else torch.zeros(0, m, dtype=torch.float64)
    m = max(m, 1)
    X = torch.zeros(n, m, dtype=torch.float64)
    if k:
        X[[order[p] - 1 for p in live]] = (torch.linalg.cholesky(H) @ rot) * ((m + c["zeros"]) / 2) ** 0.5
    return X, m


def gen(rng, i):
    conv = i % 5 == 4
    if conv:
        kh, kw, ch = rng.choice([(1, 1, 4), (2, 2, 1), (2, 2, 2), (1, 3, 2), (2, 1, 3)])
        cols = kh * kw * ch
    else:
        kh = kw = 0
        cols = rng.choice([2, 3, 4, 5, 6, 8, 8, 9, 12])
        ch = cols
    rows = rng.choice([1, 2, 3, 4, 4, 6])
    g = rng.choice(["tensor", "ch0"]) if conv else rng.choice(["tensor", "ch0", "ch0", "ch1", "ch01", "tile", "blk", "blkrow"])
    rb, cb = {"tensor": (rows, cols), "ch0": (1, cols), "ch1": (rows, 1), "ch01": (1, 1)}.get(g, (rng.choice(divs(rows)), rng.choice(divs(cols))))
    if g == "blk":
        rb = 1
    sym = rng.random() < 0.6
    while not sym and rb * cb == 1:
        if g in ("ch01", "blk") or rows * cols == 1:
            sym = True
        elif g in ("tensor", "ch0"):
            cols = ch = 4
            cb = 4
            kh = kw = 1
        else:
            sym = True
    actorder = rng.random() < 0.35
    order = list(range(1, cols + 1))
    dead = rng.sample(range(cols), rng.choice([0, 0, 0, 1, min(2, cols)])) if rng.random() < 0.6 else []
    if actorder:
        rng.shuffle(order)
        order = [o for o in order if o - 1 not in dead] + sorted(o for o in order if o - 1 in dead)
    style = rng.choice(["zero", "dense", "dense", "sparse", "next"])
    l = [[4 if j == k else 0 for k in range(cols)] for j in range(cols)]
    for j in range(cols):
        for k in range(j + 1, cols):
            if order[j] - 1 in dead or order[k] - 1 in dead or style == "zero" or (style == "sparse" and rng.random() < 0.7) or (style == "next" and k != j + 1):
                continue
            l[j][k] = rng.choice([-3, -2, -1, 1, 2, 3]) if style != "dense" else rng.choice([-2, -1, 0, 1, 2])
    lohi = rng.choice([(-2, 2), (-2, 2), (0.25, 2), (-1, 3)])
    w = [[round(rng.uniform(*lohi) * U) for _ in range(cols)] for _ in range(rows)]
    return dict(rows=rows, cols=cols, order=order, w=w, l=l, bits=rng.choice([2, 2, 3, 4, 4, 8]), sym=sym, one=sym and rng.random() < 0.5, rb=rb, cb=cb,
                recompute=g in ("tile", "blk", "blkrow") and cols // cb > 1 and not actorder, tol=20,
                # not used by the specification
                gran=g, conv=conv, kernel=[kh, kw, ch], actorder=actorder, dead=dead, damp=rng.choice([0.01, 0.01, 0.002, 0.05]),
                zeros=0, B=rng.choice([1, 2, 3, 5, 7, cols - 1 or 1, cols, 128]), prior=rng.random() < 0.3, f64=rng.random() < 0.15,
                order_default=rng.random() < 0.5)


def conv_batches(rng, X, m, c):
    kh, kw, ch = c["kernel"]
    dil = rng.choice([1, 1, 2])
    pad = 0
    batches = []
    cols = X.t().reshape(m, ch, kh, kw).float()
    if dil == 2:
        H, W = (kh - 1) * 2 + 1, (kw - 1) * 2 + 1
        x = torch.full((m, ch, H, W), 7.0)
        x[:, :, ::2, ::2] = cols
        stride = 3
        imgs = x
    else:
        stride = (kh, kw)
        per = rng.choice([p for p in (1, 2, 3) if m % p == 0])
        imgs = cols.reshape(m // per, per, ch, kh, kw).permute(0, 2, 3, 1, 4).reshape(m // per, ch, kh, per * kw)
    return imgs, dict(stride=stride, dilation=dil, padding=pad)


def split(rng, x):
    res, i = [], 0
    while i < len(x):
        k = rng.randint(1, len(x) - i)
        res.append(x[i:i + k])
        i += k
    return res


class Probe(RuntimeError):
    pass


def run_case(rng, c, X, m):
    kw = {}
    if c["conv"]:
        imgs, kw = conv_batches(rng, X, m, c)
        kh, kwid, ch = c["kernel"]
        mod = ff.nn.QuantizedConv2d(ch, c["rows"], (kh, kwid), bias=rng.random() < 0.5, **kw)
        batches = split(rng, imgs)
    else:
        mod = ff.nn.QuantizedLinear(c["cols"], c["rows"], bias=rng.random() < 0.5)
        batches = split(rng, X.t().contiguous().float())
        out = []
        for b in batches:
            r = rng.random()
            if r < 0.4:
                out.append(b[None])
            elif r < 0.6:
                out.append(b[:, None])
            elif r < 0.7 and len(b) % 2 == 0:
                out.append(b.reshape(2, -1, c["cols"]))
            elif r < 0.8:
                out.append(b[None].transpose(0, 1).contiguous().transpose(0, 1))
            else:
                out.append(b)
        batches = out
    dt = torch.float64 if c["f64"] else torch.float32
    w0 = torch.tensor(c["w"], dtype=torch.float64) / U
    mod = mod.to(dt)
    with torch.no_grad():
        mod.weight.copy_(w0.reshape(mod.weight.shape))
    q = ff.nn.LinearQuantizer(c["bits"], symmetric=c["sym"], allow_one_sided=c["one"], granularity=make_gran(c["gran"], c["rb"], c["cb"]))
    mod.weight_quantizer = q
    shape2 = (c["rows"], c["cols"])
    if c["prior"]:
        n = (c["rows"] // c["rb"]) * (c["cols"] // c["cb"])
        q.quantization_range = (torch.full((n,), -9.0), torch.full((n,), 11.0))
    p, bias = mod.weight, None if mod.bias is None else mod.bias.detach().clone()
    before = [b.clone() for b in batches]
    p.requires_grad_(rng.random() < 0.7)
    req = p.requires_grad
    entries = [((b,), {}) for b in batches]
    dataset = (e for e in entries) if rng.random() < 0.3 else entries
    extra = {} if c["damp"] == 0.01 and c["order_default"] else dict(perc_damp=c["damp"])
    if c["actorder"] or not c["order_default"]:
        extra["actorder"] = c["actorder"]
    gptq(mod, dataset, **({} if c["B"] == 128 else dict(block_size=c["B"])), **extra)
    side = []
    if mod.weight is not p or p.requires_grad != req or p.dtype != dt or tuple(p.shape) != tuple(w0.reshape(p.shape).shape):
        side.append("weight parameter")
    if bias is not None and not torch.equal(bias, mod.bias):
        side.append("bias")
    if any(not torch.equal(a, b) for a, b in zip(before, batches)):
        side.append("activations")
    if mod.weight_quantizer is not q or list(q.overrides):
        side.append("quantizer")
    if q.num_bits != c["bits"] or q.symmetric != c["sym"]:
        side.append("settings")
    ntr, ntc = c["rows"] // c["rb"], c["cols"] // c["cb"]
    s = q.scale.detach().double().reshape(ntr, ntc)
    o = torch.zeros(ntr, ntc) if q.offset is None else q.offset.detach().double().round().reshape(ntr, ntc)
    Q = p.detach().double().reshape(shape2)
    if not torch.isfinite(Q).all() or Q.abs().max() > 1e3:
        return dict(side=side + ["not finite"])
    se = s.repeat_interleave(c["rb"], 0).repeat_interleave(c["cb"], 1)
    oe = o.repeat_interleave(c["rb"], 0).repeat_interleave(c["cb"], 1)
    again = q(p).dequantize().detach()
    # one place accommodates rounding at the boundary between two equally near values
    if not torch.allclose(again.double(), p.detach().double(), atol=1e-5, rtol=1e-5):
        side.append("not a fixed point of the quantizer")
    return dict(side=side, q=(Q * U).round().long().tolist(), code=(Q / se - oe).round().long().tolist(),
                scale=(s * 2 ** 20).round().long().tolist(), off=o.long().tolist())


def refusals(ctx):
    def case(mod, q, name, want, **kw):
        mod.weight_quantizer = q
        w = mod.weight.detach().clone()
        x = torch.randn(2, 4) if isinstance(mod, ff.nn.QuantizedLinear) else torch.randn(1, mod.in_channels, 4, 4)
        try:
            gptq(mod, [((x,), {})], **kw)
            got = "accepted"
        except Exception as ex:
            got = type(ex).__name__
        ctx.compare([got in want, torch.equal(w, mod.weight)], [True, True], f"refusal:{name}", f"{name}: {got}")

    lin = lambda: ff.nn.QuantizedLinear(4, 4)
    conv = lambda **k: ff.nn.QuantizedConv2d(4, 4, 1, **k)
    q = lambda g: ff.nn.LinearQuantizer(4, granularity=g)
    case(lin(), ff.nn.QuantizerStub(), "stub", ["ValueError"])
    case(lin(), q(gr.PerBlock(block_dims=(1,), block_sizes=(3,), strict_blocks=False)), "loose blocks", ["ValueError"])
    for g in (gr.PerChannel(1), gr.PerChannel((0, 1)), gr.PerTile((1, 4, 1, 1)), gr.PerBlock(block_dims=(1,), block_sizes=(2,), per_channel_dims=(0,))):
        case(conv(), q(g), f"convolution {type(g).__name__}", ["NotImplementedError", "ValueError"])


def run(ctx):
    mc = lambda n, m, lv: ctx.model_check("GPTQMC", f"INIT MCInit\nNEXT MCNext\nINVARIANTS BlockFree Relation Rounding\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n} WMax = {m} Neg = {lv}\n", workers=8)
    mc(3, ctx.scale(2, 4), "TRUE")
    mc(4, 1, ctx.scale("FALSE", "TRUE"))
    cases, skipped = [], 0
    i = 0
    want = ctx.scale(900, 6000)
    while len(cases) < want:
        i += 1
        c = gen(ctx.rng, i)
        d = data_for(ctx.rng, c)
        if d is None:
            skipped += 1
            continue
        try:
            obs = run_case(ctx.rng, c, *d)
        except Exception as ex:
            ctx.crash("gptq", ex, c)
            continue
        cases.append((c, obs))
    ctx.notes["generated"] = dict(cases=len(cases), ill_conditioned=skipped)
    for c, obs in cases:
        ctx.compare(obs["side"], [], "effects:" + ",".join(obs["side"]), c, _obs_only=True)
    ok = [(c, o) for c, o in cases if "q" in o]
    for (c, o), exp in zip(ok, ctx.evaluate("GPTQOracle", [dict(c, **{k: o[k] for k in ("q", "code", "scale", "off")}) for c, o in ok])):
        good = dict(grid=True, params=True, nearest=[True] * c["cols"])
        ctx.compare(exp, good, f"gptq:{c['gran']}:{'actorder' if c['actorder'] else 'plain'}", dict(c, **o))
    refusals(ctx)
