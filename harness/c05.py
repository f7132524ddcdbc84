"""C05: shape and copy operations commute with dequantization (spec/QTensorOps.tla)."""
import copy, io, pickle
import torch
import fastforward as ff
from fastforward.quantization import affine
from harness.affine import rand_case, tensor, ints, make_quantizer
from harness.c03 import mk
from vf import world
from vf.world import errname

D = 4


def gran_of(t):
    if not isinstance(t, ff.QuantizedTensor):
        return "plain"
    g = t.quant_args().granularity
    return {"PerTensor": "tensor", "PerChannel": "channel", "PerBlock": "block", "PerTile": "tile"}.get(type(g).__name__, "other")


def value(t):
    d = t.dequantize() if isinstance(t, ff.QuantizedTensor) else t
    if isinstance(d, ff.QuantizedTensor):
        return ["dequantized to a quantized tensor"]
    return [list(t.shape), ints(d, D)] if list(t.shape) == list(d.shape) else ["shape", list(t.shape), list(d.shape)]


def pyindex(items, tensors=False, truth=False):
    out = []
    if truth and [it[0] for it in items].count("new") == 1 and not {"int", "list"} & {it[0] for it in items}:
        truth = True  # a single True is a new dimension as well
    else:
        truth = False
    for it in items:
        if it[0] == "int":
            out.append(it[1])
        elif it[0] == "slice":
            f = lambda v: v[0] if v else None
            out.append(slice(f(it[1]), f(it[2]), it[3] if it[3] != 1 else None))
        elif it[0] == "ell":
            out.append(Ellipsis)
        elif it[0] == "new":
            out.append(True if truth else None)
        else:
            out.append(torch.tensor(it[1]) if tensors else list(it[1]))
    return out[0] if len(out) == 1 else tuple(out)


def build(r):
    data = tensor(r["codes"], 1, r["shape"])
    S, O = tensor(r["S"], D, [-1]), None if r["noff"] else tensor(r["O"], 4, [-1])
    g = mk(r["g"])
    # data that lies on the grid
    ro = torch.round(O) if O is not None else torch.zeros_like(S)
    ctx = affine.static.quantization_context(S, O, g, 6, r.get("dt"))
    if r.get("dt") is not None:
        data = data.to(r["dt"])
    return ctx.attach(data)


def snap(t):
    s = [t.shape, t.raw_data.clone() if isinstance(t, ff.QuantizedTensor) else t.clone()]
    if isinstance(t, ff.QuantizedTensor):
        a = t.quant_args()
        s += [a.scale.clone(), None if a.offset is None else a.offset.clone(), repr(a.granularity), t.dequantize()]
    return s


def same(a, b):
    return len(a) == len(b) and all(torch.equal(x, y) if isinstance(x, torch.Tensor) and isinstance(y, torch.Tensor) else x is y is None or x == y
                                    if not isinstance(x, torch.Tensor) else False for x, y in zip(a, b))


class World:
    def __init__(self, cfg):
        self.regs = [build(r) for r in cfg["regs"]]
        self.cm = ff.strict_quantization(False)
        self.cm.__enter__()

    def close(self):
        self.cm.__exit__(None, None, None)

    def apply(self, e):
        t = self.regs[e["a"] - 1]
        how = e.get("how", 0)
        grans = [gran_of(self.regs[i - 1]) for i in e.get("as", [e["a"]])]
        e["gran"] = next((g for g in grans if g not in ("plain", "tensor")), grans[0])
        e["refused"] = False
        before = [snap(r) for r in self.regs]
        try:
            res = self.do(t, e, how)
        except (NotImplementedError, ValueError, RuntimeError, TypeError, IndexError, AssertionError) as ex:
            e["refused"] = True
            res = None
            err = ex
        keep = all(same(a, snap(r)) for a, r in zip(before, self.regs))
        if e["refused"]:
            return ["refused", keep] if e["gran"] in ("channel", "block", "tile") else ["refused", keep, repr(err)[:200]]
        self.regs += res
        return [[value(r) for r in res], keep]

    def do(self, t, e, how):
        op = e["op"]
        if op == "reshape":
            s = list(e["shape"])
            return [[lambda: t.reshape(s), lambda: t.reshape(*s), lambda: torch.reshape(t, tuple(s))][how % 3]()]
        if op == "view":
            t = t if t.is_contiguous() else t.contiguous()
            s = list(e["shape"])
            other = torch.empty([x for x in s]) if -1 not in s else None
            return [[lambda: t.view(s), lambda: t.view(*s), lambda: t.view_as(other) if other is not None else t.view(torch.Size(s))][how % 3]()]
        if op == "transpose":
            return [[lambda: t.transpose(e["x"], e["y"]), lambda: torch.transpose(t, e["x"], e["y"]), lambda: t.swapaxes(e["x"], e["y"])][how % 3]()]
        if op == "permute":
            return [[lambda: t.permute(*e["perm"]), lambda: torch.permute(t, tuple(e["perm"]))][how % 2]()]
        if op == "flatten":
            return [[lambda: t.flatten(e["x"], e["y"]), lambda: torch.flatten(t, start_dim=e["x"], end_dim=e["y"])][how % 2]()]
        if op == "unsqueeze":
            return [[lambda: t.unsqueeze(e["x"]), lambda: torch.unsqueeze(t, e["x"]), lambda: t.unsqueeze(dim=e["x"])][how % 3]()]
        if op == "squeeze":
            if not e["ds"]:
                return [[lambda: t.squeeze(), lambda: torch.squeeze(t)][how % 2]()]
            return [t.squeeze(e["ds"][0] if len(e["ds"]) == 1 else tuple(e["ds"]))]
        if op == "expand":
            return [[lambda: t.expand(*e["shape"]), lambda: t.expand(list(e["shape"]))][how % 2]()]
        if op == "index":
            return [t[pyindex(e["items"], how % 2 == 1, how % 3 == 1)]]
        if op == "cat":
            ts = [self.regs[i - 1] for i in e["as"]]
            return [[lambda: torch.cat(ts, e["x"]), lambda: torch.cat(tuple(ts), dim=e["x"]), lambda: torch.concat(ts, e["x"])][how % 3]()]
        if op == "split":
            r = [lambda: t.split(e["n"], e["x"]), lambda: torch.split(t, e["n"], dim=e["x"])][how % 2]()
            return list(r)
        if op == "mul":
            n = e["n"]
            r = [lambda: t * n, lambda: torch.mul(t, float(n)), lambda: n * t, lambda: t.mul(n)][how % 4]()
            return [r]
        if op == "topk":
            r = [lambda: torch.topk(t, e["n"], e["x"], e["largest"]), lambda: t.topk(e["n"], dim=e["x"], largest=e["largest"])][how % 2]()
            back = torch.take_along_dim(t, r.indices, dim=e["x"])
            if value(back) != value(r.values):
                return [back, r.values]  # more results than specified: indices disagree with values
            return [r.values]
        if op == "take":
            return [torch.take_along_dim(t, torch.tensor(e["idx"]).reshape(e["shape"]), dim=e["x"])]
        assert op == "copy"
        k = e["how"] if isinstance(e["how"], str) else ["clone", "detach", "contiguous", "deepcopy", "copy", "pickle", "cpu", "to", "torch.clone", "iter", "float"][e["how"] % 11]
        if k == "deepcopy":
            r = copy.deepcopy(t)
        elif k == "copy":
            r = copy.copy(t)
        elif k == "pickle":
            r = pickle.loads(pickle.dumps(t))
        elif k == "to":
            r = t.to("cpu")
        elif k == "torch.clone":
            r = torch.clone(t)
        elif k == "iter":
            r = torch.stack(list(t)) if t.ndim and len(t) else t
        else:
            r = getattr(t, k)()
        if k in ("clone", "deepcopy"):  # independent of the original
            raw = r.raw_data if isinstance(r, ff.QuantizedTensor) else r
            probe = r.clone()
            if isinstance(r, ff.QuantizedTensor) and 0 not in raw.stride():
                with torch.no_grad():
                    raw.add_(1)
                    a = r.quant_args()
                    if isinstance(a.scale, torch.Tensor):
                        a.scale.mul_(2)
                    if isinstance(a.offset, torch.Tensor):
                        a.offset.add_(1)
            r = probe
        return [r]


def reg(rng, big=False):
    while True:
        shape, g, n = rand_case(rng, 36, valid=True)
        if all(s > 0 for s in shape):
            break
    if rng.random() < .35:
        g, n = ["tensor"], 1
    N = torch.Size(shape).numel()
    noff = rng.random() < .4
    return dict(shape=shape, g=g, codes=[rng.randint(-32, 31) for _ in range(N)], S=[rng.choice([1, 2, 3, 5, 7, 11]) for _ in range(n)],
                O=[0] * n if noff else [rng.randint(-30, 30) for _ in range(n)], noff=noff)


def step(rng, regs):
    """A random applicable event on the current registers (list of tensors)."""
    a = rng.randrange(len(regs))
    if rng.random() < .6:
        a = len(regs) - 1
    t = regs[a]
    sh = list(t.shape)
    r = len(sh)
    n = t.numel()
    e = dict(a=a + 1, how=rng.randrange(12))
    dim = lambda k=r: rng.randint(-k, k - 1)
    op = rng.choice(["reshape", "view", "transpose", "permute", "flatten", "unsqueeze", "squeeze", "expand", "index", "index", "index",
                     "cat", "split", "copy", "mul", "topk", "take"])
    if op in ("reshape", "view"):
        if n == 0:
            return None
        s, rest = [], n
        for _ in range(rng.randint(0, 3)):
            d = rng.choice([k for k in range(1, rest + 1) if rest % k == 0])
            s.append(d)
            rest //= d
        s.append(rest)
        if rng.random() < .4:
            s[rng.randrange(len(s))] = -1
        return dict(e, op=op, shape=s)
    if op == "unsqueeze":
        return None if r >= 5 else dict(e, op=op, x=rng.randint(-r - 1, r))
    if op == "copy":
        return dict(e, op=op)
    if op == "mul":
        if any(abs(v) > 5000 for v in ints(t.dequantize() if isinstance(t, ff.QuantizedTensor) else t, D)):
            return None
        return dict(e, op=op, n=rng.choice([-1, 2, -3, 0, 3]))
    if r == 0:
        return None
    if op == "transpose":
        return dict(e, op=op, x=dim(), y=dim())
    if op == "permute":
        p = list(range(r))
        rng.shuffle(p)
        return dict(e, op=op, perm=[x if rng.random() < .7 else x - r for x in p])
    if op == "flatten":
        x, y = sorted((rng.randrange(r), rng.randrange(r)))
        return dict(e, op=op, x=x if rng.random() < .6 else x - r, y=y if rng.random() < .6 else y - r)
    if op == "squeeze":
        return dict(e, op=op, ds=[] if rng.random() < .4 else rng.sample(range(r), rng.randint(1, min(2, r))))
    if op == "expand":
        s = [rng.choice([2, 3]) if x == 1 else rng.choice([x, -1]) for x in sh]
        if rng.random() < .3:
            s = [2] + s
        if torch.Size([x if y == -1 else y for x, y in zip([1] * (len(s) - r) + sh, s)]).numel() > 100:
            return None
        return dict(e, op=op, shape=s)
    if op == "index":
        items, used, lists = [], 0, 0
        k = rng.randint(1, r)
        for d in range(k):
            q = rng.random()
            m = sh[d]
            if q < .3 and m:
                items.append(["int", rng.randint(-m, m - 1)])
            elif q < .42 and m and not lists:
                lists += 1
                items.append(["list", [rng.randint(-m, m - 1) for _ in range(rng.randint(1, 3))]])
            else:
                b = lambda: [] if rng.random() < .3 else [rng.randint(-m - 1, m + 1)]
                items.append(["slice", b(), b(), rng.choice([1, 1, 1, 2, 3])])
        if k < r and rng.random() < .4:  # remaining items count from the end
            cut = rng.randint(0, k)
            tail = [it for it in items[cut:]]
            ok = all((it[0] == "int" and -sh[r - len(tail) + j] <= it[1] < sh[r - len(tail) + j]) or it[0] == "slice" for j, it in enumerate(tail))
            if ok:
                items = items[:cut] + [["ell"]] + tail
        if rng.random() < .2 and not lists and r < 5:
            items.insert(rng.randint(0, len(items)), ["new"])
        return dict(e, op=op, items=items)
    if op == "cat":
        x = dim()
        d = x % r
        fit = [i + 1 for i, o in enumerate(regs) if o.ndim == r and all(o.shape[j] == sh[j] for j in range(r) if j != d)]
        as_ = [a + 1] + [rng.choice(fit) for _ in range(rng.randint(0, 2))]
        if sum(regs[i - 1].numel() for i in as_) > 150:
            return None
        return {**e, "op": op, "as": as_, "x": x}
    if op == "split":
        x = dim()
        return None if sh[x] == 0 else dict(e, op=op, n=rng.randint(1, sh[x]), x=x)
    if op == "topk":
        x = dim()
        return None if sh[x] == 0 else dict(e, op=op, n=rng.randint(1, sh[x]), x=x, largest=rng.random() < .5)
    x = dim()
    if n == 0:
        return None
    ish = list(sh)
    ish[x] = rng.randint(1, 3)
    m = torch.Size(ish).numel()
    return dict(e, op="take", shape=ish, idx=[rng.randrange(sh[x]) for _ in range(m)], x=x)


def random_trace(rng, i):
    regs = [reg(rng)]
    for _ in range(rng.randint(0, 2)):  # partners for concatenation, often with the same or nearly the same parameters
        o = copy.deepcopy(regs[0])
        o["codes"] = [rng.randint(-32, 31) for _ in o["codes"]]
        k = rng.random()
        if k < .25:
            o["noff"], o["O"] = True, [0] * len(o["O"])
        elif k < .5:
            o["noff"], o["O"] = False, [rng.choice([0, 4, 8]) for _ in o["O"]]
        elif k < .65:
            o["S"] = [rng.choice([1, 2]) for _ in o["S"]]
        regs.append(o)
    cfg = dict(regs=regs)
    w = World(cfg)
    events = []
    try:
        for _ in range(rng.randint(1, 6)):
            if len(w.regs) > 14:
                break
            e = step(rng, w.regs)
            if e is None:
                continue
            try:
                out = w.apply(e)
            except Exception as ex:
                e.update(gran="?", refused=False)
                out = errname(ex)
            events.append({**e, "out": out})
            if out[0] == "refused" and len(out) > 2 or out[0] == "err" or any(len(v) != 2 for v in out[0] if out[0] != "refused"):
                break
    finally:
        w.close()
    return dict(id=i, cfg=cfg, events=events)


def run(ctx):
    q = not ctx.thorough
    shapes = "QuickShapes" if q else "FullShapes"
    ctx.model_check("QTensorOpsMC", f"INIT Init\nNEXT Next\nINVARIANTS Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = FALSE Depth = 1 Shapes <- LawShapes\n", workers=8)
    hists = ctx.generate("QTensorOpsMC", f"INIT Init\nNEXT Next\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE Depth = 2 Shapes <- {shapes}\n", workers=8)
    ctx.notes["programs_replayed"] = len(hists)
    grans = [["tensor"], ["channel", [0], True], ["channel", [-1], True], ["channel", [0, 1], False], ["block", [-1], [1], [], True], ["tile", None]]
    for h in hists:
        shape = h[0]
        N = torch.Size(shape).numel()
        for gi, g in enumerate(grans):
            if g[0] == "channel" and len(g[1]) > len(shape):
                continue
            if g[0] == "tile":
                g = ["tile", [1] + shape[1:]]
            n = mk(g).parameter_dimensionality(torch.Size(shape))
            # parameters chosen so that the values are 1..N in every granularity
            S, O = [4] * n, [4 * k * 2 for k in range(n)]
            w = World(dict(regs=[]))
            try:
                data = tensor(list(range(1, N + 1)), 1, shape)
                ro = affine.static.quantization_context(tensor(S, D, [-1]), tensor(O, 4, [-1]), mk(g), 8)
                w.regs = [ro.quantization_fn.quantize(data, ro.quantization_params)]
                good = True
                for j, e in enumerate(h[1:]):
                    e = dict(e)
                    want = e.pop("out")
                    want = [[[v[0], [4 * k for k in v[1]]] for v in want[0]], want[1]]
                    e.setdefault("how", j + gi)
                    try:
                        got = w.apply(e)
                    except Exception as ex:
                        got = errname(ex)
                    if got == ["refused", True] and e["gran"] in ("channel", "block", "tile"):
                        break
                    if not ctx.compare(got, want, f"program:{e['op']}", dict(gran=g, program=h, at=j), _obs_only=True):
                        break
            finally:
                w.close()
            ctx.replayed += 1
    traces = [random_trace(ctx.rng, i) for i in range(ctx.scale(2500, 15000))]
    traces = [t for t in traces if t["events"]]
    ctx.notes["refusals"] = sum(e["refused"] for t in traces for e in t["events"])
    ctx.notes["steps"] = sum(len(t["events"]) for t in traces)
    ctx.validate("QTensorOpsTrace", traces, key=lambda t, i, exp: f"trace:{t['events'][i]['op']}:{t['events'][i]['gran']}", workers=8)
