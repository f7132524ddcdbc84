"""C16: range estimation (spec/Ranges.tla)."""
import math
import torch
import fastforward as ff
from fastforward.quantization import granularity as gr
from fastforward.range_setting import min_error as me, minmax as mm
from fastforward.exceptions import QuantizationError
from vf import world
from vf.world import errname

UNIT = 1 / 16
U = 4096


class Other(ff.nn.Quantizer):
    """A quantizer without range."""
    def quantize(self, data):
        return data + 1000


def gran(g):
    return {"tensor": gr.PerTensor(), "ch0": gr.PerChannel(0), "ch1": gr.PerChannel(1), "blk": gr.PerTile((1, 4)), "last": gr.PerChannel(-1)}[g]


def tensor(g, rows):
    """The tensor whose tiles are the given rows."""
    t = torch.tensor(rows, dtype=torch.float32) * UNIT
    if g == "tensor":
        return t.reshape(2, -1)
    if g == "ch0":
        return t.reshape(len(rows), -1, 2)
    if g in ("ch1", "last"):
        return t.t().contiguous()
    return t.reshape(-1, 8)  # blk: rows of 4, two per line


def make(c):
    if c["kind"] == "stub":
        return ff.nn.QuantizerStub()
    if c["kind"] == "other":
        return Other()
    return ff.nn.LinearQuantizer(c["bits"], symmetric=c["sym"], allow_one_sided=c["one"], granularity=gran(c["gran"]))


def tup(r, k):
    return torch.tensor([p[k] / U * UNIT for p in r])


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.qs = [make(c) for c in cfg["q"]]
        self.nodes = {}
        self.root = torch.nn.Module()
        for i, c in enumerate(cfg["q"]):
            m = self.root
            for part in c["host"]:
                if part not in m._modules:
                    m.add_module(part, torch.nn.Module())
                m = m._modules[part]
            m.add_module(f"q{i}", self.qs[i])
        self.scopes = {}
        self.flags = [[p.requires_grad for p in q.parameters()] for q in self.qs]

    def layers(self, e):
        res = []
        for l in e["layers"]:
            m = self.root
            for part in l:
                m = m._modules[part]
            res.append(m)
        return res[0] if len(res) == 1 and not e["aslist"] else res

    def apply(self, e):
        op = e["op"]
        if op == "setrange":
            self.qs[e["q"] - 1].quantization_range = (tup(e["range"], 0), tup(e["range"], 1))
            return "ok"
        if op == "open":
            kw = dict(skip_unsupported_quantizers=e["skip"])
            if e["est"] == "grid":
                b = self.cfg["bits"]
                mn = torch.tensor([[c["s"] * c["lo"]] for c in e["cands"]]) * UNIT
                mx = torch.tensor([[c["s"] * (c["lo"] + 2 ** b - 1)] for c in e["cands"]]) * UNIT
                kw["search_grid_generator"] = lambda d, s, p, n: (mn.repeat(1, p), mx.repeat(1, p))
                kw["num_candidates"] = e["num"]
                if e["every"] > 1 or e["how"]:
                    kw["update_range_policy"] = lambda est, k: k % e["every"] == 0
                cls = me.mse_grid
            else:
                cls = mm.running_minmax if e["est"] == "running" else mm.smoothed_minmax
                if e["disable"] or e["how"]:
                    kw["disable_quantization"] = e["disable"]
                if e["est"] == "smoothed":
                    kw["gamma"] = e["gamma"] / 4
            est = ff.estimate_ranges(self.layers(e), cls(**kw)) if e["how"] else ff.estimate_ranges(self.layers(e), cls, **kw)
            try:
                est.__enter__()
            except TypeError:
                return "TypeError"
            self.scopes[e["id"]] = est
            return "ok"
        if op == "close":
            cm = self.scopes.pop(e["id"])
            if e["exc"]:
                x = world.boom()
                try:
                    if cm.__exit__(type(x), x, None):
                        return "swallowed"
                except type(x) as y:
                    if y is not x:
                        return "other exception"
            else:
                cm.__exit__(None, None, None)
            return "ok"
        # batch
        q, c = self.qs[e["q"] - 1], self.cfg["q"][e["q"] - 1]
        x = tensor(c["gran"], e["data"])
        if e["flat"] and c["gran"] == "tensor":
            x = x.flatten()
        if e["grad"]:
            x.requires_grad_(True)
            x = x * 1
        copy = x.detach().clone()
        with torch.set_grad_enabled(not e["nograd"]):
            try:
                y = q(x)
            except (ValueError, QuantizationError):
                return "uninitialized"
            if torch.is_grad_enabled() is e["nograd"]:
                return "gradient mode changed"
        if not torch.equal(copy, x.detach()):
            return "data changed"
        if e["grad"] and not e["nograd"]:
            z = y.dequantize() if isinstance(y, ff.quantized_tensor.QuantizedTensor) else y
            if not z.requires_grad or torch.autograd.grad(z.sum(), x, allow_unused=True)[0] is None:
                return "gradient lost"
        if isinstance(y, ff.quantized_tensor.QuantizedTensor):
            with torch.no_grad():
                want = q.quantize(x)
            return "quantized" if torch.equal(want.dequantize(), y.dequantize()) else "quantized differently"
        if c["kind"] == "other":
            return "other" if torch.equal(y, x + 1000) else "data"
        return ("stub" if c["kind"] == "stub" else "data") if torch.equal(y, x) else "changed"

    def check(self, view):
        """Quantizers not as the specification says."""
        bad = []
        for i, (q, c, v) in enumerate(zip(self.qs, self.cfg["q"], view)):
            if bool(list(q.overrides)) != v["active"]:
                bad.append([i + 1, "overrides", v["active"]])
            if c["kind"] != "lin":
                continue
            if [p.requires_grad for p in q.parameters()] != self.flags[i]:
                bad.append([i + 1, "requires_grad"])
            if not v["range"]:
                if q.quantization_range[0] is not None:
                    bad.append([i + 1, "has a range"])
                continue
            got = params(q)
            n = max(len(r) for r in v["range"])
            ok = False
            if n == 1:
                want = make(c)
                want.quantization_range = (tup([r[0] for r in v["range"]], 0), tup([r[0] for r in v["range"]], 1))
                ok = got == params(want)
            else:  # several candidates are equally good; tiles are independent
                ok = got is not None and len(got[0]) == len(v["range"])
                for t, r in enumerate(v["range"]):
                    opts = []
                    for p in r:
                        want = make({**c, "gran": "tensor"})
                        want.quantization_range = (tup([p], 0), tup([p], 1))
                        opts.append([x[0] for x in params(want)])
                    ok = ok and [x[t] for x in got] in opts
            if not ok:
                bad.append([i + 1, "range", v["range"], got])
        return bad


def params(q):
    if q.quantization_range[0] is None:
        return None
    s, o = q.scale.detach(), q.offset
    return [s.tolist(), [0.0] * len(s) if o is None else o.detach().tolist()]


def gen(rng, i):
    grid = rng.random() < .45
    bits = rng.choice([2, 3, 4])
    qs = []
    hosts = [[], ["a"], ["a", "b"], ["c"]]
    for k in range(rng.randint(1, 4) if rng.random() < .95 else rng.randint(9, 20)):
        kind = "lin" if rng.random() < .8 else rng.choice(["other", "stub"])
        g = rng.choice(["tensor", "ch0", "ch1", "blk", "last"])
        qs.append(dict(kind=kind, bits=bits, gran=g, tiles=1 if g == "tensor" else rng.choice([2, 4]) if g == "blk" else rng.choice([1, 2, 3]), sym=False if grid else rng.random() < .5, one=rng.random() < .6, host=rng.choice(hosts)))
    n = len(qs)
    cfg = dict(q=qs, bits=bits)
    dirty = set()
    has = set()
    members = {}
    evs, sid, opened = [], 0, []
    batches = {}

    def setrange(k):
        c = qs[k - 1]
        if c["kind"] != "lin":
            return
        s = rng.choice([1, 2, 4])
        r = []
        for _ in range(c["tiles"]):
            lo = -(2 ** (bits - 1)) if c["sym"] else rng.randint(-2 ** bits, 0)
            s_ = s if not grid else rng.choice([1, 2, 4])
            r.append([lo * s_ * U, (lo + 2 ** bits - 1) * s_ * U])
        evs.append(dict(op="setrange", q=k, range=r))
        has.add(k)
        dirty.discard(k)

    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < .08:
            k = rng.randint(1, n)
            setrange(k)
        elif r < .3 or not opened and r < .6:
            paths = sorted({tuple(c["host"][:j]) for c in qs for j in range(len(c["host"]) + 1)})
            ls = [list(rng.choice(paths)) for _ in range(rng.choice([1, 1, 2]))]
            direct = rng.random() < .25
            if direct:
                k = rng.randint(1, n)
                ls = [qs[k - 1]["host"] + [f"q{k - 1}"]]
                mem = [k]
            else:
                mem = [k for k in range(1, n + 1) if any(qs[k - 1]["host"][:len(l)] == l for l in ls)]
            for k in mem:
                if k in dirty:
                    setrange(k)
            est = rng.choice(["running", "smoothed", "grid"]) if grid else rng.choice(["running", "smoothed"])
            skip = rng.random() < .6
            every = 1
            if est == "grid" and all(k in has for k in mem if qs[k - 1]["kind"] == "lin") and rng.random() < .4:
                every = 2
            cands, seen = [], set()
            for _ in range(rng.randint(2, 7) if est == "grid" else 0):
                s, lo = rng.choice([1, 2, 3, 4, 8]), rng.randint(-2 ** bits, 0)
                if (s, lo) not in seen:
                    seen.add((s, lo))
                    cands.append(dict(s=s, lo=lo))
            num = len(cands) if rng.random() < .5 else rng.choice([len(cands), len(cands) + 3, max(1, len(cands) - 1)])
            sid += 1
            evs.append(dict(op="open", id=sid, layers=ls, members=mem, est=est, gamma=rng.choice([1, 2, 3, 4]), disable=est != "grid" and rng.random() < .3, every=every, cands=cands, num=num, skip=skip,
                            aslist=rng.random() < .5, how=rng.random() < .5))
            if skip or all(qs[k - 1]["kind"] != "other" for k in mem):
                opened.append(sid)
                members[sid] = [k for k in mem if qs[k - 1]["kind"] == "lin"]
        elif r < .42 and opened:
            k = opened.pop(rng.randrange(len(opened)) if rng.random() < .3 else -1)
            evs.append(dict(op="close", id=k, exc=rng.random() < .4))
        else:
            k = rng.randint(1, n)
            if batches.get(k, 0) >= 6:  # exactness of repeated smoothing
                continue
            batches[k] = batches.get(k, 0) + 1
            c = qs[k - 1]
            m = rng.choice([2, 4, 8]) if c["gran"] != "blk" else 4
            m = max(m, 2)
            if grid:
                m = 4
            hi = rng.choice([4, 20, 40])
            evs.append(dict(op="batch", q=k, data=[[rng.randint(-hi, hi) if rng.random() < .8 else abs(rng.randint(-hi, hi)) for _ in range(m)] for _ in range(c["tiles"])],
                            grad=rng.random() < .3, nograd=rng.random() < .3, flat=rng.random() < .3))
            if any(k in members.get(s, []) for s in opened):
                dirty.add(k)
                has.add(k)
    return dict(cfg=cfg, events=evs)


def default_grid(ctx):
    """The chosen range is one of the search grid's, with the least total error of all of them; the grid stays in its bounds."""
    rng = ctx.rng
    gen_ = torch.Generator().manual_seed(rng.randrange(1 << 30))
    cases = []
    for _ in range(ctx.scale(120, 900)):
        n = rng.choice([2, 3, 5, 7, 8, 10, 12, 16, 20, 31])
        a, r = rng.choice([0., .25, .5]), rng.choice([1., 1.25, .75])
        q = ff.nn.LinearQuantizer(rng.choice([2, 3, 4]), symmetric=rng.random() < .4, granularity=rng.choice([gr.PerTensor(), gr.PerChannel(0)]))
        batches = [torch.randn(3, 8, generator=gen_) * rng.choice([.5, 2, 5]) for _ in range(rng.randint(1, 3))]
        if rng.random() < .25:
            batches = [b.abs() + rng.choice([0, 1]) for b in batches]
        elif rng.random() < .4:  # tiles of different sign
            batches = [b.abs() * torch.tensor([[1.], [-1.], [rng.choice([1., -1.])]]) for b in batches]
        grid = me.uniform_search_grid(absolute_margin=a, relative_margin=r)
        # fresh quantizer with the same settings evaluates every candidate
        tiles = 1 if isinstance(q.granularity, gr.PerTensor) else 3
        rows = lambda x: x.reshape(tiles, -1)
        mn, mx = grid(rows(batches[0]), q.symmetric, tiles, n)
        lo, hi = r * rows(batches[0]).min(1).values - a, r * rows(batches[0]).max(1).values + a
        big = torch.maximum(lo.abs(), hi.abs())
        inside = bool((mn >= torch.minimum(-big if q.symmetric else torch.minimum(lo, torch.zeros(())), torch.zeros(())) - 1e-5).all() and (mx <= (big if q.symmetric else hi.clamp(min=0)) + 1e-5).all())
        # the widest candidate spans the data, extended by the margins
        wide = (-big, big) if q.symmetric else (lo, hi)
        if (lo >= 0).all():
            wide = (torch.zeros(tiles), hi)
        spans = bool((((mn - wide[0]).abs() < 1e-4) & ((mx - wide[1]).abs() < 1e-4)).any(0).all())
        err = torch.zeros(mn.shape, dtype=torch.float64)
        for b in batches:
            for k in range(mn.shape[0]):
                o = q.operator_for_range(mn[k], mx[k], b.shape)
                err[k] += ((rows(o(b).dequantize()) - rows(b)).double() ** 2).mean(1)
        with ff.estimate_ranges(q, me.mse_grid, num_candidates=n, search_grid_generator=grid):
            for b in batches:
                q(b)
        total = torch.zeros(tiles, dtype=torch.float64)
        with torch.no_grad():
            for b in batches:
                total += ((rows(q(b).dequantize()) - rows(b)).double() ** 2).mean(1)
        ok = bool((total <= err.min(0).values * (1 + 1e-4) + 1e-7).all())
        ctx.compare([ok, inside, spans, mn.shape == mx.shape and mn.shape[1] == tiles and 1 <= mn.shape[0] <= n], [True, True, True, True], "default-grid", dict(n=n, a=a, r=r, sym=q.symmetric, total=total.tolist(), best=err.min(0).values.tolist(), shape=list(mn.shape)))


def arguments(ctx):
    q = ff.nn.LinearQuantizer(3)
    try:
        with ff.estimate_ranges(q, mm.running_minmax(), disable_quantization=True):
            pass
        got = "accepted"
    except ValueError:
        got = "refused"
    ctx.compare([got, len(list(q.overrides))], ["refused", 0], "arguments", "arguments for an estimator that is an instance")


def run(ctx):
    ctx.model_check("RangesMC", f"INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(4, 5)}\n", workers=8)
    cases = [gen(ctx.rng, i) for i in range(ctx.scale(1500, 12000))]
    for c, exp in zip(cases, ctx.evaluate("RangesOracle", cases)):
        w = World(c["cfg"])
        for i, (e, x) in enumerate(zip(c["events"], exp)):
            try:
                out = w.apply(e)
            except Exception as ex:
                out = errname(ex) + [str(ex)[:200]]
            bad = w.check(x["view"])
            if not ctx.compare([out, bad], [x["out"], []], f"{e['op']}:{e.get('est', '')}", dict(cfg=c["cfg"], events=c["events"][:i + 1]), _obs_only=True):
                break
        ctx.replayed += 1
        for cm in w.scopes.values():
            cm.__exit__(None, None, None)
    default_grid(ctx)
    arguments(ctx)
