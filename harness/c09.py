"""C09: quantizer overrides and disable/enable scopes (spec/Overrides.tla)."""
import contextlib, copy
import torch
import fastforward as ff
from vf import world

LOG = []


class Q(ff.nn.Quantizer):
    def quantize(self, data):
        LOG.append(0)
        return 2 * data + 1


def mk(kind, fid, k, kw=False):
    def f(ctx, nxt, args, kwargs):
        (x,) = args + tuple(kwargs.values())
        LOG.append(fid)
        if kw:
            return body(x, lambda v: nxt(data=v))
        return body(x, nxt)

    def body(x, nxt):
        if kind == "block":
            return x + k
        if kind == "wrap":
            return 3 * nxt(x + 1) + k
        return nxt(x) + nxt(x + k)
    return f


def burn(limit):
    """Use up handles until the next one is numbered just below `limit`."""
    while limit:
        with Q().register_override(mk("block", 0, 0)) as h:
            if h.handle_id >= limit - 4:
                return


class World:
    def __init__(self, cfg):
        self.flag0 = ff.get_strict_quantization()
        ff.set_strict_quantization(cfg["strict"])
        self.qs = [Q() for _ in range(cfg["n"])]
        self.models = []
        for j, m in enumerate(cfg["models"]):
            mod = torch.nn.Module()
            for a, i in enumerate(m):
                holder = torch.nn.Sequential() if (a + j) % 2 else torch.nn.Module()
                holder.add_module("quant", self.qs[i - 1])
                mod.add_module(f"layer{a}", holder)
                if a == 0:  # shared location
                    mod.add_module("again", self.qs[i - 1])
            self.models.append(mod)
        self.owners, self.made = {}, {}
        burn(cfg.get("burn", 0))
        self.handles, self.fns, self.nid, self.scopes, self.shared = {}, {}, 0, [], []

    def close(self):
        while self.scopes:
            with contextlib.suppress(Exception):
                self.scopes.pop().__exit__(None, None, None)
        ff.set_strict_quantization(self.flag0)

    def obs(self):
        res = []
        for q in self.qs:
            LOG.clear()
            v = q(torch.tensor(5))
            res.append([int(v), list(LOG)])
        return [res, ff.get_strict_quantization()]

    def apply(self, e):
        op = e["op"]
        if op == "reg":
            self.nid += 1
            fn = self.made.setdefault(e["fn"], mk(e["kind"], e["fn"], e["k"], e.get("kw", False)))
            self.fns[self.nid] = fn
            self.owners[self.nid] = e["q"]
            self.handles[self.nid] = self.qs[e["q"] - 1].register_override(fn)
        elif op == "rem":
            h = self.handles[e["id"]]
            how = e.get("how", "handle")
            if e["q"] != self.owner(e["id"]):
                r = self.qs[e["q"] - 1].remove_override(h.handle_id)
            elif how == "handle":
                r = h.remove()
            elif how == "id":
                r = self.qs[e["q"] - 1].remove_override(h.handle_id)
            else:
                before = list(self.qs[e["q"] - 1].overrides)
                with h:
                    pass
                after = list(self.qs[e["q"] - 1].overrides)
                r = self.fns[e["id"]] if len(after) < len(before) else None
            return self.obs() + ["none" if r is None else ("fn" if r is self.fns[e["id"]] else "other")]
        elif op == "copy":
            self.qs.append(copy.deepcopy(self.qs[e["q"] - 1]))
        elif op in ("disable", "enable"):
            f = ff.disable_quantization if op == "disable" else ff.enable_quantization
            cm = f(self.models[e["m"] - 1])
            cm.__enter__()
            if op == "disable":
                self.nid += len(set(map(id, self.model_quantizers(e["m"] - 1))))
            self.scopes.append(cm)
        elif op == "exit":
            for _ in range(e["n"]):
                cm = self.scopes.pop()
                if e.get("raises"):
                    ex = world.boom()
                    try:
                        raise ex
                    except type(ex) as b:
                        try:
                            if cm.__exit__(type(b), b, b.__traceback__):
                                return ["swallowed"]
                        except type(ex):
                            pass
                else:
                    cm.__exit__(None, None, None)
        elif op == "attach":
            o = ff.overrides.DisableQuantizationOverride()
            targets = [self.qs[i - 1] for i in e["qs"]]
            if len(targets) == 1 and e.get("single"):
                o.attach_to(targets[0])
            elif e.get("collection"):
                holder = torch.nn.Module()
                for a, t in enumerate(targets):
                    holder.add_module(f"a{a}", t)
                o.attach_to(ff.find_quantizers(holder, "**"))
            else:
                o.attach_to(targets)
            self.nid += len(targets)
            self.shared.append(o)
        elif op == "detach":
            self.shared[e["a"] - 1].detach()
        elif op == "toggle":
            o = self.shared[e["a"] - 1]
            o.enable_quantization() if e["v"] else o.disable_quantization()
        elif op == "scoped":
            o = self.shared[e["a"] - 1]
            cm = o.enable_quantization(e["v"]) if e.get("arg") else (o.enable_quantization() if e["v"] else o.disable_quantization())
            cm.__enter__()
            self.scopes.append(cm)
        elif op == "strict":
            ff.set_strict_quantization(e["v"])
        return self.obs()

    def owner(self, oid):
        return self.owners[oid]

    def model_quantizers(self, m):
        return list(dict.fromkeys(q for _, q in ff.nn.quantized_module.named_quantizers(self.models[m])))


def rand_trace(rng, i):
    n = rng.choice([2, 2, 3, 3, 6])
    models = [sorted(rng.sample(range(1, n + 1), rng.randint(1, n))) for _ in range(2)]
    cfg = dict(n=n, strict=rng.random() < .5, models=models)
    made, one = [], i < 4 or rng.random() < .3
    if i < 4:
        cfg["burn"] = 10 ** (i + 1)
    evs, nid, regs, nq, scopes, sh = [], 0, [], n, 0, 0
    for t in range(rng.randint(12 if i < 4 else 3, 22)):
        r = rng.random() * (.2 if i < 4 and t < 8 else 1)
        if r < .25:
            nid += 1
            q = 1 if one else rng.randint(1, nq)
            ev = dict(op="reg", q=q, kind=rng.choice(["wrap", "wrap", "twice", "block"]), k=rng.randint(1, 9), fn=len(made) + 1, kw=rng.random() < .2)
            if made and rng.random() < .25:
                ev = {**rng.choice(made), "q": q}
            else:
                made.append(ev)
            evs.append(ev)
            regs.append((q, nid))
        elif r < .4 and regs:
            q, oid = rng.choice(regs)
            q2 = q if rng.random() < .8 else rng.randint(1, nq)
            evs.append(dict(op="rem", q=q2, id=oid, how=rng.choice(["handle", "handle", "id", "with"])))
        elif r < .47 and nq < 7:
            evs.append(dict(op="copy", q=rng.randint(1, nq)))
            nq += 1
        elif r < .58:
            m = rng.randint(1, 2)
            evs.append(dict(op="disable", m=m))
            nid += len(models[m - 1]); scopes += 1
        elif r < .66:
            evs.append(dict(op="enable", m=rng.randint(1, 2))); scopes += 1
        elif r < .82 and scopes:
            k = rng.randint(1, min(2, scopes)); scopes -= k
            evs.append(dict(op="exit", n=k, raises=rng.random() < .5))
        elif r < .86:
            qs = rng.sample(range(1, nq + 1), rng.randint(1, nq))
            evs.append(dict(op="attach", qs=qs, single=rng.random() < .5, collection=rng.random() < .5)); nid += len(qs); sh += 1
        elif r < .9 and sh:
            evs.append(dict(op="detach", a=rng.randint(1, sh)))
        elif r < .93 and sh:
            evs.append(dict(op="toggle", a=rng.randint(1, sh), v=rng.random() < .6))
        elif r < .96 and sh:
            evs.append(dict(op="scoped", a=rng.randint(1, sh), v=rng.random() < .6, arg=rng.random() < .5)); scopes += 1
        else:
            evs.append(dict(op="strict", v=rng.random() < .5))
    return dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs))


def stubs(ctx):
    """Disabling acts on real quantizers of a quantized model; stubs need nothing, removed machinery leaves no trace."""
    m = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.ReLU())
    ff.quantize_model(m)
    m[0].weight_quantizer = ff.nn.LinearQuantizer(4)
    m[0].weight_quantizer.quantization_range = (-1.0, 1.0)
    x = torch.ones(1, 2)
    with torch.no_grad():
        base = torch.nn.functional.linear(x, m[0].weight, m[0].bias).relu()
    got = []
    try:
        with ff.disable_quantization(m):
            got.append(bool(torch.equal(m(x), base)))
            raise world.boom()
    except tuple(world.BOOMS):
        pass
    got.append(len(list(m[0].weight_quantizer.overrides)))
    got.append(isinstance(m[0].weight_quantizer(m[0].weight), ff.QuantizedTensor))
    ctx.compare(got, [True, 0, True], "disable-model", "disable_quantization on a quantized Sequential")


def run(ctx):
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1200, 10000))]
    L = ctx.scale(4, 5)
    hs = ctx.generate("OverridesMC", f"INIT Init\nNEXT Next\nINVARIANTS NoOverrideNoEffect Distinct ScopesClosed InnermostDisable Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {L} Gen = TRUE\n")
    ctx.notes["exhaustive_histories"] = len(hs)
    cfg = dict(n=2, strict=True, models=[[1, 2], [2]])
    world.replay(ctx, World, cfg, hs, lambda e, g, x: f"gen:{e['op']}")
    hs2 = [[{**e, "raises": True} if e["op"] == "exit" else e for e in h] for h in hs if any(e["op"] == "exit" for e in h)]
    world.replay(ctx, World, cfg, hs2, lambda e, g, x: f"gen-raise:{e['op']}")
    ctx.validate("OverridesTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
    stubs(ctx)
