"""C10: per-module strictness (spec/StrictModules.tla)."""
import torch
import fastforward as ff
from fastforward.quantization.strict_quantization import strict_quantization_for_module
from vf import world


class M(torch.nn.Module):
    def __init__(self, w, body):
        super().__init__()
        self._w, self.body = [w], body

    def forward(self, d):
        w = self._w[0]
        for a in self.body:
            if a[0] == "see":
                w.log.append(ff.get_strict_quantization())
            elif a[0] == "set":
                ff.set_strict_quantization(a[1])
            elif a[0] == "raise":
                raise world.boom(error_only=True)
            elif d > 0:
                try:
                    w.mods[a[1] - 1](d - 1)
                except Exception as ex:
                    if not world.is_boom(ex):
                        raise
                    if a[0] == "call":
                        raise
        return torch.zeros(())


class World:
    def __init__(self, cfg):
        self.f0 = ff.get_strict_quantization()
        ff.set_strict_quantization(cfg["flag"])
        self.cfg, self.log, self.handles = cfg, [], {}
        self.mods = [M(self, b) for b in cfg["body"]]

    def close(self):
        ff.set_strict_quantization(self.f0)

    def apply(self, e):
        op = e["op"]
        if op == "attach":
            h = strict_quantization_for_module(e["v"], *[self.mods[m - 1] for m in e["ms"]])
            if e.get("ctx"):
                h.__enter__()
            self.handles[e["h"]] = (h, e.get("ctx"))
        elif op == "remove":
            h, ctx = self.handles[e["h"]]
            h.__exit__(None, None, None) if ctx else h.remove()
        elif op == "flag":
            ff.set_strict_quantization(e["v"])
        else:
            self.log.clear()
            exc = False
            try:
                self.mods[e["m"] - 1](self.cfg["depth"])
            except Exception as ex:
                if not world.is_boom(ex):
                    raise
                exc = True
            return [list(self.log), exc, ff.get_strict_quantization()]
        return [ff.get_strict_quantization()]


def rand_trace(rng, i):
    n = rng.randint(1, 4)
    def body():
        b = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .35: b.append(["see"])
            elif r < .85: b.append([rng.choice(["call", "call", "try"]), rng.randint(1, n)])
            elif r < .93: b.append(["set", rng.random() < .5])
            else: b.append(["raise"])
        return b + [["see"]]
    bodies = [body() for _ in range(n)]
    # bound the number of calls
    while sum(1 for b in bodies for a in b if a[0] in ("call", "try")) > 5:
        for b in bodies:
            for k, a in enumerate(b):
                if a[0] in ("call", "try") and rng.random() < .3:
                    b[k] = ["see"]
    cfg = dict(flag=rng.random() < .5, body=bodies, depth=rng.randint(1, 4))
    evs, h = [], 0
    live = []
    for _ in range(rng.randint(2, 10)):
        r = rng.random()
        if r < .4:
            h += 1
            ms = [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
            evs.append(dict(op="attach", h=h, v=rng.random() < .5, ms=ms, ctx=rng.random() < .5))
            live.append(h)
        elif r < .55 and live:
            x = live.pop(rng.randrange(len(live)))
            evs.append(dict(op="remove", h=x))
        elif r < .65:
            evs.append(dict(op="flag", v=rng.random() < .5))
        else:
            evs.append(dict(op="run", m=rng.randint(1, n)))
    evs.append(dict(op="run", m=1))
    return dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs))


def run(ctx):
    hs = ctx.generate("StrictModulesMC", f"INIT Init\nNEXT Next\nINVARIANTS Restored Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(3, 4)} Gen = TRUE\n")
    ctx.notes["exhaustive_histories"] = len(hs)
    for cfg, h in hs:
        world.replay(ctx, World, cfg, [h], lambda e, g, x: f"gen:{e['op']}")
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1500, 12000))]
    ctx.validate("StrictModulesTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
