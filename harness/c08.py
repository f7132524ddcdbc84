"""C08: scoped global flags (spec/Flags.tla)."""
import contextlib
import fastforward as ff
from fastforward import flags
from vf import world

NAMES = ["strict_quantization", "export_mode", "compiled_quant_funcs", "sdpa_torch_fallback_allowed"]
GET = [getattr(flags, "get_" + n) for n in NAMES]
SET = [getattr(flags, "set_" + n) for n in NAMES]
CTX = [getattr(flags, n) for n in NAMES]


def values():
    return [g() for g in GET]


class World:
    def __init__(self, cfg):
        self.initial = values()
        for s, v in zip(SET, cfg["init"]):
            s(v)
        self.stack = []

    def close(self):
        for s, v in zip(SET, self.initial):
            s(v)

    def apply(self, e):
        op = e["op"]
        if op == "set":
            SET[e["f"] - 1](e["v"])
            return [values()]
        if op == "enter":
            make = SET if e.get("via") == "setter" else CTX
            cm = make[e["f"] - 1](e["v"])
            cm.__enter__()
            self.stack.append(cm)
            return [values()]
        if op == "exit":
            exc = world.boom() if e.get("raises") else None
            for _ in range(e["n"]):
                cm = self.stack.pop()
                if cm.__exit__(type(exc) if exc else None, exc, None) and exc:
                    return ["swallowed"]
            return [values()]
        log = []

        def body(depth):
            log.append(values())
            for f, v in e["inner"]:
                SET[f - 1](v)
            if depth > 1:
                if e.get("raises"):
                    with contextlib.suppress(*world.BOOMS):
                        fn(depth - 1)
                else:
                    assert fn(depth - 1) == "result"
            log.append(values())
            if e.get("raises"):
                raise world.boom()
            return "result"

        fn = body
        for f, v in reversed(e["decs"]):
            fn = flags.context(CTX[f - 1], v)(fn)
        if e.get("raises"):
            try:
                fn(e["depth"])
                return ["swallowed"]
            except tuple(world.BOOMS):
                pass
        else:
            assert fn(e["depth"]) == "result"
        return log + [values()]


def rand_trace(rng, i):
    cfg = dict(init=[rng.random() < 0.5 for _ in NAMES])
    evs, open_ = [], 0
    for _ in range(rng.randint(3, 30)):
        r = rng.random()
        f, v = rng.randint(1, 4), rng.random() < 0.5
        if r < 0.25:
            evs.append(dict(op="set", f=f, v=v))
        elif r < 0.55:
            evs.append(dict(op="enter", f=f, v=v, via=rng.choice(["ctx", "setter"])))
            open_ += 1
        elif r < 0.8 and open_:
            n = rng.randint(1, min(3, open_))
            open_ -= n
            evs.append(dict(op="exit", n=n, raises=rng.random() < 0.5))
        else:
            evs.append(dict(op="call", decs=[[rng.randint(1, 4), rng.random() < .5] for _ in range(rng.randint(1, 3))],
                            inner=[[rng.randint(1, 4), rng.random() < .5] for _ in range(rng.randint(0, 2))],
                            depth=rng.randint(1, 3), raises=rng.random() < .4))
    return dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs))


def native(ctx):
    """`with` statements as written by users: nested, exceptions propagate, both APIs, top-level re-exports."""
    rng = ctx.rng
    for i in range(ctx.scale(300, 3000)):
        w = World(dict(init=[rng.random() < .5 for _ in NAMES]))
        log, exp = [], []
        try:
            def block(depth, cur):
                """Recursive random block; cur is the flag vector the specification holds here."""
                for _ in range(rng.randint(1, 3)):
                    f, v = rng.randrange(4), rng.random() < .5
                    k = rng.random()
                    if k < .3:
                        SET[f](v); cur = [*cur[:f], v, *cur[f + 1:]]
                    elif depth < 4:
                        with (CTX if rng.random() < .5 else SET)[f](v):
                            inner = [*cur[:f], v, *cur[f + 1:]]
                            log.append(values()); exp.append(inner)
                            after, exc = block(depth + 1, inner)
                            cur = [*after[:f], cur[f], *after[f + 1:]]
                            if exc == "boom":
                                pending[0] = cur
                                # the restore happens while the exception propagates
                                raise world.boom()
                            # a scope that swallowed the exception would fall through to here
                            log.append("left"); exp.append("left" if exc is None else "boom")
                    log.append(values()); exp.append(cur)
                if rng.random() < .15:
                    return cur, "boom"
                return cur, None

            pending = [None]
            start = values()
            try:
                block(0, start)
            except tuple(world.BOOMS):
                log.append("boom"); exp.append("boom")
        finally:
            w.close()
        ctx.compare(log, exp, "native-with", f"seed {ctx.seed} program {i}")


def run(ctx):
    hs = ctx.generate("FlagsMC", f"INIT Init\nNEXT Next\nINVARIANTS Restores Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(4, 5)} Gen = TRUE\n")
    ctx.notes["exhaustive_histories"] = len(hs)
    world.replay(ctx, World, dict(init=[True, False, False, False]), hs, lambda e, g, x: f"gen:{e['op']}")
    # the same behaviours left by exceptions
    hs2 = [[{**e, "raises": True} if e["op"] in ("exit", "call") else e for e in h] for h in hs[:: ctx.scale(4, 1)]]
    world.replay(ctx, World, dict(init=[True, False, False, False]), hs2, lambda e, g, x: f"gen-raise:{e['op']}")
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1500, 12000))]
    ctx.validate("FlagsTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
    native(ctx)
    same = [ff.strict_quantization is flags.strict_quantization, ff.get_strict_quantization is flags.get_strict_quantization]
    ctx.compare(same, [True, True], "reexport", "top-level names")
