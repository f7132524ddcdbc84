"""Driving the real code through histories of events."""
from __future__ import annotations


import itertools

# Ways a block can be left: ordinary errors, errors with a meaning to the interpreter, and interrupts.
BOOMS = [type("Boom" + b.__name__, (b,), {"boom": True})
         for b in (Exception, BaseException, KeyError, KeyboardInterrupt, ValueError, GeneratorExit, StopIteration, SystemExit, RuntimeError, AttributeError)]
_cycle, _cycle_e = itertools.cycle(BOOMS), itertools.cycle([b for b in BOOMS if issubclass(b, Exception)])


def boom(error_only=False):
    """A fresh exception of the next kind."""
    return next(_cycle_e if error_only else _cycle)("boom")


def is_boom(ex):
    return getattr(ex, "boom", False)


def errname(e: BaseException) -> list:
    return ["err", type(e).__name__]


def drive(make_world, cfg, events, choose=None):
    """Run a history on a fresh world, returning the events with observations."""
    w = make_world(cfg)
    try:
        res = []
        for e in events:
            e = {k: v for k, v in e.items() if k != "out"}
            try:
                out = w.apply(e)
            except BaseException as ex:  # an unexpected exception is itself an observation
                if not isinstance(ex, Exception) and not is_boom(ex):
                    raise
                out = errname(ex)
            res.append({**e, "out": out})
        return res
    finally:
        close = getattr(w, "close", None)
        if close:
            close()


def replay(ctx, make_world, cfg, histories, key):
    """Replay behaviours generated by TLC; compare every observation."""
    for h in histories:
        ctx.replayed += 1
        got = drive(make_world, cfg, h)
        for i, (g, e) in enumerate(zip(got, h)):
            if not ctx.compare(g["out"], e["out"], key(e, g["out"], e["out"]), dict(cfg=cfg, history=h, at=i), _obs_only=True):
                break
    if histories and len(ctx.samples) < 2:
        ctx.samples.append(dict(generated_behaviour=histories[len(histories) // 2]))
