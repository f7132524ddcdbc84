"""C22: schedule passes never change results or drop optimization steps (spec/Schedule.tla)."""
from harness import schedules as sc

EXTRA = dict(inkinds=[[90, 0]], compute="cuda:0", storage="cpu")


def trace(i, cfg):
    return dict(id=i, cfg=cfg, events=sc.World(cfg).run())


def key(t, i, x):
    return f"{t['id'][:3]}:{t['events'][i]['op']}:{x if isinstance(x, str) else ''}"


def generated(ctx, off):
    n = 3
    cfgs = ctx.generate("ScheduleMC", f"INIT Init\nNEXT Next\nINVARIANTS Emit Progress Result\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE N = {n}\n")
    cfgs.sort(key=str)
    for i, c in enumerate(cfgs):
        c.update(EXTRA, off=off, devs=[["cpu"], ["cuda:0"], ["cuda:1", "cpu", "cuda:0"]][i % 3], styles=[[n["label"], j % 4] for j, n in enumerate(c["g"]["nodes"], i)])
    traces = [trace(f"gen{i}", c) for i, c in enumerate(cfgs[:: ctx.scale(3, 1)])]
    ctx.validate("ScheduleTrace", traces, key=key)


def run(ctx, off=False):
    generated(ctx, off)
    traces = [trace(f"rand{i}", sc.rand_cfg(ctx.rng, off)) for i in range(ctx.scale(2000, 16000))]
    ev = [e for t in traces for e in t["events"]]
    ctx.notes["random programs"] = dict(total=len(traces), restricted=sum(t["cfg"]["opt"] and bool(t["cfg"]["deleg"]) for t in traces), lifetimes=sum(t["cfg"]["life"] for t in traces),
                                        calls=sum(len(e["runs"]) for e in ev if "runs" in e), optimizations=sum(e["op"] == "optimize" for e in ev), deletions=sum(e["op"] == "delete" for e in ev))
    ctx.validate("ScheduleTrace", traces, key=key)
