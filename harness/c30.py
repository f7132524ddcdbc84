"""C30: a traced graph computes the model (spec/TraceModel.tla)."""
import multiprocessing
import random
import warnings

import fastforward as ff
import torch

from fastforward._orchestration.trace import trace
from vf import models, world

warnings.filterwarnings("ignore")


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.objs = models.build(cfg["mods"], cfg["src"], cfg["w"])
        self.graph = None

    @property
    def model(self):
        return self.objs[0]

    def given(self, e):
        """Inputs, and how they are given."""
        ts = [models.tensor(v, e["n"]) for v in e["ins"]]
        if e["same"]:
            ts = [ts[e["ins"].index(v)] for v in e["ins"]]
        kw = {f"p{i}": ts[i] for i in e["kw"]}
        return ts[: len(ts) - len(kw)], kw

    def apply(self, e):
        return getattr(self, "do_" + e["op"])(e)

    def do_trace(self, e):
        args, kw = self.given(e)
        before = {k: (id(v), v.detach().clone()) for k, v in self.model.named_parameters(remove_duplicate=False)}
        mods = [(k, id(m)) for k, m in self.model.named_modules(remove_duplicate=False)]
        training = [m.training for m in self.model.modules()]
        try:
            self.graph = trace(self.model, *args, **kw)
        except Exception as ex:
            if self.cfg["mixed"]:
                return ["refused", []]
            return world.errname(ex)
        after = dict(self.model.named_parameters(remove_duplicate=False))
        if list(before) != list(after) or any(id(after[k]) != i or not torch.equal(after[k], v) for k, (i, v) in before.items()) or mods != [(k, id(m)) for k, m in self.model.named_modules(remove_duplicate=False)]:
            return ["model changed", []]
        if training != [m.training for m in self.model.modules()] or any(m._forward_hooks for m in self.model.modules()):
            return ["mode changed", []]
        if trace(self.model, *args, **kw) is not self.graph:
            return ["not reused", []]
        targets = [n.target for n in self.graph._nodes.values()]
        return ["ok", [sum(t is o for t in targets) for o in self.objs[1:]] if e["count"] else []]

    def do_run(self, e):
        args, kw = self.given(e)
        with ff.strict_quantization(False):
            return models.view(self.graph(*args, **kw))

    def do_mode(self, e):
        if len(e["ms"]) == sum(d["k"] == "comp" for d in self.cfg["mods"]):
            self.model.train(bool(e["v"]))
        else:
            for m in e["ms"]:
                self.objs[m - 1].training = bool(e["v"])
        return ["ok"]

    def do_set(self, e):
        m = self.objs[e["m"] - 1]
        if e["how"] == "inplace":
            with torch.no_grad():
                m.w.fill_(e["w"])
                m.b.fill_(e["b"])
        elif e["how"] == "state":
            m.load_state_dict(dict(w=torch.tensor(float(e["w"])), b=torch.tensor(float(e["b"]))), strict=self.cfg["mods"][e["m"] - 1]["k"] != "quant")
        elif e["how"] == "param":
            m.w, m.b = models.param(e["w"]), models.param(e["b"])
        else:  # another module takes its place
            new = models.BUILD[self.cfg["mods"][e["m"] - 1]["k"]](e["w"], e["b"])
            for p in list(self.model.modules()):
                for k, c in list(p._modules.items()):
                    if c is m:
                        setattr(p, k, new)
            self.objs[e["m"] - 1] = new
        return ["ok"]


def rand_trace(seed):
    rng = random.Random(seed)
    modes = rng.random() < .3
    g = models.Gen(rng, mixed=.4 if rng.random() < .15 else 0., modes=modes, extra=["quant"] * 3 if rng.random() < .3 else [])
    cfg = g.cfg()
    cfg["src"] = [g.source(m + 1) if d["k"] == "comp" else "" for m, d in enumerate(g.mods)]
    cfg["mixed"] = g.mixed
    n_in = g.mods[0]["n"]
    leaves = [i + 1 for i, d in enumerate(g.mods) if d["k"] != "comp"]

    def given(n):
        ins = [rng.randint(0, 40) for _ in range(n_in)]
        if rng.random() < .2:
            ins = [ins[0]] * n_in
        k = rng.choice([0, 0, 1, n_in])
        kw = list(range(n_in - k, n_in)) if k else []
        rng.shuffle(kw)
        return dict(ins=ins, n=n, kw=kw, same=rng.random() < .3)

    n, evs = 1, [dict(op="trace", count=not g.mixed, **given(1))]
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < .5:
            evs.append(dict(op="run", **given(n)))
        elif r < .7 and modes:  # the graph is that of the mode at the time of tracing
            comps = [i + 1 for i, d in enumerate(g.mods) if d["k"] == "comp"]
            evs.append(dict(op="mode", ms=comps if rng.random() < .4 else rng.sample(comps, rng.randint(1, len(comps))), v=rng.randint(0, 1)))
            evs.append(dict(op="trace", count=not g.mixed, **given(n)))
            evs.append(dict(op="run", **given(n)))
        elif r < .85 or g.mixed:
            how = "inplace" if g.mixed else rng.choice(["inplace", "state", "param", "swap"])
            evs.append(dict(op="set", m=rng.choice(leaves), w=rng.randint(1, 9), b=rng.randint(0, 9), how=how))
            if how == "swap":
                evs.append(dict(op="trace", count=True, **given(n)))
            evs.append(dict(op="run", **given(n)))
        else:
            n = 3 - n
            evs.append(dict(op="trace", count=True, **given(n)))
            evs.append(dict(op="run", **given(n)))
    out = world.drive(World, cfg, evs)
    if out[0]["out"][0] == "refused":  # not supported: a module called with differing structures
        out = []
    return dict(id=f"rand{seed}", cfg=cfg, events=out)


def pool_map(f, xs, procs=8):
    torch.set_num_threads(1)
    with multiprocessing.get_context("fork").Pool(procs) as p:
        return p.map(f, xs, chunksize=8)


def from_behaviour(h):
    """A generated program and history."""
    cfg = h["cfg"]
    cfg["src"] = [models.plain_source(cfg["mods"], m + 1) if d["k"] == "comp" else "" for m, d in enumerate(cfg["mods"])]
    cfg["mixed"] = False
    return dict(cfg=cfg, got=world.drive(World, cfg, h["events"]), events=h["events"])


def run(ctx):
    ctx.model_check("TraceModelMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(2, 3)} Gen = FALSE\n", workers=8)
    hs = ctx.generate("TraceModelMC", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 2 Gen = TRUE\n", workers=8)
    if not ctx.thorough:
        hs = ctx.rng.sample(hs, min(len(hs), 500))
    for r in pool_map(from_behaviour, hs):
        ctx.replayed += 1
        for i, (g, e) in enumerate(zip(r["got"], r["events"])):
            if not ctx.compare(g["out"], e["out"], f"replay:{e['op']}", dict(cfg=r["cfg"], history=r["events"], at=i), _obs_only=True):
                break
    seeds = [ctx.rng.randrange(10 ** 9) for _ in range(ctx.scale(600, 8000))]
    traces = pool_map(rand_trace, seeds)
    ctx.notes["refused_programs"] = sum(not t["events"] for t in traces)
    ctx.notes["mixed_programs"] = sum(t["cfg"]["mixed"] for t in traces)
    ctx.validate("TraceModelTrace", [t for t in traces if t["events"]], key=lambda t, i, x: f"{t['events'][i]['op']}")
