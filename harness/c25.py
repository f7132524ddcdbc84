"""C25: layer-wise optimization (spec/TraceModel.tla, event optimize)."""
import copy
import functools
import random
import warnings

import torch

from fastforward import mpath, orchestration
from fastforward._orchestration import registry
from fastforward._orchestration.data_flow import InputActivations
from fastforward._orchestration.instruction_engine import OffloadEverything
from fastforward._orchestration.trace import trace
from harness import c30
from vf import models, world

warnings.filterwarnings("ignore")


def total(x):
    """Sum of all tensors in a view."""
    if isinstance(x, list) and x and x[0] == "s":
        return x[1]
    return sum(total(v) for v in x) if isinstance(x, list) else 0


def record(module, *bundles, objs, obs, alg=0):
    """Records what it is given, and changes the parameters by an amount that depends on it."""
    m = next((i + 1 for i, o in enumerate(objs) if o is module), 0)
    given = []
    for bundle in bundles:
        for args, kwargs in bundle:
            given.append([[models.view(a) for a in args], [[k, models.view(v)] for k, v in kwargs.items()]])
    obs.append([m, alg, given])
    d = (sum(total(a) + total([x for _, x in kw]) for a, kw in given) + alg) % 7 + 1
    with torch.no_grad():
        for leaf in module.modules():
            if isinstance(leaf, models.Leaf):
                leaf.w.copy_((leaf.w + d) % models.M)
                leaf.b.copy_((leaf.b + 2 * d) % models.M)


def other(module, *bundles):
    raise AssertionError("not selected")


class World(c30.World):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.algs = {}

    def weights(self):
        return [[0, 0] if d["k"] == "comp" else [int(o.w), int(o.b)] for d, o in zip(self.cfg["mods"], self.objs)]

    def targets(self, t, foreign=False):
        """The selection of a spec, in one of the forms in which it can be given."""
        mods = [self.objs[m - 1] for m in t["ms"]]
        kinds = [models.KINDS[k] for k in t["kinds"]]
        how = t["how"]
        if foreign:
            mods = [models.Aff(1, 1)] if how == "one" else [*mods, models.Aff(1, 1)]
        elif how == "base":  # all kinds
            return models.Leaf
        elif not mods and not kinds:
            return torch.nn.Bilinear
        if how == "mpath":
            names = {id(o): n for n, o in self.model.named_modules()}
            return [mpath.query(names.get(id(o), "missing").replace(".", "/")) if id(o) in names else o for o in mods] + kinds
        if how == "one":
            return (mods + kinds)[0]
        if how == "twice":
            return (*mods, *kinds, *kinds, *mods)
        if how == "selectors":
            return registry.CompositeSelector(tuple(registry.normalize(x) for x in [*kinds, *mods, *mods]))
        if how == "set" and not kinds:
            return registry.ModuleInstanceSelector(frozenset(mods))
        if how == "generator":
            return (x for x in kinds + mods)
        return mods + kinds

    def data(self, e):
        """Batches, arguments by keyword (the same for all batches), and the graph if one is given."""
        n_pos = len(e["batches"][0]) - len(e["kw"])
        bs = [[models.tensor(v, e["n"]) for v in b] for b in e["batches"]]
        kw = {f"p{i}": bs[0][i] for i in e["kw"]}
        graph = trace(self.model, *bs[0][:n_pos], **kw) if n_pos > 1 or e["graph"] else None
        return [tuple(b[:n_pos]) if n_pos > 1 else b[0] for b in bs], kw, graph

    def do_optimize(self, e):
        obs = e["obs"] = []
        before = [(n, id(m), id(p)) for n, m in self.model.named_modules(remove_duplicate=False) for p in m._parameters.values()]
        flows = [InputActivations("original")]
        bad, style, form = e["bad"], e["style"], e["form"]
        base = functools.partial(record, objs=self.objs, obs=obs)
        fns = [functools.partial(base, alg=t["alg"]) for t in e["specs"]]
        tgs = [self.targets(t, bad == "foreign" and i == 0) for i, t in enumerate(e["specs"])]
        data, kw, graph = self.data(e)
        kw2 = dict(kw, **({"graph": graph} if graph else {}), **({"offloading": OffloadEverything(torch.device("cpu"))} if e["offload"] else {}))
        registered = dict(registry._registry._specs)
        optimize = functools.partial(orchestration.layerwise_optimize, self.model, data)
        out = "ok"
        try:
            if bad == "unregistered":
                optimize(other, **kw2)
            elif bad == "unregistered override":
                optimize(other, targets=tgs[0], **kw2)
            elif bad == "empty":
                optimize([], **kw2)
            elif bad == "not an algorithm":
                optimize("record", **kw2)
            elif style in ("registered", "override"):  # a single algorithm, targets given by the registry, or in the call
                fn, tg = fns[0], tgs[0]
                reg = dict(plain=record, given=base, bound=fn)[form]  # what is registered
                use = dict(plain=fn, given=fn, bound=record)[form]  # what is run
                if style == "override":
                    orchestration.register(reg, torch.nn.Bilinear, flows)
                    use = fn  # the selection of the call is for the algorithm of the call
                    try:
                        optimize(use, targets=tg, **kw2)
                    finally:
                        try:
                            orchestration.resolve(self.model, algorithm=record)
                            out = "still overridden"
                        except registry.NoTargetsFound:
                            pass
                else:
                    if e["again"]:
                        orchestration.register(other, models.Leaf, [])
                        orchestration.register(record, torch.nn.Bilinear, flows)
                    orchestration.register(reg, tg, flows)
                    optimize(use, **kw2)
            else:
                ss = [orchestration.AlgorithmSpec(fn, registry.normalize(tg), flows) for fn, tg in zip(fns, tgs)]
                if bad == "targets":
                    kw2["targets"] = models.Leaf
                optimize(ss[0] if style == "spec" else ss, **kw2)
        except Exception as ex:
            if not isinstance(ex, (ValueError, registry.NoTargetsFound, *([TypeError] if bad else []))):
                return world.errname(ex)
            out = "refused" if out == "ok" else out
        finally:
            registry._registry._specs.clear()
            registry._registry._specs.update(registered)
        if before != [(n, id(m), id(p)) for n, m in self.model.named_modules(remove_duplicate=False) for p in m._parameters.values()]:
            out = "model changed"
        if graph is not None:  # the given graph still computes the model
            first = [models.tensor(v, e["n"]) for v in e["batches"][0]]
            n_pos = len(first) - len(e["kw"])
            if models.view(graph(*first[:n_pos], **kw)) != models.view(self.model(*first)):
                out = "graph changed"
        return [out, copy.deepcopy(obs), self.weights()]


def rand_trace(seed):
    rng = random.Random(seed)
    g = models.Gen(rng, reads=False, reuse=.15)
    cfg = g.cfg()
    cfg["src"] = [g.source(m + 1) if d["k"] == "comp" else "" for m, d in enumerate(g.mods)]
    cfg["mixed"] = False
    n_in, calls = g.mods[0]["n"], g.calls()
    # modules that are called once and whose parameters are not used elsewhere
    once = [m for m in range(2, len(g.mods) + 1) if calls[m] == 1
            and all(c in (0, calls[q]) for q, c in enumerate(g.calls(m)) if q and g.mods[q - 1]["k"] != "comp")]
    kinds = [k for k in models.KINDS if (ms := [i + 1 for i, d in enumerate(g.mods) if d["k"] == k]) and all(m in once for m in ms)]
    n, evs = 1, []

    def ins():
        return [rng.randint(0, 40) for _ in range(n_in)]

    for _ in range(rng.randint(1, 3)):
        style = rng.choice(["registered", "override", "spec", "specs", "specs"])
        free, specs = list(once), []
        for a in range(rng.randint(1, 3) if style == "specs" else 1):
            pool = once if rng.random() < .05 else free
            leaves = [m for m in pool if g.mods[m - 1]["k"] != "comp"]
            if rng.random() < .75:  # seldom modules within modules
                pool = leaves
            ms = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 2, 3, 9])))
            free = [m for m in free if m not in ms]
            ks = [k for k in kinds if all(m in pool and m not in ms for m, d in enumerate(g.mods, 1) if d["k"] == k)]
            ks = rng.sample(ks, min(len(ks), 1)) if rng.random() < .3 else []
            free = [m for m in free if g.mods[m - 1]["k"] not in ks]
            if not ms and not ks and rng.random() < .9:
                continue
            how = rng.choice(["modules", "mpath", "twice", "selectors", "set", "generator"])
            if len(ms) + len(ks) == 1 and rng.random() < .5:
                how = "one"
            specs.append(dict(ms=ms, kinds=ks, alg=a + 1, how=how))
        leaves = [m for m, d in enumerate(g.mods, 1) if d["k"] != "comp"]
        if rng.random() < .15 and all(m in once for m in leaves):
            specs = [dict(ms=[], kinds=list(models.KINDS), alg=1, how="base")]
        if not specs:
            continue
        bad = ""
        if rng.random() < .12:
            bad = rng.choice(["foreign", "unregistered", "unregistered override", "empty", "not an algorithm", "targets"])
            if bad == "targets":
                style = rng.choice(["spec", "specs"]) if len(specs) == 1 else "specs"
        batches = [ins() for _ in range(rng.randint(1, 3))]
        kw = list(range(1, n_in)) if rng.random() < .4 else []  # arguments for all batches
        batches = batches[:1] if kw else batches
        for b in batches:
            for i in kw:
                b[i] = batches[0][i]
        rng.shuffle(kw)
        evs.append(dict(op="optimize", specs=specs, style=style, bad=bad, form=rng.choice(["plain", "given", "bound"]), kw=kw, again=rng.random() < .3,
                        offload=rng.random() < .2, graph=rng.random() < .5, n=n, batches=batches))
    i = ins()
    evs += [dict(op="trace", ins=i, n=n, kw=[], same=False, count=True), dict(op="run", ins=ins(), n=n, kw=[], same=False)]
    return dict(id=f"rand{seed}", cfg=cfg, events=world.drive(World, cfg, evs))


def from_behaviour(h):
    """A generated program, selection and order: optimize, then run."""
    cfg = h["cfg"]
    cfg["src"] = [models.plain_source(cfg["mods"], m + 1) if d["k"] == "comp" else "" for m, d in enumerate(cfg["mods"])]
    cfg["mixed"] = False
    return dict(id=h["id"], cfg=cfg, events=world.drive(World, cfg, h["events"]))


def run(ctx):
    ctx.model_check("TraceModelMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(2, 3)} Gen = FALSE\n", workers=8)
    hs = ctx.generate("TraceModelMC", "INIT Init\nNEXT Next\nINVARIANT EmitSelections\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 2 Gen = TRUE\n", workers=8)
    hs = [dict(h, id=f"gen{i}") for i, h in enumerate(hs)]
    ctx.notes["selections_of_the_specification"] = len(hs)
    if not ctx.thorough:
        hs = ctx.rng.sample(hs, min(len(hs), 300))
    traces = c30.pool_map(from_behaviour, hs)
    traces += c30.pool_map(rand_trace, [ctx.rng.randrange(10 ** 9) for _ in range(ctx.scale(700, 9000))])
    ctx.notes["optimizations"] = sum(e["op"] == "optimize" and e["out"][0] == "ok" for t in traces for e in t["events"])
    ctx.notes["refused_selections"] = sum(e["op"] == "optimize" and e["out"][0] == "refused" for t in traces for e in t["events"])
    ctx.validate("TraceModelTrace", traces, key=lambda t, i, x: f"{t['events'][i]['op']}")
