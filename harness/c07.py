"""C07: dispatcher registrations (spec/Dispatcher.tla)."""
import itertools, uuid
from fastforward import dispatcher as D
from vf import world


def mk_pred(p):
    if p[0] == "any":
        return D.Predicate(lambda *a, **k: True)
    if p[0] == "in":
        return D.Predicate(lambda a, *r, _s=frozenset(p[1]), **k: a in _s)
    if p[0] == "not":
        return ~mk_pred(p[1])
    if p[0] == "and":
        return mk_pred(p[1]) & mk_pred(p[2])
    return mk_pred(p[1]) | mk_pred(p[2])


class World:
    """Real registry; operation names are fresh so that the library's own registrations do not interfere."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.names = [f"vf_{uuid.uuid4().hex}" for _ in range(cfg["ops"])]
        self.kernels = {}
        self.hooks = []
        self.preds = {}

    def kernel(self, k):
        if k not in self.kernels:
            def f(*a, **kw):
                return k
            self.kernels[k] = f
        return self.kernels[k]

    def pred(self, p):
        # the same predicate object is reused, as library code does
        return self.preds.setdefault(repr(p), mk_pred(p))

    def apply(self, e):
        if e["op"] == "reg":
            prio = D.DispatcherPriority(e["prio"])
            name = self.names[e["target"] - 1]
            pred = self.pred(e["pred"])
            form = e.get("form", "scope")
            if e["pred"][0] == "any" and form in ("scope", "decorator"):
                pred = None if e.get("none", True) else pred
            if form == "decorator":
                k = D.register(name, pred, None, prio)(self.kernel(e["kernel"]))
                assert k is self.kernel(e["kernel"])
                self.hooks.append(None)
            else:
                h = D.register(name, pred, self.kernel(e["kernel"]), prio)
                if form == "scope":
                    h.__enter__()
                self.hooks.append(h)
        else:
            h = self.hooks[e["n"] - 1]
            if e.get("raises"):
                ex = world.boom()
                assert not h.__exit__(type(ex), ex, None), "registration scope swallowed an exception"
            else:
                h.__exit__(None, None, None)
        return self.obs()

    def obs(self):
        res = []
        for n in self.names:
            row = []
            for a in range(1, self.cfg["args"] + 1):
                k = D.dispatch(n, a, "extra", kw=1) if self.cfg.get("kw", True) else D.dispatch(n, a)
                row.append(-1 if k is None else k())
            res.append(row)
        return res


def rand_pred(rng, d=0):
    r = rng.random()
    if d > 1 or r < 0.5:
        return ["in", sorted(rng.sample(range(1, 4), rng.randint(0, 2)))]
    if r < 0.65:
        return ["any"]
    if r < 0.75:
        return ["not", rand_pred(rng, d + 1)]
    return [rng.choice(["and", "or"]), rand_pred(rng, d + 1), rand_pred(rng, d + 1)]


def rand_trace(rng, i):
    cfg = dict(ops=2, args=3)
    evs, regs = [], []
    preds = [rand_pred(rng) for _ in range(3)]
    n = 0
    for _ in range(rng.randint(4, 25)):
        if regs and rng.random() < 0.35:
            r = rng.choice(regs) if rng.random() < 0.5 else regs[-1]
            if rng.random() < 0.9:
                regs.remove(r)
            evs.append(dict(op="exit", n=r, raises=rng.random() < 0.3))
        else:
            n += 1
            form = rng.choice(["scope", "scope", "scope", "plain", "decorator"])
            evs.append(dict(op="reg", target=rng.randint(1, 2), prio=rng.choice([0, 0, 1, 2]),
                            pred=rng.choice(preds), kernel=rng.randint(1, 4), form=form, none=rng.random() < 0.5))
            if form != "decorator":
                regs.append(n)
    return dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs))


def run(ctx):
    L = ctx.scale(4, 5)
    prios = "{0, 1, 2}" if ctx.thorough else "{0, 1}"
    if ctx.thorough:
        ctx.model_check("DispatcherMC", f"INIT Init\nNEXT Next\nINVARIANTS Refines NoGhost\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 5 Prios = {{0,1,2}} Gen = FALSE\n")
    hs = ctx.generate("DispatcherMC", f"INIT Init\nNEXT Next\nINVARIANTS Refines NoGhost Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {L} Prios = {{0, 1}} Gen = TRUE\n")
    ctx.notes["exhaustive_histories"] = len(hs)
    world.replay(ctx, World, dict(ops=1, args=2), hs, lambda e, g, x: f"gen:{e['op']}")
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(1500, 12000))]
    ctx.validate("DispatcherTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}")
    scopes(ctx)


def scopes(ctx):
    """`with` blocks left by exceptions and decorators used by library code restore dispatch completely."""
    name = f"vf_{uuid.uuid4().hex}"
    k1, k2 = (lambda *a: 1), (lambda *a: 2)
    seen = []
    D.register(name, None, k1)
    try:
        with D.register(name, None, k2):
            seen.append(D.dispatch(name, 0) is k2)
            raise KeyError("x")
    except KeyError:
        seen.append("raised")
    seen.append(D.dispatch(name, 0) is k1)
    ctx.compare(seen, [True, "raised", True], "with-exception", "with register(...): raise")
