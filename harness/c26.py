"""C26: export pipelines run stages in dependency order with inputs in declared order (spec/Pipeline.tla)."""
import torch
from fastforward.export.pipeline import core
from vf import world

MOD = 999983


def fold(acc, s):
    for x in s:
        acc = (acc * 1009 + x + 7) % MOD
    return acc


class Result(list):
    """A stage's result: a list of tensors, as evaluation stages return."""
    def __init__(self, h):
        super().__init__([torch.tensor([[float(h)]], dtype=torch.float64)])
        self.h = h


class Stop(Exception):
    pass


class World:
    def __init__(self, cfg):
        self.context = {"model_name": "m"}
        self.p, self.other = core.Pipeline(self.context), core.Pipeline()
        self.refs, self.num, self.log, self.fail = {}, {}, [], 0
        self.samples = [((1,), {})]

    def stage(self, i, fn):
        def f(inputs, *, sample_inputs, context, **kw):
            seen = context.setdefault("seen", [])
            values = [v.h if isinstance(v, Result) else v for v in inputs]
            if kw or sample_inputs is not self.samples or context.get("model_name") != "m":
                values.append("bad call")
            self.log.append([i, values, len(seen)])
            seen.append(i)
            if i == self.fail:
                raise Stop
            return Result(fold(fn * 7919 % MOD, values))
        return f

    def made(self, i, ref):
        self.refs[i], self.num[ref] = ref, i
        return ["ok"]

    def apply(self, e):
        try:
            return self.do(e)
        except KeyError:
            return ["refused", "key"]
        except ValueError:
            return ["refused", "value"]
        except Stop:
            return ["failed", "right"]

    def do(self, e):
        op, p = e["op"], self.p
        if op == "register":
            return self.made(e["id"], (p.register_eval_stage if e["ev"] else p.register_stage)(self.stage(e["id"], e["fn"]), e["name"], e["cap"]))
        if op == "foreign":
            return self.made(e["id"], self.other.register_stage(self.stage(e["id"], e["fn"]), e["name"] + str(e["id"])))
        if op == "depends":
            r = self.refs[e["of"]].depends_on(*[self.refs[i] for i in e["on"]])
            return ["ok"] if r is self.refs[e["of"]] else ["wrong"]
        if op == "before":
            kw = dict(depends_on=(x for x in e["on"])) if e["explicit"] else {}
            return self.made(e["id"], p.insert_stage_before(e["target"], self.stage(e["id"], e["fn"]), e["name"], capture_stage_output=e["cap"], **kw))
        if op == "after":
            return self.made(e["id"], p.insert_stage_after(e["target"], self.stage(e["id"], e["fn"]), e["name"], capture_stage_output=e["cap"]))
        if op == "replace":
            return self.made(e["id"], p.replace_stage(e["target"], self.stage(e["id"], e["fn"]), e["name"] or None, capture_stage_output=None if e["keep"] else e["cap"]))
        if op == "add":
            p.add_dependency(e["stage"], e["dep"])
            return ["ok"]
        if op == "remove":
            p.remove_dependency(e["stage"], e["dep"])
            return ["ok"]
        if op == "get":
            return ["ok", self.num[p.get_stage(e["name"])]]
        if op == "deps":
            return ["ok", [self.num[d] for d in self.refs[e["of"]].dependencies]]
        if op == "build":
            e["log"] = []
            e["log"] = [self.num[r] for r in p._build_pipeline(self.refs[e["of"]])]
            return ["ok", "right"]
        self.log, self.fail = [], e["fail"]
        e["log"] = self.log
        res, metrics = p(e["input"], self.samples, _return_last=e["last"], eval_metric=self.metric)
        ok = self.context == {"model_name": "m"}
        return ["ok", "right" if ok else "leaked", [[n, r.h] for n, r in res.items()], [[self.num[a], self.num[b], int(v)] for (a, b), v in metrics.items()]]

    @staticmethod
    def metric(a, b):
        return torch.tensor(float((int(a[0]) % 9973 * 31 + int(b[0])) % MOD), dtype=torch.float64)


NAMES = "abcdefgh"


def rand_trace(rng, i):
    evs, names, made, stages = [], [], [], []
    nid = 0

    def pick(known=.93):
        return rng.choice(names) if names and rng.random() < known else rng.choice(NAMES)

    def new():
        nonlocal nid
        nid += 1
        made.append(nid)
        return nid

    def name():
        free = [x for x in NAMES if x not in names]
        return rng.choice(free) if free and rng.random() < .92 else rng.choice(NAMES)
    w = World({})
    out = []

    def do(e):
        ev = world.drive(lambda c: w, {}, [e])[0]
        if "id" in e and ev["out"] != ["ok"]:
            made.remove(e["id"])
        out.append(ev)
        names[:] = [s.name for s in list(w.num) if s in w.p._stages]
    for _ in range(rng.randint(2, 5)):
        do(dict(op="register", id=new(), fn=rng.randint(1, 50), name=name(), cap=rng.random() < .5, ev=rng.random() < .5))
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        fn, cap = rng.randint(1, 50), rng.random() < .5
        if k < .1:
            do(dict(op="register", id=new(), fn=fn, name=name(), cap=cap, ev=rng.random() < .5))
        elif k < .13:
            do(dict(op="foreign", id=new(), fn=fn, name="z"))
        elif k < .2:
            do(dict(op="depends", of=rng.choice(made), on=[rng.choice(made[-6:]) for _ in range(rng.randint(0, 3))] if rng.random() < .4 else [m for m in made if m < made[-1]][:rng.randint(0, 2)]))
        elif k < .3:
            ex = rng.random() < .4
            do(dict(op="before", id=new(), fn=fn, name=name(), target=pick(), cap=cap, explicit=ex, on=[pick() for _ in range(rng.randint(0, 3))] if ex else []))
        elif k < .4:
            do(dict(op="after", id=new(), fn=fn, name=name(), target=pick(), cap=cap))
        elif k < .52:
            do(dict(op="replace", id=new(), fn=fn, target=pick(), name=rng.choice(["", "", name(), pick()]), keep=rng.random() < .6, cap=cap))
        elif k < .72:
            do(dict(op="add", stage=pick(), dep=pick()))
        elif k < .78:
            do(dict(op="remove", stage=pick(), dep=pick()))
        elif k < .82:
            do(dict(op="get", name=pick(.7)))
        elif k < .87:
            do(dict(op="deps", of=rng.choice(made)))
        elif k < .9:
            do(dict(op="build", of=rng.choice(made)))
        else:
            do(run_event(rng, made))
    do(run_event(rng, made, 0))
    for m in made:
        do(dict(op="deps", of=m))
    return dict(id=f"rand{i}", cfg=dict(x=1), events=out)


def run_event(rng, made, fail=.2):
    return dict(op="run", input=rng.randint(1, 1000), fail=rng.choice(made) if rng.random() < fail else 0, last=rng.random() < .2)


def run(ctx):
    hs = ctx.generate("PipelineMC", f"INIT Init\nNEXT Next\nINVARIANTS Emit Runnable Distinct Known Wiring Positions\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE Depth = {ctx.scale(2, 3)}\n")
    hs = hs[:: max(1, len(hs) // ctx.scale(4000, 30000))]
    tr = []
    for i, h in enumerate(hs):
        ids = [e["id"] for e in h if "id" in e]
        tr.append(dict(id=f"gen{i}", cfg=dict(x=1), events=world.drive(World, {}, [*h, dict(op="run", input=7, fail=0, last=False), dict(op="get", name="a"), dict(op="get", name="d"), dict(op="run", input=8, fail=0, last=True)])))
    key = lambda t, i, x: f"{t['id'][:3]}:{t['events'][i]['op']}:{x[0] if isinstance(x, list) else ''}"
    ctx.validate("PipelineTrace", tr, key=key)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(4000, 40000))]
    runs = [e for t in traces for e in t["events"] if e["op"] == "run"]
    ctx.notes["pipeline runs"] = {k: sum(e["out"][0] == k for e in runs) for k in ("ok", "refused", "failed")}
    ctx.validate("PipelineTrace", traces, key=key)
