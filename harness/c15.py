"""C15: quantizer tags and metadata (spec/Tags.tla, spec/Annotate.tla)."""
import copy, itertools, pickle, warnings
import torch
import fastforward as ff
from fastforward import mpath
from fastforward.nn.quantizer import Quantizer, QuantizerMetadata, QuantizerStub, Tag, default_tags
from vf.world import errname

KNOWN = ["parameter_quantizer", "activation_quantizer", "weight_quantizer", "bias_quantizer", "input_quantizer", "output_quantizer"]


class QHost(ff.nn.QuantizedModule):
    def __init__(self):
        super().__init__()
        self.__init_quantization__()


class Plain(torch.nn.Module):
    pass


def tagname(t):
    return "/".join(t)


def mktag(t, how):
    if how == 0:
        return tagname(t)
    if how == 1:
        return Tag(tagname(t))
    r = Tag(t[0]) if how == 2 else t[0]
    for x in t[1:]:
        r = r / (x if how == 2 else Tag(x))
    return r


class World:
    """Locations are attributes q<l> of hosts; hosts are children of the root (named m<h>)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.root = Plain()
        self.hosts = {}
        for i, l in enumerate(cfg["loc"]):
            h = (QHost if l["quant"] else Plain)()
            self.hosts.setdefault(l["host"], h)
        for k, h in sorted(self.hosts.items(), key=lambda kh: kh[0].count("/")):
            parent = self.root
            for p in k.split("/")[:-1]:
                if not hasattr(parent, p):
                    parent.add_module(p, Plain())
                parent = getattr(parent, p)
            parent.add_module(k.split("/")[-1], h)

    def host(self, l):
        return self.hosts[self.cfg["loc"][l - 1]["host"]]

    def attr(self, l):
        return f"q{l}"

    def get(self, l):
        return getattr(self.host(l), self.attr(l), None)

    def put(self, l, q):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            setattr(self.host(l), self.attr(l), q)
        return any(issubclass(x.category, RuntimeWarning) for x in w)

    def kind(self, q):
        return 0 if q.is_stub() else q.num_bits

    def new(self, e):
        kw = {k: v for k, v in e["kw"]}
        tags = [mktag(t, (i + e.get("how", 0)) % 4) for i, t in enumerate(e["tags"])]
        if e["kind"] == 0:
            if e.get("flags"):
                # the named flags stand for the default tags
                fl, rest = {}, []
                for t in tags:
                    n = str(Tag(t))[1:]
                    d = {"parameter/weight": "weight_quantizer", "parameter/bias": "bias_quantizer", "activation/input": "input_quantizer", "activation/output": "output_quantizer"}.get(n)
                    if d:
                        fl[d] = True
                    else:
                        rest.append(t)
                return QuantizerStub(*rest, **fl, **kw)
            return QuantizerStub(_metadata=QuantizerMetadata(*tags, **kw)) if e.get("how", 0) % 2 else QuantizerStub(*tags, **kw)
        q = ff.nn.LinearQuantizer(e["kind"])
        q.quantization_range = (-1.0, 1.0)
        if e["has"]:
            q.quant_metadata = QuantizerMetadata(*tags, **kw)
        return q

    def view(self):
        n = len(self.cfg["loc"])
        qs = [self.get(l) for l in range(1, n + 1)]
        res = []
        for q in qs:
            if q is None:
                res.append([])
                continue
            m = q.quant_metadata
            rep = 1 + next(i for i, x in enumerate(qs) if x is q)
            mrep = 0 if m is None else 1 + next(i for i, x in enumerate(qs) if x is not None and x.quant_metadata is m)
            tags = [] if m is None else [i + 1 for i, t in enumerate(self.cfg["uni"]) if mktag(t, i % 2) in m]
            res.append([rep, self.kind(q), mrep, tags, -1 if m is None else len(m._tags)])
        return res

    def query(self, e):
        """The query string of a selection (path part and tags)."""
        ext = ["qtag", "quantizer"][e.get("how", 0) % 2]
        names = [tagname(t) for t in e["tags"]]
        if not names:
            return e["path"] + ("/**" if e["path"] != "**" else "")
        if e.get("how", 0) % 4 < 2:
            last = f"[{ext}:{', '.join(names)}]"
        else:
            last = "".join(f"[{ext}: {n} ]" for n in names[:1])
            if len(names) > 1:
                last = f"[{ext}: {' ,'.join(names)} ]"
        return e["path"] + ("" if e["path"] == "**" else "/**") + "/" + last

    def find(self, e):
        if e.get("frag") and e["tags"]:
            from fastforward.quantization.quant_init import QuantizerTagSelectorFragment as F
            base = mpath.query(e["path"] + ("" if e["path"] == "**" else "/**"))
            sel = base / mpath.Selector(None, F(*[mktag(t, i % 4) for i, t in enumerate(e["tags"])]))
            return ff.find_quantizers(self.root, sel)
        return ff.find_quantizers(self.root, self.query(e))

    def reps(self, mods):
        n = len(self.cfg["loc"])
        qs = [self.get(l) for l in range(1, n + 1)]
        r = sorted(1 + next((i for i, x in enumerate(qs) if x is m), -99) for m in mods)
        return r

    def apply(self, e):
        op = e["op"]
        if op == "put":
            w = self.put(e["at"], self.new(e))
            return [w, self.view()]
        if op in ("share", "copy"):
            q = self.get(e["of"])
            if q is None:
                return [False, self.view()]
            if op == "copy":
                q = copy.deepcopy(q)
            return [self.put(e["at"], q), self.view()]
        if op == "addtag":
            q = self.get(e["at"])
            if q is not None and q.quant_metadata is not None:
                q.quant_metadata.add_tag(mktag(e["tag"], e.get("how", 0) % 4))
            return self.view()
        if op == "drop":
            if self.get(e["at"]) is not None:
                delattr(self.host(e["at"]), self.attr(e["at"]))
            return self.view()
        if op == "find":
            c = self.find(e)
            return self.reps([r.module for r in c])
        if op == "ext":
            a, b = self.get(e["a"]), self.get(e["b"])
            if a is None or b is None or a.quant_metadata is None or b.quant_metadata is None:
                return "none"
            return "yes" if a.quant_metadata.is_extension(b.quant_metadata) else "no"
        if op == "attrs":
            q = self.get(e["at"])
            if q is None or q.quant_metadata is None:
                return []
            m = q.quant_metadata
            return [[getattr(m, k) for k in KNOWN], [x if (x := getattr(m, k, -1)) is not None else -1 for k in e["names"]]]
        raise AssertionError(op)


def drive(cfg, evs, cls=World):
    w, res = cls(cfg), []
    for e in evs:
        e = dict(e)
        try:
            out = w.apply(e)
        except Exception as ex:
            out = errname(ex)
        res.append({**e, "out": out})
    return res


LEVELS = ["parameter", "weight", "activation", "input", "output", "bias", "a", "b", "wei", "0", "x y"]
BASE = [["parameter"], ["activation"], ["parameter", "weight"], ["parameter", "bias"], ["activation", "input"], ["activation", "output"]]


def rand_tags(rng):
    uni = list(BASE)
    for _ in range(rng.randint(3, 7)):
        t = rng.choice([rng.sample(LEVELS, rng.randint(1, 3)), rng.choice(uni) + [rng.choice(LEVELS)], rng.choice(uni)[-1:]])
        uni += [t[:k] for k in range(1, len(t) + 1)]
    uni = [list(x) for x in dict.fromkeys(map(tuple, uni))]
    return uni


def rand_cfg(rng):
    hosts = [("m0", True), ("m1", True), ("m2", False), ("m1b/sub", True), ("m2/inner", False)][:rng.randint(1, 5)]
    loc = [dict(zip(("host", "quant"), rng.choice(hosts))) for _ in range(rng.randint(2, 6))]
    return dict(loc=loc, uni=rand_tags(rng))


def rand_query(rng, cfg, only=None):
    n = len(cfg["loc"])
    path = rng.choice(["**"] + sorted({l["host"] for l in cfg["loc"]}))
    locs = [l for l in range(1, n + 1) if path == "**" or cfg["loc"][l - 1]["host"] == path or cfg["loc"][l - 1]["host"].startswith(path + "/")]
    tags = rng.sample(cfg["uni"], rng.choice([0, 1, 1, 1, 2])) if rng.random() < .9 else [["nowhere"]]
    return dict(path=path, locs=locs, tags=tags, how=rng.randint(0, 7), frag=rng.random() < .3)


def rand_put(rng, cfg):
    kind = rng.choice([0, 0, 0, 2, 3])
    has = kind == 0 or rng.random() < .4
    kw = [[k, rng.randint(0, 1)] for k in rng.sample(["foo", "bar"], rng.choice([0, 0, 1, 2]))]
    return dict(op="put", at=rng.randint(1, len(cfg["loc"])), kind=kind, has=has, tags=rng.sample(cfg["uni"], rng.choice([0, 1, 1, 2, 3])) if has else [],
                kw=kw if has else [], how=rng.randint(0, 7), flags=rng.random() < .5)


def rand_trace(rng, i):
    cfg = rand_cfg(rng)
    n = len(cfg["loc"])
    L = lambda: rng.randint(1, n)
    evs = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .35 or not evs:
            evs.append(rand_put(rng, cfg))
        elif r < .43:
            evs.append(dict(op="share", at=L(), of=L()))
        elif r < .5:
            evs.append(dict(op="copy", at=L(), of=L()))
        elif r < .64:
            evs.append(dict(op="addtag", at=L(), tag=rng.choice(cfg["uni"]), how=rng.randint(0, 3)))
        elif r < .67:
            evs.append(dict(op="drop", at=L()))
        elif r < .85:
            evs.append(dict(op="find", **rand_query(rng, cfg)))
        elif r < .93:
            evs.append(dict(op="ext", a=L(), b=L()))
        else:
            evs.append(dict(op="attrs", at=L(), names=["foo", "bar", "shape"]))
    return dict(id=f"rand{i}", cfg=cfg, events=drive(cfg, evs))


def tags_alone(ctx):
    """Tags are symbols: equal names are the same tag, however they are made and copied; the hierarchy lists the ancestors."""
    rng = ctx.rng
    for _ in range(ctx.scale(300, 3000)):
        t = [rng.choice(LEVELS) for _ in range(rng.randint(1, 5))]
        tags = [mktag(t, k) for k in range(4)]
        a = Tag(tags[0])
        k = rng.randint(1, len(t))
        got = [all(Tag(x) is a for x in tags), copy.copy(a) is a, copy.deepcopy(a) is a, copy.deepcopy([a])[0] is a,
               sorted(str(x)[1:] for x in a.hierarchy()), (mktag(t[:k], 0) if k == len(t) else Tag(tagname(t[:k])) / tagname(t[k:])) in QuantizerMetadata(a)]
        ctx.compare(got, [True, True, True, True, sorted(tagname(t[:i]) for i in range(1, len(t) + 1)), True], "tag", dict(tag=t))
    d = {k: str(getattr(default_tags, k))[1:] for k in KNOWN}
    ctx.compare(d, dict(zip(KNOWN, map(tagname, BASE))), "defaults", "default tags")


def standard(ctx):
    """The quantized modules of the library tag their quantizers by role."""
    want = {"input_quantizer": "activation/input", "output_quantizer": "activation/output", "weight_quantizer": "parameter/weight", "bias_quantizer": "parameter/bias"}
    m = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.ReLU(), torch.nn.Conv2d(1, 2, 3), torch.nn.LayerNorm(3), torch.nn.Linear(3, 4, bias=False))
    q = ff.quantize_model(m)
    for name, mod in q.named_modules():
        if isinstance(mod, Quantizer):
            role = name.split(".")[-1]
            if role in want:
                meta = mod.quant_metadata
                got = [x in meta for x in want.values()] + [x in meta for x in ("parameter", "activation")]
                exp = [k == role for k in want] + [role[:2] in ("we", "bi"), role[:2] in ("in", "ou")]
                ctx.compare(got, exp, "roles", dict(name=name))
    for t in list(want.values()) + ["parameter", "activation"]:
        got = sorted(r.full_name for r in ff.find_quantizers(q, f"**/[qtag:{t}]"))
        exp = sorted(n for n, mod in q.named_modules() if isinstance(mod, Quantizer) and want.get(n.split(".")[-1], "?").startswith(t))
        ctx.compare(got, exp, "roles:find", dict(tag=t))


OPS = {"relu": torch.relu, "sigmoid": torch.sigmoid, "exp": torch.exp, "tanh": torch.tanh, "sin": torch.sin}
OPS2 = {"add": torch.add, "maximum": torch.maximum, "mul": torch.mul}


class Annotated(ff.nn.QuantizedModule):
    def __init__(self, case):
        super().__init__()
        self.case = case
        self.__init_quantization__()
        for i, q in enumerate(case["quants"]):
            setattr(self, q, QuantizerStub() if case["init"][i] == 0 else ff.nn.LinearQuantizer(4))

    def forward(self, x):
        vals = [x]
        for n in self.case["nodes"]:
            a = [vals[k] for k in n["in"]]
            vals.append((OPS.get(n["name"]) or OPS2[n["name"]])(*a) if n["kind"] == "op" else getattr(self, n["name"])(a[0]))
        return vals[-1]


def annotate_case(rng):
    nq = rng.randint(1, 4)
    quants = [f"q{i}" for i in range(nq)]
    nodes = []
    for i in range(rng.randint(1, 9)):
        r = rng.random()
        if r < .45:
            nodes.append(dict(kind="q", name=rng.choice(quants), **{"in": [rng.randint(0, i)]}))
        elif r < .8:
            nodes.append(dict(kind="op", name=rng.choice(list(OPS)), **{"in": [rng.randint(0, i)]}))
        else:
            nodes.append(dict(kind="op", name=rng.choice(list(OPS2)), **{"in": [rng.randint(0, i), rng.randint(0, i)]}))
    return dict(nodes=nodes, quants=quants, ops=list(OPS) + list(OPS2), init=[rng.choice([0, 0, 1]) for _ in quants])


def annotate(ctx):
    cases = [annotate_case(ctx.rng) for _ in range(ctx.scale(400, 4000))]
    for c, exp in zip(cases, ctx.evaluate("AnnotateOracle", cases)):
        m = Annotated(c)
        if ctx.rng.random() < .3:
            m = torch.nn.Sequential(m)
            m.named_quantizers = lambda *a, **k: ff.nn.quantized_module.named_quantizers(m, *a, **k)
        inner = m[0] if isinstance(m, torch.nn.Sequential) else m
        with torch.enable_grad():
            try:
                ff.annotate_operator_metadata(m, torch.randn(3))
            except Exception as ex:
                ctx.crash("annotate", ex, c)
                continue
        got, extra = [], 0
        for q in c["quants"]:
            md = getattr(inner, q).quant_metadata
            got.append([[int(f"after/{o}" in md), int(f"before/{o}" in md)] for o in c["ops"]])
            extra += len([t for t in md._tags if str(t)[1:] not in {"after", "before"}]) - sum(map(sum, got[-1]))
            extra += len(list(getattr(inner, q).overrides))
        ctx.compare([got, extra], [exp, 0], "annotate", c)


def run(ctx):
    ctx.model_check("TagsMC", f"INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(3, 4)}\n", workers=8)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(2500, 20000))]
    ctx.validate("TagsTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}", workers=8)
    tags_alone(ctx)
    standard(ctx)
    annotate(ctx)
