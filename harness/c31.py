"""C31: the operator table, argument binding and operator signatures (spec/OpTable.tla)."""
import inspect
import logging
import pathlib
import tempfile
import sys
import types

from fastforward._quantops import symtypes
from fastforward._quantops.operator import Operator
from fastforward._quantops.optable import STR_ALIASES_EXTENSIONS, OperatorTable
from vf import world

logging.getLogger("fastforward").setLevel(logging.CRITICAL)
MOD = "c31_operators"


def setup():
    m = types.ModuleType(MOD)
    for i in range(1, 6):
        ns = {}
        exec(f"def f{i}(x):\n    return x", {"__name__": MOD}, ns)
        setattr(m, f"f{i}", ns[f"f{i}"])
    m.g1 = m.f1
    m.g2 = m.f2
    sys.modules[MOD] = m
    return m


M = setup()
NAMES = {f"{MOD}.{a}": c for a, c in dict(f1="f1", f2="f2", f3="f3", f4="f4", f5="f5", g1="f1", g2="f2", gone="", never="").items()}
DISPATCH = ["relu", "linear", "add"]
IDENTS = ["relu", "linear", "add", "nosuchop", "other"]
PYS = ["f1", "f2", "f3", "f4", "f5"]
EXT = {"fallback": STR_ALIASES_EXTENSIONS[0], "ident": lambda op: "op:" + op.identifier}
STRS = [*NAMES, *("op:" + i for i in IDENTS), "al", "al2"]


class World:
    def __init__(self, cfg):
        self.t = OperatorTable(alias_extensions=tuple(EXT[x] for x in cfg["ext"]))
        self.long = {k: k for k in cfg["names"]}

    def ids(self, it):
        return [op.metadata.line_number for op in it]

    def get(self, key):
        try:
            r = self.ids(self.t.get(key))
            again = self.ids(self.t[key])
            return r if r == again and key in self.t and r else ["inconsistent"]
        except KeyError:
            return [] if key not in self.t else ["inconsistent"]

    def apply(self, e):
        try:
            self.run(e)
            res = "ok"
        except (ValueError, KeyError, ImportError, AttributeError):
            res = "refused"
        ops = self.ids(self.t)
        if ops != self.ids(self.t.operators()):
            ops = ["inconsistent"]
        return [res, [[self.get(getattr(M, p)) for p in e["pys"]], [self.get(s) for s in e["strs"]], ops]]

    def run(self, e):
        if e["op"] == "add":
            fb = e["fallback"]
            if e["how"] == "callable" and NAMES[fb]:
                fb = getattr(M, NAMES[fb])
            kw = dict(aliases=tuple(e["aliases"]), line_number=e["id"])
            spec = f"{e['ident']}(input: Quantized) -> Quantized"
            d = M.f5 if e["dispatch"] else None
            if e["how"] == "operator":
                self.t.append_operator(Operator.from_spec(spec, fallback=fb, dispatch_op=d, line_number=e["id"]), aliases=list(e["aliases"]))
            else:
                self.t.add(spec, fb, dispatch_op=d, **kw)
        else:
            self.t.add_alias(e["alias"], getattr(M, e["callable"]) if e["callable"] else e["target"])


def rand_events(rng, n):
    evs = []
    for i in range(n):
        u = dict(pys=PYS, strs=STRS)
        if rng.random() < .75:
            ident = rng.choice(IDENTS)
            how = rng.choice(["spec", "callable", "operator"])
            fb = rng.choice(list(NAMES))
            if how == "callable":  # known under the name it was defined with
                fb = f"{MOD}.{NAMES[fb]}" if NAMES[fb] else fb
            evs.append(dict(op="add", id=i + 1, fallback=fb, ident=ident, dispatch=rng.random() < .4, how=how,
                            aliases=rng.sample(list(NAMES), rng.choice([0, 0, 0, 1, 1, 2, 3])), **u))
        else:
            c = rng.choice(["", "", *PYS])
            evs.append(dict(op="alias", alias=rng.choice(["al", "al2", rng.choice(STRS)]), callable=c, target=rng.choice(STRS), **u))
    return evs


# ------------------------------------------------------------------ signatures
BASE = {"Tensor": ["Tensor", "torch.Tensor"], "QuantizedTensor": ["Quantized", "QuantizedTensor"], "Int": ["int", "Int"], "Float": ["float", "Float"], "String": ["str", "string"],
        "Bool": ["bool", "Bool"], "NoneType": ["None"], "MaybeQuantized": ["MaybeQuantized"], "Number": ["number", "Number"], "DType": ["torch.dtype", "DType"], "Quantizer": ["Quantizer"]}


def base(n):
    return dict(k="base", name=n, args=[])


def variants(t):
    if t["k"] == "union":
        return [v for a in t["args"] for v in variants(a)]
    if t["k"] == "optional":
        return variants(t["args"][0]) + [base("NoneType")]
    return {"MaybeQuantized": [base("Tensor"), base("QuantizedTensor")], "Number": [base("Int"), base("Float")]}.get(t["name"], [t])


def rand_type(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .4:
        return base(rng.choice(list(BASE)))
    if r < .65:
        while True:
            t = dict(k="union", name="", args=[rand_type(rng, depth - 1) for _ in range(rng.randint(2, 3))])
            if len({repr(v) for v in variants(t)}) > 1:
                return t
    if r < .8:
        while True:
            a = rand_type(rng, depth - 1)
            if a != base("NoneType"):
                return dict(k="optional", name="", args=[a])
    k = rng.choice(["list", "tuple"])
    return dict(k=k, name="", args=[rand_type(rng, depth - 1) for _ in range(1 if k == "list" else rng.randint(1, 3))])


def text(rng, t):
    a = [text(rng, x) for x in t["args"]]
    if t["k"] == "base":
        return rng.choice(BASE[t["name"]])
    if t["k"] == "union":
        return f"Union[{', '.join(a)}]" if rng.random() < .5 else " | ".join(a)
    if t["k"] == "optional":
        return f"Optional[{a[0]}]"
    if t["k"] == "list":
        return f"{rng.choice(['List', 'list', 'Sequence'])}[{a[0]}]"
    return f"{rng.choice(['Tuple', 'tuple'])}[{', '.join(a)}]"


def parse(s):
    return Operator.from_spec(f"f(x: {s})", fallback="f").parameters[0].param_type


def types_of(rng, x):
    a, b, c = (parse(text(rng, x[k])) for k in "abc")
    probes = [parse(text(rng, p)) for p in x["probes"]]
    eq = a == b
    if eq != (b == a) or eq == (a != b) or (eq and hash(a) != hash(b)):
        eq = "inconsistent"
    rep = []
    if len(a) > 1:
        r = a.replace(b, c)
        rep = [int(p in r.variants()) for p in probes]
    u = symtypes.unwrap_optional(a)
    return [eq if isinstance(eq, str) else int(eq), int(b in a), len(a), rep, [int(p in u.variants()) for p in probes]]


def simple(t):
    """The members of a type, one by one."""
    return variants(t)


def rand_types(rng):
    a, b, c = rand_type(rng), rand_type(rng), rand_type(rng, 1)
    if rng.random() < .5 and a["k"] == "union":
        b = rng.choice([dict(k="union", name="", args=a["args"][::-1]), *a["args"]])
        if rng.random() < .4:
            vs = simple(a)
            b = rng.choice(vs)
            more = [v for v in vs if v != b]
            if more and rng.random() < .6:
                b = dict(k="union", name="", args=[b, rng.choice(more)])
    probes = [*simple(a), *simple(b), *simple(c), base("NoneType"), base("Tensor")]
    return dict(op="types", a=a, b=b, c=c, probes=probes)


DEFAULTS = ["None", "1", "-1", "0.5", "True", "'mean'", "()"]


def rand_spec(rng):
    names = rng.sample("abcdefgh", rng.randint(0, 5))
    ps = [dict(name=n, type=rand_type(rng, rng.choice([0, 1, 1, 2])), default="") for n in names]
    i = rng.randint(0, len(ps))
    for p in ps[i:]:
        p["default"] = rng.choice(DEFAULTS)
    x, y = sorted([rng.randint(0, len(ps)) if rng.random() < .3 else 0, rng.randint(0, len(ps)) if rng.random() < .3 else len(ps)])
    return dict(op="spec", pos=ps[:x], normal=ps[x:y], kw=ps[y:], returns=[rand_type(rng)] if rng.random() < .8 else [])


def spec_text(rng, x, ident="f"):
    def one(p):
        return f"{p['name']}: {text(rng, p['type'])}" + (f" = {p['default']}" if p["default"] else "")
    parts = [one(p) for p in x["pos"]] + (["/"] if x["pos"] else []) + [one(p) for p in x["normal"]] + (["*"] if x["kw"] else []) + [one(p) for p in x["kw"]]
    return f"{ident}({', '.join(parts)})" + (f" -> {text(rng, x['returns'][0])}" if x["returns"] else "")


def spec_of(rng, x):
    s = spec_text(rng, x)
    op = Operator.from_spec(s, fallback="x.y")
    if op.identifier != "f" or op.metadata.fallback != "x.y":
        return ["identity"]
    ps = []
    for p in op.parameters:
        d = "" if p.default_value is None else "'mean'" if p.default_value == "mean" else p.default_value
        ps.append([p.name, d, int(p.quantized), len(p.param_type)])
    return [ps, int(op.returns_quantized)]


def rand_bind(rng):
    names = rng.sample("abcd", rng.randint(0, 4))
    ps = [dict(name=n, default=rng.random() < .4) for n in names]
    inter = rng.sample(["q1", "q2"], rng.choice([0, 0, 1, 2]))
    quantized = rng.random() < .7
    total = len(ps) + len(inter) + quantized + 1
    n = rng.choice([*range(len(ps) + 1)] * 3 + [total + 1])
    pool = [*names, *names[n:], *names[n:], *inter, "output_quantizer", "strict_quantization", "unknown"]
    kws = list(dict.fromkeys(rng.sample(pool, rng.randint(0, min(4, len(pool))))))
    return dict(op="bind", params=ps, inter=inter, quantized=quantized, n=n, kws=kws)


def bind_of(x):
    # a parameter without a default must not follow one with a default in source; build the operator directly
    op = Operator.from_spec("f(" + ", ".join(f"{p['name']}: Tensor" for p in x["params"]) + ")" + (" -> Quantized" if x["quantized"] else ""), fallback="f", intermediate_quantizers=tuple(x["inter"]))
    import dataclasses
    op = dataclasses.replace(op, parameters=tuple(dataclasses.replace(p, default_value="1" if d["default"] else None) for p, d in zip(op.parameters, x["params"])))
    args = tuple(range(x["n"]))
    kws = {k: x["n"] + i for i, k in enumerate(x["kws"])}
    try:
        pairs = list(op.bind_partial(*args, **kws))
        bound = [p.name for p, v in sorted(pairs, key=lambda pv: pv[1])]
        if sorted(v for _, v in pairs) != list(range(len(args) + len(kws))):
            bound = ["inconsistent"]
    except (TypeError, ValueError):
        bound = ["refused"]
    return [bound, int(op.validate_arguments(args, kws))]


def signatures(ctx):
    """The operators of the default table and the functions they stand for."""
    xs, got = [], []
    for op in OperatorTable.from_yaml(alias_extensions=STR_ALIASES_EXTENSIONS):
        xs.append(dict(op="signature", name=op.identifier, params=[dict(name=p.name, default=p.default_value is not None) for p in op.parameters], inter=list(op.intermediate_quantizers), quantized=op.returns_quantized))
        ps = inspect.signature(op.dispatch_op()).parameters.values()
        got.append([[[p.name, p.default is not p.empty] for p in ps if p.kind is not p.KEYWORD_ONLY], [p.name for p in ps if p.kind is p.KEYWORD_ONLY]])
    return xs, got


def from_yaml(ctx):
    """Tables read from files."""
    traces = []
    rng = ctx.rng
    for i in range(ctx.scale(60, 400)):
        adds = [e for e in rand_events(rng, rng.randint(1, 8)) if e["op"] == "add"]
        lines = ""
        for e in adds:
            e.update(dispatch=False, how="spec")
            lines += f"- op: '{e['ident']}(input: Quantized) -> Quantized'\n  fallback: {e['fallback']}\n" + (f"  aliases: [{', '.join(e['aliases'])}]\n" if e["aliases"] else "")
        cfg = config(["fallback"])
        evs = world.drive(World, cfg, adds)
        with tempfile.TemporaryDirectory(prefix="c31_") as d:
            f = pathlib.Path(d) / "ops.yaml"
            f.write_text(lines or "[]")
            try:
                t = OperatorTable.from_yaml(f, alias_extensions=(EXT["fallback"],))
                got = [op.identifier for op in t]
            except (RuntimeError, ImportError, AttributeError):
                got = "refused"
        w = World(cfg)
        ok = all(e["out"][0] == "ok" for e in evs)
        for e in adds:
            w.apply(e)
        exp = [op.identifier for op in w.t] if ok else "refused"
        ctx.compare(got, exp, "from_yaml", dict(file=lines))
        traces.append(dict(id=f"yaml{i}", cfg=cfg, events=evs))
    return [t for t in traces if t["events"]]


def config(ext):
    return dict(names=NAMES, dispatch=DISPATCH, ext=ext)


def run(ctx):
    ctx.model_check("OpTableMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(3, 4)} Gen = FALSE\n", workers=8)
    hs = ctx.generate("OpTableMC", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 2 Gen = TRUE\n", workers=8)
    rng = ctx.rng
    short = {"n1": "f1", "m1": "g1", "n2": "f2", "n3": "f3", "gone": "gone"}

    def full(s):
        return f"{MOD}.{short[s]}" if s in short else s
    for h in hs:
        for e in h:
            e["strs"] = [full(s) for s in e["strs"]]
            for k in ("fallback", "target", "alias"):
                if k in e:
                    e[k] = full(e[k])
            if e["op"] == "add":
                e["aliases"] = [full(a) for a in e["aliases"]]
                e["how"] = rng.choice(["spec", "operator"])
    world.replay(ctx, World, config(["fallback", "ident"]), hs, lambda e, got, exp: f"replay:{e['op']}:{exp[0]}")
    traces = from_yaml(ctx)
    for i in range(ctx.scale(2500, 25000)):
        cfg = config(rng.choice([["fallback"], ["fallback"], ["fallback", "ident"], ["ident"], []]))
        traces.append(dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, rand_events(rng, rng.randint(2, 12)))))
    ctx.validate("OpTableTrace", traces, key=lambda t, i, x: f"{t['events'][i]['op']}:{x[0]}")
    ctx.notes["table_events"] = {k: sum(e["out"][0] == k for t in traces for e in t["events"]) for k in ("ok", "refused")}
    xs, got = signatures(ctx)
    for mk, f in ((rand_bind, bind_of), (rand_spec, lambda x: spec_of(rng, x)), (rand_types, lambda x: types_of(rng, x))):
        for _ in range(ctx.scale(4000, 30000)):
            x = mk(rng)
            xs.append(x)
            try:
                got.append(f(x))
            except Exception as ex:
                got.append(world.errname(ex))
    exp = ctx.evaluate("OpTableOracle", xs)
    for x, g, e in zip(xs, got, exp):
        ctx.compare(g, e, x["op"], x)
    ctx.notes["signatures"] = {op: sum(x["op"] == op for x in xs) for op in ("signature", "bind", "spec", "types")}
