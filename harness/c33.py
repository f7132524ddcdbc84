"""C33: listings, states and summaries of the quantizers of a model (spec/Listing.tla)."""
import io
import torch
import fastforward as ff
from vf.world import errname

M = torch.nn.Module
L = ff.nn.LinearQuantizer
SETS = [lambda: L(4, allow_one_sided=False), lambda: L(4, symmetric=False), lambda: L(8, allow_one_sided=False, granularity=ff.PerChannel(0)), lambda: L(2, allow_one_sided=False)]
DIGITS = ["0", "1", "12", "007"]


class QM(ff.nn.QuantizedModule):
    pass


def build(m, off=0):
    mods = []
    inside = {x for i, k in enumerate(m["kind"]) if k == "quant" for x in below(m, i)}
    for i, k in enumerate(m["kind"]):
        if k == "quant":
            q = SETS[m["set"][i] - 1]()
            v = float(value(i, 0) + off)
            if not m["ready"][i] and not off:
                mods.append(q)
                continue
            if m["set"][i] == 2:
                q.scale = torch.nn.Parameter(torch.tensor([v]))
                q.offset = torch.nn.Parameter(torch.tensor([v + 1]))
            else:
                q.scale = torch.nn.Parameter(torch.tensor([v] * (2 if m["set"][i] == 3 else 1)))
            mods.append(q)
        elif k == "stub":
            mods.append(ff.nn.QuantizerStub())
        else:
            w = QM() if m["q"][i] else M()
            if i not in inside:
                w.weight = torch.nn.Parameter(torch.tensor([float(i + off)]))
            mods.append(w)
    for i, ks in enumerate(m["kids"]):
        for k in ks:
            M.register_module(mods[i], k["name"], mods[k["to"] - 1] if k["to"] else None)
    return mods


def value(i, k):
    return 10 * (i + 1) + k


def state(i, s):
    return [dict(name="scale", value=value(i, 0))] + ([dict(name="offset", value=value(i, 1))] if s == 2 else [])


def finish(m, rng):
    m["ready"] = [k != "quant" or rng.random() < .85 for k in m["kind"]]
    m["q"] = [rng.random() < .6 for _ in m["kind"]]
    m["digits"] = DIGITS
    m["state"] = [state(i, s) if k == "quant" else [] for i, (k, s) in enumerate(zip(m["kind"], m["set"]))]
    return m


def rand_model(rng):
    n = rng.randint(1, 9)
    kind = [rng.choice(["plain", "plain", "quant", "quant", "stub"]) for _ in range(n)]
    if rng.random() < .8:
        kind[0] = "plain"
    kids = [[] for _ in range(n)]
    for j in range(1, n):
        for _ in range(rng.choice([1, 1, 2, 3])):
            inner = [i for i in range(j) if kind[i] == "plain" or rng.random() < .1] or [0]
            i = rng.choice(inner)
            free = [x for x in ["0", "1", "12", "007", "q", "w", "weight_quantizer", "a1"] if x not in [k["name"] for k in kids[i]]]
            if free and len(kids[i]) < 6:
                kids[i].append(dict(name=rng.choice(free), to=j + 1))
    for ks in kids:
        rng.shuffle(ks)
        if ks and rng.random() < .1:
            ks.insert(0, dict(name="none", to=0))
    same = rng.random() < .4
    return finish(dict(kind=kind, kids=kids, set=[1 if same or k != "quant" else rng.randint(1, 4) for k in kind]), rng)


def listing(m, mods, x):
    root, kw = mods[0], {}
    prefix = ".".join(x["prefix"])
    if prefix or x["explicit"]:
        kw["prefix"] = prefix
    for k, v, d in (("recurse", x["recurse"], True), ("remove_duplicate", x["dedup"], True), ("skip_stubs", x["skip"], True)):
        if v != d or x["explicit"]:
            kw[k] = v
    method = isinstance(root, ff.nn.QuantizedModule)
    got = list(root.named_quantizers(**kw) if method and x["method"] else ff.nn.quantized_module.named_quantizers(root, **kw))
    if method and x["dedup"]:
        plain = list(root.quantizers(**{k: v for k, v in kw.items() if k in ("recurse", "skip_stubs")}))
        if [id(q) for q in plain] != [id(q) for _, q in got]:
            return ["quantizers() differs"]
    index = {id(q): i + 1 for i, q in enumerate(mods)}
    return [[n.split(".") if n else [], index.get(id(q), 0)] for n, q in got]


def below(m, i):
    return {i} | {x for k in m["kids"][i] if k["to"] for x in below(m, k["to"] - 1)}


def states(m, mods, x):
    root = mods[0]
    f = root.quantizer_state_dict if isinstance(root, ff.nn.QuantizedModule) and x["method"] else lambda: ff.nn.quantized_module.quantizer_state_dict(root)
    sd = f()
    got = sorted([k.split("."), int(v.reshape(-1)[0])] for k, v in sd.items())
    new = build(m, 500)
    new[0].load_state_dict(sd, strict=False)
    bad = []
    for i, (a, b) in enumerate(zip(mods, new)):
        if i not in below(m, 0):
            continue
        for (k, p), (_, r) in zip(a.named_parameters(recurse=False), b.named_parameters(recurse=False)):
            if m["kind"][i] == "quant" and not all(m["ready"][b] for b in below(m, i)):
                continue
            want = p if m["kind"][i] == "quant" else p + 500
            if not torch.equal(want, r):
                bad.append([i, k])
    return [got, bad]


def summary(m, mods, x):
    root = mods[0]
    out = io.StringIO()
    f = root.summarize_quantizers if isinstance(root, ff.nn.QuantizedModule) and x["method"] else lambda writer=None: ff.nn.quantized_module.summarize_quantizers(root, writer)
    s = f(out) if x["explicit"] else f()
    reprs = {repr(mk()): i + 1 for i, mk in enumerate(SETS)}
    got = []
    for g in s.summaries:
        head, *rest = repr(g).split("\n")
        lines = []
        for l in rest:
            name, c = l[4:].rsplit(" (", 1)
            lines.append([name.split(".") if name else [], int(c[:-2])])
        assert rest == [] or all(l.startswith("  - ") and l.endswith("x)") for l in rest)
        if head != f"{g.quantizer_repr} used {len(g.locations)} times" or g.count != len(g.locations):
            return ["bad heading", head]
        got.append(dict(set=reprs.get(g.quantizer_repr, 0), names=[n.split(".") if n else [] for n in g.locations], lines=lines))
    if x["explicit"] and out.getvalue() != repr(s) + "\n":
        return ["written text differs", out.getvalue()]
    return got


def run(ctx):
    gen = ctx.generate("ListingMC", "INIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS N = 3 Gen = TRUE NoHoles = FALSE\n", workers=8)
    if ctx.thorough:
        ctx.model_check("ListingMC", "INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS N = 4 Gen = FALSE NoHoles = TRUE\n", workers=8)
    ctx.notes["exhaustive_models"] = len(gen)
    rng = ctx.rng
    if not ctx.thorough:
        gen = rng.sample(gen, min(len(gen), 1500))
    models = [finish(m, rng) for m in gen] + [rand_model(rng) for _ in range(ctx.scale(1500, 12000))]
    ins = []
    for m in models:
        nested = any(k in ("quant", "stub") and ks for k, ks in zip(m["kind"], m["kids"]))  # their text shows what they contain
        for op in ("list", "list", "state") + (() if nested else ("summary",)):
            x = dict(op=op, m=m, method=rng.random() < .5, explicit=rng.random() < .5)
            if op == "list":
                x |= dict(prefix=rng.choice([[], [], ["a"], ["a", "0"]]), recurse=rng.random() < .75, dedup=rng.random() < .5, skip=rng.random() < .5)
            ins.append(x)
    for x, exp in zip(ins, ctx.evaluate("ListingOracle", ins)):
        m = x["m"]
        try:
            got = dict(list=listing, state=states, summary=summary)[x["op"]](m, build(m), x)
        except Exception as ex:
            got = [errname(ex)]
        if x["op"] == "state":
            exp = [sorted(exp[-1]), []]
        ctx.compare(got, exp, x["op"], x)
