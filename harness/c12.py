"""C12: module path queries (spec/MPath.tla)."""
import torch
import fastforward as ff
from fastforward import mpath
from fastforward.mpath import fragments as fr, selector as sel
from fastforward.mpath._parser import MPathParseError
from vf.world import errname


class X(torch.nn.Module): pass
class Y(X): pass
class Z(torch.nn.Module): pass


class NS:
    Y = Y


class Holder:
    inner = NS


CLS = dict(X=X, Y=Y, Z=Z)
CTX = dict(X=X, Y=Y, Z=Z, Holder=Holder, torch=torch)
NAMES = ["a", "b", "layer1", "0", "1", "10", "_x", "ab", "3x3", "éa", "3_x", "0_"]
REGEX = [("a.*", ["a", "ab"]), (r"\d+", ["0", "1", "10"]), ("a|b", ["a", "b"]), (r"[ab\]", ["a", "b"]), (r"layer\[0-9\]", ["layer1"]), ("1", ["1"]), ("(1|_x)0?", ["1", "10", "_x"]), (r".{1\}", ["a", "b", "0", "1"]) , ("x", [])]


def build(model):
    """Real modules; node i is the i-th."""
    n = len(model["classes"])
    mods = [X()]
    for i in range(n):
        c = model["classes"][i]
        if c and c[0] == "Q":
            m = ff.nn.QuantizerStub(*[ff.nn.quantizer.Tag(t) if hasattr(ff.nn.quantizer, "Tag") else t for t in model["own"][i]])
        else:
            m = CLS["Y" if "Y" in c else "X" if "X" in c else "Z"]()
        mods.append(m)
    for p, name, c in model["edges"]:
        mods[p].add_module(name, mods[c])
    return mods


def text(f, rng=None):
    k = f[0]
    if k == "name":
        return f[1]
    if k == "any":
        return "*"
    if k == "deep":
        return "**"
    if k == "re":
        return f"[{'re' if not rng or rng.random() < .5 else 'regex'}:{f[2]}]"
    if k == "cls":
        names = {"X": ["X"], "Y": ["Y", " Y", "Holder.inner.Y "], "Z": ["Z"]}[f[1]]
        return f"[{'cls' if not rng or rng.random() < .5 else 'class'}:{rng.choice(names) if rng else names[0]}]"
    if k == "tag":
        return f"[{'qtag' if not rng or rng.random() < .5 else 'quantizer'}:{f[1]}]"
    if k == "not":
        return "~" + text(f[1], rng)
    if k == "alt":
        sp = rng.choice(["", " "]) if rng else ""
        return "{" + ("," + sp).join(path(q, rng) for q in f[1]) + "}"
    return None  # no syntax for conjunctions


def path(q, rng=None):
    parts = [text(f, rng) for f in q]
    if None in parts:
        return None
    sp = rng.choice(["/", "/", " / "]) if rng else "/"
    return sp.join(parts)


def has_none(q):
    return any(f[0] in ("and", "or") or f[0] == "not" and has_none([f[1]]) or f[0] == "alt" and any(has_none(x) for x in f[1]) for f in q)


def frag(f):
    k = f[0]
    if k == "name":
        return fr.PathFragment(f[1])
    if k == "any":
        return fr.WildcardFragment(match_multiple=False)
    if k == "deep":
        return fr.WildcardFragment()
    if k == "re":
        return fr.RegexPathFragment(f[2].replace(r"\[", "[").replace(r"\]", "]"))
    if k == "cls":
        return fr.ClassFragment(CLS[f[1]])
    if k == "tag":
        return mpath.query(text(f)).fragment
    if k == "not":
        return ~frag(f[1])
    flat = lambda g: flat(g[1]) + flat(g[2]) if g[0] == k else [g]
    return (fr.JointFragment if k == "and" else fr.DisjointFragment)(*map(frag, flat(f)))


def built(q, rng):
    """The query put together from fragments with the operators."""
    parts = []
    for f in q:
        if f[0] == "alt":
            subs = [built(x, rng) for x in f[1]]
            s = sel.MultiSelector(None, tuple(subs)) if len(subs) != 2 else subs[0] | subs[1]
        elif f[0] == "and" and rng.random() < .5 and f[1][0] not in ("and", "or"):
            s = sel.Selector(None, frag(f[1])) & sel.Selector(None, frag(f[2]))
        elif f[0] == "not" and rng.random() < .5:
            s = ~sel.Selector(None, frag(f[1]))
        else:
            s = sel.Selector(None, frag(f))
        parts.append(s)
    return join(parts, rng)


def join(parts, rng):
    parts = list(parts)
    while len(parts) > 1:  # any association
        i = rng.randrange(len(parts) - 1)
        a, b = parts[i], parts[i + 1]
        parts[i:i + 2] = [a / b if rng.random() < .7 else a.extends(b)]
    return parts[0]


def mixed(q, rng):
    """Pieces of the query as strings, put together with '/'."""
    k = rng.randint(0, len(q))
    a, b = path(q[:k]), path(q[k:])
    if not a or not b:
        return mpath.query(path(q), context=CTX)
    if rng.random() < .5:
        return mpath.query(a, context=CTX) / b if "cls" not in b else mpath.query(a, context=CTX) / mpath.query(b, context=CTX)
    return a / mpath.query(b, context=CTX) if "cls" not in a else mpath.query(a, context=CTX) / mpath.query(b, context=CTX)


def aliased(q, rng):
    """Sub-queries replaced by references to shared aliases."""
    table = {}

    def ref(piece):
        s = path(piece)
        name = "al_" + str(abs(hash(s)) % 10**8)
        if name not in table:
            table[name] = mpath.query(s, context=CTX, aliases=table)
        return "&" + name

    def go(x):
        parts = []
        i = 0
        while i < len(x):
            f = x[i]
            if f[0] == "alt":
                parts.append("{" + ",".join(go(y) for y in f[1]) + "}")
                i += 1
            else:
                j = i + 1
                while j < len(x) and x[j][0] != "alt" and rng.random() < .3:
                    j += 1
                parts.append(ref(x[i:j]) if rng.random() < .8 else path(x[i:j]))
                i = j
        return "/".join(parts)
    s = go(q)
    return s, table


def result(coll, mods):
    pos = {id(m): i for i, m in enumerate(mods)}
    got = []
    for r in coll:
        if r.module is mods[0] or mods[0].get_submodule(r.full_name) is not r.module or getattr(r.parent, r.parent_attribute) is not r.module \
                or not (r.full_name == r.parent_attribute or r.full_name.endswith("." + r.parent_attribute)) \
                or mods[0].get_submodule(r.full_name[: -len(r.parent_attribute)].rstrip(".")) is not r.parent:
            return ["bad location", r.full_name]
        got.append(pos[id(r.module)])
    if len(set(got)) != len(got):
        return ["repeated", got]
    return sorted(got)


def forms(q, rng, everything=True):
    yield "built", lambda: (built(q, rng), None)
    if not has_none(q):
        yield "string", lambda: (mpath.query(rng.choice(["", "/"]) + path(q, rng) + rng.choice(["", "", "/"]), context=CTX), None)
        if everything:
            yield "mixed", lambda: (mixed(q, rng), None)
            yield "aliases", lambda: aliased(q, rng)
    if everything:
        yield "simplified", lambda: (built(q, rng).simplify(), None)
        yield "again", lambda: (join(list(built(q, rng)[i] for i in range(len(q))), rng), None)


def check(ctx, model, mods, q, exp, rng, everything=True):
    for name, make in forms(q, rng, everything):
        try:
            query, table = make()
            if table and rng.random() < .3:  # aliases found on the root module
                mods[0].aliases = table
                got = result(mpath.search(query, mods[0]), mods)
                del mods[0].aliases
            else:
                # resolved in this function's scope
                X, Y, Z, Holder = globals()["X"], globals()["Y"], globals()["Z"], globals()["Holder"]
                got = result(mpath.search(query, mods[0], aliases=table), mods)
        except Exception as e:
            got = errname(e) + [str(e)[:150]]
        ctx.compare(got, exp, f"{name}", dict(model=model, query=q, text=path(q) if not has_none(q) else str(q)))


TAGS = ["activation", "activation/input", "activation/output", "parameter", "parameter/weight", "parameter/bias", "activation/vf/deep"]


def rand_model(rng):
    n = rng.randint(2, 9)
    classes, own = [], []
    for i in range(n):
        k = rng.random()
        if k < .2 and i > 0:
            classes.append(["Q"]); own.append(rng.sample(TAGS, rng.randint(0, 2)))
        else:
            classes.append(rng.choice([["X"], ["X", "Y"], ["Z"]])); own.append([])
    edges = []
    names = rng.sample(NAMES, rng.randint(2, 6))
    for c in range(1, n + 1):
        ps = [p for p in range(c) if p == 0 or classes[p - 1] != ["Q"]]
        used = 0
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            p = rng.choice(ps)
            free = [x for x in names if not any(e[0] == p and e[1] == x for e in edges)]
            if free:
                edges.append([p, rng.choice(free), c]); used += 1
        if not used:
            edges.append([0, f"n{c}", c])
    rng.shuffle(edges)
    return dict(edges=edges, classes=classes, own=own, tags=[sorted({"/".join(t.split("/")[:k]) for t in o for k in range(1, len(t.split("/")) + 1)}) for o in own])


def rand_frag(rng, model, d=0):
    names = [e[1] for e in model["edges"]]
    r = rng.random()
    if r < .4:
        return ["name", rng.choice(names)]
    if r < .55:
        return ["any"]
    if r < .65:
        p, ns = rng.choice(REGEX[:-2] + REGEX[-1:])
        return ["re", ns, p]
    if r < .75:
        return ["cls", rng.choice("XYZ")]
    if r < .82:
        return ["tag", rng.choice(TAGS)]
    if d > 1:
        return ["any"]
    if r < .91:
        return ["not", rand_frag(rng, model, d + 1)]
    if r < .94:
        k = rng.choice(["and", "or"])
        f = ["not", rand_frag(rng, model, 2)] if k == "and" else rand_frag(rng, model, 2)
        for _ in range(rng.randint(1, 3)):
            f = [k, f, ["not", rand_frag(rng, model, 2)] if k == "and" and rng.random() < .6 else rand_frag(rng, model, 2)]
        return f
    return [rng.choice(["and", "or"]), rand_frag(rng, model, d + 1), rand_frag(rng, model, d + 1)]


def rand_query(rng, model, d=0):
    q = []
    for _ in range(rng.randint(1, 4 if d == 0 else 2)):
        r = rng.random()
        if r < .3:
            q.append(["deep"])
        elif r < .5 and d < 2:
            q.append(["alt", [rand_query(rng, model, d + 1) for _ in range(rng.randint(1, 3))]])
        else:
            q.append(rand_frag(rng, model))
    return q


BAD = ["{a/,b}", "{,a}", "{a/}", "a,", "", "/", "a//b", "a b", "{a", "{a,}", "{}", "[foo:x]", "~", "&nope", "a/]", "*a", "***", "a/[cls:Nope]", "[re:(]", "[re:a", "[cls X]", "a}", "~{a,b}", "a,b", "{a,b}}", "//a", "[:x]", 'a"', '"', "a:b", "&", "&a/", "~a/~", "a/b/&x"]


def malformed(ctx):
    for s in BAD:
        for where in ("query", "search"):
            try:
                mpath.query(s, context=CTX) if where == "query" else mpath.search(s, X())
                got = "accepted"
            except (MPathParseError, sel.MPathQueryError):
                got = "refused"
            except Exception as e:
                got = errname(e)
            ctx.compare(got, "refused", f"malformed:{where}", s)


def extensions(ctx):
    class Ext(fr.PathFragment):
        @classmethod
        def from_raw_string(cls, raw):
            return mpath.Selector(None, cls(raw))

    class Other(Ext):
        def match(self, name, module):
            return not super().match(name, module)
    root = X()
    root.a, root.b = X(), X()
    names = lambda q: [r.full_name for r in mpath.search(q, root)]

    def attempt(f):
        try:
            return f()
        except (MPathParseError, ValueError) as e:
            return type(e).__name__
    got = []
    got.append(attempt(lambda: names("[vfext:a]")))
    with mpath.register_mpath_query_extension("vfext", Ext):
        got.append(names("[vfext:a]"))
        got.append(attempt(lambda: mpath.register_mpath_query_extension("vfext", Other)))
        with mpath.register_mpath_query_extension("vfext", Other, override=True):
            got.append(names("[vfext:a]"))
        got.append(attempt(lambda: names("[vfext:a]")))
    got.append(attempt(lambda: names("[vfext:a]")))
    mpath.mpath_query_extension("vfext2")(Other)
    got.append(names("[vfext2:a]"))
    got.append(attempt(lambda: mpath.register_mpath_query_extension("cls", Other)))
    ctx.compare(got, ["MPathParseError", ["a"], "ValueError", ["b"], ["a"], "MPathParseError", ["b"], "ValueError"], "extensions", "registration and removal of extensions")


def combinations(ctx):
    """Conjunction and negation are for single fragments; names in a query are resolved where it is written."""
    def refused(f):
        try:
            return [type(f()).__name__]
        except sel.MPathQueryError:
            return "refused"
    a, b, ab = (mpath.query(x) for x in ("a", "b", "a/b"))
    got = [refused(lambda: a & ab), refused(lambda: ab & a), refused(lambda: ab & ab), refused(lambda: ~ab), refused(lambda: a & b), refused(lambda: ~a)]
    ctx.compare(got, ["refused"] * 4 + [["Selector"]] * 2, "combinations", "a & a/b and ~a/b")

    class Z(torch.nn.Module): pass  # not the global one

    class Only(torch.nn.Module): pass
    root = X()
    root.m, root.n, root.o = globals()["Z"](), Z(), Only()
    root.m.x = Only()
    names = lambda c: sorted(r.full_name for r in c)
    got = [names(mpath.search(mpath.query("[cls:Z]"), root)), names(mpath.search("[cls:Z]", root)), names(mpath.search(mpath.query("**") / "[cls:Only]", root)),
           names(mpath.search("[cls:Z]" / mpath.query("*"), root)), names(mpath.search(mpath.query("{m,n}") / "[cls:Only]", root)),
           names(mpath.search(mpath.query("**/[cls:Only]"), root)), names(mpath.search("[cls:Only]" / mpath.query("**"), root)),
           names(mpath.search(mpath.query("[cls:Z]", context=CTX), root))]
    ctx.compare(got, [["n"], ["n"], ["m.x", "o"], [], ["m.x"], ["m.x", "o"], ["o"], ["m"]], "scopes", "[cls:...] with local classes")


def run(ctx):
    L = ctx.scale(3, 3)
    cases = ctx.generate("MPathMC", f"INIT Init\nNEXT Next\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {L} Gen = TRUE\n", workers=8)
    built_models = {}
    for model, q, exp in cases:
        key = repr(model)
        if key not in built_models:
            built_models[key] = build(model)
        check(ctx, model, built_models[key], q, exp, ctx.rng, everything=ctx.thorough or ctx.rng.random() < .2)
    ctx.notes["exhaustive_queries"] = len(cases)
    if ctx.thorough:
        ctx.model_check("MPathMC", "INIT Init\nNEXT Next\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = 4 Gen = FALSE\n", workers=8)
    ins, ms = [], []
    for _ in range(ctx.scale(400, 3000)):
        model = rand_model(ctx.rng)
        mods = build(model)
        for _ in range(6):
            ins.append(dict(model={k: v for k, v in model.items() if k != "own"}, query=rand_query(ctx.rng, model)))
            ms.append(mods)
    for x, e, mods in zip(ins, ctx.evaluate("MPathOracle", ins), ms):
        check(ctx, x["model"], mods, x["query"], e, ctx.rng)
    malformed(ctx)
    extensions(ctx)
    combinations(ctx)
