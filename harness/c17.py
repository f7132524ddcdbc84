"""C17: saving and loading quantization state and artifacts (spec/SaveLoad.tla)."""
import hashlib
import json
import logging
import pathlib
import shutil
import tempfile
import types

import torch
import fastforward as ff
from fastforward.nn.dynamic_linear_quantizer import DynamicLinearQuantizer
from fastforward.quantization import save_load as sl
from vf.world import drive

logging.getLogger("fastforward").setLevel(logging.CRITICAL)


class Inherits(ff.nn.LinearQuantizer):
    """No __init__ of its own."""


class Doubled(ff.nn.Quantizer):
    """Neither parameters nor an __init__."""

    def quantize(self, data):
        return data * 2


class Scaled(ff.nn.Quantizer):
    """Settings that are not arguments, and parameters that are never lazy."""

    def __init__(self, k, *, table=(1, 2)):
        super().__init__()
        self.k = k
        self.table = list(table)
        self.p = torch.nn.Parameter(torch.full((2,), float(k)))
        self.register_buffer("b", torch.ones(()))

    def quantize(self, data):
        return data * self.p.sum() * self.b * self.k + len(self.table)


class Net(torch.nn.Module):
    def __init__(self, tied=False, wide=2, extra=False, turned=False):
        super().__init__()
        self.first = torch.nn.Linear(2, wide)
        self.inner = torch.nn.Sequential(torch.nn.ReLU(), torch.nn.Linear(wide, 2))
        self.first_extra = torch.nn.Linear(2, 2, bias=False)
        self.conv = torch.nn.Conv2d(2, 3, (1, 4) if turned else 2)
        self.register_buffer("shift", torch.tensor([.5, -.25]))
        if extra:
            self.more = torch.nn.Linear(2, 2)
        if tied:
            self.first_extra.weight = self.inner[1].weight

    def forward(self, x):
        y = self.first_extra(self.inner(self.first(x))) + self.shift
        if hasattr(self, "more"):
            y = self.more(y)
        return y.sum() + self.conv(torch.arange(32., dtype=y.dtype).reshape(1, 2, 4, 4) / 8).sum() + y


class QuantizedNet(ff.nn.QuantizedModule, Net):
    def __init_quantization__(self):
        super().__init_quantization__()
        self.main_quantizer = ff.nn.QuantizerStub("activation/output", shape=3)
        self.group = torch.nn.ModuleList([ff.nn.QuantizerStub(), ff.nn.QuantizerStub()])

    def forward(self, x):
        y = self.main_quantizer(super().forward(x))
        for q in self.group:
            y = q(y)
        return y


EXTRA = {Net: QuantizedNet}
BASES = {
    "net": lambda: Net(),
    "tied": lambda: Net(tied=True),
    "wide": lambda: Net(wide=3),
    "extra": lambda: Net(extra=True),
    "turned": lambda: Net(turned=True),
    "root": lambda: torch.nn.Linear(2, 2),
}
GRANS = {"t": ff.PerTensor(), "c": ff.PerChannel(0), "m": ff.PerChannel(-1), "b": ff.granularity.PerBlock(1, 1, 0)}
DT = {"float32": torch.float32, "float64": torch.float64, "bfloat16": torch.bfloat16}


def fp(t):
    return str(t.dtype)[6:] + hashlib.md5(json.dumps([list(t.shape), t.detach().double().flatten().tolist()]).encode()).hexdigest()[:8]


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="c17_"))
        self.saved_y = {}
        self.new(dict(base=cfg["model"]["base"], dtype=cfg["model"]["dtype"], name=cfg["model"]["name"], seed=cfg["seed"]))
        cfg["model"] = self.view()

    def close(self):
        shutil.rmtree(self.dir)

    def new(self, e):
        torch.manual_seed(e["seed"])
        self.base, self.dtype, self.name = e["base"], e["dtype"], e["name"]
        m = ff.quantize_model(BASES[self.base](), extra_conversion=EXTRA)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randint(-8, 9, p.shape) / 8)
        self.m = m.to(DT[self.dtype])
        if self.name:
            self.m.config = types.SimpleNamespace(name_or_path=self.name, transformers_version="4")
        self.handles = []
        self.inexact = False

    def locs(self):
        return [n for n, _ in ff.nn.quantized_module.named_quantizers(self.m, remove_duplicate=False, skip_stubs=False)]

    def describe(self, q):
        if isinstance(q, ff.nn.QuantizerStub):
            return "stub", False
        s = [type(q).__name__]
        s += [f"{a}={getattr(q, a)}" for a in ("num_bits", "symmetric", "allow_one_sided", "granularity", "quantized_dtype", "k", "table") if hasattr(q, a)]
        lazy = False
        for k, v in sorted(q.state_dict(keep_vars=True).items()):
            if torch.nn.parameter.is_lazy(v):
                lazy = True
                s.append(f"{k} {type(v).__name__}")
            else:
                s.append(f"{k} {isinstance(v, torch.nn.Parameter)} {fp(v)}")
        return "|".join(s), lazy

    def view(self):
        first, q = {}, {}
        names = self.locs()
        for n in names:
            m = self.m.get_submodule(n)
            d, lazy = self.describe(m)
            rep = "" if d == "stub" else first.setdefault(id(m), n)
            q[n] = dict(d=d, lazy=lazy, rep=rep)
        prefixes = tuple(n + "." for n in names)
        w = {k: dict(shape=str(tuple(v.shape)), fp=fp(v)) for k, v in self.m.state_dict(keep_vars=True).items() if not k.startswith(prefixes)}
        over = any(not isinstance(x, ff.nn.QuantizerStub) and bool(x._quantizer_overrides) for _, x in ff.nn.quantized_module.named_quantizers(self.m))
        return dict(q=q, w=w, base=self.base, dtype=self.dtype, tied=self.base == "tied", over=over, name=self.name, order=names)

    def quantizer(self, e):
        k, b = e["cls"], e["bits"]
        kw = dict(symmetric=e["sym"], allow_one_sided=e["one"], granularity=GRANS[e["gran"]])
        if e["qdt"]:
            kw["quantized_dtype"] = torch.int8
        if e["pdt"]:
            kw["param_dtype"] = DT[e["pdt"]]
        if k == "linear":
            return ff.nn.LinearQuantizer(b, **kw)
        if k == "inherits":
            return Inherits(num_bits=b, **kw)
        if k == "doubled":
            return Doubled()
        if k == "scaled":
            return Scaled(b, table=(1,) * (b % 3))
        return DynamicLinearQuantizer(b, granularity=ff.PerTensor())

    def set(self, name, q):
        parent, _, attr = name.rpartition(".")
        setattr(self.m.get_submodule(parent), attr, q)

    def set_range(self, q, e):
        if isinstance(q, ff.nn.LinearQuantizer):
            n = {"t": 1}.get(next(k for k, g in GRANS.items() if repr(g) == repr(q.granularity)), e["n"])
            lo, hi = e["lo"] / 8, e["hi"] / 8
            q.quantization_range = (torch.full((n,), lo), torch.full((n,), hi) + torch.arange(n) / 4)
        elif isinstance(q, Scaled):
            with torch.no_grad():
                q.p.fill_(e["hi"])
                q.b.fill_(e["lo"])

    def y(self):
        g = torch.Generator().manual_seed(0)
        x = (torch.randint(-16, 17, (4, 2), generator=g) / 8).to(DT[self.dtype])
        try:
            with ff.strict_quantization(False), torch.no_grad():
                y = self.m(x)
            return y.dequantize() if hasattr(y, "dequantize") else y
        except Exception:
            return None

    def path(self, i):
        return self.dir / self.cfg["stores"][i - 1]["path"]

    def apply(self, e):
        op = e["op"]
        if op == "edit":
            try:
                self.edit(e)
            except (RuntimeError, ValueError):  # e.g. a range of another shape
                pass
            e["model"] = self.view()
            return "ok"
        if op in ("delete", "version"):
            p = self.path(e["store"])
            files = sorted(p.iterdir()) if p.exists() else []
            if op == "delete" and files:
                files[e["file"] % len(files)].unlink()
            if op == "version":
                which = [f for f in files if f.suffix in (".yaml", ".json")]
                # without all files a later load reports the missing file
                if which:
                    f = which[e["file"] % len(which)]
                    f.write_text(f.read_text().replace('"version": "1.0"', '"version": "3.0"').replace("version: '1.0'", "version: '3.0'"))
            return "ok"
        before = self.view()
        e["err"] = "ok"
        e["same"] = True
        place = ""
        try:
            if op == "save":
                kw = dict(name_or_path=e["name"]) if e["name"] else {}
                if e["kind"] == "state":
                    y = self.y()
                    p = self.call("save_quantization_state", e, tag=e["tag"], cache_dir=self.dir, allow_lazy_params=e["allow"], **kw)
                    place = str(p.parent.relative_to(self.dir.resolve())) if p.name == "config.yaml" else str(p)
                else:
                    y = self.y()
                    p = self.call("save_quantized_model", e, self.path(e["store"]), allow_lazy_params=e["allow"], **kw)
                    place = str(p.relative_to(self.dir))
                self.saved_y[place] = (y, self.inexact)
            else:
                kw = dict(allow_lazy_params=e["allow"])
                if e["policy"] != "error" or e["explicit"]:
                    kw["overwrite_policy"] = e["policy"]
                if e["kind"] == "state":
                    if e["file"]:
                        kw["name_or_path"] = self.path(e["store"]) / "config.yaml"
                    elif e["name"]:
                        kw["name_or_path"] = e["name"]
                    place = self.cfg["stores"][e["store"] - 1]["path"]
                    self.call("load_quantization_state", e, tag=e["tag"], cache_dir=self.dir, **kw)
                else:
                    if e["nocheck"]:
                        kw["expected_name"] = ""
                    elif e["name"]:
                        kw["expected_name"] = e["name"]
                    place = self.cfg["stores"][e["store"] - 1]["path"]
                    self.call("load_quantized_model", e, self.path(e["store"]), **kw)
                y0, inexact = self.saved_y.get(place, (None, True))
                y = self.y()
                if not inexact and not self.inexact and y0 is not None and (y is None or y.shape == y0.shape):
                    e["same"] = y is not None and y.dtype == y0.dtype and torch.equal(y, y0)
                place = ""
        except Exception as ex:
            e["err"] = type(ex).__name__
            place = ""
        v = self.view()
        if op == "load":
            e["w"] = v["w"]
        if {k: v[k] for k in ("base", "dtype", "name", "order")} != {k: before[k] for k in ("base", "dtype", "name", "order")}:
            return ["model structure changed"]
        return [e["err"], v["q"], v["w"], place]

    def call(self, name, e, *a, **kw):
        if e["method"] and hasattr(self.m, name):
            return getattr(self.m, name)(*a, **kw)
        return getattr(ff.quantization, name)(self.m, *a, **kw)

    def edit(self, e):
        what = e["what"]
        names = self.locs()
        if what == "new":
            return self.new(e)
        if what == "cast":
            self.dtype = e["dtype"]
            self.m.to(DT[e["dtype"]])
            return
        if what == "format":
            self.inexact = True
            return self.m.to(memory_format=torch.channels_last)
        if what == "train":
            with torch.no_grad():
                for i, p in enumerate(self.m.parameters()):
                    if not torch.nn.parameter.is_lazy(p) and i % 3 == e["i"] % 3:
                        p.add_((i + e["i"]) % 4 / 8)
            return
        n = names[e["i"] % len(names)]
        q = self.m.get_submodule(n)
        if what == "put":
            new = self.quantizer(e)
            self.set(n, new)
            if e["range"]:
                self.set_range(new, e)
        elif what == "share":
            self.set(n, self.m.get_submodule(names[e["j"] % len(names)]))
        elif what == "range":
            self.set_range(q, e)
        elif what == "stub":
            self.set(n, ff.nn.QuantizerStub())
        elif what == "setting":
            if isinstance(q, Scaled):
                q.table.append(9)
                q.k += 1
            elif hasattr(q, "num_bits") and isinstance(q, ff.nn.LinearQuantizer):
                q.num_bits = e["bits"]
        elif what == "override" and not isinstance(q, ff.nn.QuantizerStub):
            self.handles.append(q.register_override(lambda q, f, x: f(x)))
        elif what == "unoverride":
            for h in self.handles:
                h.remove()
            self.handles = []


def rand_quant(rng):
    return dict(cls=rng.choice(["linear"] * 5 + ["inherits", "doubled", "scaled", "scaled", "dynamic"]), bits=rng.choice([2, 3, 4, 8]), sym=rng.random() < .5,
                one=rng.random() < .5, gran=rng.choice("ttcmb"), qdt=rng.random() < .2, pdt=rng.choice(["", "", "", "float64", "bfloat16"]), range=rng.random() < .85)


def rand_edit(rng, base):
    what = rng.choice(["put"] * 8 + ["share"] * 4 + ["range"] * 3 + ["stub"] * 2 + ["setting"] * 2 + ["train"] * 2 + ["cast", "format", "override", "unoverride", "unoverride"])
    lo = rng.randint(-16, 4)
    return dict(op="edit", what=what, i=rng.randint(0, 99), j=rng.randint(0, 99), lo=lo, hi=lo + rng.randint(1, 20), n=rng.choice([2, 3]),
                dtype=rng.choice(["float32", "float64", "float64", "bfloat16"]), **rand_quant(rng))


PLACES = [
    dict(kind="state", tag="main", names=["m"], path="quantization-state--m/main"),
    dict(kind="state", tag="v-2", names=["m"], path="quantization-state--m/v-2"),
    dict(kind="state", tag="main", names=["a/b", "a--b"], path="quantization-state--a--b/main"),
    dict(kind="state", tag="main", names=["/tmp"], path="quantization-state----tmp/main"),
    dict(kind="model", tag="", names=[], path="art1"),
    dict(kind="model", tag="", names=[], path="deep/art2"),
]


def rand_trace(rng, i):
    nm = lambda: rng.choice(["m", "m", "m", "a/b", "a--b", "b", "/tmp"])
    nm0 = lambda: rng.choice(["", ""]) if rng.random() < .7 else nm()
    names = lambda: rng.choice(["m"] * 7 + ["a/b", "b", "/tmp", ""])
    base = lambda: rng.choice(["net"] * 5 + ["tied", "tied", "wide", "extra", "root", "root", "turned", "turned"])
    b = base()
    name = names()
    cfg = dict(model=dict(base=b, dtype="float32", name=name), seed=rng.randint(0, 999), stores=PLACES)
    evs = []

    def fresh(same=.75):
        nonlocal b, name
        if rng.random() > same:
            b, name = base(), names()
        evs.append(dict(op="edit", what="new", base=b, dtype=rng.choice(["float32"] * 4 + ["float64"]) if not casts else dtype, name=name, seed=rng.randint(0, 999)))

    casts = rng.random() < .3
    dtype = "float32"

    def edits(k):
        nonlocal dtype
        for _ in range(k):
            e = rand_edit(rng, b)
            if e["what"] == "cast":
                dtype = e["dtype"]
            evs.append(e)

    last = None

    def pick():
        nonlocal last
        if last is None or rng.random() < .25:
            p = rng.randint(1, len(PLACES))
            pl = PLACES[p - 1]
            last = (p, pl["kind"], pl["tag"], rng.choice(pl["names"]) if pl["names"] else nm0())
        return last

    def save():
        p, kind, tag, n = pick()
        evs.append(dict(op="save", kind=kind, store=p, tag=tag, name="" if n == name and rng.random() < .5 else n, allow=rng.random() < .6, method=rng.random() < .4))

    def load(policies=("error", "error", "overwrite", "overwrite", "skip", "skip", "bogus")):
        p, kind, tag, n = pick()
        file = kind == "state" and name != "" and rng.random() < .15
        e = dict(op="load", kind=kind, store=p, tag=tag, name="" if n == name and rng.random() < .5 else n, allow=rng.random() < .75, method=rng.random() < .4,
                 policy=rng.choice(policies), explicit=rng.random() < .5, file=file, nocheck=rng.random() < .2)
        evs.append(e)

    edits(rng.randint(2, 7))
    save()
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .65:
            fresh()
            if rng.random() < .35:
                edits(rng.randint(1, 3))
                load(["error", "overwrite", "skip", "skip", "skip", "bogus"])
            else:
                load()
        elif r < .75:
            load()
        elif r < .9:
            edits(rng.randint(1, 3))
            save()
        else:
            evs.append(dict(op=rng.choice(["delete", "version"]), store=pick()[0], file=rng.randint(0, 3)))
            load()
    return dict(id=f"rand{i}", cfg=cfg, events=drive(World, cfg, evs))


def run(ctx):
    ctx.model_check("SaveLoadMC", f"INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = {ctx.scale(4, 5)}\n", workers=8)
    traces = [rand_trace(ctx.rng, i) for i in range(ctx.scale(900, 6000))]
    ctx.validate("SaveLoadTrace", traces, key=lambda t, i, x: f"rand:{t['events'][i]['op']}:{t['events'][i].get('kind', '')}", workers=8)
