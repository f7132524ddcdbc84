"""C27: exported encodings (spec/Encoding.tla)."""
import logging
import math
from fractions import Fraction
import torch
import fastforward as ff
from fastforward.export._export_schemas import LegacySchemaHandler, V1SchemaHandler, V2SchemaHandler
from fastforward.export._lpbq import LPBQProcessor
from fastforward.export.module_export import ModuleIORecorder
from fastforward.quantization import granularity as gr
from fastforward.quantization.affine import quantize_per_granularity
from vf import world

UNIT = 1024


def units(x, unit=UNIT):
    """A number in units of 1/unit; something else if it is not a multiple."""
    f = Fraction(float(x)) * unit
    return int(f) if f.denominator == 1 and abs(f) < 2 ** 31 else "?" + str(x)


def whole(x):
    return units(x, 1)


def truth(x):
    return {"True": True, "False": False}.get(x, x)


def flat(x):
    return [v for y in x for v in flat(y)] if isinstance(x, (list, tuple)) else [x]


def nested(x):
    return [len(x), *nested(x[0])] if isinstance(x, (list, tuple)) else []


def legacy(d):
    part = lambda es: [[n, [[whole(t["bitwidth"]), t["dtype"], truth(t["is_symmetric"]), units(t["min"]), units(t["max"]), whole(t["offset"]), units(t["scale"])] for t in ts]] for n, ts in es.items()]
    return part(d["param_encodings"]), part(d["activation_encodings"])


def v1(d):
    def one(e):
        if e["enc_type"] == "LPBQ":
            sc = [units(s, UNIT * 2 ** e["compressed_bw"]) for s in e["scale"]]
            return ["LPBQ", e["dtype"], truth(e["is_sym"]), whole(e["bw"]), whole(e["compressed_bw"]), whole(e["block_size"]), [whole(v) for v in e["per_block_int_scale"]], sc, [whole(o) for o in e["offset"]]]
        return [e["enc_type"], e["dtype"], truth(e["is_sym"]), whole(e["bw"]), [units(s) for s in e["scale"]], [whole(o) for o in e["offset"]], whole(e.get("block_size", 0))]
    part = lambda es: [[e["name"], one(e)] for e in es]
    return part(d["param_encodings"]), part(d["activation_encodings"])


def v2(d):
    def one(e):
        u = e["output_dtype"].rstrip("0123456789")
        zp = e.get("y_zero_point", [])
        if zp != [] and nested(zp) != nested(e["y_scale"]):
            return "scales and zero points differ in shape"
        return [u, int(e["output_dtype"][len(u):]), e.get("axis", -1), e.get("block_size", 0), nested(e["y_scale"]), [units(s) for s in flat(e["y_scale"])], [whole(z) for z in flat(zp)]]
    return [], [[e["name"], one(e)] for e in d["encodings"]]


VERSION = {"legacy": "0.6.1", "v1": "1.0.0", "v2": "2.0.0"}
READ = {"legacy": legacy, "v1": v1, "v2": v2}


def setting(q, how):
    """The quantizer's parameters as the handlers get them."""
    scale = torch.tensor([s / UNIT for s in q["scales"]])
    off = None if not q["offs"] else torch.tensor([o / 2 for o in q["offs"]])
    if how == "scalar" and len(scale) == 1:
        scale, off = float(scale), None if off is None else float(off)
    elif how == "zerodim" and len(scale) == 1:
        scale, off = scale[0], None if off is None else off[0]
    elif how == "recorded":
        g = gr.PerTensor() if q["tile"] == q["shape"] else gr.PerTile(tuple(q["tile"]))
        x = quantize_per_granularity(torch.zeros(*q["shape"]), scale, off, g, q["bits"])
        with ModuleIORecorder(torch.nn.Identity(), "m") as r:
            r.module(x)
        (s,), (o,) = r.input_quantizer_settings, r.output_quantizer_settings
        if str(s) != str(o):
            raise RuntimeError("the input's and the output's settings differ")
        return s
    d = dict(scale=scale, num_bits=float(q["bits"]) if how == "floatbits" else q["bits"], tile_size=tuple(q["tile"]), data_shape=list(q["shape"]))
    if off is not None or how == "none":
        d["offset"] = off
    return d


class World:
    def __init__(self, cfg):
        lp = cfg["lp"]
        logging.getLogger("fastforward.export._export_schemas").setLevel(logging.ERROR)
        self.kind = cfg["schema"]
        self.h = LegacySchemaHandler() if self.kind == "legacy" else V2SchemaHandler() if self.kind == "v2" else V1SchemaHandler(lpbq_processor=LPBQProcessor(*lp) if lp[0] else None)

    def apply(self, e):
        if e["op"] == "clear":
            self.h.clear()
            return ["ok"]
        if e["op"] == "build":
            d = self.h.build_encodings_dictionary()
            if d["version"] != VERSION[self.kind]:
                return ["another version"]
            par, act = READ[self.kind](d)
            return ["ok", par, act]
        s = setting(e["q"], e["how"])
        try:
            self.h.add_encoding(e["name"], s, e["param"])
        except (ValueError, ff.exceptions.ExportError):
            return ["refused"]
        return ["ok"]


HOWS = ["dict", "none", "recorded", "recorded", "floatbits", "scalar", "zerodim"]


def rand_q(rng):
    nd = rng.choice([1, 2, 2, 2, 2, 3, 3, 4])
    shape = [rng.choice([1, 2, 3, 4, 6, 8]) for _ in range(nd)]
    k = rng.random()
    if k < .2:
        tile = list(shape)
    elif k < .45:
        tile = [1, *shape[1:]]
    elif k < .75 and nd >= 2:
        tile = list(shape)
        b = rng.randrange(2)
        tile[1 - b] = 1
        tile[b] = rng.choice([d for d in range(1, shape[b] + 1) if shape[b] % d == 0])
    else:
        tile = [rng.choice([d for d in range(1, s + 1) if s % d == 0]) for s in shape]
    n = math.prod(s // t for s, t in zip(shape, tile))
    bits = rng.choice([2, 3, 4, 4, 4, 8, 8, 16])
    kind = rng.random()
    top = 2 ** min(bits, 12)
    if kind < .3:
        offs = []
    elif kind < .45:
        offs = [0] * n
    elif kind < .6:
        offs = [rng.choice([0, 0, 2, -6, 1, -1]) for _ in range(n)]
    else:
        offs = [rng.choice([0, 2 ** bits, -(2 ** bits), rng.randint(-top, top)]) for _ in range(n)]
    if not any(offs) and rng.random() < .3:
        offs = []
    big = rng.choice([8, 64, 400]) if bits < 16 else 60  # products stay exact
    return dict(shape=shape, tile=tile, bits=bits, scales=[rng.randint(1, big) for _ in range(n)], offs=offs)


def cfgs(rng):
    s = rng.choice(["legacy", "v1", "v1", "v1", "v2", "v2"])
    low = rng.choice([2, 3, 4, 4, 8])
    return dict(schema=s, lp=[low, rng.randint(low + 1, 16)] if s == "v1" and rng.random() < .5 else [0, 0])


def run(ctx):
    qs = ctx.generate("EncodingMC", "INIT Init\nNEXT Next\nINVARIANTS Emit FromLegacy FromV1 FromV2 FromLPBQ Refuses\nCHECK_DEADLOCK FALSE\nCONSTANTS Gen = TRUE\n")
    rng = ctx.rng
    rng.shuffle(qs)
    qs = qs[: ctx.scale(3000, 20000)]
    traces, k = [], 0
    for i, schema in enumerate(["legacy", "v1", "v2", "lp2", "lp4"] ):
        cfg = dict(schema=schema if schema in VERSION else "v1", lp=[int(schema[2]), 8] if schema[:2] == "lp" else [0, 0])
        for j in range(0, len(qs), 30):
            evs = []
            for m, q in enumerate(qs[j:j + 30]):
                evs.append(dict(op="add", name=f"t{m}", q=q, param=m % 2 == 0, how=HOWS[(i + m + j) % len(HOWS)]))
            traces.append(dict(id=f"gen{k}", cfg=cfg, events=world.drive(World, cfg, [*evs, dict(op="build")])))
            k += 1
    for i in range(ctx.scale(1500, 15000)):
        cfg = cfgs(rng)
        evs = []
        for _ in range(rng.randint(2, 12)):
            r = rng.random()
            evs.append(dict(op="clear") if r < .06 else dict(op="build") if r < .2 else
                       dict(op="add", name=rng.choice("abcdefgh") + rng.choice(["", ".weight"]), q=rand_q(rng), param=rng.random() < .5, how=rng.choice(HOWS)))
        evs.append(dict(op="build"))
        traces.append(dict(id=f"rand{i}", cfg=cfg, events=world.drive(World, cfg, evs)))
    adds = [e for t in traces for e in t["events"] if e["op"] == "add"]
    ctx.notes["encodings"] = {k: sum(e["out"][0] == k for e in adds) for k in ("ok", "refused")}
    ctx.validate("EncodingTrace", traces, key=lambda t, i, x: f"{t['id'][:3]}:{t['cfg']['schema']}:{t['cfg']['lp'][0] > 0}:{t['events'][i]['op']}:{x[0]}")
