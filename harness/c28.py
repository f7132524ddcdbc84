"""C28: exported models (spec/Export.tla)."""
import io
import json
import logging
import math
import pathlib
import tempfile
import types
import contextlib
import warnings
import gguf
import numpy as np
import onnxruntime
import torch
import fastforward as ff
from fastforward.export.export import export
from fastforward.export.pipeline import ExportRequest, GgufLlamaCppOptions, export_with_pipeline
from fastforward.export.stages.gguf import GGUF_Q4_0, GGUF_Q8_0, LLAMA_ADAPTER, QWEN2_ADAPTER
from fastforward.export._export_schemas import LegacySchemaHandler, V1SchemaHandler, V2SchemaHandler
from fastforward.quantization import granularity as gr
from harness import c27
from harness.c27 import units

DATA = 4096
HANDLERS = dict(legacy=LegacySchemaHandler, v1=V1SchemaHandler, v2=V2SchemaHandler)


def gran(q):
    if q.get("kind") == "block":
        return gr.PerBlock(block_dims=(1,), block_sizes=(q["tile"][1],), per_channel_dims=(0,))
    if q["tile"] == q["shape"]:
        return gr.PerTensor()
    if all(t == s or t == 1 for t, s in zip(q["tile"], q["shape"])):
        ch = tuple(i for i, (t, s) in enumerate(zip(q["tile"], q["shape"])) if t == 1 and s > 1)
        return gr.PerChannel(ch if len(ch) > 1 else ch[0])
    return gr.PerTile(tuple(q["tile"]))


def quantizer(q, symmetric, onesided=False):
    z = ff.nn.LinearQuantizer(q["bits"], symmetric=symmetric, allow_one_sided=onesided, granularity=gran(q))
    n = len(q["scales"])
    z.quantization_range = (torch.tensor([-1.] * n), torch.tensor([1.] * n))
    z.scale.data = torch.tensor([s / c27.UNIT for s in q["scales"]])
    if z.offset is not None:
        z.offset.data = torch.tensor([o / 2 for o in q["offs"]] or [0.] * n)
    return z


def data(rng, q, spread=1.3):
    """Values for the quantizer, some beyond its range, none half way between two codes."""
    res = []
    grid = [s // t for s, t in zip(q["shape"], q["tile"])]
    for p in range(math.prod(q["shape"])):
        ix = np.unravel_index(p, q["shape"])
        t = int(np.ravel_multi_index([i // k for i, k in zip(ix, q["tile"])], grid))
        n, off = q["scales"][t], round(q["offs"][t] / 2) if q["offs"] else 0
        half = 2 ** (q["bits"] - 1)
        while True:
            c = rng.choice([-half, half - 1, rng.randint(-half, half - 1), rng.randint(int(-half * spread) - 1, int(half * spread) + 1)])
            m = 4 * n * (c + off) + rng.randint(-2 * n + 1, 2 * n - 1) * rng.choice([0, 1])
            if m % (4 * n) != 2 * n:
                break
        res.append(m)
    return res


def tensor(vals, shape, unit=DATA):
    return torch.tensor([v / unit for v in vals]).reshape(shape)


class Many(torch.nn.Module):
    """Quantizes inputs, parameters and sums, one output each."""
    def __init__(self, parts, linear):
        super().__init__()
        self.parts, self.linear = parts, linear
        for i, p in enumerate(parts):
            self.add_module(f"q{i}", quantizer(p["q"], p["symmetric"], p["onesided"]))
            if p["kind"] == "param":
                setattr(self, p["name"], torch.nn.Parameter(tensor(p["data"], p["q"]["shape"])))
        for i, l in enumerate(linear):
            n, k = l["qw"]["shape"]
            m = ff.nn.QuantizedLinear(k, n, bias=False)
            m.weight = torch.nn.Parameter(tensor(l["w"], (n, k)))
            m.weight_quantizer = quantizer(l["qw"], not l["qw"]["offs"])
            if l["qx"]["bits"]:
                m.input_quantizer = quantizer(l["qx"], not l["qx"]["offs"])
            self.add_module(f"l{i}", m)

    def forward(self, *xs):
        xs = list(xs)
        res = []
        for i, p in enumerate(self.parts):
            q = getattr(self, f"q{i}")
            res.append(q(getattr(self, p["name"])) if p["kind"] == "param" else q(xs.pop(0)) if p["kind"] == "input" else q(xs.pop(0) - 1.0))
        for i in range(len(self.linear)):
            res.append(getattr(self, f"l{i}")(xs.pop(0)))
        return tuple(res)


def part(rng, i, kinds, good):
    while True:
        nd = rng.choice([1, 2, 2, 3, 4])
        shape = [rng.choice([1, 2, 3, 4, 5]) for _ in range(nd)]
        k = rng.random()
        tile = list(shape)
        if k < .6:
            tile[rng.randrange(nd)] = 1
        elif k < .7 or not good and rng.random() < .6:
            tile = [rng.choice([d for d in range(1, s + 1) if s % d == 0]) for s in shape]
        bits = rng.choice([4, 8, 8, 16] if good or rng.random() < .8 else [2, 3, 6, 12])
        half = 2 ** (bits - 1)
        n = math.prod(s // t for s, t in zip(shape, tile))
        symmetric = rng.random() < .35
        onesided = symmetric and rng.random() < .4
        if symmetric:
            offs = [2 * half * rng.randint(0, 1)] * n if onesided else []
        else:
            top = half if good or rng.random() < .5 else 2 * half
            offs = [rng.choice([0, 2 * half, 2 - 2 * half, rng.randint(2 - 2 * top, 2 * top)]) for _ in range(n)]
        q = dict(shape=shape, tile=tile, bits=bits, scales=[rng.randint(1, 7 if bits == 16 else 60) for _ in range(n)], offs=offs)
        ok = bits in (4, 8, 16) and sum(t == 1 != s for t, s in zip(tile, shape)) <= 1 and all(t in (1, s) for t, s in zip(tile, shape)) and all(1 - half <= round(o / 2) <= half for o in offs)
        if ok == good:
            return dict(name=f"p{i}", kind=rng.choice(kinds), q=q, symmetric=symmetric, onesided=onesided)


def linear(rng):
    k, n, m = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
    q = lambda shape, tile: dict(shape=shape, tile=tile, bits=4, scales=[rng.randint(1, 9) for _ in range(math.prod(s // t for s, t in zip(shape, tile)))], offs=[])
    qw = q([n, k], rng.choice([[n, k], [1, k]]))
    qx = q([m, k], [m, k]) if rng.random() < .7 else dict(shape=[m, k], tile=[m, k], bits=0, scales=[1], offs=[])
    if rng.random() < .5 and qx["bits"]:
        qx["offs"] = [rng.randint(-7, 8) * 2]
    return dict(qw=qw, qx=qx, w=data(rng, qw), x=data(rng, qx) if qx["bits"] else [rng.randint(-60, 60) * 4 for _ in range(m * k)])


def qdq_case(rng, good):
    n = rng.randint(4, 12) if good else rng.randint(1, 3)
    parts = [part(rng, i, ["input", "param", "inner"], True) for i in range(n)]
    if not good:
        parts[rng.randrange(n)] = part(rng, 99, ["input", "param", "inner"], False)
    for p in parts:
        p["data"] = data(rng, p["q"])
    return dict(what="qdq", parts=parts, linear=[linear(rng) for _ in range(rng.choice([0, 1, 2]))] if good else [])


def feeds(x):
    return [tensor(p["data"], p["q"]["shape"]) + (1. if p["kind"] == "inner" else 0.) for p in x["parts"] if p["kind"] != "param"] + \
        [tensor(l["x"], l["qx"]["shape"]) for l in x.get("linear", [])]


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), tempfile.TemporaryDirectory() as d:
        warnings.simplefilter("ignore")
        old = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        try:
            yield pathlib.Path(d)
        finally:
            logging.disable(old)


def refusal(e):
    while e is not None:
        if isinstance(e, (ff.exceptions.ExportError, ValueError, NotImplementedError)):
            return True
        e = e.__cause__
    return False


def ints(a, unit):
    r = [units(v, unit) for v in np.asarray(a, dtype=np.float64).reshape(-1)]
    return r


def run_qdq(x):
    with quiet() as d:
        ins = feeds(x)
        model = Many(x["parts"], x["linear"])
        try:
            export(model, tuple(ins), d, "m", format="onnx_qdq")
        except Exception as e:
            if refusal(e):
                return ["refused"]
            raise
        opts = onnxruntime.SessionOptions()
        opts.log_severity_level = 4
        outs = []
        for level in (onnxruntime.GraphOptimizationLevel.ORT_DISABLE_ALL, onnxruntime.GraphOptimizationLevel.ORT_ENABLE_BASIC):
            opts.graph_optimization_level = level
            s = onnxruntime.InferenceSession(str(d / "m.onnx"), opts)
            outs.append(s.run(None, {i.name: v.numpy() for i, v in zip(s.get_inputs(), ins)}))
        outs, again = outs
        k = len(x["parts"])
        res = ["ok", [ints(o, c27.UNIT) for o in outs[:k]], [ints(o, c27.UNIT * (c27.UNIT if l["qx"]["bits"] else DATA)) for o, l in zip(outs[k:], x["linear"])]]
        if any((a != b).any() for a, b in zip(outs, again)):
            return ["optimized and plain runs differ"]
        with torch.no_grad(), ff.strict_quantization(False):
            here = [y.dequantize() if hasattr(y, "dequantize") else y for y in model(*ins)]
        if any((h.numpy() != o).any() for h, o in zip(here, outs)):
            return ["the library's values differ", res]
        return res


def enc_case(rng):
    n = rng.randint(3, 9)
    parts = []
    for i in range(n):
        while True:
            p = part(rng, i, ["input", "param", "inner"], True)
            t, s = p["q"]["tile"], p["q"]["shape"]
            if t == s or (t[0] == 1 and t[1:] == s[1:]):
                break
        p["data"] = data(rng, p["q"])
        parts.append(p)
    if rng.random() < .15:
        parts[-1]["q"]["tile"] = [max(1, s // 2) if s % 2 == 0 else s for s in parts[-1]["q"]["shape"]]
        q = parts[-1]["q"]
        m = math.prod(s // t for s, t in zip(q["shape"], q["tile"]))
        q["scales"], q["offs"] = (q["scales"] * m)[:m], (q["offs"] * m)[:m]
    return dict(what="enc", parts=parts, schema=rng.choice(["legacy", "v1", "v2"]))


def run_enc(x):
    with quiet() as d:
        ins = feeds(x)
        try:
            export(Many(x["parts"], []), tuple(ins), d, "m", format="onnx", encoding_schema_handler=HANDLERS[x["schema"]](),
                   input_names=[p["name"] for p in x["parts"] if p["kind"] != "param"])
        except Exception as e:
            if refusal(e):
                return ["refused"]
            raise
        par, act = c27.READ[x["schema"]](json.loads((d / "m.encodings").read_text()))
        par, act = ({}, dict(map(tuple, act))) if x["schema"] == "v2" else (dict(map(tuple, par)), dict(map(tuple, act)))
        params = [p["name"] for p in x["parts"] if p["kind"] == "param"]
        inputs = [p["name"] for p in x["parts"] if p["kind"] == "input"]
        inner = [p["name"] for p in x["parts"] if p["kind"] == "inner"]
        res = ["ok", [[n, (act if x["schema"] == "v2" else par).get(n, "missing")] for n in params],
               [[n, act.get(n, "missing")] for n in inputs]]
        # tensors inside the graph have generated names; outputs may repeat the entry of the input or parameter they quantize
        rest = [v for n, v in act.items() if n not in params and n not in inputs]
        for v in [v for part in res[1:] for _, v in part]:
            if len(rest) > len(inner) and v in rest:
                rest.remove(v)
        res.append(sorted(rest, key=str))
        for n in inner:
            if n in act:
                return ["an unquantized input has an entry", n]
        return res


LINEARS = ["self_attn.q_proj", "self_attn.k_proj", "self_attn.v_proj", "self_attn.o_proj", "mlp.gate_proj", "mlp.up_proj", "mlp.down_proj"]
GNAME = dict(zip(LINEARS, ["attn_q", "attn_k", "attn_v", "attn_output", "ffn_gate", "ffn_up", "ffn_down"]))


def gguf_case(rng, good):
    heads, kv = rng.choice([(2, 1), (4, 2), (2, 2), (1, 1), (4, 4)])
    arch = rng.choice(["llama", "llama", "qwen2"])
    fmt = rng.choice(["Q4_0", "Q8_0"])
    hidden = 32 * rng.choice([1, 2])
    size = {"self_attn.q_proj": [8 * heads, hidden], "self_attn.k_proj": [8 * kv, hidden], "self_attn.v_proj": [8, hidden], "self_attn.o_proj": [4, 32],
            "mlp.gate_proj": [3, hidden], "mlp.up_proj": [2, hidden], "mlp.down_proj": [5, 96]}
    names = rng.sample(LINEARS, rng.randint(1, 5))
    bad = rng.choice(names) if not good else None
    weights = []
    for nm in names:
        bits = 4 if fmt == "Q4_0" else 8
        shape = size[nm]
        q = dict(shape=shape, tile=[1, 32], bits=bits, kind="block", offs=[])
        w = dict(name=f"blk.{rng.choice([0, 0, 0])}.{GNAME[nm]}.weight", hf=nm, symmetric=True, onesided=rng.random() < .3, heads=0)
        if arch == "llama":
            w["heads"] = dict(q=heads, k=kv).get(nm[10], 0) if nm.startswith("self_attn") else 0
        if nm == bad:
            how = rng.choice(["asym", "bits", "block", "channel", "onesided"])
            if how == "asym":
                w.update(symmetric=False, onesided=False)
            elif how == "bits":
                q["bits"] = rng.choice([b for b in (2, 4, 8) if b != bits])
            elif how == "block":
                q["tile"] = [1, 16]
            elif how == "channel":
                q.update(kind="channel", tile=[1, shape[1]])
            else:
                w["onesided"] = True
        n = math.prod(s // t for s, t in zip(shape, q["tile"]))
        q["scales"] = [rng.randint(1, 1000) for _ in range(n)]
        if nm == bad and how == "onesided":
            q["offs"] = [2 ** bits] * n
        if nm == bad and how == "asym" and rng.random() < .5:
            q["offs"] = [2 * rng.randint(-3, 3) for _ in range(n)]
        w["q"], w["data"] = q, data(rng, q)
        weights.append(w)
    return dict(what="gguf", format=fmt, weights=weights, arch=arch, cfg=dict(heads=heads, kv=kv, hidden=hidden), size=size)


class Block(torch.nn.Module):
    def __init__(self, size):
        super().__init__()
        self.self_attn, self.mlp = torch.nn.Module(), torch.nn.Module()
        for nm, (r, c) in size.items():
            a, b = nm.split(".")
            getattr(self, a).add_module(b, ff.nn.QuantizedLinear(c, r, bias=False))


class Llama(ff.nn.QuantizedModule):
    def __init__(self, size, hidden):
        super().__init__()
        self.model = torch.nn.Module()
        self.model.embed_tokens = torch.nn.Embedding(4, hidden)
        self.model.layers = torch.nn.ModuleList([Block(size)])
        self.model.norm = torch.nn.LayerNorm(hidden)
        self.lm_head = torch.nn.Linear(hidden, 4, bias=False)

    def forward(self, x):
        return x


def run_gguf(x):
    c = x["cfg"]
    model = Llama(x["size"], c["hidden"])
    blk = model.model.layers[0]
    floats = {f"blk.0.{GNAME[nm]}.weight": blk.get_submodule(nm).weight for nm in LINEARS}
    for w in x["weights"]:
        m = blk.get_submodule(w["hf"])
        m.weight = torch.nn.Parameter(tensor(w["data"], w["q"]["shape"]))
        m.weight_quantizer = quantizer(w["q"], w["symmetric"], w["onesided"])
        floats.pop(w["name"])
    floats.update({"token_embd.weight": model.model.embed_tokens.weight, "output.weight": model.lm_head.weight, "output_norm.weight": model.model.norm.weight})
    cfg = types.SimpleNamespace(max_position_embeddings=16, hidden_size=c["hidden"], num_hidden_layers=1, intermediate_size=96, num_attention_heads=c["heads"],
                                num_key_value_heads=c["kv"], rope_theta=1e4, rms_norm_eps=1e-5, vocab_size=4, tie_word_embeddings=False, rope_scaling=None)
    fmt = GGUF_Q4_0 if x["format"] == "Q4_0" else GGUF_Q8_0
    with quiet() as d:
        try:
            export_with_pipeline(ExportRequest(model=model, sample_inputs=[((torch.zeros(1, 2),), {})], output_dir=d, model_name="m", target="gguf", format="llama_cpp",
                                               options=GgufLlamaCppOptions(arch_adapter=LLAMA_ADAPTER if x["arch"] == "llama" else QWEN2_ADAPTER, quant_format=fmt, model_config=cfg).to_context()))
        except ff.exceptions.ExportError:
            return ["refused"]
        tensors = {t.name: (t.tensor_type.name, [int(s) for s in t.shape], np.array(t.data), t.tensor_type) for t in gguf.GGUFReader(str(d / "m.gguf")).tensors}
    for n, p in floats.items():
        if n not in tensors or tensors[n][0] != "F32" or (tensors[n][2].reshape(-1) != p.detach().numpy().reshape(-1)).any():
            return ["unquantized tensor differs", n]
    if set(tensors) != set(floats) | {w["name"] for w in x["weights"]}:
        return ["other tensors", sorted(tensors)]
    res = []
    for w in x["weights"]:
        kind, shape, raw, t = tensors[w["name"]]
        if kind != x["format"] or shape[::-1] != w["q"]["shape"]:
            return ["type or shape", w["name"], kind, shape]
        size = 18 if kind == "Q4_0" else 34
        blocks = raw.view(np.uint8).reshape(-1, size)
        deq = gguf.quants.dequantize(raw, t).reshape(-1, 32)
        out = []
        for b, dq in zip(blocks, deq):
            s = units(float(b[:2].copy().view(np.float16)[0]))
            by = [int(v) for v in b[2:]]
            code = [v % 16 - 8 for v in by] + [v // 16 - 8 for v in by] if kind == "Q4_0" else [v - 256 if v > 127 else v for v in by]
            if isinstance(s, int) and [units(v) for v in dq] != [s * k for k in code]:
                return ["llama.cpp reads other values", w["name"]]
            out.append([s, by])
        res.append([w["name"], out])
    return ["ok", res]


RUN = dict(qdq=run_qdq, enc=run_enc, gguf=run_gguf)


def run(ctx):
    ctx.model_check("ExportMC", "INIT Init\nNEXT Next\nINVARIANTS Onnx Nibbles Bytes Rows\nCHECK_DEADLOCK FALSE\n")
    rng = ctx.rng
    xs = [qdq_case(rng, True) for _ in range(ctx.scale(24, 160))] + [qdq_case(rng, False) for _ in range(ctx.scale(14, 80))]
    xs += [enc_case(rng) for _ in range(ctx.scale(18, 120))] + [gguf_case(rng, i % 3 > 0) for i in range(ctx.scale(36, 200))]
    exp = ctx.evaluate("ExportOracle", xs)
    n = {}
    for x, want in zip(xs, exp):
        try:
            got = RUN[x["what"]](x)
        except Exception as e:
            got = ["failed", type(e).__name__, str(e)[:300]]
        n[x["what"] + ":" + str(got[0])] = n.get(x["what"] + ":" + str(got[0]), 0) + 1
        if x["what"] == "enc" and want[0] == "ok":
            want[3] = sorted(want[3], key=str)
        ctx.compare(got, want, f"{x['what']}:{got[0]}", x)
    ctx.notes["exports"] = n
