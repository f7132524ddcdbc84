"""C03: tiling and granularities (spec/Tiling.tla)."""
import itertools
import torch
from fastforward.quantization import granularity as G
from fastforward.quantization.tiled_tensor import rows_to_tiles, tiles_to_rows
from vf.world import errname


def rows(shape, tile, perm=None):
    n = 1
    for s in shape:
        n *= s
    x = torch.arange(n).reshape(shape)
    if perm:  # a non-contiguous tensor with the same contents
        inv = [perm.index(i) for i in range(len(perm))]
        x = x.permute(perm).contiguous().permute(inv)
    try:
        r = tiles_to_rows(x, torch.Size(tile))
    except ValueError:
        try:
            rows_to_tiles(torch.zeros(1, n), torch.Size(shape), torch.Size(tile))
        except ValueError:
            return [-1]
        return ["rows_to_tiles accepted"]
    except Exception as e:
        return errname(e)
    out = r.tolist()
    back = rows_to_tiles(r, torch.Size(shape), torch.Size(tile))
    if back.shape != x.shape or not torch.equal(back, x):
        return ["not inverse", back.tolist()]
    # the other direction on arbitrary rows
    y = torch.arange(n).flip(0).reshape(r.shape)
    if not torch.equal(tiles_to_rows(rows_to_tiles(y, torch.Size(shape), torch.Size(tile)), torch.Size(tile)), y):
        return ["not inverse (rows)"]
    # wrong number of rows is refused
    if n > 1:
        for bad in {(r.shape[0] * 2, r.shape[1]), (r.shape[1] + 1, r.shape[0])}:
            try:
                rows_to_tiles(torch.zeros(bad), torch.Size(shape), torch.Size(tile))
                return ["accepted rows", bad]
            except ValueError:
                pass
    return out


def mk(g):
    if g[0] == "tensor":
        return G.PerTensor()
    if g[0] == "channel":
        return G.PerChannel(g[1][0] if len(g[1]) == 1 and g[2] else tuple(g[1]))
    if g[0] == "block":
        one = len(g[1]) == 1
        return G.PerBlock(g[1][0] if one else tuple(g[1]), g[2][0] if one else tuple(g[2]),
                          tuple(g[3]) if len(g[3]) != 1 else g[3][0], strict_blocks=g[4])
    return G.PerTile(tuple(g[1]))


def observe(g, shape):
    gr = mk(g)
    try:
        t = gr.tile_size(torch.Size(shape))
    except (ValueError, IndexError):
        return [-1]
    except Exception as e:
        return errname(e)
    tl = list(shape) if t == "data_shape" else list(t)
    if all(a % b == 0 for a, b in zip(shape, tl)):
        return [tl, gr.parameter_dimensionality(torch.Size(shape))]
    return [tl, -1]


def rand_gran(rng, shape):
    r = len(shape)
    dims = lambda k: [d if rng.random() < .6 else d - r for d in rng.sample(range(r), min(k, r))]
    k = rng.random()
    if k < .1:
        return ["tensor"]
    if k < .45:
        d = dims(rng.randint(1, r))
        if rng.random() < .1:
            d[0] = r + rng.randint(0, 1)
        return ["channel", d, rng.random() < .5]
    if k < .8:
        d = dims(rng.randint(1, 2))
        sizes = [rng.choice([1, 2, 3, 4, max(1, shape[x] // 2), shape[x]]) for x in d]
        rest = [x for x in range(r) if x not in [y % r for y in d]]
        ch = [c if rng.random() < .6 else c - r for c in rng.sample(rest, rng.randint(0, len(rest)))]
        if rng.random() < .15:  # a dimension listed as both: blocks win
            ch = ch + [d[0]]
        return ["block", d, sizes, ch, rng.random() < .8]
    return ["tile", [rng.choice([1, 2, 3, s]) for s in shape] if rng.random() < .85 else [1] * (r + 1)]


def equality(ctx):
    """Granularities compare equal exactly when made with the same settings."""
    pool = [["tensor"]] + [["channel", list(d), False] for d in ([0], [1], [0, 1], [-1])]
    pool += [["block", b, s, c, st] for b, s, c in itertools.product([[0], [1]], [[2], [4]], [[], [0], [2]]) for st in (True, False)]
    pool += [["block", [0, 1], [2, 4], [], True], ["block", [0, 1], [4, 2], [], True]]
    pool += [["tile", [1, 2]], ["tile", [2, 2]], ["tile", [1, 2, 1]]]
    for a, b in itertools.product(range(len(pool)), repeat=2):
        ctx.compare(bool(mk(pool[a]) == mk(pool[b])), a == b, "equality", [pool[a], pool[b]])


def infer(ctx):
    """granularity_from_sizes inverts tile_size."""
    for shape in itertools.chain(itertools.product([1, 2, 3, 4, 6], repeat=2), itertools.product([1, 2, 4], repeat=3)):
        for tile in itertools.product(*[[d for d in range(1, s + 1) if s % d == 0] for s in shape]):
            try:
                g = G.granularity_from_sizes(torch.Size(shape), torch.Size(tile))
                t = g.tile_size(torch.Size(shape))
                got = list(shape) if t == "data_shape" else list(t)
            except Exception as e:
                got = errname(e)
            ctx.compare(got, list(tile), "granularity_from_sizes", [shape, tile])


def run(ctx):
    q = not ctx.thorough
    cfg = ("INIT Init\nNEXT Next\nINVARIANTS Bijection SameSize Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS "
           + ("D1 = {1,2,5,6} D2 = {1,2,3,4,6} D3 = {1,2,3,4} D4 = {1,2}" if q else
              "D1 = {1,2,3,4,5,6,7} D2 = {1,2,3,4,5,6} D3 = {1,2,3,4,6} D4 = {1,2,3}") + " Gen = TRUE\n")
    vec = ctx.generate("TilingMC", cfg, workers=8)
    ctx.notes["shape_tile_pairs"] = len(vec)
    for shape, tile, exp in vec:
        ctx.compare(rows(shape, tile), exp, "rows", [shape, tile])
    rng = ctx.rng
    ins = []
    for _ in range(ctx.scale(1500, 10000)):
        shape = [rng.choice([1, 2, 3, 4, 5, 6, 8]) for _ in range(rng.randint(1, 5))]
        while torch.Size(shape).numel() > 200:
            shape[rng.randrange(len(shape))] = 1
        if rng.random() < .5:
            ins.append(dict(op="gran", g=rand_gran(rng, shape), shape=shape))
        else:
            tile = [rng.choice([d for d in range(1, s + 1) if s % d == 0]) if rng.random() < .97 else rng.randint(1, 4) for s in shape]
            if rng.random() < .03:
                tile = tile[:-1]
            perm = list(range(len(shape)))
            rng.shuffle(perm)
            ins.append(dict(op="rows", shape=shape, tile=tile, perm=perm))
    exp = ctx.evaluate("GranularityOracle", ins)
    for x, e in zip(ins, exp):
        got = observe(x["g"], x["shape"]) if x["op"] == "gran" else rows(x["shape"], x["tile"], x["perm"])
        ctx.compare(got, e, "gran:" + x["g"][0] if x["op"] == "gran" else "rows-rand", x)
    equality(ctx)
    infer(ctx)
