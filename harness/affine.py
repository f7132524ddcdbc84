"""Generators and drivers shared by C01, C02 and C04."""
import torch
import fastforward as ff
from fastforward.quantization import affine, granularity as G
from harness.c03 import mk, rand_gran


def divisor_tile(rng, shape):
    return [rng.choice([d for d in range(1, s + 1) if s % d == 0]) for s in shape]


def rand_case(rng, max_elems=48, valid=False):
    while True:
        shape = [rng.choice([1, 2, 3, 4, 6]) for _ in range(rng.randint(1, 4))]
        if torch.Size(shape).numel() <= max_elems:
            break
    while True:
        g = ["tile", divisor_tile(rng, shape)] if rng.random() < .3 else rand_gran(rng, shape)
        try:
            t = mk(g).tile_size(torch.Size(shape))
            tile = shape if t == "data_shape" else list(t)
            if all(a % b == 0 for a, b in zip(shape, tile)):
                return shape, g, mk(g).parameter_dimensionality(torch.Size(shape))
        except (ValueError, IndexError):
            pass
        if not valid and rng.random() < .5:
            return shape, g, 1


def tensor(ints, D, shape, dtype=torch.float32, perm=None, unit=1.0):
    x = (torch.tensor(ints, dtype=torch.float64) / D * unit).to(dtype).reshape(shape)
    if perm is not None and len(perm) > 1:
        inv = [perm.index(i) for i in range(len(perm))]
        x = x.permute(perm).contiguous().permute(inv)
    return x


def ints(t, mul=1):
    """Exact integers of a tensor (times mul); non-integers stay floats."""
    out = []
    for v in (t.detach().to(torch.float64) * mul).reshape(-1).tolist():
        out.append(int(v) if v == int(v) else v) if abs(v) < 1e300 else out.append(repr(v))
    return out


def make_quantizer(num_bits, gran, scale, offset, quantized_dtype=None, param_dtype=None):
    """A LinearQuantizer with the given parameters."""
    q = ff.nn.LinearQuantizer(num_bits, symmetric=offset is None, allow_one_sided=False, granularity=gran,
                              quantized_dtype=quantized_dtype, param_dtype=param_dtype)
    n = scale.numel()
    q.quantization_range = (torch.full((n,), -1.0), torch.full((n,), 1.0))
    with torch.no_grad():
        q.scale.copy_(scale.reshape(-1))
        if offset is not None:
            q.offset.copy_(offset.reshape(-1))
    return q
