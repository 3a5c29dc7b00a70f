"""Exact group elements (integer quaternion, integer translation) and their tensors."""
import math

import torch

from vh.core import BAD

S = 10000
DIM = {"SO2": 2, "SE2": 2, "SO3": 3, "SE3": 3}
DOF = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}
RIGID = {"SE2", "SE3"}
TYPES = ["SO2", "SE2", "SO3", "SE3"]


def _gcd(q):
    g = 0
    for v in q:
        g = math.gcd(g, abs(v))
    return g


QUATS = [
    (w, x, y, z)
    for w in range(-2, 3) for x in range(-2, 3) for y in range(-2, 3) for z in range(-2, 3)
    if 0 < w * w + x * x + y * y + z * z <= 9 and _gcd((w, x, y, z)) == 1
]
CUBE = [q for q in QUATS if sum(v * v for v in q) in (1, 2, 4) and all(abs(v) <= 1 for v in q)
        and (sum(v * v for v in q) != 4 or all(q))]
HALF = [q for q in QUATS if q[0] == 0]
QUATS2 = [(w, 0, 0, z) for w in range(-3, 4) for z in range(-3, 4)
          if 0 < w * w + z * z <= 10 and _gcd((w, z)) == 1]


def rand_q(rng, ty):
    if DIM[ty] == 2:
        return list(rng.choice(QUATS2))
    return list(rng.choice(rng.choice([QUATS, QUATS, CUBE, HALF])))


def rand_el(rng, ty):
    t = [rng.randint(-3, 3) for _ in range(DIM[ty])] if ty in RIGID else []
    return {"q": rand_q(rng, ty), "t": t}


def rot(q):
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    return n, [
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]


def mat(ty, el, dtype=torch.float64):
    """Top rows of the homogeneous matrix."""
    n, r = rot(el["q"])
    d = DIM[ty]
    m = torch.tensor([[v / n for v in row[:d]] for row in r[:d]], dtype=dtype)
    if ty in RIGID:
        m = torch.cat([m, torch.tensor(el["t"], dtype=dtype).view(d, 1)], 1)
    return m


def to_param(ty, m):
    """Matrix (..., top rows) -> the tensor the library stores for it."""
    if ty == "SO2":
        return torch.stack([m[..., 0, 0], m[..., 1, 0]], -1)
    if ty == "SE2":
        return torch.stack([m[..., 0, 2], m[..., 1, 2], m[..., 0, 0], m[..., 1, 0]], -1)
    return m


def to_mat(ty, p):
    if ty == "SO2":
        c, s = p[..., 0], p[..., 1]
        return torch.stack([torch.stack([c, -s], -1), torch.stack([s, c], -1)], -2)
    if ty == "SE2":
        c, s = p[..., 2], p[..., 3]
        return torch.stack([torch.stack([c, -s, p[..., 0]], -1), torch.stack([s, c, p[..., 1]], -1)], -2)
    return p


def full(ty, m):
    if ty not in RIGID:
        return m
    d = DIM[ty]
    last = torch.zeros(*m.shape[:-2], 1, d + 1, dtype=m.dtype)
    last[..., 0, d] = 1
    return torch.cat([m, last], -2)


def hat(ty, k, dtype=torch.float64):
    n = DIM[ty] + (1 if ty in RIGID else 0)
    m = torch.zeros(n, n, dtype=dtype)
    d = DIM[ty]
    if ty in RIGID and k < d:
        m[k, d] = 1
        return m
    r = k - (d if ty in RIGID else 0)
    i, j = [(0, 1)][r] if d == 2 else [(1, 2), (2, 0), (0, 1)][r]
    m[j, i], m[i, j] = 1, -1
    return m


def step(ty, k, h):
    """exp(h e_k), closed form."""
    m = hat(ty, k)
    n = m.shape[0]
    e = torch.eye(n, dtype=torch.float64)
    if ty in RIGID and k < DIM[ty]:
        return e + h * m
    return e + math.sin(h) * m + (1 - math.cos(h)) * (m @ m)


def fx(t, scale=S):
    """Nearest fixed-point integers of a tensor (BAD for non-finite values)."""
    t = t.detach().tolist() if hasattr(t, "detach") else t
    if isinstance(t, (list, tuple)):
        return [fx(u, scale) for u in t]
    v = float(t) * scale
    return BAD if v != v or abs(v) > 5e8 else int(round(v))
