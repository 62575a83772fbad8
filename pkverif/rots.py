"""Vectorised float64 references for rotations, and generators that mix special values into batches of any shape."""
import numpy as np

from . import gen
from .env import F32, F64, torch

EPS = {F64: 2e-15, F32: 1e-6}


def hats(v):
    v = np.asarray(v, float)
    o = np.zeros((*v.shape[:-1], 3, 3))
    x, y, z = v[..., 0], v[..., 1], v[..., 2]
    o[..., 0, 1], o[..., 0, 2], o[..., 1, 0], o[..., 1, 2], o[..., 2, 0], o[..., 2, 1] = -z, y, z, -x, -y, x
    return o


def q2R(q):
    """Real-first quaternions of any norm -> matrices."""
    q = np.asarray(q, float)
    if q.size == 0:
        return np.zeros((*q.shape[:-1], 3, 3))
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    k = hats(q[..., 1:])
    return np.eye(3) + 2 * q[..., :1, None] * k + 2 * (k @ k)


def aa2R(v):
    """Rotation vectors -> matrices (through half angles; exact at zero)."""
    v = np.asarray(v, float)
    n = np.linalg.norm(v, axis=-1, keepdims=True)
    return q2R(np.concatenate([np.cos(n / 2), 0.5 * v * np.sinc(n / 2 / np.pi)], -1))


def axis_angle2R(axis, ang):
    k = hats(axis)
    a = np.asarray(ang, float)[..., None, None]
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * (k @ k)


def angles(R):
    s = 0.5 * np.linalg.norm(np.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1), axis=-1)
    c = 0.5 * (np.trace(R, axis1=-2, axis2=-1) - 1)
    return np.arctan2(s, c)


def qmul(a, b):
    aw, av, bw, bv = a[..., :1], a[..., 1:], b[..., :1], b[..., 1:]
    w = aw * bw - (av * bv).sum(-1, keepdims=True)
    return np.concatenate([w, aw * bv + bw * av + np.cross(av, bv)], -1)


def qinv(q):
    return q * np.array([1.0, -1, -1, -1])


SHAPES = [(), (), (1,), (1,), (2,), (3,), (4,), (7,), (16,), (2, 3), (3, 3), (1, 4), (4, 1), (2, 1, 3), (1, 1, 1), (3, 2, 2), (0,), (2, 0), (33,)]


def shape(rng, empty=True):
    while True:
        s = SHAPES[rng.integers(len(SHAPES))]
        if empty or 0 not in s:
            return s


def fill(rng, one, shp, item):
    """An array of shape shp + item whose elements are drawn by one(rng)."""
    n = int(np.prod(shp))
    a = np.stack([np.asarray(one(rng)) for _ in range(n)]) if n else np.zeros((0, *item))
    return a.reshape((*shp, *item))


def special_angle(rng):
    k = rng.integers(0, 9)
    if k == 0:
        return 0.0
    if k == 1:
        return float(10 ** rng.uniform(-12, -2))
    if k == 2:
        return float(np.pi)
    if k == 3:
        return float(np.pi - 10 ** rng.uniform(-12, -1))
    if k == 4:
        return float(rng.choice([np.pi / 2, 2 * np.pi / 3, np.pi / 3, np.pi / 4]))
    if k == 5:
        return float(10 ** rng.uniform(-4, -0.5))
    return float(rng.uniform(0, np.pi))


def nice_axis(rng):
    k = rng.integers(0, 5)
    if k == 0:
        a = np.zeros(3)
        a[rng.integers(3)] = rng.choice([-1.0, 1.0])
        return a
    if k == 1:
        a = rng.choice([-1.0, 0.0, 1.0], 3)
        return a / np.linalg.norm(a) if a.any() else np.array([0, 0, 1.0])
    return gen.unit(rng)


def one_R(rng):
    if rng.random() < 0.15:  # the 24 rotations of a cube: exact entries
        M = np.zeros((3, 3))
        p = rng.permutation(3)
        s = rng.choice([-1.0, 1.0], 3)
        M[np.arange(3), p] = s
        if np.linalg.det(M) < 0:
            M[0] *= -1
        return M
    return q2R(one_q(rng))


def one_q(rng, both_signs=True):
    """Unit quaternions, both signs, with special angles."""
    if rng.random() < 0.1:  # zero or tiny real part, or a coordinate quaternion
        q = np.zeros(4)
        q[rng.integers(4)] = 1.0
        if rng.random() < 0.5:
            q = q + 10 ** rng.uniform(-12, -2) * rng.standard_normal(4)
    elif rng.random() < 0.15:  # ties between the components
        q = rng.choice([-1.0, 0.0, 1.0], 4)
        if not q.any():
            q[0] = 1
    else:
        h = special_angle(rng) / 2
        q = np.r_[np.cos(h), np.sin(h) * nice_axis(rng)]
    q = q / np.linalg.norm(q)
    return -q if both_signs and rng.random() < 0.5 else q


def one_aa(rng):
    """Rotation vectors, also longer than half and whole turns."""
    k = rng.integers(0, 8)
    a = nice_axis(rng)
    if k == 0:
        return a * rng.uniform(np.pi, 12)
    if k == 1:
        return a * rng.integers(1, 4) * np.pi
    return a * special_angle(rng)


def T(x, dtype, rng=None):
    t = torch.tensor(np.asarray(x), dtype=dtype)
    return gen.layout(rng, t) if rng is not None and t.dim() and t.numel() else t


def back(t):
    """The float64 values of what a tensor holds (so that float32 inputs are judged by what was given)."""
    return t.detach().to(F64).numpy()


def pick_dtype(rng):
    return F64 if rng.random() < 0.65 else F32
