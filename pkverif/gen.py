"""Workload generators: random robots, configurations and rotations."""
import numpy as np

from .env import F64, Frame, Joint, Link, pk, torch
from .ref import RFrame, RJoint, Robot, homog, rot

SHAPES = ("path", "star", "binary", "random", "caterpillar", "broom")


def parents(rng, n, shape):
    if shape == "path":
        return [i - 1 for i in range(n)]
    if shape == "star":
        return [-1] + [0] * (n - 1)
    if shape == "binary":
        return [(i - 1) // 2 if i else -1 for i in range(n)]
    if shape == "caterpillar":  # spine with legs
        return [-1] + [i - 1 if i % 2 else max(0, i - 2) for i in range(1, n)]
    if shape == "broom":  # long handle, then bristles
        h = max(1, n // 2)
        return [-1] + [i - 1 if i <= h else h for i in range(1, n)]
    return [-1] + [int(rng.integers(0, i)) for i in range(1, n)]


def unit(rng):
    v = rng.standard_normal(3)
    return v / np.linalg.norm(v)


def axis(rng, unnormalised=True):
    k = rng.integers(0, 4)
    if k == 0:
        a = np.zeros(3)
        a[rng.integers(0, 3)] = rng.choice([-1.0, 1.0])
        return a
    a = unit(rng)
    if k == 1 and unnormalised:
        a = a * 10 ** rng.uniform(-2, 2)
    if k == 2:
        a = np.round(a * 2)
        if not a.any():
            a = np.array([0.0, 1.0, 1.0])
        if not unnormalised:
            a = a / np.linalg.norm(a)
    return a


def rotation(rng, hard=False):
    """3x3 rotation: identity, quarter turns, half turns, tiny, or uniform."""
    k = rng.integers(0, 6)
    if k == 0:
        return np.eye(3)
    if k == 1:
        return np.round(rot(np.eye(3)[rng.integers(0, 3)], rng.integers(1, 4) * np.pi / 2))
    if k == 2:
        return rot(unit(rng), np.pi if not hard else np.pi - 10 ** rng.uniform(-12, -1))
    if k == 3:
        return rot(unit(rng), 10 ** rng.uniform(-10, -1))
    return rot(unit(rng), rng.uniform(-np.pi, np.pi))


def transform(rng, none_ok=True, scale=1.0):
    k = rng.integers(0, 6)
    if k == 0 and none_ok:
        return None
    if k == 1:
        return homog(p=rng.uniform(-scale, scale, 3))
    if k == 2:
        return homog(rotation(rng))
    if k == 3 and rng.random() < 0.4:  # a calibration-sized offset
        s = 10.0 ** rng.uniform(-7, -2)
        return homog(rot(unit(rng), rng.uniform(-s, s)) if rng.random() < 0.5 else np.eye(3), rng.uniform(-s, s, 3))
    return homog(rotation(rng), rng.uniform(-scale, scale, 3))


def names(rng, n, prefix):
    """Unique names, many of them prefixes of one another, in no particular order."""
    style = rng.integers(0, 4)
    if style == 0:
        out = [f"{prefix}{i}" for i in range(n)]
    elif style == 1:
        out = [prefix + "_a" * i for i in range(n)]
    elif style == 2:
        out = [f"{prefix} {i:x}/é" for i in range(n)]
    else:
        out = [f"{prefix}{int(x)}" for x in rng.permutation(10 * n)[:n]]
    if style != 0 or rng.random() < 0.5:
        out = [out[i] for i in rng.permutation(n)]
    return out


def angle(rng, size=None):
    k = rng.integers(0, 6)
    if k == 0:
        return np.zeros(size)
    if k == 1:
        return rng.choice([0.0, np.pi, -np.pi, np.pi / 2, -np.pi / 2, 2 * np.pi], size)
    if k == 2:
        return rng.uniform(-20, 20, size)
    if k == 3:
        return rng.standard_normal(size) * 1e-6
    return rng.uniform(-np.pi, np.pi, size)


def batch(rng, r, choices=(1, 1, 2, 3, 7)):
    """A batch size, sometimes one that coincides with another dimension of the problem."""
    if rng.random() < 0.25:
        choices = [r.n, len(r.frames), r.depth() + 1, 3, 4, 6]
    return max(1, min(20, int(rng.choice(choices))))


def configs(rng, n, batch):
    """(batch, n) joint values with special values mixed in per element, and special relations between the rows."""
    q = rng.uniform(-np.pi, np.pi, (batch, n))
    for _ in range(1 + batch * n // 3):
        if n and rng.random() < 0.5:
            q[rng.integers(batch), rng.integers(n)] = float(angle(rng, 1)[0])
    if batch > 1 and n:
        k = int(rng.integers(0, 14))
        if k == 0:  # the same configuration many times
            q[:] = q[0]
        elif k == 1:  # nearly the same, as for finite differences
            q[:] = q[0] + rng.standard_normal(q.shape) * 10.0 ** rng.integers(-9, -3)
        elif k == 2:  # one joint moves at a time
            base = q[0].copy()
            for b in range(1, batch):
                i = int(rng.integers(n))
                v = q[b, i]
                q[b] = base
                q[b, i] = v
        elif k == 3:  # some rows repeated, some all zero
            q[rng.integers(batch)] = q[rng.integers(batch)]
            q[rng.integers(batch)] = 0.0
        elif k == 4:  # a sweep
            q[:] = q[0] + np.linspace(0, 1, batch)[:, None] * (q[-1] - q[0])
    return q


MIXES = ([0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.3, 0.4, 0.3], [0.2, 0.8, 0.0], [0.2, 0.0, 0.8], [0.6, 0.2, 0.2], [1.0, 0.0, 0.0], [0.0, 0.5, 0.5])


def coincide(rng, frames):
    """Let frames share offsets, axes and limits with others, as regular robots do."""
    for f in frames[1:]:
        o = frames[int(rng.integers(len(frames)))]
        k = int(rng.integers(0, 7))
        if k in (0, 1):
            f.joint.offset = o.joint.offset
        if k in (0, 2):
            f.link_offset = o.link_offset
        if k in (0, 3):
            f.joint.axis = o.joint.axis
        if k == 4 and o.joint.offset is not None:  # and back again
            f.joint.offset = np.linalg.inv(o.joint.offset)
        if k == 5:  # a link offset that equals or undoes the joint's own
            f.link_offset = f.joint.offset if f.joint.offset is None or rng.random() < 0.5 else np.linalg.inv(f.joint.offset)
        if k in (0, 3, 6) and f.joint.type == o.joint.type:
            f.joint.limits = o.joint.limits


def robot(rng, n=None, shape=None, mix=None, moving_root=None, offset_scale=1.0, limits=True, min_joints=0):
    """A random Robot (reference tree)."""
    for _ in range(100):
        nn = int(n if n is not None else rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 11, 16]))
        sh = shape or SHAPES[rng.integers(len(SHAPES))]
        mx = mix or MIXES[rng.integers(len(MIXES))]
        par = parents(rng, nn, sh)
        fn = names(rng, nn, "f")
        jn = names(rng, nn, "j")
        ln = fn if rng.random() < 0.6 else names(rng, nn, "link")
        frames = []
        root_moves = (rng.random() < 0.15) if moving_root is None else moving_root
        for i in range(nn):
            t = ("fixed", "revolute", "prismatic")[rng.choice(3, p=mx)]
            if i == 0 and not root_moves:
                t = "fixed"
            lim = None
            if limits and t != "fixed" and rng.random() < 0.7:
                lo = rng.uniform(-4, 1)
                lim = (float(lo), float(lo + rng.uniform(0, 5)))
            j = RJoint(jn[i] if (i > 0 or t != "fixed" or rng.random() < 0.3) else None, t, tuple(axis(rng)), transform(rng, scale=offset_scale), lim)
            frames.append(RFrame(fn[i], j, ln[i], transform(rng, scale=offset_scale) if rng.random() < 0.5 else None))
        if nn > 1 and rng.random() < 0.2:
            coincide(rng, frames)
        for i in range(1, nn):
            frames[par[i]].children.append(frames[i])
        r = Robot(frames[0])
        if r.n >= min_joints:
            r.shape = sh
            return r
    raise AssertionError("no robot with enough joints")


def serial_spec(rng, n=None, **kw):
    """A Robot that is a single path, with a fixed identity root (as after extraction)."""
    r = robot(rng, n=n, shape="path", moving_root=False, **kw)
    return r


def to_tf(T, dtype=F64):
    return None if T is None else pk.Transform3d(matrix=torch.tensor(T, dtype=dtype))


def to_frames(r, dtype=F64, rng=None):
    """The Robot as library frames."""

    def conv(f):
        a = {"axis": f.joint.axis}
        if rng is not None:
            if tuple(a["axis"]) == (0, 0, 1) or f.joint.type == "fixed":
                a = [a, {}, {"axis": None}][rng.integers(3)]
            if a.get("axis") is not None and rng.random() < 0.6:
                a = {"axis": [list(a["axis"]), torch.tensor(a["axis"], dtype=F64), np.array(a["axis"])][rng.integers(3)]}
        j = Joint(f.joint.name, offset=to_tf(f.joint.offset, dtype), joint_type=f.joint.type, dtype=dtype, limits=f.joint.limits, **a)
        x = Frame(f.name, link=Link(f.link_name, offset=to_tf(f.link_offset, dtype)), joint=j)
        for c in f.children:
            x.add_child(conv(c))
        return x

    return conv(r.root)


def to_chain(r, dtype=F64, rng=None):
    return pk.Chain(to_frames(r, dtype, rng), dtype=dtype)


def shape_sig(r):
    """What makes two robots different situations: tree shape, joint types and offset kinds."""
    return tuple((f.joint.type[0], len(f.children), f.joint.offset is not None, f.link_offset is not None) for f in r.frames)


def tol(r, q, dtype=F64, k=1.0):
    """Rounding allowance for one pose of robot r at configuration(s) q."""
    eps = {torch.float64: 1e-15, torch.float32: 6e-8}[dtype]
    qm = float(np.max(np.abs(q))) if np.size(q) else 0.0
    return k * eps * (60 + 20 * r.depth()) * r.scale(q) * (1 + 0.2 * qm)


def layout(rng, t, grad=False):
    """The same values in another memory layout (and sometimes requiring gradients)."""
    k = int(rng.integers(0, 6))
    t = t.detach()
    if k == 1 and t.dim() >= 1 and t.numel():  # every other element of a larger buffer
        big = torch.full((*t.shape[:-1], 2 * t.shape[-1]), 7.0, dtype=t.dtype)
        big[..., ::2] = t
        t = big[..., ::2]
    elif k == 2 and t.dim() >= 2:  # column major
        t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
    elif k == 3 and t.dim() >= 1:  # a window of a larger buffer
        big = torch.full((t.shape[0] + 2, *t.shape[1:]), float("nan"), dtype=t.dtype)
        big[1:-1] = t
        t = big[1:-1]
    elif k == 4 and t.dim() >= 2 and t.shape[0] == 1:
        t = t[0].expand(1, *t.shape[1:])
    else:
        t = t.clone()
    if grad and rng.random() < 0.3:
        t.requires_grad_(True)
    return t


def serial_robot_pair(rng, n=None, dtype=F64, min_joints=1, **kw):
    """(reference serial Robot, SerialChain) for a random path robot."""
    for _ in range(100):
        r = serial_spec(rng, n=n, **kw)
        r.root.joint.offset = None
        r.root.joint.name = None
        r.root.link_offset = None
        if r.n >= min_joints:
            return r, pk.SerialChain(to_chain(r, dtype), r.frames[-1].name)
    raise AssertionError
