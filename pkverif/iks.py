"""Workloads and references for inverse kinematics."""
import numpy as np

from . import gen, ref, rots
from .env import F32, F64, pk, torch

TWO_PI = 2 * np.pi


def limit_pattern(rng, kind=None):
    """None, (lo, hi), half-infinite, far away, wide or single-point limits."""
    k = kind or ("none", "both", "both", "low", "high", "far", "wide", "narrow", "inf")[rng.integers(9)]
    c = rng.uniform(-2, 2)
    if k == "none":
        return None
    if k == "both":
        return (float(c - rng.uniform(0.2, 2.5)), float(c + rng.uniform(0.2, 2.5)))
    if k == "low":
        return (float(c), float("inf"))
    if k == "high":
        return (float("-inf"), float(c))
    if k == "far":
        c = c + rng.choice([-1, 1]) * rng.uniform(4, 15)
        return (float(c - rng.uniform(0.2, 3)), float(c + rng.uniform(0.2, 3)))
    if k == "wide":
        return (float(-rng.uniform(3, 12)), float(rng.uniform(3, 12)))
    if k == "narrow":
        w = rng.choice([0.0, 0.01, 0.05])
        return (float(c), float(c + w))
    return (float("-inf"), float("inf"))


def robot(rng, dtype=F64, n=None, limits="mixed", min_joints=1, mix=None):
    """(reference serial Robot, SerialChain, limits (dof, 2) as held in dtype)."""
    for _ in range(200):
        nf = int(n if n is not None else rng.choice([2, 3, 4, 5, 6, 7, 8, 9]))
        r = gen.serial_spec(rng, n=nf, mix=mix or [[0.25, 0.55, 0.2], [0.1, 0.9, 0.0], [0.2, 0.0, 0.8], [0.0, 0.7, 0.3]][rng.integers(4)], limits=False)
        r.root.joint.offset = r.root.joint.name = r.root.link_offset = None
        if r.n < min_joints:
            continue
        for f in r.moving:
            f.joint.limits = None if limits == "none" else limit_pattern(rng, {"finite": "both", "mixed": None}[limits])
        c = pk.SerialChain(gen.to_chain(r, dtype), r.frames[-1].name)
        lim = np.array([(-np.inf, np.inf) if f.joint.limits is None else f.joint.limits for f in r.moving])
        lim = np.asarray(torch.tensor(lim, dtype=dtype).to(F64))
        return r, c, lim
    raise AssertionError


def draw(rng, lim, prismatic, n, spread=1.5):
    """(n, dof) values within the limits."""
    lo = np.where(np.isfinite(lim[:, 0]), lim[:, 0], np.where(np.isfinite(lim[:, 1]), lim[:, 1] - 2 * spread, -spread))
    hi = np.where(np.isfinite(lim[:, 1]), lim[:, 1], np.where(np.isfinite(lim[:, 0]), lim[:, 0] + 2 * spread, spread))
    return lo + (hi - lo) * rng.random((n, len(lim)))


def prismatic(r):
    return np.array([f.joint.type == "prismatic" for f in r.moving])


def fk(r, q):
    return r.fk(q)[r.frames[-1].name]


def errors(r, q, target):
    """Position and rotation error of joint values q with respect to one 4x4 target, by the reference model."""
    T = fk(r, q)
    return float(np.linalg.norm(target[:3, 3] - T[:3, 3])), float(rots.angles(target[:3, :3] @ T[:3, :3].T))


def targets(rng, r, lim, m, dtype, kinds=("reach", "reach", "reach", "far", "turned", "wild")):
    """m target poses (as held in dtype), with their kinds."""
    out, ks = [], []
    pr = prismatic(r)
    for _ in range(m):
        k = kinds[rng.integers(len(kinds))]
        q = draw(rng, lim, pr, 1)[0]
        T = fk(r, q)
        if k == "far":
            T[:3, 3] = gen.unit(rng) * r.scale(q) * 10 ** rng.uniform(0.3, 3)
        elif k == "turned":
            T[:3, :3] = ref.rot(gen.unit(rng), np.pi - (0 if rng.random() < 0.5 else 10 ** rng.uniform(-9, -1))) @ T[:3, :3]
        elif k == "wild":
            T = ref.homog(gen.rotation(rng), rng.uniform(-2, 2, 3) * r.scale(q))
        out.append(T)
        ks.append(k)
    t = torch.tensor(np.stack(out), dtype=dtype)
    return t, ks


def options(rng, hostile=False):
    """Random solver options; hostile ones may do without any damping, or leave positions or rotations out."""
    kw = {}
    if rng.random() < 0.5:
        kw["pos_tolerance"] = float(10 ** rng.uniform(-5, -1))
    if rng.random() < 0.5:
        kw["rot_tolerance"] = float(10 ** rng.uniform(-4, -0.3))
    kw["max_iterations"] = int(rng.choice([0, 1, 2, 3, 5, 10, 20, 30, rng.integers(0, 31)]))
    if rng.random() < 0.5:
        kw["lr"] = float(rng.choice([0.1, 0.2, 0.5, 1.0, 1.3]))
    if rng.random() < 0.4:
        kw["lm_damping"] = float(rng.choice([0.01, 0.1, 1.0, 10.0]))
    if rng.random() < 0.3:
        kw["regularlization"] = float(10 ** rng.uniform(-9, -1))
    if rng.random() < 0.4:
        kw["position_weight"] = float(rng.choice([0.1, 0.5, 2.0, 10.0]))
    if rng.random() < 0.4:
        kw["orientation_weight"] = float(rng.choice([0.1, 0.5, 2.0, 10.0]))
    if hostile and rng.random() < 0.3:
        kw.update([{"regularlization": 0.0}, {"lm_damping": 0.0}, {"regularlization": 0.0, "lm_damping": 0.0}][rng.integers(3)])
        if rng.random() < 0.3:
            kw[("position_weight", "orientation_weight")[rng.integers(2)]] = 0.0
    if rng.random() < 0.5:
        kw["early_stopping_any_converged"] = bool(rng.random() < 0.6)
    if rng.random() < 0.6:
        kw["early_stopping_no_improvement"] = (None, "all", "any", 0.3, 0.7)[rng.integers(5)]
    if rng.random() < 0.3:
        kw["early_stopping_no_improvement_patience"] = int(rng.integers(0, 6))
    if rng.random() < 0.4:
        kw["enforce_joint_limits"] = bool(rng.random() < 0.5)
    if rng.random() < 0.5:
        kw["num_limit_refinement_iterations"] = int(rng.choice([0, 1, 3, 10]))
    if rng.random() < 0.3:
        kw["clamp_to_limits"] = True
    ls = None
    if rng.random() < 0.25:
        ls = {"max_lr": float(rng.choice([0.2, 0.5, 1.0, 2.0])), "decrease_factor": float(rng.choice([0.3, 0.5, 0.9])), "max_iterations": int(rng.choice([1, 2, 5])),
              "sufficient_decrease": float(rng.choice([0.0, 1e-6, 0.01]))}
    return kw, ls


def solver(c, kw, ls, svd, **more):
    cls = pk.PseudoInverseIKWithSVD if svd else pk.PseudoInverseIK
    return cls(c, **kw, **({"line_search": pk.BacktrackingLineSearch(**ls)} if ls else {}), **more)


def sig(kw, ls, svd):
    return (svd, ls is not None and tuple(sorted(ls.items())), tuple(sorted((k, v if not isinstance(v, float) or k.startswith("early") else round(np.log10(v + 1e-12))) for k, v in kw.items())))


def tols(r, q, T, dt):
    """Rounding allowance (position, rotation) for errors computed by the library at joint values q."""
    e = 1.2e-7 if dt == F32 else 2.3e-16
    qs = float(np.max(np.abs(q))) if np.size(q) else 0.0
    k = 40 + 20 * r.depth()
    rt = e * k * (1 + qs)
    return rt * (r.scale(np.asarray(q)[None]) + float(np.linalg.norm(T[:3, 3]))), rt
