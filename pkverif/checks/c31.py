"""C31: random rotations and perturbations are valid and distributed as documented."""
import functools

from scipy import stats

from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..rots import T, back

ORACLE = "closed-form distributions: Kolmogorov-Smirnov distance and moments of large samples; rigidity in float64"
RULE = "distinct (function, options, dtype, sample size class) situations"
CONFIG = {"quick": {"cases": 2400, "min": {"samples": 150000, "distributions": 500}},
          "thorough": {"cases": 100000, "seconds": 500}}
ASSUMPTIONS = ["a distribution is refuted only at p < 1e-12 or beyond 7.5 standard errors: small distortions stay undetected"]


def ks(ctx, x, cdf, msg, **d):
    p = stats.kstest(np.asarray(x), cdf).pvalue
    ctx.expect(p > 1e-12, f"{msg}: Kolmogorov-Smirnov p = {p:.2g} on {len(x)} samples", **d)
    ctx.count("distributions")


def mean(ctx, x, want, sd, msg, **d):
    """Mean of samples x (n, ...) is want, with standard deviation sd per sample."""
    n = len(x)
    ctx.close(np.mean(x, 0), np.broadcast_to(want, np.shape(np.mean(x, 0))), 7.5 * sd / np.sqrt(n) + 1e-5, msg, n=n, **d)
    ctx.count("distributions")


def rigid(ctx, R, dt, msg):
    R = np.asarray(R)
    tol = 6e-6 if dt == F32 else 2e-14
    ctx.close(R @ np.swapaxes(R, -1, -2), np.broadcast_to(np.eye(3), R.shape), tol, msg + ": orthogonal")
    ctx.close(np.linalg.det(R), np.ones(R.shape[:-2]), tol, msg + ": determinant")


def size(rng):
    return int(rng.choice([1, 2, 3, 0, 5, 17])) if rng.random() < 0.4 else int(rng.integers(2000, 6000))


def call(ctx, fn, seed, msg):
    """The same seed gives the same numbers."""
    torch.manual_seed(seed)
    a = fn()
    b = fn()
    torch.manual_seed(seed)
    c = fn()
    ctx.expect(torch.equal(a, c), msg + ": the same seed gives the same draws")
    if a.numel():
        ctx.expect(not torch.equal(a, b), msg + ": later draws differ")
    return a


def quaternions(ctx, rng):
    dt = rots.pick_dtype(rng)
    n, g, seed = size(rng), bool(rng.random() < 0.3), int(rng.integers(2 ** 31))
    kw = {} if dt == F32 and rng.random() < 0.5 else {"dtype": dt}
    if g:
        kw["requires_grad"] = True
    q = call(ctx, lambda: pk.random_quaternions(n, **kw), seed, "random quaternions")
    ctx.expect(tuple(q.shape) == (n, 4) and q.dtype == dt and q.requires_grad == g, f"{n} random quaternions: {tuple(q.shape)} {q.dtype} {q.requires_grad}")
    Q = back(q)
    ctx.close(np.linalg.norm(Q, axis=-1), np.ones(n), 1e-6 if dt == F32 else 4e-15, "unit norm")
    ctx.expect((Q[:, 0] >= 0).all(), "non-negative real part")
    ctx.count("samples", n)
    ctx.seen("quaternions", n, g, str(dt), tuple(kw))
    if n < 1000:
        return
    # uniform on the sphere: each coordinate has cdf of a projection of S^3, E[q q^T] = I/4
    cdf = lambda x: np.clip((np.arcsin(np.clip(x, -1, 1)) + x * np.sqrt(np.clip(1 - x * x, 0, 1))) / np.pi + 0.5, 0, 1)  # noqa: E731
    for i in range(1, 4):
        ks(ctx, Q[:, i], cdf, f"coordinate {i} of uniform quaternions")
    ks(ctx, Q[:, 0], lambda x: np.clip(2 * cdf(x) - 1, 0, 1), "real part of uniform quaternions")
    v = gen.unit(rng)
    ks(ctx, Q[:, 1:] @ v, cdf, "a projection of uniform quaternions")
    S = Q * np.sign(v[0] * Q[:, 1] + v[1] * Q[:, 2] + v[2] * Q[:, 3])[:, None]
    mean(ctx, S[:, 0], 0.0, 0.5, "the real part is symmetric relative to the axis side")
    mean(ctx, Q[:, :, None] * Q[:, None, :], np.eye(4) / 4, 0.25, "second moments of uniform quaternions")


def rotations(ctx, rng):
    dt = rots.pick_dtype(rng)
    n, g, seed = size(rng), bool(rng.random() < 0.3), int(rng.integers(2 ** 31))
    kw = {} if dt == F32 and rng.random() < 0.5 else {"dtype": dt}
    if g:
        kw["requires_grad"] = True
    R = call(ctx, lambda: pk.random_rotations(n, **kw), seed, "random rotations")
    ctx.expect(tuple(R.shape) == (n, 3, 3) and R.dtype == dt and R.requires_grad == g, f"{n} random rotations: {tuple(R.shape)} {R.dtype} {R.requires_grad}")
    M = back(R)
    rigid(ctx, M, dt, "random rotations")
    one = call(ctx, lambda: pk.random_rotation(**kw), seed, "random rotation")
    ctx.expect(tuple(one.shape) == (3, 3) and one.dtype == dt and one.requires_grad == g, f"one random rotation: {tuple(one.shape)} {one.dtype}")
    rigid(ctx, back(one), dt, "random rotation")
    ctx.count("samples", n)
    ctx.seen("rotations", n, g, str(dt), tuple(kw))
    if n < 1000:
        return
    a, b = gen.unit(rng), gen.unit(rng)
    u = lambda x: np.clip((x + 1) / 2, 0, 1)  # noqa: E731
    ks(ctx, M[:, int(rng.integers(3)), int(rng.integers(3))], u, "an entry of uniform rotations")
    ks(ctx, (M @ a) @ b, u, "a bilinear form of uniform rotations")
    ks(ctx, rots.angles(M), lambda t: np.clip((t - np.sin(t)) / np.pi, 0, 1), "the angle of uniform rotations")
    mean(ctx, M, 0.0, 1 / np.sqrt(3), "mean of uniform rotations")
    P = rots.aa2R(rng.standard_normal(3))
    ks(ctx, rots.angles(M @ P), lambda t: np.clip((t - np.sin(t)) / np.pi, 0, 1), "the angle to a fixed rotation")
    singles = np.stack([back(pk.random_rotation(**kw)) for _ in range(300)])
    ks(ctx, singles[:, int(rng.integers(3)), int(rng.integers(3))], u, "an entry of single random rotations")


def perturb(ctx, rng):
    dt = rots.pick_dtype(rng)
    n, seed = size(rng), int(rng.integers(2 ** 31))
    M = gen.transform(rng, none_ok=False, scale=3.0)
    m = T(M, dt, rng)
    keep = m.clone()
    B = back(m)
    sr = float(rng.choice([0.02, 0.1, 0.3, 0.5, 1.2, 3.0]))
    st = float(10 ** rng.uniform(-2, 1))
    big = sr > 0.6
    mode = ("free", "method", "axis", "axis+along", "axis+perpendicular", "method grad")[rng.integers(6)]
    a, kw = None, {}
    if mode.startswith("axis"):
        ax = T(rots.nice_axis(rng) * (1.0 if rng.random() < 0.6 else 10 ** rng.uniform(-3, 3)), dt)  # only its direction counts
        a = back(ax) / np.linalg.norm(back(ax))
        kw = {"axis_of_rotation": ax}
        if mode != "axis":
            kw["translation_perpendicular_to_axis_of_rotation"] = mode.endswith("perpendicular")
    tens = rng.random() < 0.2
    args = (n, torch.tensor(sr, dtype=dt) if tens else sr, torch.tensor(st, dtype=dt) if tens else st)
    if mode.startswith("method"):
        tr = pk.Transform3d(matrix=m.clone().requires_grad_(mode == "method grad"))
        res = []

        def fn():
            t = tr.sample_perturbations(*args)
            res[:] = [t]
            return t.get_matrix().detach()
    else:
        fn = functools.partial(pk.transforms.perturbation.sample_perturbations, m, *args, **kw)
    p = call(ctx, fn, seed, "perturbations")
    if mode.startswith("method"):
        ctx.expect(len(res[0]) == n and res[0].dtype == dt and torch.equal(tr.get_matrix()[0], m), "the method form keeps number, dtype and the transform itself")
    ctx.expect(tuple(p.shape) == (n, 4, 4) and p.dtype == dt, f"{n} perturbations: {tuple(p.shape)} {p.dtype}")
    ctx.expect(torch.equal(m, keep), "the transform itself is unchanged")
    P = back(p)
    rigid(ctx, P[:, :3, :3], dt, "perturbed transforms")
    ctx.close(P[:, 3], np.broadcast_to([0.0, 0, 0, 1], (n, 4)), 0.0, "last row of the perturbed transforms")
    D = P[:, :3, :3] @ B[:3, :3].T
    d = P[:, :3, 3] - B[:3, 3]
    perp = mode in ("axis", "axis+perpendicular")
    eps = 1e-6 if dt == F32 else 1e-14
    if perp:
        ctx.close(d @ a, np.zeros(n), eps * (10 * st + 10), "offsets perpendicular to the axis")
    if a is not None:
        ctx.close(D @ a, np.broadcast_to(a, (n, 3)), 3 * eps, "rotations about the given axis")
    ctx.count("samples", n)
    ctx.seen("perturb", mode, n, str(dt), sr, tens)
    # zero spread in either part leaves that part alone
    f0 = lambda x, y: back(pk.transforms.perturbation.sample_perturbations(m, 3, x, y, **kw))  # noqa: E731
    ctx.close(f0(0.0, 0.0), np.broadcast_to(B, (3, 4, 4)), 1e-6 if dt == F32 else 1e-15, "zero spread")
    ctx.close(f0(sr, 0.0)[:, :3, 3], np.broadcast_to(B[:3, 3], (3, 3)), 1e-6 if dt == F32 else 1e-15, "zero translation spread")
    ctx.close(f0(0.0, st)[:, :3, :3], np.broadcast_to(B[:3, :3], (3, 3, 3)), 1e-6 if dt == F32 else 1e-15, "zero rotation spread")
    if n < 1000:
        return
    s = 0.5 * np.stack([D[:, 2, 1] - D[:, 1, 2], D[:, 0, 2] - D[:, 2, 0], D[:, 1, 0] - D[:, 0, 1]], -1)  # sin(angle) * axis
    c = 0.5 * (np.trace(D, axis1=-2, axis2=-1) - 1)
    if a is not None:
        th = np.arctan2(s @ a, c)
        if not big:
            ks(ctx, th, stats.norm(scale=sr).cdf, "angle about the given axis", spread=sr)
    else:
        th = np.arctan2(np.linalg.norm(s, axis=-1), c)
        if not big:
            ks(ctx, th, stats.halfnorm(scale=sr).cdf, "angle of the perturbation", spread=sr)
        u = s / np.linalg.norm(s, axis=-1, keepdims=True)
        v = gen.unit(rng)
        ok = th > 1e-3
        for w in (v, np.eye(3)[rng.integers(3)]):
            ks(ctx, u[ok] @ w, lambda x: np.clip((x + 1) / 2, 0, 1), "uniform axis")
        mean(ctx, u[ok][:, :, None] * u[ok][:, None, :], np.eye(3) / 3, 0.34, "second moments of the axis")
        if not big:  # the axis does not depend on the angle
            hi = ok & (th > np.median(th))
            ks(ctx, u[hi] @ v, lambda x: np.clip((x + 1) / 2, 0, 1), "uniform axis of large perturbations")
    mean(ctx, c, np.exp(-sr * sr / 2), 1.0, "mean cosine of the angle", spread=sr)
    # offsets: independent Gaussians of the given spread
    e = d / st
    lim = eps * 10 / st
    if lim < 0.01:
        if perp:
            b1 = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
            b1 /= np.linalg.norm(b1)
            dirs = [b1, np.cross(a, b1)]
            cov = np.eye(3) - np.outer(a, a)
        else:
            dirs = [np.eye(3)[i] for i in range(3)] + [gen.unit(rng)]
            cov = np.eye(3)
        for w in dirs:
            ks(ctx, e @ w, stats.norm.cdf, "offset along a direction", spread=st, direction=w)
        mean(ctx, e[:, :, None] * e[:, None, :], cov, 1.5, "second moments of the offset", spread=st)
        x = th - th.mean()
        mean(ctx, (x / x.std())[:, None] * e, 0.0, 1.1, "offset independent of the angle")
        if a is None:
            mean(ctx, u[:, :, None] * e[:, None, :], 0.0, 0.7, "offset independent of the axis")
        mean(ctx, e[1:, :, None] * e[:-1, None, :], 0.0, 1.1, "offsets of different samples are independent")
    y = np.cos(th) - np.cos(th).mean()
    if y.std() > 1e-6:
        mean(ctx, y[1:] * y[:-1] / y.var(), 0.0, 3.0 if not big else 1.5, "angles of different samples are independent")


def batched(ctx, rng):
    """Several transforms, one perturbation each."""
    dt = rots.pick_dtype(rng)
    n = int(rng.integers(2, 7))
    M = np.stack([gen.transform(rng, none_ok=False, scale=3.0) for _ in range(n)])
    m = T(M, dt)
    t = pk.Transform3d(matrix=m)
    p = t.sample_perturbations(n, 0.0, 0.0)
    ctx.close(p.get_matrix(), back(m), 1e-6 if dt == F32 else 1e-15, "zero spread around several transforms")
    P = back(t.sample_perturbations(n, 0.01, 0.01).get_matrix())
    rigid(ctx, P[:, :3, :3], dt, "perturbed transforms")
    ctx.close(P, back(m), 0.1, "small perturbations stay close to their own transform")
    ctx.count("samples", n)
    ctx.seen("batched", n, str(dt))


FAMILIES = [("quaternions", quaternions), ("rotations", rotations), ("perturb", perturb), ("perturb2", perturb), ("batched", batched), ("perturb3", perturb)]
