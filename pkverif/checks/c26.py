"""C26: the SO(3) exponential, logarithm, angle and hat maps are consistent."""
import math

from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..rots import EPS, T, aa2R, back

ORACLE = "rotation vectors, matrices and angles computed independently in float64"
RULE = "distinct (map, dtype, angle band, batch size) situations"
CONFIG = {"quick": {"cases": 40000, "min": {"rotations": 10000, "near_zero": 1500, "near_half_turn": 500, "refusals_observed": 2000}},
          "thorough": {"cases": 1000000, "seconds": 600}}
hat, hat_inv = pk.transforms.so3.hat, pk.transforms.so3.hat_inv


def ang(rng, hi=np.pi):
    k = rng.integers(0, 9)
    if k == 0:
        return 0.0
    if k == 1:
        return float(10 ** rng.uniform(-12, -2))
    if k == 2:
        return float(rng.uniform(0.005, 0.02))
    if k == 3:
        return float(hi - 10 ** rng.uniform(-1.3, -0.3))
    if k == 4:
        return float(rng.choice([np.pi / 2, 2 * np.pi / 3, np.pi / 3, 1.0]))
    return float(rng.uniform(0, hi - 0.05))


def batch(rng):
    return int(rng.choice([1, 1, 2, 3, 5, 9]))


def band(a):
    return tuple(sorted({"0" if x == 0 else "tiny" if x < 0.015 else "half" if x > np.pi - 0.2 else "mid" for x in np.ravel(a)}))


def note(ctx, name, dt, a):
    a = np.ravel(a)
    ctx.count("rotations", a.size)
    ctx.count("near_zero", int((a < 0.015).sum()))
    ctx.count("near_half_turn", int((a > np.pi - 0.5).sum()))
    ctx.seen(name, str(dt), band(a), a.size)


def exp_map(ctx, rng):
    dt, n = rots.pick_dtype(rng), batch(rng)
    a = np.array([ang(rng) if rng.random() < 0.8 else rng.uniform(np.pi, 15) for _ in range(n)])
    v = T(np.stack([rots.nice_axis(rng) for _ in range(n)]) * a[:, None], dt, rng)
    keep = v.detach().clone()
    V = back(v)
    R = aa2R(V)
    nn = np.linalg.norm(V, axis=-1)
    got = pk.so3_exp_map(v)
    ctx.expect(got.dtype == dt, "exponential dtype")
    tol = np.where(nn < 0.0101, 1e-6, 20 * EPS[dt] * (1 + nn)) + (0 if dt == F64 else 2e-6)
    ctx.close(got, R, tol[:, None, None], "exponential is the rotation about the vector by its length", v=V)
    # a given clamp: exact outside of it
    e = float(10 ** rng.uniform(-8, -2))
    out = nn ** 2 > e * 1.01
    got = back(pk.so3_exp_map(v, eps=e))
    t2 = 50 * EPS[dt] * (1 + nn) * (1 + (1e-2 / np.maximum(nn, 1e-30)) if dt == F32 else 1 + 0.1 / np.maximum(nn, 1e-30))
    ctx.close(got[out], R[out], np.minimum(t2, 1e-3)[out][:, None, None], "exponential with a given clamp", v=V, eps=e)
    ctx.close(got[~out], R[~out], 2 * e * math.sqrt(e) + e * np.sqrt(e) + (1e-13 if dt == F64 else 3e-6), "exponential inside a given clamp", v=V, eps=e)
    ctx.close(pk.so3_exp_map(-v), np.swapaxes(back(pk.so3_exp_map(v)), -1, -2), 5 * EPS[dt], "exponential of the opposite vector is the inverse")
    ctx.close(v, keep, 0.0, "vectors unchanged")
    note(ctx, "exp", dt, nn)


def log_map(ctx, rng):
    dt, n = rots.pick_dtype(rng), batch(rng)
    a = np.array([ang(rng) for _ in range(n)])
    V = np.stack([rots.nice_axis(rng) for _ in range(n)]) * a[:, None]
    m = T(aa2R(V), dt, rng)
    keep = m.detach().clone()
    got = pk.so3_log_map(m)
    ctx.expect(got.dtype == dt and tuple(got.shape) == (n, 3), "logarithm dtype and shape")
    d = np.pi - a
    tol = np.where(a < 0.015, 1e-6, 0) + (1e-14 if dt == F64 else 3e-6) * (1 + 20 / d ** 2)
    ctx.close(got, V, tol[:, None], "logarithm is the rotation vector", V=V)
    ctx.close(pk.so3_exp_map(got), aa2R(V), (3 * tol + np.where(a < 0.03, 1e-6, 0) + (1e-14 if dt == F64 else 2e-6))[:, None, None], "exponential of the logarithm", V=V)
    back_v = pk.so3_log_map(pk.so3_exp_map(T(V, dt)))
    ctx.close(back_v, V, (3 * tol + np.where(a < 0.03, 2e-6, 0))[:, None], "logarithm of the exponential", V=V)
    ctx.close(m, keep, 0.0, "matrices unchanged")
    note(ctx, "log", dt, a)


def angle_map(ctx, rng):
    dt, n = rots.pick_dtype(rng), batch(rng)
    a = np.array([ang(rng) if rng.random() < 0.9 else np.pi - (0 if rng.random() < 0.5 else 10 ** rng.uniform(-6, -1)) for _ in range(n)])
    A = np.stack([rots.one_R(rng) for _ in range(n)])
    U = np.stack([rots.nice_axis(rng) for _ in range(n)])
    R = aa2R(U * a[:, None])
    rel = rng.random() < 0.5

    def want_tol(ang):
        end = (ang < 0.0142) | (ang > np.pi - 0.0142)
        edge = np.abs(ang - 0.01414) < 1e-3
        edge |= np.abs(np.pi - ang - 0.01414) < 1e-3
        s = np.maximum(np.sin(ang), 1e-3)
        return np.where(end | edge, 0.0075, 20 * EPS[dt] / s)

    if rel:
        m1, m2 = T(R @ A, dt, rng), T(A, dt, rng)
        f = lambda **k: pk.so3_relative_angle(m1, m2, **k)  # noqa: E731
        ctx.close(pk.so3_relative_angle(m2, m1), f(), 20 * EPS[dt] / 0.01 + 1e-4 * 0, "relative angle is symmetric")
    else:
        m1 = T(R, dt, rng)
        f = lambda **k: pk.so3_rotation_angle(m1, **k)  # noqa: E731
        for cb in (1e-3, 1e-5 if dt == F64 else 1e-3):
            g = back(f(cos_bound=cb))
            mid = (np.cos(a) < 1 - 1.1 * cb) & (np.cos(a) > -1 + 1.1 * cb)
            ctx.close(g[mid], a[mid], 20 * EPS[dt] / math.sqrt(cb), "rotation angle with a given cosine bound", a=a, cb=cb)
            ctx.close(g, a, 1.1 * math.sqrt(cb), "rotation angle with a given cosine bound near the ends", a=a, cb=cb)
        mid = (a > 0.1) & (a < 3)
        ctx.close(back(f(cos_bound=0.0))[mid], a[mid], 300 * EPS[dt], "rotation angle without a cosine bound", a=a)
    g = f()
    ctx.expect(g.dtype == dt and tuple(g.shape) == (n,), "angle dtype and shape")
    ctx.close(g, a, want_tol(a), "relative angle" if rel else "rotation angle", a=a)
    ctx.close(f(cos_angle=True), np.cos(a), 10 * EPS[dt], "cosine of the angle", a=a)
    note(ctx, "relative" if rel else "angle", dt, a)


def hats(ctx, rng):
    dt, n = rots.pick_dtype(rng), batch(rng)
    v = T(rng.standard_normal((n, 3)) * 10 ** rng.uniform(-3, 2), dt, rng)
    keep = v.detach().clone()
    V = back(v)
    h = hat(v)
    ctx.expect(h.dtype == dt, "hat dtype")
    ctx.close(h, rots.hats(V), 1e-30, "hat map")
    w = rng.standard_normal((n, 3))
    ctx.close((back(h) @ w[..., None])[..., 0], np.cross(V, w), 1e-13 * (1 + np.abs(V).max()) * 10, "hat map gives the cross product")
    ctx.close(hat_inv(h), V, 1e-30, "inverse of the hat map")
    ctx.close(hat(hat_inv(h)), rots.hats(V), 1e-30, "hat of the inverse")
    # not skew-symmetric: refused, wherever in the batch the defect is
    k, i, j = int(rng.integers(n)), *(int(x) for x in rng.integers(0, 3, 2))
    b = h.detach().clone()
    b[k, i, j] += (1 if rng.random() < 0.5 else -1) * max(1e-3, 1e-3 * float(np.abs(V).max()))
    ctx.refused(lambda: hat_inv(b), "inverse hat of a matrix that is not skew-symmetric", at=(k, i, j))
    for shp in [(3, 3), (n, 3, 2), (n, 2, 3), (n, 4, 4), (n, 1, 3, 3)]:
        ctx.refused(lambda: hat_inv(torch.zeros(shp, dtype=dt)), f"inverse hat of shape {shp}")
    for shp in [(3,), (n, 2), (n, 4), (n, 1, 3)]:
        ctx.refused(lambda: hat(torch.zeros(shp, dtype=dt)), f"hat of shape {shp}")
    ctx.close(v, keep, 0.0, "vectors unchanged")
    ctx.count("rotations", n)
    ctx.seen("hat", str(dt), n)


def refusals(ctx, rng):
    dt, n = rots.pick_dtype(rng), batch(rng)
    R = np.stack([rots.one_R(rng) for _ in range(n)])
    k = int(rng.integers(n))
    bad = R.copy()
    tr = float(rng.choice([3 + 10 ** rng.uniform(-3, 1), -1 - 10 ** rng.uniform(-3, 1)]))
    bad[k] += np.eye(3) * (tr - np.trace(R[k])) / 3
    b, good = T(bad, dt), T(R, dt)
    for c in (False, True):
        ctx.refused(lambda: pk.so3_rotation_angle(b, cos_angle=c), f"rotation angle of a matrix with trace {tr}")
    ctx.refused(lambda: pk.so3_log_map(b), f"logarithm of a matrix with trace {tr}")
    eye = T(np.broadcast_to(np.eye(3), (n, 3, 3)), dt)
    ctx.refused(lambda: pk.so3_relative_angle(b, eye), f"relative angle of matrices with trace {tr}")
    ctx.refused(lambda: pk.so3_relative_angle(eye, b), f"relative angle of matrices with trace {tr}")
    # the tolerance is the caller's: accepted when wide, and slightly rounded rotations are accepted and finite
    e = abs(tr - 1) - 2 + 0.01
    ctx.close(pk.so3_rotation_angle(b, eps=e, cos_angle=True), (np.trace(bad, axis1=1, axis2=2) - 1) / 2, 20 * EPS[dt] * (1 + abs(tr)), "trace within a given tolerance is accepted")
    s = T(R * (1 + 1e-5 * rng.uniform(-1, 1)), dt)
    g = back(pk.so3_rotation_angle(s))
    ctx.close(g, rots.angles(R), 0.0105, "angle of a slightly scaled rotation")
    ctx.expect(bool(torch.isfinite(pk.so3_log_map(s)).all()), "logarithm of a slightly scaled rotation is finite")
    for shp in [(3, 3), (n, 3, 2), (n, 2, 3), (n, 4, 4), (n, 1, 3, 3)]:
        z = torch.zeros(shp, dtype=dt)
        ctx.refused(lambda: pk.so3_rotation_angle(z), f"rotation angle of shape {shp}")
        ctx.refused(lambda: pk.so3_log_map(z), f"logarithm of shape {shp}")
    for shp in [(3,), (n, 2), (n, 4), (n, 1, 3)]:
        ctx.refused(lambda: pk.so3_exp_map(torch.zeros(shp, dtype=dt)), f"exponential of shape {shp}")
    ctx.close(pk.so3_rotation_angle(good, cos_angle=True), (np.trace(R, axis1=1, axis2=2) - 1) / 2, 10 * EPS[dt], "valid matrices accepted")
    ctx.count("rotations", n)
    ctx.seen("refusals", str(dt), n, k, tr > 0)


def acos(ctx, rng):
    dt = rots.pick_dtype(rng)
    shp = rots.shape(rng, empty=False)
    x = T(rng.uniform(-1.5, 1.5, shp) if rng.random() < 0.7 else rng.choice([-1.0, 1.0, 0.0, 0.9999, -0.9999, 0.5], shp), dt)
    X = back(x)
    k = rng.integers(0, 3)
    if k == 0:
        lo, hi, kw = -(1 - 1e-4), 1 - 1e-4, {}
    elif k == 1:
        b = float(rng.uniform(0.1, 0.999))
        lo, hi, kw = -b, b, {"bound": b}
    else:
        lo, hi = (float(v) for v in np.sort(rng.uniform(-0.999, 0.999, 2)))
        kw = {"bound": (lo, hi)}
    want = np.where(X >= hi, math.acos(hi) - (X - hi) / math.sqrt(1 - hi * hi), np.where(X <= lo, math.acos(lo) - (X - lo) / math.sqrt(1 - lo * lo), np.arccos(np.clip(X, -1, 1))))
    ctx.close(pk.acos_linear_extrapolation(x, **kw), want, 400 * EPS[dt], "extrapolated arc cosine", x=X, bounds=(lo, hi))
    for bad in [(0.5, 0.2), (-1.0, 0.5), (-0.5, 1.0), 1.0, (-2.0, 0.0)]:
        ctx.refused(lambda: pk.acos_linear_extrapolation(x, bad), f"extrapolated arc cosine with bounds {bad}")
    ctx.count("rotations", X.size)
    ctx.seen("acos", str(dt), shp, int(k))


FAMILIES = [("exp_map", exp_map), ("log_map", log_map), ("angle_map", angle_map), ("hats", hats), ("refusals", refusals), ("acos", acos)]
