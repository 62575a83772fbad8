"""C24: quaternion operations obey the algebra of rotations."""
from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..rots import EPS, T, back, q2R, qmul

ORACLE = "Hamilton products, rotation matrices and relative angles computed independently in float64"
RULE = "distinct (operation, broadcast shapes, dtype) situations and (distance band, fraction form) situations"
CONFIG = {"quick": {"cases": 36000, "min": {"products": 3000, "pairs": 6000, "close_pairs": 500, "antipodal_pairs": 300, "opposite_sign_pairs": 500}},
          "thorough": {"cases": 1000000, "seconds": 700}}

PAIRS = [((), ()), ((1,), (1,)), ((4,), (4,)), ((), (5,)), ((3,), ()), ((1,), (6,)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((4, 1), (5,)), ((3, 2), (3, 2)), ((4,), (4, 4)), ((0,), (1,)), ((2, 1, 2), (3, 1))]


def pair_shapes(rng):
    a, b = PAIRS[rng.integers(len(PAIRS))]
    return (a, b) if rng.random() < 0.5 else (b, a)


def products(ctx, rng):
    dt = rots.pick_dtype(rng)
    sa, sb = pair_shapes(rng)
    a, b = T(rots.fill(rng, rots.one_q, sa, (4,)), dt, rng), T(rots.fill(rng, rots.one_q, sb, (4,)), dt, rng)
    keep = [a.detach().clone(), b.detach().clone()]
    A, B = back(a), back(b)
    so = np.broadcast_shapes(sa, sb)
    want = qmul(np.broadcast_to(A, (*so, 4)), np.broadcast_to(B, (*so, 4)))
    raw = pk.quaternion_raw_multiply(a, b)
    ctx.expect(raw.dtype == dt, "raw product dtype")
    ctx.close(raw, want, 2 * EPS[dt], "raw product")
    m = pk.quaternion_multiply(a, b)
    ctx.expect(m.dtype == dt and tuple(m.shape) == (*so, 4), "product dtype and shape")
    ctx.close(q2R(back(m)), q2R(A) @ q2R(B), 6 * EPS[dt], "product composes rotations")
    if m.numel():
        ctx.expect(float(back(m)[..., 0].min()) >= 0, "product has a non-negative real part", m=m)
    ctx.close(np.minimum(np.abs(back(m) - want).max(-1), np.abs(back(m) + want).max(-1)), np.zeros(so), 2 * EPS[dt], "product up to sign")
    # arbitrary (not unit) quaternions multiply too
    x, y = rng.standard_normal((*sa, 4)) * 10, rng.standard_normal((*sb, 4))
    tx, ty = T(x, dt), T(y, dt)
    ctx.close(pk.quaternion_raw_multiply(tx, ty), qmul(np.broadcast_to(back(tx), (*so, 4)), np.broadcast_to(back(ty), (*so, 4))), 100 * EPS[dt], "raw product of any quaternions")
    for t, k in zip((a, b), keep):
        ctx.close(t, k, 0.0, "operands unchanged")
    ctx.count("products", max(1, int(np.prod(so))))
    ctx.seen("products", sa, sb, str(dt))


def unary(ctx, rng):
    dt = rots.pick_dtype(rng)
    s = rots.shape(rng)
    a = T(rots.fill(rng, rots.one_q, s, (4,)), dt, rng)
    keep = a.detach().clone()
    A = back(a)
    inv = pk.quaternion_invert(a)
    ctx.expect(inv.dtype == dt and tuple(inv.shape) == (*s, 4), "inverse dtype and shape")
    ctx.close(q2R(back(inv)), np.swapaxes(q2R(A), -1, -2), 4 * EPS[dt], "inverse is the opposite rotation")
    one = np.zeros((*s, 4))
    one[..., 0] = 1
    for u, v in ((a, inv), (inv, a)):
        ctx.close(pk.quaternion_raw_multiply(u, v), one, 4 * EPS[dt], "a quaternion times its inverse is one")
        ctx.close(pk.quaternion_multiply(u, v), one, 4 * EPS[dt], "a rotation times its inverse is none")
    st = pk.standardize_quaternion(a)
    ctx.expect(st.dtype == dt and tuple(st.shape) == (*s, 4), "standardised dtype and shape")
    S = back(st)
    if S.size:
        ctx.expect(float(S[..., 0].min()) >= 0, "standardised real part is not negative")
    ctx.close(np.minimum(np.abs(S - A).max(-1), np.abs(S + A).max(-1)), np.zeros(s), 1e-12, "standardised is the quaternion or its negative")
    if S.size:
        pos = A[..., 0] > 0
        ctx.close(S[pos], A[pos], 1e-12, "a quaternion with positive real part is standard already")
    # in the deep left half: exactly minus one
    ctx.close(a, keep, 0.0, "operand unchanged")
    ctx.count("products", max(1, int(np.prod(s))))
    ctx.seen("unary", s, str(dt))


def apply(ctx, rng):
    dt = rots.pick_dtype(rng)
    sa, sb = pair_shapes(rng)
    a = T(rots.fill(rng, rots.one_q, sa, (4,)), dt, rng)
    p = T(rng.standard_normal((*sb, 3)) * rng.choice([1e-3, 1.0, 50.0]), dt, rng)
    so = np.broadcast_shapes(sa, sb)
    P = back(p)
    want = (np.broadcast_to(q2R(back(a)), (*so, 3, 3)) @ np.broadcast_to(P, (*so, 3))[..., None])[..., 0]
    got = pk.quaternion_apply(a, p)
    ctx.expect(got.dtype == dt, "rotated points dtype")
    s = max(1e-30, float(np.abs(P).max())) if P.size else 1
    ctx.close(got, want, 6 * EPS[dt] * s, "apply rotates points")
    ctx.close(pk.quaternion_apply(-a, p), want, 6 * EPS[dt] * s, "apply is blind to the sign")
    ctx.close(pk.quaternion_apply(pk.quaternion_invert(a), got), np.broadcast_to(P, (*so, 3)), 12 * EPS[dt] * s, "applying the inverse undoes it")
    ctx.refused(lambda: pk.quaternion_apply(a, torch.zeros((*sb, int(rng.choice([1, 2, 4]))), dtype=dt)), "apply to points that are not 3-D")
    ctx.count("products", max(1, int(np.prod(so))))
    ctx.seen("apply", sa, sb, str(dt))


def one_pair(rng, ctx):
    """Two unit quaternions: equal, opposite sign, near, just around the closeness threshold, generic, relative half turn."""
    a = rots.one_q(rng)
    k = rng.integers(0, 10)
    if k == 0:
        th = 0.0
        ctx.count("close_pairs")
    elif k == 1:
        th = float(10 ** rng.uniform(-9, -2))
        ctx.count("close_pairs")
    elif k == 2:
        th = float(rng.uniform(0.0203, 0.03) if rng.random() < 0.6 else rng.uniform(0.012, 0.0197))
    elif k == 3:
        th = float(np.pi - (0 if rng.random() < 0.3 else 10 ** rng.uniform(-9, -1)))
        ctx.count("antipodal_pairs")
    elif k == 4:
        th = float(rng.uniform(0.02, 0.2))
    else:
        th = float(rng.uniform(0, np.pi))
    ax = rots.nice_axis(rng)
    b = qmul(np.r_[np.cos(th / 2), np.sin(th / 2) * ax], a)
    if rng.random() < 0.5:
        b = -b
        ctx.count("opposite_sign_pairs")
    return np.concatenate([a, b / np.linalg.norm(b)])


def pairs(ctx, rng, s):
    P = rots.fill(rng, lambda r: one_pair(r, ctx), s, (8,))
    ctx.count("pairs", max(1, int(np.prod(s))))
    return P[..., :4], P[..., 4:]


def rel_angle(A, B):
    """Accurate angle between the rotations, in [0, pi]."""
    A = A / np.linalg.norm(A, axis=-1, keepdims=True)
    B = B / np.linalg.norm(B, axis=-1, keepdims=True)
    d = np.abs((A * B).sum(-1))
    s = np.minimum(np.linalg.norm(A - B, axis=-1), np.linalg.norm(A + B, axis=-1))  # 2 sin(quarter of the angle)
    return np.where(d > 0.5, 4 * np.arcsin(np.clip(s / 2, 0, 1)), 2 * np.arccos(np.clip(d, 0, 1)))


def distance(ctx, rng):
    dt = rots.pick_dtype(rng)
    s = rots.shape(rng)
    A0, B0 = pairs(ctx, rng, s)
    a, b = T(A0, dt, rng), T(B0, dt, rng)
    A, B = back(a), back(b)
    th = rel_angle(A, B)
    d = pk.quaternion_angular_distance(a, b)
    ctx.expect(d.dtype == dt and tuple(d.shape) == tuple(s), "distance dtype and shape", shape=d.shape)
    D = back(d)
    tol = 1e-12 if dt == F64 else 2e-4
    band = 1e-4 if dt == F64 else 2e-4
    far, near = th > 0.02 + band, th < 0.02 - band
    ctx.close(D[far], th[far], tol, "distance is the relative angle")
    ctx.close(D[near], np.zeros(int(near.sum())), 0.0, "distance of close rotations is zero")
    for name, other in (("symmetric", pk.quaternion_angular_distance(b, a)), ("blind to the sign of the first", pk.quaternion_angular_distance(-a, b)),
                        ("blind to the sign of the second", pk.quaternion_angular_distance(a, -b)), ("blind to both signs", pk.quaternion_angular_distance(-a, -b))):
        ctx.close(back(other)[far | near], D[far | near], tol, f"distance is {name}")
    # closeness: of every pair by itself, and of the batch as a whole
    flat = list(zip(a.reshape(-1, 4), b.reshape(-1, 4), th.ravel()))[:6]
    for x, y, t in flat:
        if abs(t - 0.02) <= band:
            continue
        ctx.expect(bool(pk.quaternion_close(x, y)) == (t < 0.02), "closeness test agrees with the distance", angle=t)
        ctx.expect(bool(pk.quaternion_close(-x, y)) == (t < 0.02), "closeness test is blind to the sign", angle=t)
        e = float(10 ** rng.uniform(-5 if dt == F32 else -9, -0.5))
        lim = 2 * np.arcsin(np.sqrt(e))
        if abs(t - lim) > (1e-6 + 1e-3 * lim if dt == F64 else 1e-3 + 0.05 * lim):
            ctx.expect(bool(pk.quaternion_close(x, y, eps=e)) == (t < lim), "closeness test with a given tolerance", angle=t, eps=e)
    if far.any() or near.all():
        ctx.expect(bool(pk.quaternion_close(a, b)) == bool(near.all()), "a batch is close when all its pairs are") if (far | near).all() else None
    ctx.seen("distance", s, str(dt), bool(near.any()), bool(far.any()))


def frac(rng):
    k = rng.integers(0, 6)
    return float((0.0, 1.0, 0.5)[k]) if k < 3 else float(rng.uniform(0, 1)) if k < 5 else float(rng.choice([1e-6, 1 - 1e-6]))


def slerp(ctx, rng):
    dt = rots.pick_dtype(rng)
    s = rots.shape(rng)
    A0, B0 = pairs(ctx, rng, s)
    a, b = T(A0, dt, rng), T(B0, dt, rng)
    keep = a.detach().clone(), b.detach().clone()
    A, B = back(a), back(b)
    th = rel_angle(A, B)
    form = ("number", "scalar", "per_pair", "int")[rng.integers(4)]
    if form == "number":
        t = frac(rng)
        tv = np.broadcast_to(t, s)
    elif form == "int":
        t = int(rng.integers(0, 2))
        tv = np.broadcast_to(float(t), s)
    elif form == "scalar":
        t = torch.tensor(frac(rng), dtype=dt)
        tv = np.broadcast_to(float(t), s)
    else:
        t = T(rots.fill(rng, lambda r: np.array(frac(r)), s, ()), dt)
        tv = back(t)
    r = pk.quaternion_slerp(a, b, t)
    ctx.expect(r.dtype == dt and tuple(r.shape) == (*s, 4), "interpolated dtype and shape", shape=r.shape)
    R = back(r)
    tol = 2e-6 if dt == F64 else 1e-5  # within about 0.003 rad the library interpolates linearly
    near = th < 0.004
    if dt == F64:
        tol = np.where(near, 2e-6, 1e-11)
    ctx.close(np.linalg.norm(R, axis=-1), np.ones(s), tol, "interpolated quaternion is a unit quaternion", th=th, t=tv)
    got_a = rel_angle(R, A) if R.size else np.zeros(s)
    got_b = rel_angle(R, B) if R.size else np.zeros(s)
    # angles near half a turn are known to the square root of the rounding only
    extra = np.where(th > 3.1, 2e-7 if dt == F64 else 2e-3, 0) + (0 if dt == F64 else 2e-3)
    ctx.close(got_a, tv * th, 4 * tol + extra, "fraction of the way from the first", th=th, t=tv)
    ctx.close(got_b, (1 - tv) * th, 4 * tol + extra, "remaining way to the second", th=th, t=tv)
    clear = th < np.pi - 1e-3
    if clear.any():
        B1 = np.where((A * B).sum(-1, keepdims=True) < 0, -B, B)
        h = th / 2
        with np.errstate(divide="ignore", invalid="ignore"):
            w1 = np.where(h < 1e-7, 1 - tv, np.sin((1 - tv) * h) / np.sin(h))
            w2 = np.where(h < 1e-7, tv, np.sin(tv * h) / np.sin(h))
        W = w1[..., None] * A + w2[..., None] * B1
        ctx.close(q2R(R)[clear], q2R(W)[clear], np.broadcast_to(8 * np.asarray(tol) if np.ndim(tol) else 4 * tol, s)[clear][:, None, None], "rotation on the shorter arc", th=th, t=tv)
    e0 = pk.quaternion_slerp(a, b, 0.0)
    e1 = pk.quaternion_slerp(a, b, 1.0)
    ctx.close(q2R(back(e0)), q2R(A), 10 * EPS[dt] * 10, "fraction 0 is the first")
    ctx.close(q2R(back(e1)), q2R(B), 10 * EPS[dt] * 10, "fraction 1 is the second")
    ctx.close(a, keep[0], 0.0, "operands unchanged")
    ctx.close(b, keep[1], 0.0, "operands unchanged")
    ctx.seen("slerp", s, str(dt), form, bool(near.any()), bool((th > 3.1).any()))


FAMILIES = [("products", products), ("unary", unary), ("apply", apply), ("distance", distance), ("slerp", slerp)]
