"""C23: rotation representations convert to one another without changing the rotation."""
import warnings

from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..rots import EPS, T, back

ORACLE = "rotation matrices computed independently in float64 from the values given to the library"
RULE = "distinct (conversion, batch shape, dtype, special values present) situations"
CONFIG = {"quick": {"cases": 32000, "min": {"conversions": 4000, "special_elements": 8000}},
          "thorough": {"cases": 1000000, "seconds": 700}}


def special(R):
    """Kinds of special rotations present in a batch."""
    a = rots.angles(R).ravel()
    k = set()
    k |= {"id"} if (a == 0).any() else set()
    k |= {"tiny"} if ((a > 0) & (a < 1e-4)).any() else set()
    k |= {"half"} if (a > np.pi - 1e-4).any() else set()
    return tuple(sorted(k)), int(((a < 1e-4) | (a > np.pi - 1e-4)).sum())


def note(ctx, name, shp, dtype, R):
    k, n = special(R)
    ctx.count("conversions")
    ctx.count("special_elements", n)
    ctx.seen(name, shp, str(dtype), k)


def same(ctx, got, want, dtype, msg, k=1.0, **d):
    ctx.expect(got.dtype == dtype, f"{msg}: dtype {got.dtype} instead of {dtype}")
    ctx.close(got, want, k * EPS[dtype], msg, **d)


def unit_q(ctx, q, shp, dtype, msg):
    ctx.expect(tuple(q.shape) == (*shp, 4), f"{msg}: shape {tuple(q.shape)}")
    ctx.expect(q.dtype == dtype, f"{msg}: dtype {q.dtype}")
    n = np.linalg.norm(back(q), axis=-1)
    ctx.close(n, np.ones(shp), 2 * EPS[dtype], f"{msg}: unit norm")


def from_matrix(ctx, rng):
    shp, dt = rots.shape(rng), rots.pick_dtype(rng)
    A = rots.fill(rng, rots.one_R, shp, (3, 3))
    m = T(A, dt, rng)
    keep = m.detach().clone()
    R = back(m)
    kk = 8.0
    q = pk.matrix_to_quaternion(m)
    unit_q(ctx, q, shp, dt, "quaternion of a matrix")
    ctx.close(rots.q2R(back(q)), R, kk * EPS[dt], "matrix to quaternion", R=R)
    v = pk.matrix_to_axis_angle(m)
    ctx.expect(tuple(v.shape) == (*shp, 3) and v.dtype == dt, "axis-angle shape and dtype")
    ctx.close(rots.aa2R(back(v)), R, kk * EPS[dt], "matrix to axis-angle", R=R)
    if v.numel():
        ctx.expect(float(np.linalg.norm(back(v), axis=-1).max()) <= 2 * np.pi + 1e-5, "angle of at most a whole turn")
    d6 = pk.matrix_to_rotation_6d(m)
    ctx.expect(tuple(d6.shape) == (*shp, 6), "6d shape")
    same(ctx, d6.reshape(*shp, 2, 3), R[..., :2, :], dt, "6d is the first two rows", 0.001)
    same(ctx, pk.rotation_6d_to_matrix(d6), R, dt, "6d there and back", kk)
    same(ctx, pk.quaternion_to_matrix(q), R, dt, "quaternion there and back", kk, R=R)
    same(ctx, pk.quaternion_to_matrix(pk.axis_angle_to_quaternion(v)), R, dt, "axis-angle there and back", kk, R=R)
    ctx.close(m, keep, 0.0, "input matrices unchanged")
    note(ctx, "from_matrix", shp, dt, R)


def from_quaternion(ctx, rng):
    shp, dt = rots.shape(rng), rots.pick_dtype(rng)
    t = T(rots.fill(rng, rots.one_q, shp, (4,)), dt, rng)
    keep = t.detach().clone()
    q = back(t)
    R = rots.q2R(q)
    m = pk.quaternion_to_matrix(t)
    same(ctx, m, R, dt, "quaternion to matrix", 4, q=q)
    v = pk.quaternion_to_axis_angle(t)
    ctx.expect(tuple(v.shape) == (*shp, 3) and v.dtype == dt, "axis-angle shape and dtype")
    ctx.close(rots.aa2R(back(v)), R, 8 * EPS[dt], "quaternion to axis-angle", q=q)
    q2 = pk.matrix_to_quaternion(m)
    unit_q(ctx, q2, shp, dt, "quaternion of the matrix of a quaternion")
    ctx.close(rots.q2R(back(q2)), R, 8 * EPS[dt], "quaternion -> matrix -> quaternion", q=q)
    q3 = pk.axis_angle_to_quaternion(v)
    unit_q(ctx, q3, shp, dt, "quaternion of the axis-angle of a quaternion")
    ctx.close(rots.q2R(back(q3)), R, 8 * EPS[dt], "quaternion -> axis-angle -> quaternion", q=q)
    x = pk.wxyz_to_xyzw(t)
    same(ctx, x, np.concatenate([q[..., 1:], q[..., :1]], -1), dt, "real part last", 0.001)
    same(ctx, pk.xyzw_to_wxyz(x), q, dt, "real part last and back", 0.001)
    same(ctx, pk.xyzw_to_wxyz(t), np.concatenate([q[..., 3:], q[..., :3]], -1), dt, "real part first", 0.001)
    ctx.close(t, keep, 0.0, "input quaternions unchanged")
    note(ctx, "from_quaternion", shp, dt, R)


def from_axis_angle(ctx, rng):
    shp, dt = rots.shape(rng), rots.pick_dtype(rng)
    t = T(rots.fill(rng, rots.one_aa, shp, (3,)), dt, rng)
    keep = t.detach().clone()
    v = back(t)
    R = rots.aa2R(v)
    k = 8 * (1 + (np.abs(v).max() if v.size else 0))
    q = pk.axis_angle_to_quaternion(t)
    unit_q(ctx, q, shp, dt, "quaternion of an axis-angle vector")
    ctx.close(rots.q2R(back(q)), R, k * EPS[dt], "axis-angle to quaternion", v=v)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = pk.transforms.rotation_conversions.axis_angle_to_matrix(t)
    same(ctx, m, R, dt, "axis-angle to matrix", k, v=v)
    # vectors shorter than half a turn come back as they were
    w = pk.quaternion_to_axis_angle(q)
    n = np.linalg.norm(v, axis=-1)
    short = n < np.pi - 1e-3
    if short.any():
        ctx.close(back(w)[short], v[short], 10 * EPS[dt], "axis-angle vector there and back", v=v[short])
        # a tiny rotation keeps its axis and size, not just its matrix
        tiny = short & (n > 0) & (n < 1e-2)
        if tiny.any():
            rel = np.linalg.norm(back(w)[tiny] - v[tiny], axis=-1) / n[tiny]
            ctx.close(rel, np.zeros_like(rel), 1e-6 if dt == F32 else 1e-11, "relative size of tiny rotations", v=v[tiny])
            ctx.count("tiny_relative", int(tiny.sum()))
    ctx.close(t, keep, 0.0, "input vectors unchanged")
    note(ctx, "from_axis_angle", shp, dt, R)


def axis_and_angle(ctx, rng):
    shp, dt = rots.shape(rng), rots.pick_dtype(rng)
    A = rots.fill(rng, rots.nice_axis, shp, (3,))
    th = rots.fill(rng, lambda r: np.array(rots.special_angle(r) * r.choice([-1, 1]) + (r.integers(-3, 4) * 2 * np.pi if r.random() < 0.3 else 0)), shp, ())
    a, t = T(A, dt, rng), T(th, dt, rng)
    R = rots.axis_angle2R(back(a), back(t))
    f44 = pk.transforms.rotation_conversions.axis_and_angle_to_matrix_44
    same(ctx, pk.axis_and_angle_to_matrix_33(a, t), R, dt, "axis and angle to 3x3", 6)
    want = np.zeros((*shp, 4, 4))
    want[..., :3, :3] = R
    want[..., 3, 3] = 1
    same(ctx, f44(a, t), want, dt, "axis and angle to 4x4", 6)
    d = T(rots.fill(rng, lambda r: np.array(r.choice([0.0, 1.0, 1e-6, 50.0]) * r.standard_normal()), shp, ()), dt)
    ax = T(rots.fill(rng, lambda r: rots.nice_axis(r) * (1 if r.random() < 0.6 else r.uniform(0.1, 4)), shp, (3,)), dt)
    want = np.zeros((*shp, 4, 4))
    want[..., range(4), range(4)] = 1
    want[..., :3, 3] = back(ax) * back(d)[..., None]
    same(ctx, pk.axis_and_d_to_pris_matrix(ax, d), want, dt, "axis and distance", 0.5 * (1 + (np.abs(want).max() if want.size else 0)))
    # composition about one axis adds the angles
    if np.prod(shp):
        t2 = T(rots.fill(rng, lambda r: np.array(r.uniform(-3, 3)), shp, ()), dt)
        both = pk.axis_and_angle_to_matrix_33(a, t) @ pk.axis_and_angle_to_matrix_33(a, t2)
        same(ctx, both, rots.axis_angle2R(back(a), back(t) + back(t2)), dt, "angles about one axis add", 20)
        ctx.close(rots.aa2R(back(pk.matrix_to_axis_angle(pk.axis_and_angle_to_matrix_33(a, t)))), R, 12 * EPS[dt], "axis and angle -> matrix -> axis-angle")
    note(ctx, "axis_and_angle", shp, dt, R)


def six(ctx, rng):
    """Arbitrary six-number and nine-number representations: Gram-Schmidt of the two rows."""
    shp, dt = rots.shape(rng), rots.pick_dtype(rng)

    def one(r):
        while True:
            x = r.standard_normal(6)
            k = r.integers(0, 4)
            if k == 0:
                x = np.round(x)
            elif k == 1:
                x = x * 10 ** r.uniform(-3, 3)
            elif k == 2:
                x[3:] = x[:3] * r.uniform(-2, 2) + 0.3 * x[3:]
            a, b = x[:3], x[3:]
            if np.linalg.norm(a) > 1e-6 and np.linalg.norm(b) > 1e-6 and np.linalg.norm(np.cross(a, b)) > 0.05 * np.linalg.norm(a) * np.linalg.norm(b):
                return x

    t = T(rots.fill(rng, one, shp, (6,)), dt, rng)
    x = back(t)
    if np.prod(shp):
        a, b = x[..., :3], x[..., 3:]
        r1 = a / np.linalg.norm(a, axis=-1, keepdims=True)
        r2 = b - (r1 * b).sum(-1, keepdims=True) * r1
        r2 = r2 / np.linalg.norm(r2, axis=-1, keepdims=True)
        R = np.stack([r1, r2, np.cross(r1, r2)], -2)
    else:
        R = np.zeros((*shp, 3, 3))
    m = pk.rotation_6d_to_matrix(t)
    same(ctx, m, R, dt, "6d to matrix", 60)
    same(ctx, pk.rotation_6d_to_matrix(pk.matrix_to_rotation_6d(m)), R, dt, "6d to matrix and back", 60)
    p = T(rng.standard_normal((*shp, 3)) * rng.choice([1, 100]), dt)
    s9 = torch.cat([t.detach(), p], -1)
    H = pk.se3_9d_to_matrix44(s9)
    want = np.zeros((*shp, 4, 4))
    want[..., :3, :3] = R
    want[..., :3, 3] = back(p)
    want[..., 3, 3] = 1
    same(ctx, H, want, dt, "9d to matrix", 60)
    o = pk.matrix44_to_se3_9d(H)
    ctx.expect(tuple(o.shape) == (*shp, 9) and o.dtype == dt, "9d shape and dtype")
    same(ctx, o[..., 6:], back(p), dt, "9d position last", 0.001)
    same(ctx, pk.se3_9d_to_matrix44(o), want, dt, "9d there and back", 60)
    note(ctx, "six", shp, dt, R)


def pos_rot(ctx, rng):
    shp, dt = rots.shape(rng), rots.pick_dtype(rng)
    p = T(rng.standard_normal((*shp, 3)) * rng.choice([1.0, 100.0]), dt, rng)
    q = T(rots.fill(rng, rots.one_q, shp, (4,)), dt, rng)
    R = rots.q2R(np.concatenate([back(q)[..., 3:], back(q)[..., :3]], -1))
    want = np.zeros((*shp, 4, 4))
    want[..., :3, :3] = R
    want[..., :3, 3] = back(p)
    want[..., 3, 3] = 1
    m = pk.pos_rot_to_matrix(p, q)
    same(ctx, m, want, dt, "position and rotation (real part last) to matrix", 4)
    p2, q2 = pk.matrix_to_pos_rot(m)
    same(ctx, p2, back(p), dt, "position of a matrix", 0.001)
    unit_q(ctx, q2, shp, dt, "rotation of a matrix")
    ctx.close(rots.q2R(np.concatenate([back(q2)[..., 3:], back(q2)[..., :3]], -1)), R, 8 * EPS[dt], "rotation of a matrix (real part last)")
    same(ctx, pk.pos_rot_to_matrix(p2, q2), want, dt, "position and rotation there and back", 8)
    note(ctx, "pos_rot", shp, dt, R)


def noisy(ctx, rng):
    """Matrices that are rotations only up to rounding (products of many) still give the rotation, finite and unit."""
    dt = F32 if rng.random() < 0.7 else F64
    shp = rots.shape(rng, empty=False)
    m = T(rots.fill(rng, rots.one_R, shp, (3, 3)), dt)
    for _ in range(int(rng.integers(1, 12))):
        m = m @ T(rots.fill(rng, rots.one_R, shp, (3, 3)), dt)
    if rng.random() < 0.5:  # a product that is nearly the identity or a half turn
        s = T(rots.fill(rng, lambda r: rots.axis_angle2R(gen.unit(r), np.pi) if r.random() < 0.5 else np.eye(3), shp, (3, 3)), dt)
        m = m @ m.transpose(-1, -2) @ s
    R = back(m)
    q = pk.matrix_to_quaternion(m)
    n = np.linalg.norm(back(q), axis=-1)
    ctx.close(n, np.ones(shp), 60 * EPS[dt], "unit quaternion of a rounded rotation")
    ctx.close(rots.q2R(back(q)), R, 120 * EPS[dt], "quaternion of a rounded rotation")
    v = pk.matrix_to_axis_angle(m)
    ctx.close(rots.aa2R(back(v)), R, 120 * EPS[dt], "axis-angle of a rounded rotation")
    note(ctx, "noisy", shp, dt, R)


def refusals(ctx, rng):
    for shp in [(4, 4), (3, 4), (4, 3), (2, 3, 2), (5, 9), (2, 2)]:
        ctx.refused(lambda: pk.matrix_to_quaternion(torch.zeros(shp, dtype=F64)), f"matrix_to_quaternion of shape {shp}")
    ctx.seen("refusals")


FAMILIES = [("from_matrix", from_matrix), ("from_quaternion", from_quaternion), ("from_axis_angle", from_axis_angle), ("axis_and_angle", axis_and_angle),
            ("six", six), ("pos_rot", pos_rot), ("noisy", noisy), ("refusals", refusals)]
