"""C25: rotation conversions have correct and finite gradients."""
import warnings

from ..env import F32, F64, np, pk, torch
from .. import gen, ops, rots
from ..rots import T, aa2R, back, q2R

ORACLE = "central differences along the manifold of rotations, element by element; finiteness at special points"
RULE = "distinct (conversion, dtype, special points in the batch, batch size) situations"
CONFIG = {"quick": {"cases": 14000, "min": {"gradients": 10000, "special_points": 3000}},
          "thorough": {"cases": 1000000, "seconds": 700}}
H = 1e-5


# ---- inputs: (values (n, ...), directions (n, ...), retract(x, d, h), special flags)
def free(one, item):
    def make(rng, n):
        x, sp = [], []
        for _ in range(n):
            v, s = one(rng)
            x.append(v)
            sp.append(s)
        x = np.stack([np.asarray(v) for v in x]).reshape(n, *item)
        return x, rng.standard_normal(x.shape), lambda x, d, h: x + h * d, np.array(sp)
    return make


def vec(*item, lo=0.0, hi=0.0):
    return free(lambda r: (r.standard_normal(item), False), item)


def rotvec(rng, n):
    def one(r):
        k = r.integers(0, 6)
        if k == 0:
            return np.zeros(3), True
        if k == 1:
            return gen.unit(r) * 10 ** r.uniform(-12, -3), True
        if k == 2:
            return rots.nice_axis(r) * np.pi, True
        return gen.unit(r) * r.uniform(0.1, 6), False
    return free(one, (3,))(rng, n)


def quats(away_from_minus_one):
    def make(rng, n):
        x, sp = [], []
        for _ in range(n):
            k = rng.integers(0, 6)
            s = True
            if k == 0:
                q = np.array([1.0, 0, 0, 0])
            elif k == 1:
                a = 10 ** rng.uniform(-12, -2)
                q = np.r_[np.cos(a), np.sin(a) * gen.unit(rng)]
            elif k == 2:
                q = np.r_[0.0, rots.nice_axis(rng)]
            elif k == 3 and not away_from_minus_one:
                q = np.array([-1.0, 0, 0, 0])
            else:
                s = False
                q = rng.standard_normal(4)
                q /= np.linalg.norm(q)
                if away_from_minus_one and np.linalg.norm(q[1:]) < 0.1:
                    q = np.array([0.5, 0.5, 0.5, 0.5])
            x.append(q)
            sp.append(s)
        x = np.stack(x)
        d = rng.standard_normal((n, 4))
        d -= (d * x).sum(-1, keepdims=True) * x
        return x, d, lambda x, d, h: x * np.cos(h * np.linalg.norm(d, axis=-1, keepdims=True)) + d * h * np.sinc(h * np.linalg.norm(d, axis=-1, keepdims=True) / np.pi), np.array(sp)
    return make


def units(rng, n):
    x = np.stack([rots.nice_axis(rng) for _ in range(n)])
    d = rng.standard_normal((n, 3))
    d -= (d * x).sum(-1, keepdims=True) * x

    def retract(x, d, h):
        y = x + h * d
        return y / np.linalg.norm(y, axis=-1, keepdims=True)
    return x, d, retract, np.zeros(n, bool)


def mats(kind):
    def make(rng, n):
        x, sp = [], []
        for _ in range(n):
            k = rng.integers(0, 6) if kind == "all" else 9
            s = True
            if k == 0:
                R = np.eye(3)
            elif k == 1:
                R = aa2R(gen.unit(rng) * 10 ** rng.uniform(-12, -2))
            elif k == 2:
                u = rots.nice_axis(rng)
                R = 2 * np.outer(u, u) - np.eye(3)
            elif k == 3:
                R = rots.one_R(rng)
            else:
                s = False
                R = aa2R(gen.unit(rng) * rng.uniform(0.1, 2.9))
            x.append(R)
            sp.append(s)
        x = np.stack(x)
        d = rng.standard_normal((n, 3))
        return x, d, lambda x, d, h: aa2R(h * d) @ x, np.array(sp)
    return make


def mats_tangent(x, d):
    return rots.hats(d) @ x


def rigid(rng, n):
    R, d, ret, sp = mats("all")(rng, n)
    x = np.zeros((n, 4, 4))
    x[:, :3, :3] = R
    x[:, :3, 3] = rng.standard_normal((n, 3))
    x[:, 3, 3] = 1
    d = np.concatenate([d, rng.standard_normal((n, 3))], -1)

    def retract(x, d, h):
        y = x.copy()
        y[:, :3, :3] = aa2R(h * d[:, :3]) @ x[:, :3, :3]
        y[:, :3, 3] += h * d[:, 3:]
        return y
    return x, d, retract, sp


def six(rng, n):
    x = rng.standard_normal((n, 6))
    bad = np.linalg.norm(np.cross(x[:, :3], x[:, 3:]), axis=-1) < 0.3
    x[bad] = [1.0, 0.3, 0, 0, 1, 0.2]
    return x, rng.standard_normal((n, 6)), lambda x, d, h: x + h * d, np.zeros(n, bool)


def nine(rng, n):
    x, d, r, s = six(rng, n)
    return np.concatenate([x, rng.standard_normal((n, 3))], -1), rng.standard_normal((n, 9)), r, s


def two(f, g):
    """A pair of inputs, packed as a list."""
    return [f, g]


def tangent(x, d, retract, h=1e-6):
    return (retract(x, d, h) - retract(x, d, -h)) / (2 * h)


def _silent(f):
    def g(*a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*a)
    return g


def _cat(f):
    """Functions with several results: flatten and join."""
    def g(*a):
        r = f(*a)
        return torch.cat([t.reshape(t.shape[0], -1) for t in r], -1)
    return g


def table(rng):
    conv = ops.CONVENTIONS[rng.integers(12)]
    seq = "sr"[rng.integers(2)] + ops.CONVENTIONS[rng.integers(12)].lower()
    tt = float(rng.uniform(0.05, 0.95))
    RC = pk.transforms.rotation_conversions
    return [
        ("quaternion_to_matrix", [quats(False)], pk.quaternion_to_matrix),
        ("matrix_to_quaternion", [mats("all")], pk.matrix_to_quaternion),
        ("matrix_to_quaternion", [mats("all")], pk.matrix_to_quaternion),
        ("matrix_to_axis_angle", [mats("all")], pk.matrix_to_axis_angle),
        ("axis_angle_to_quaternion", [rotvec], pk.axis_angle_to_quaternion),
        ("axis_angle_to_matrix", [rotvec], _silent(RC.axis_angle_to_matrix)),
        ("quaternion_to_axis_angle", [quats(True)], pk.quaternion_to_axis_angle),
        ("axis_angle->quaternion->axis_angle", [lambda rng, n: _short(rotvec(rng, n))], lambda v: pk.quaternion_to_axis_angle(pk.axis_angle_to_quaternion(v))),
        ("axis_and_angle_to_matrix_33", [units, vec()], pk.axis_and_angle_to_matrix_33),
        ("axis_and_angle_to_matrix_44", [units, vec()], RC.axis_and_angle_to_matrix_44),
        ("axis_and_d_to_pris_matrix", [units, vec()], pk.axis_and_d_to_pris_matrix),
        ("rotation_6d_to_matrix", [six], pk.rotation_6d_to_matrix),
        ("matrix_to_rotation_6d", [mats("all")], pk.matrix_to_rotation_6d),
        ("se3_9d_to_matrix44", [nine], pk.se3_9d_to_matrix44),
        ("matrix44_to_se3_9d", [rigid], pk.matrix44_to_se3_9d),
        ("pos_rot_to_matrix", [vec(3), quats(False)], pk.pos_rot_to_matrix),
        ("matrix_to_pos_rot", [rigid], _cat(pk.matrix_to_pos_rot)),
        ("wxyz_to_xyzw", [quats(False)], pk.wxyz_to_xyzw),
        ("xyzw_to_wxyz", [quats(False)], pk.xyzw_to_wxyz),
        ("euler_angles_to_matrix:" + conv, [vec(3)], lambda x: pk.euler_angles_to_matrix(x, conv)),
        ("matrix_to_euler_angles:" + conv, [_no_lock(conv)], lambda x: pk.matrix_to_euler_angles(x, conv)),
        ("quaternion_from_euler:" + seq, [vec(3)], lambda x: pk.quaternion_from_euler(x, seq)),
        ("so3_exp_map", [_off_kink(rotvec)], pk.so3_exp_map),
        ("so3_log_map", [mats("generic")], pk.so3_log_map),
        ("so3_rotation_angle", [mats("generic")], pk.so3_rotation_angle),
        ("hat", [vec(3)], pk.transforms.so3.hat),
        ("quaternion_multiply", [quats(False), quats(False)], pk.quaternion_multiply),
        ("quaternion_raw_multiply", [quats(False), quats(False)], pk.quaternion_raw_multiply),
        ("quaternion_invert", [quats(False)], pk.quaternion_invert),
        ("quaternion_apply", [quats(False), vec(3)], pk.quaternion_apply),
        ("standardize_quaternion", [quats(False)], pk.standardize_quaternion),
        ("quaternion_slerp", [quats(False), quats(False)], lambda a, b: pk.quaternion_slerp(a, b, tt)),
        ("Transform3d(rot,pos)", [quats(False), vec(3)], lambda q, p: pk.Transform3d(rot=q, pos=p, dtype=q.dtype).get_matrix()),
        ("Rotate", [quats(False)], lambda q: pk.Rotate(q, dtype=q.dtype).get_matrix()),
    ]


def _short(r):
    x, d, ret, sp = r
    n = np.linalg.norm(x, axis=-1, keepdims=True)
    return np.where(n > 3, x * 0.4, x), d, ret, sp


def _off_kink(make):
    def f(rng, n):
        x, d, ret, sp = make(rng, n)
        m = np.linalg.norm(x, axis=-1, keepdims=True)
        return np.where(np.abs(m - 0.01) < 1e-3, x * 2, x), d, ret, sp
    return f


def _no_lock(conv):
    def make(rng, n):
        a = rng.uniform(-2.9, 2.9, (n, 3))
        a[:, 1] = rng.uniform(0.2, 2.9, n) if conv[0] == conv[2] else rng.uniform(-1.3, 1.3, n)
        e = {"X": [1.0, 0, 0], "Y": [0, 1.0, 0], "Z": [0, 0, 1.0]}
        x = aa2R(a[:, :1] * e[conv[0]]) @ aa2R(a[:, 1:2] * e[conv[1]]) @ aa2R(a[:, 2:] * e[conv[2]])
        return x, rng.standard_normal((n, 3)), lambda x, d, h: aa2R(h * d) @ x, np.zeros(n, bool)
    return make


def run(ctx, rng, name, makers, f):
    n = int(rng.choice([1, 2, 3, 5, 8]))
    dt = F64 if rng.random() < 0.8 else F32
    ins = [m(rng, n) for m in makers]
    xs = [T(i[0], dt).requires_grad_(True) for i in ins]
    y = f(*xs)
    W = T(rng.standard_normal(tuple(y.shape)), dt)
    gs = torch.autograd.grad((W * y).sum(), xs, allow_unused=False)
    for g in gs:
        ctx.expect(bool(torch.isfinite(g).all()), f"{name}: gradient is not finite", x=[i[0] for i in ins], g=[back(g) for g in gs])
        ctx.expect(g.dtype == dt, f"{name}: gradient dtype")
    nsp = int(np.logical_or.reduce([i[3] for i in ins]).sum())
    ctx.count("gradients", n)
    ctx.count("special_points", nsp)
    ctx.seen(name, str(dt), nsp > 0, nsp < n, n)
    # the derivative along one direction on the manifold, per element, from differences of the forward function
    ana = sum((back(g) * tangent(i[0], i[1], i[2])).reshape(n, -1).sum(-1) for g, i in zip(gs, ins))
    with torch.no_grad():
        yp = back(f(*[T(i[2](i[0], i[1], H), F64) for i in ins]))
        ym = back(f(*[T(i[2](i[0], i[1], -H), F64) for i in ins]))
        y0 = back(f(*[T(i[0], F64) for i in ins]))
    Wb = back(W)
    if name.startswith(("matrix_to_quaternion", "quaternion_multiply", "matrix_to_pos_rot", "standardize")):  # the sign of a quaternion is free
        q = slice(None) if name != "matrix_to_pos_rot" else slice(3, 7)
        sgn0 = np.sign((back(y)[..., q] * y0[..., q]).sum(-1, keepdims=True))  # float32 may have picked the other sign
        for z in (yp, ym):
            s = np.sign((z[..., q] * y0[..., q]).sum(-1, keepdims=True))
            z[..., q] *= s * sgn0
    diff = (yp - ym).reshape(n, -1)
    jump = (np.abs(diff).max(-1) > 1e-2) | (np.abs((yp + ym) / 2 - back(y)).reshape(n, -1).max(-1) > 1e-2)
    if jump.any():
        ctx.count("jumps_not_compared", int(jump.sum()))
    num = (Wb.reshape(n, -1) * diff).sum(-1) / (2 * H)
    scale = 1 + np.abs(ana) + np.abs(Wb).reshape(n, -1).sum(-1)
    tol = (2e-7 if dt == F64 else 2e-3) * scale * (10 if name.startswith("so3") else 1)
    ok = ~jump
    if name == "quaternion_slerp":  # where it changes from the arc to the straight line for close pairs it has a (tiny) kink
        kink = np.abs(yp + ym - 2 * y0).reshape(n, -1).max(-1) > 1e-4 * H
        ctx.count("kinks_not_compared", int((kink & ~jump).sum()))
        ok = ok & ~kink
    if dt == F32 and name in ("matrix_to_axis_angle", "quaternion_to_axis_angle"):
        ok = ok & ~np.logical_or.reduce([i[3] for i in ins])  # rounding of the input alone changes these derivatives
    ctx.close(ana[ok], num[ok], tol[ok], f"{name}: backpropagated gradient is the derivative", x=[i[0] for i in ins], elements=np.nonzero(ok)[0])
    # the gradient of an element is the same without the others
    if n > 1:
        k = int(rng.integers(n))
        x1 = [x.detach()[k:k + 1].clone().requires_grad_(True) for x in xs]
        g1 = torch.autograd.grad((W[k:k + 1] * f(*x1)).sum(), x1)
        for a, b in zip(g1, gs):
            m = 1 + float(np.abs(back(b)[k]).max())
            ctx.close(a[0], back(b)[k], (1e-11 if dt == F64 else 1e-4) * m, f"{name}: gradient of one element alone", x=[i[0] for i in ins])


def conversions(ctx, rng):
    tb = table(rng)
    for i in rng.permutation(len(tb))[:2]:
        run(ctx, rng, *tb[i])


def identity_derivative(ctx, rng):
    """Known derivatives at the special points themselves."""
    dt = rots.pick_dtype(rng)
    w = rng.standard_normal(3)
    eps = 1e-10 if dt == F64 else 1e-5
    Z = torch.tensor(w, dtype=dt)
    v = torch.zeros(3, dtype=dt, requires_grad=True)
    g = torch.autograd.grad((pk.axis_angle_to_quaternion(v)[1:] * Z).sum(), v)[0]
    ctx.close(g, 0.5 * w, eps, "axis-angle to quaternion at zero: half the vector")
    q = torch.tensor([1.0, 0, 0, 0], dtype=dt, requires_grad=True)
    g = torch.autograd.grad((pk.quaternion_to_axis_angle(q) * Z).sum(), q)[0]
    ctx.close(g[1:], 2 * w, eps, "quaternion to axis-angle at identity: twice the vector")
    M = torch.eye(3, dtype=dt, requires_grad=True)
    g = torch.autograd.grad((pk.matrix_to_quaternion(M)[1:] * Z).sum(), M)[0]
    ctx.expect(bool(torch.isfinite(g).all()), "matrix to quaternion at identity: finite")
    for k, e in enumerate(np.eye(3)):
        ctx.close((back(g) * rots.hats(e)).sum(), 0.5 * w[k], eps, "matrix to quaternion at identity: half the vector")
    M = torch.eye(3, dtype=dt, requires_grad=True)
    g = torch.autograd.grad((pk.matrix_to_axis_angle(M) * Z).sum(), M)[0]
    ctx.expect(bool(torch.isfinite(g).all()), "matrix to axis-angle at identity: finite")
    for k, e in enumerate(np.eye(3)):
        ctx.close((back(g) * rots.hats(e)).sum(), w[k], eps, "matrix to axis-angle at identity: the vector")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = torch.zeros(3, dtype=dt, requires_grad=True)
        for name, f in (("axis_angle_to_matrix", pk.transforms.rotation_conversions.axis_angle_to_matrix), ("so3_exp_map", lambda x: pk.so3_exp_map(x[None])[0])):
            W = torch.tensor(rng.standard_normal((3, 3)), dtype=dt)
            g = torch.autograd.grad((f(v) * W).sum(), v)[0]
            want = np.array([(back(W) * rots.hats(e)).sum() for e in np.eye(3)])
            ctx.close(g, want, (eps if name[0] == "a" else 2e-3) * 10, f"{name} at zero: the cross product matrix")
    ctx.count("special_points", 6)
    ctx.count("gradients", 6)
    ctx.seen("identity_derivative", str(dt))


def so3_special(ctx, rng):
    """so3 maps at identity and half turns: finite gradients."""
    dt = rots.pick_dtype(rng)
    R, _, _, sp = mats("all")(rng, int(rng.integers(1, 5)))
    for name, f in (("so3_rotation_angle", pk.so3_rotation_angle), ("so3_log_map", pk.so3_log_map), ("so3_rotation_angle:cos", lambda m: pk.so3_rotation_angle(m, cos_angle=True))):
        x = T(R, dt).requires_grad_(True)
        try:
            y = f(x)
        except (ValueError, RuntimeError):  # near half turns the logarithm's scaled skew part may fail the library's own symmetry check in float32
            ctx.count("refused_near_half_turn")
            continue
        g = torch.autograd.grad((y * T(rng.standard_normal(tuple(y.shape)), dt)).sum(), x)[0]
        ctx.expect(bool(torch.isfinite(g).all()), f"{name}: gradient is not finite", R=R)
        ctx.count("special_points", int(sp.sum()))
    ctx.seen("so3_special", str(dt), len(R))


def through(ctx, rng):
    """Second use: optimising through a chain of conversions keeps gradients finite from special starts."""
    dt = rots.pick_dtype(rng)
    n = int(rng.integers(1, 4))
    start = rng.choice(["zero", "identity", "half"])
    tgt = T(rots.fill(rng, rots.one_R, (n,), (3, 3)), dt)
    if start == "zero":
        x = torch.zeros(n, 3, dtype=dt)
        to = lambda v: pk.quaternion_to_matrix(pk.axis_angle_to_quaternion(v))  # noqa: E731
    elif start == "identity":
        x = torch.tensor([[1.0, 0, 0, 0]] * n, dtype=dt)
        to = lambda q: pk.axis_and_angle_to_matrix_33(torch.tensor([[0, 0, 1.0]], dtype=dt).expand(n, 3), pk.quaternion_to_axis_angle(q)[:, 2])  # noqa: E731
    else:
        x = T(np.stack([np.diag([1.0, -1, -1])[np.ix_(p, p)] for p in [rng.permutation(3) for _ in range(n)]]), dt)
        to = lambda m: pk.quaternion_to_matrix(pk.matrix_to_quaternion(m))  # noqa: E731
    x.requires_grad_(True)
    for _ in range(3):
        loss = ((to(x) - tgt) ** 2).sum()
        g = torch.autograd.grad(loss, x)[0]
        ctx.expect(bool(torch.isfinite(g).all()), f"gradient while optimising from {start}")
        x = (x - 0.02 * g).detach().requires_grad_(True)
    ctx.count("special_points", 1)
    ctx.seen("through", str(start), n, str(dt))


FAMILIES = [("conversions", conversions), ("conversions2", conversions), ("identity_derivative", identity_derivative), ("so3_special", so3_special), ("through", through)]
