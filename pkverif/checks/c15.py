"""C15: the Jacobian is the derivative of the end effector pose."""
from ..env import F32, F64, np, npy, pk, torch
from .. import gen
from ..ref import homog, jacobian, serial_robot

ORACLE = "exact derivative of the reference pose (product rule), and finite differences of the library's own poses"
RULE = "distinct (robot shape, tool form, batch size, dtype, entry point) combinations compared with the exact derivative"
CONFIG = {"quick": {"cases": 1200, "min": {"jacobians": 5000}}, "thorough": {"cases": 30000, "seconds": 1400, "min": {"jacobians": 100000}}}


def ref(r, q, tools):
    out = [jacobian(r, x, t) for x, t in zip(q, tools)]
    return np.stack([o[0] for o in out]), np.stack([o[1] for o in out])


def tool_forms(rng, B, dtype):
    """name -> (value given to the library, B reference tool matrices)"""
    big = 10.0 ** rng.uniform(0, 2.5) if rng.random() < 0.15 else 1.0
    p = rng.uniform(-1, 1, 3) * rng.choice([0.0, 1e-3, 1.0, 1.0, 3.0, big])
    P = rng.uniform(-1, 1, (B, 3)) * big
    if rng.random() < 0.2:  # tools that differ little, or along one axis
        P = P[:1] + (rng.standard_normal((B, 3)) * 1e-4 if rng.random() < 0.5 else np.eye(3)[rng.integers(0, 3, B)])
    Tm = gen.transform(rng, none_ok=False)
    Ts = np.stack([gen.transform(rng, none_ok=False, scale=big) for _ in range(B)])
    if rng.random() < 0.1:
        Ts[:] = Ts[0]

    def tt(x):
        return gen.layout(rng, torch.tensor(x, dtype=dtype))

    one = [homog(p=p)] * B
    out = {"none": (None, [np.eye(4)] * B), "pos(3)": (tt(p), one), "pos(1,3)": (tt(p[None]), one), "pos(B,3)": (tt(P), [homog(p=x) for x in P]),
           "tf": (pk.Transform3d(matrix=tt(Tm)), [Tm] * B), "tf(B)": (pk.Transform3d(matrix=tt(Ts)), list(Ts)),
           "list": ([float(x) for x in p], one), "array": (p.copy(), one)}
    if dtype == F64:
        out["tf32"] = (pk.Transform3d(pos=torch.tensor(p.astype(np.float32))), [homog(p=p.astype(np.float32).astype(float))] * B)
    return out


def check(ctx, rng, r, s, dtype, q):
    B = len(q)
    th = gen.layout(rng, torch.tensor(q, dtype=dtype))
    t = 12 * gen.tol(r, q, dtype)
    for form, (loc, tools) in tool_forms(rng, B, dtype).items():
        J, T = ref(r, q, tools)
        tt = t * 5 if form == "tf32" else max(t, 12 * gen.tol(r, q, F32)) if form in ("list", "array") else t
        tt *= 1 + max(np.abs(x[:3, 3]).max() for x in tools) / 3
        kw = dict(tool=form, joints=[f.joint.type for f in r.frames], B=B)
        a = s.jacobian(th, locations=loc)
        ctx.close(a, J, tt, f"Jacobian, tool {form}", **kw)
        b, P = s.jacobian(th, locations=loc, ret_eef_pose=True)
        ctx.close(b, J, tt, f"Jacobian with pose, tool {form}", **kw)
        ctx.close(P, T, tt, f"pose returned with the Jacobian, tool {form}", **kw)
        a, (b, P) = pk_calc(s, th, tool=loc), pk_calc(s, th, tool=loc, ret_eef_pose=True)
        ctx.close(a, J, tt, f"calc_jacobian, tool {form}", **kw)
        ctx.close(b, J, tt, f"calc_jacobian with pose, tool {form}", **kw)
        ctx.close(P, T, tt, f"pose returned by calc_jacobian, tool {form}", **kw)
        ctx.count("jacobians", 4 * B)
        ctx.seen(gen.shape_sig(r), form, B, str(dtype))
    J, T = ref(r, q, [np.eye(4)] * B)
    al = s.forward_kinematics_tensor(th)
    for nm, v in (("jacobian_tensor", s.jacobian_tensor(th)), ("jacobian_tensor+pose", s.jacobian_tensor(th, ret_eef_pose=True)),
                  ("jacobian_tensor given poses", s.jacobian_tensor(th, all_transforms=al)), ("jacobian_tensor given poses+pose", s.jacobian_tensor(th, ret_eef_pose=True, all_transforms=al)),
                  ("calc_jacobian", pk_calc(s, th))):
        if isinstance(v, tuple):
            ctx.close(v[1], T, t, f"pose of {nm}")
            v = v[0]
        ctx.close(v, J, t, f"Jacobian by {nm}")
        ctx.count("jacobians", B)
    # input forms
    for nm, v in (("1d", torch.tensor(q[0], dtype=dtype)), ("list", [float(x) for x in q[0]]), ("array", q[0].copy()), ("dict", {f.joint.name: float(x) for f, x in zip(r.moving, q[0])})):
        ctx.close(s.jacobian(v), J[:1], t, f"Jacobian from {nm}")
    ctx.close(s.jacobian(q.copy()), J, t, "Jacobian from array batch")


def pk_calc(s, th, **kw):
    from pytorch_kinematics import jacobian as jm
    return jm.calc_jacobian(s, th, **kw)


def path(ctx, rng):
    dtype = F64 if rng.random() < 0.75 else F32
    r, s = gen.serial_robot_pair(rng, n=int(rng.integers(2, 11)) if rng.random() < 0.95 else int(rng.integers(12, 50)), dtype=dtype)
    q = gen.configs(rng, r.n, int(rng.choice([1, 2, 3, 4, 6]))).astype(np.float32).astype(float)
    check(ctx, rng, r, s, dtype, q)
    ctx.sample(joints=[f.joint.type for f in r.frames], B=len(q))


def branch(ctx, rng):
    """Serial robots cut out of branched robots at any frame."""
    R = gen.robot(rng, n=int(rng.integers(3, 14)) if rng.random() < 0.95 else int(rng.integers(15, 50)), min_joints=1)
    c = gen.to_chain(R)
    a = R.frames[rng.integers(len(R.frames))]
    below = [f for f in R.frames if a in R.path(f.name) and sum(g.joint.type != "fixed" for g in R.path(f.name)[len(R.path(a.name)):])]
    if not below:
        return
    e = below[rng.integers(len(below))]
    s = pk.SerialChain(c, e.name, a.name)
    r = serial_robot(R, a.name, e.name)
    r.shape = "path"
    check(ctx, rng, r, s, F64, gen.configs(rng, r.n, int(rng.integers(1, 4))))


def differences(ctx, rng):
    """Against central differences of the library's own end pose."""
    r, s = gen.serial_robot_pair(rng, n=int(rng.integers(2, 9)))
    q = gen.configs(rng, r.n, 1)[0]
    p = torch.tensor(rng.uniform(-1, 1, 3))
    J = npy(s.jacobian(torch.tensor(q), locations=p))[0]
    h = 1e-6
    for j in range(r.n):
        T = []
        for sgn in (1, -1):
            d = q.copy()
            d[j] += sgn * h
            T.append(npy(s.forward_kinematics(torch.tensor(d[None])).compose(pk.Transform3d(pos=p, dtype=F64)).get_matrix())[0])
        v = (T[0][:3, 3] - T[1][:3, 3]) / (2 * h)
        W = (T[0][:3, :3] - T[1][:3, :3]) / (2 * h) @ ((T[0][:3, :3] + T[1][:3, :3]) / 2).T
        w = 0.5 * np.array([W[2, 1] - W[1, 2], W[0, 2] - W[2, 0], W[1, 0] - W[0, 1]])
        ctx.close(J[:, j], np.r_[v, w], 1e-7 * r.scale(q), "Jacobian against differences of the pose")
    ctx.count("jacobians")
    ctx.seen("fd", gen.shape_sig(r))


def long(ctx, rng):
    n = int(rng.choice([20, 40]))
    r, s = gen.serial_robot_pair(rng, n=n, offset_scale=0.3)
    q = gen.configs(rng, r.n, 2)
    J, T = ref(r, q, [np.eye(4)] * 2)
    ctx.close(s.jacobian(torch.tensor(q)), J, 12 * gen.tol(r, q), "Jacobian of a long robot")
    big = np.repeat(q, 130, 0)
    ctx.close(s.jacobian(torch.tensor(big)), np.repeat(J, 130, 0), 12 * gen.tol(r, q), "Jacobian of a large batch")
    ctx.count("jacobians", 4)
    ctx.seen("long", n, gen.shape_sig(r))


FAMILIES = [("path", path), ("branch", branch), ("path", path), ("differences", differences), ("path", path), ("branch", branch), ("differences", differences), ("long", long)]
