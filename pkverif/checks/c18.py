"""C18: compiled evaluation equals eager evaluation."""
import logging
import warnings

from .. import gen, ops, rots
from ..env import F32, F64, np, pk, torch
from ..rots import T, back

ORACLE = "the same call run directly, and the independent float64 model for poses"
RULE = "distinct (entry point, compiler backend and options, robot shapes, batch size sequence, gradient use, dtype) situations"
CONFIG = {"quick": {"cases": 48, "jobs": 7, "min": {"compiled_calls": 100, "gradients": 30, "conversions": 60, "inductor_calls": 4}},
          "thorough": {"cases": 100000, "seconds": 700}}
ASSUMPTIONS = ["most cases use the eager and aot_eager compiler backends (same traced graphs and guards, no code generation); the default backend runs in a smaller number"]
logging.getLogger("torch._dynamo").setLevel(logging.ERROR)
logging.getLogger("torch._inductor").setLevel(logging.ERROR)
warnings.filterwarnings("ignore", module="torch")
torch._dynamo.config.recompile_limit = 128  # grad modes, two robots and several sizes share one code object
SIZES = (1, 1, 2, 3, 4, 5, 6, 7, 8, 13, 32, 64)


def backend(ctx, rng, first=False):
    if ctx.prop and first:
        return "inductor"
    return ("eager", "aot_eager", "aot_eager")[rng.integers(3)]


def options(ctx, rng, first=False):
    kw = {"backend": backend(ctx, rng, first), "fullgraph": bool(rng.random() < 0.7)}
    d = rng.integers(0, 3)
    if d:
        kw["dynamic"] = bool(d == 1)
    return kw


def tol(dt):
    return 1e-10 if dt == F64 else 5e-5


def robots(rng, dt, n, serial=False):
    out = []
    for _ in range(n):
        nf = int(rng.choice([1, 2, 3, 4, 6, 9])) if not serial else int(rng.choice([2, 3, 4, 6, 8]))
        if serial:
            out.append(gen.serial_robot_pair(rng, n=nf, dtype=dt))
        else:
            r = gen.robot(rng, n=nf)
            out.append((r, gen.to_chain(r, dt)))
    return out


def size(rng, kw, used):
    """Batch sizes such that a function that is not dynamic does not exceed the compiler's recompilation limit."""
    if kw.get("dynamic", True) is False or len(used) >= 4:
        if len(used) >= 3:
            return used[rng.integers(len(used))]
    b = int(rng.choice(SIZES))
    if b not in used:
        used.append(b)
    return b


def kinematics(ctx, rng, first=False):
    """Forward kinematics of one or two robots through compiled functions."""
    torch._dynamo.reset()
    dt = F64 if rng.random() < 0.75 else F32
    kw = options(ctx, rng, first)
    rs = robots(rng, dt, int(rng.choice([1, 1, 2])) if not first else 1)
    fns = [(r, c, torch.compile(c.forward_kinematics_tensor, **kw), []) for r, c in rs]
    order = []
    for _ in range(int(rng.integers(6, 12)) if not first else 5):
        i = int(rng.integers(len(fns)))
        r, c, fn, used = fns[i]
        b = size(rng, kw, used)
        q = gen.configs(rng, r.n, b)
        t = torch.tensor(q, dtype=dt)
        g = bool(rng.random() < 0.4) and r.n > 0
        q = back(t)
        if g:
            a, e = t.clone().requires_grad_(True), t.clone().requires_grad_(True)
            out = fn(a)
            want = c.forward_kinematics_tensor(e)
            W = torch.tensor(rng.standard_normal(tuple(want.shape)), dtype=dt)
            ga, = torch.autograd.grad((out * W).sum(), a)
            ge, = torch.autograd.grad((want * W).sum(), e)
            ctx.close(ga, ge, tol(dt) * 10 * (1 + ge.abs().max().item()) * r.scale(q), "gradients of compiled forward kinematics", options=kw, sizes=used, batch=b)
            ctx.count("gradients")
        elif rng.random() < 0.3:
            with torch.no_grad():
                out = fn(t)
                want = c.forward_kinematics_tensor(t)
        else:
            out = fn(t)
            want = c.forward_kinematics_tensor(t)
        ctx.expect(out.dtype == dt, "dtype of compiled forward kinematics")
        ctx.close(out, want, tol(dt) * r.scale(q), "compiled forward kinematics", options=kw, sizes=used, batch=b)
        ref = r.fk_batch(q)
        names = c.get_frame_names(exclude_fixed=False)
        idx = c.get_frame_indices(*names).tolist()
        ctx.close(out[idx], np.stack([ref[n] for n in names]), (tol(dt) if dt == F32 else 1e-11) * (1 + np.abs(q).max(initial=0)) * r.scale(q), "compiled forward kinematics against the model", options=kw, batch=b)
        ctx.count("compiled_calls")
        ctx.count("inductor_calls", kw["backend"] == "inductor")
        order.append((i, b, g))
    ctx.seen("fk", sorted(kw.items()), [gen.shape_sig(r) for r, *_ in fns], order, str(dt))
    torch._dynamo.reset()


def jacobian(ctx, rng, first=False):
    torch._dynamo.reset()
    dt = F64 if rng.random() < 0.75 else F32
    kw = options(ctx, rng, first)
    rs = robots(rng, dt, int(rng.choice([1, 1, 2])) if not first else 1, serial=True)
    fns = [(r, c, torch.compile(c.jacobian_tensor, **kw), []) for r, c in rs]
    order = []
    mode = int(rng.integers(0, 3))
    for _ in range(int(rng.integers(5, 9)) if not first else 4):
        i = int(rng.integers(len(fns)))
        r, c, fn, used = fns[i]
        b = size(rng, kw, used)
        t = torch.tensor(gen.configs(rng, r.n, b), dtype=dt)
        pose = mode == 1 or (mode == 2 and rng.random() < 0.5)
        args = (True,) if pose else ()
        g = bool(rng.random() < 0.35)
        s = r.scale(back(t))
        if g:
            a, e = t.clone().requires_grad_(True), t.clone().requires_grad_(True)
            out, want = fn(a, *args), c.jacobian_tensor(e, *args)
            o, w = (out[0], want[0]) if pose else (out, want)
            W = torch.tensor(rng.standard_normal(tuple(w.shape)), dtype=dt)
            ga, = torch.autograd.grad((o * W).sum(), a)
            ge, = torch.autograd.grad((w * W).sum(), e)
            ctx.close(ga, ge, tol(dt) * 10 * (1 + ge.abs().max().item()) * s, "gradients of the compiled Jacobian", options=kw, sizes=used, batch=b)
            ctx.count("gradients")
        else:
            out, want = fn(t, *args), c.jacobian_tensor(t, *args)
        if pose:
            ctx.close(out[1], want[1], tol(dt) * s, "pose with the compiled Jacobian", options=kw, sizes=used, batch=b)
            out, want = out[0], want[0]
        ctx.close(out, want, tol(dt) * s, "compiled Jacobian", options=kw, sizes=used, batch=b)
        ctx.count("compiled_calls")
        ctx.count("inductor_calls", kw["backend"] == "inductor")
        order.append((i, b, g, pose))
    ctx.seen("jacobian", sorted(kw.items()), [gen.shape_sig(r) for r, *_ in fns], order, str(dt))
    torch._dynamo.reset()


def vec(rng, k):
    return lambda s: rng.standard_normal((*s, k))


def conversions(ctx, rng, first=False):
    torch._dynamo.reset()
    dt = F64 if rng.random() < 0.75 else F32
    kw = options(ctx, rng, first)
    smooth = [False]  # gradients are compared away from special values, where they may not exist

    def q(s):
        v = rng.standard_normal((*s, 4))
        return v / np.linalg.norm(v, axis=-1, keepdims=True) if smooth[0] else rots.fill(rng, rots.one_q, s, (4,))

    def R(s):
        return rots.q2R(q(s)) if smooth[0] else rots.fill(rng, rots.one_R, s, (3, 3))

    def aa(s):
        return rng.standard_normal((*s, 3)) if smooth[0] else rots.fill(rng, rots.one_aa, s, (3,))

    conv = ops.CONVENTIONS[rng.integers(len(ops.CONVENTIONS))]
    table = [
        ("matrix_to_quaternion", pk.matrix_to_quaternion, (R,)), ("quaternion_to_matrix", pk.quaternion_to_matrix, (q,)),
        ("axis_angle_to_quaternion", pk.axis_angle_to_quaternion, (aa,)), ("quaternion_to_axis_angle", pk.quaternion_to_axis_angle, (q,)),
        ("matrix_to_axis_angle", pk.matrix_to_axis_angle, (R,)),
        ("quaternion_multiply", pk.quaternion_multiply, (q, q)), ("quaternion_invert", pk.quaternion_invert, (q,)),
        ("quaternion_apply", pk.quaternion_apply, (q, vec(rng, 3))), ("standardize_quaternion", pk.standardize_quaternion, (q,)),
        ("matrix_to_rotation_6d", pk.matrix_to_rotation_6d, (R,)), ("rotation_6d_to_matrix", pk.rotation_6d_to_matrix, (vec(rng, 6),)),
        ("euler_angles_to_matrix", lambda x: pk.euler_angles_to_matrix(x, conv), (vec(rng, 3),)),
        ("matrix_to_euler_angles", lambda x: pk.matrix_to_euler_angles(x, conv), (R,)),
        ("round trip", lambda x: pk.quaternion_to_matrix(pk.axis_angle_to_quaternion(pk.quaternion_to_axis_angle(pk.matrix_to_quaternion(x)))), (R,)),
        ("axis_and_angle_to_matrix_33", pk.transforms.rotation_conversions.axis_and_angle_to_matrix_33, (vec(rng, 3), lambda s: rng.standard_normal(s))),
    ]
    for k in rng.choice(len(table), 3 if not first else 2, replace=False):
        name, f, gens = table[int(k)]
        fn = torch.compile(f, **kw)
        used = []
        nd = int(rng.choice([1, 1, 2]))
        for _ in range(5):
            b = size(rng, kw, used)
            s = (b,) if nd == 1 else (2, b)
            g = bool(rng.random() < 0.3) and kw["backend"] != "eager"
            smooth[0] = g
            xs = [T(x(s), dt) for x in gens]
            if g:
                a, e = [x.clone().requires_grad_(True) for x in xs], [x.clone().requires_grad_(True) for x in xs]
                out, want = fn(*a), f(*e)
                W = torch.tensor(rng.standard_normal(tuple(want.shape)), dtype=dt)
                ga = torch.autograd.grad((out * W).sum(), a)
                ge = torch.autograd.grad((want * W).sum(), e)
                for x, y in zip(ga, ge):
                    m = y.abs().max().item()
                    if np.isfinite(m) and m < 1e3:
                        ctx.close(x, y, tol(dt) * 10 * (1 + m), f"gradient of compiled {name}", options=kw, sizes=used, shape=s)
                ctx.count("gradients")
            else:
                out, want = fn(*xs), f(*xs)
            loose = 1 if name not in ("matrix_to_axis_angle", "quaternion_to_axis_angle", "matrix_to_euler_angles") else 100
            o, w = out.detach(), want.detach()
            if name == "matrix_to_euler_angles":  # judged as rotations: angles are ambiguous at gimbal lock
                o, w = pk.euler_angles_to_matrix(o, conv), pk.euler_angles_to_matrix(w, conv)
            elif name in ("matrix_to_quaternion", "quaternion_multiply"):  # at ties the sign depends on rounding
                o = torch.where((o * w).sum(-1, keepdim=True) < 0, -o, o)
            elif name.endswith("to_axis_angle"):  # half turns have two axes
                o, w = torch.as_tensor(rots.aa2R(back(o))), torch.as_tensor(rots.aa2R(back(w)))
            ctx.close(o, w, tol(dt) * loose * (1 + w.abs().max().item()), f"compiled {name}", options=kw, sizes=used, shape=s)
            ctx.count("conversions")
            ctx.count("inductor_calls", kw["backend"] == "inductor")
        ctx.seen("conversion", name, sorted(kw.items()), tuple(used), nd, str(dt))
    torch._dynamo.reset()


def pipeline(ctx, rng):
    """A larger compiled function that uses several parts of the library."""
    torch._dynamo.reset()
    kw = options(ctx, rng)
    r, c = gen.serial_robot_pair(rng, n=int(rng.choice([3, 5, 7])))
    goal = T(rots.one_q(rng), F64)

    def angle(th):
        m = c.forward_kinematics_tensor(th)[-1]
        return pk.quaternion_to_axis_angle(pk.quaternion_multiply(goal, pk.quaternion_invert(pk.matrix_to_quaternion(m[:, :3, :3])))).norm(dim=-1)

    def loss(th, target):
        m = c.forward_kinematics_tensor(th)[-1]
        qd = pk.quaternion_multiply(goal, pk.quaternion_invert(pk.matrix_to_quaternion(m[:, :3, :3])))
        w = pk.quaternion_to_axis_angle(qd)
        return ((m[:, :3, 3] - target) ** 2).sum(-1) + 0.1 * (w ** 2).sum(-1), c.jacobian_tensor(th)

    fn = torch.compile(loss, **kw)
    used = []
    for _ in range(5):
        b = size(rng, kw, used)
        a = torch.tensor(gen.configs(rng, r.n, b)).requires_grad_(True)
        e = a.detach().clone().requires_grad_(True)
        p = torch.tensor(rng.standard_normal((b, 3)))
        (l1, j1), (l2, j2) = fn(a, p), loss(e, p)
        s = r.scale(back(a)) ** 2
        ctx.close(l1, l2, 1e-9 * s, "a compiled loss", options=kw, sizes=used)
        ctx.close(j1, j2, 1e-10 * s, "a compiled Jacobian beside a loss", options=kw, sizes=used)
        g1, = torch.autograd.grad(l1.sum(), a)
        g2, = torch.autograd.grad(l2.sum(), e)
        ok = torch.isfinite(g2).all(-1) & (g2.abs().amax(-1) < 1e4) & ((angle(e.detach()) - np.pi).abs() > 1e-5)  # half turns have two axes
        ctx.close(g1[ok], g2[ok], 1e-7 * s, "gradient of a compiled loss", options=kw, sizes=used)
        ctx.count("compiled_calls")
        ctx.count("gradients")
    ctx.seen("pipeline", sorted(kw.items()), gen.shape_sig(r), tuple(used))
    torch._dynamo.reset()


def default_backend(ctx, rng):
    """The default compiler backend, with code generation."""
    f = (kinematics, jacobian, conversions)[int(rng.integers(3))]
    if ctx.tier == "quick" and rng.random() < 0.5:
        f = conversions
    f(ctx, rng, first=True)


FAMILIES = [("kinematics", kinematics), ("jacobian", jacobian), ("conversions", conversions), ("pipeline", pipeline), ("kinematics2", kinematics), ("jacobian2", jacobian),
            ("conversions2", conversions), ("default_backend", default_backend)]
