"""C17: the Jacobian itself can be differentiated correctly."""
from ..env import F32, F64, np, npy, pk, torch
from pytorch_kinematics import jacobian as jm
from .. import gen
from ..ref import homog, jacobian

ORACLE = "central differences (4th order, float64) of the exact reference Jacobian and tool pose"
RULE = "distinct (robot shape, tool form, objective, batch size, dtype) combinations whose gradients were compared"
CONFIG = {"quick": {"cases": 1000, "min": {"gradients": 300, "tool_gradients": 100}}, "thorough": {"cases": 20000, "seconds": 1400, "min": {"gradients": 10000}}}


def ref(r, q, tool):
    J, T = jacobian(r, q, tool)
    return np.concatenate([J.ravel(), T[:3].ravel()])


def diff(f, x, h=1e-3):
    """4th order central differences: columns d f / d x_i."""
    out = []
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h
        out.append((8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h))
    return np.stack(out, 0)  # (len(x), m)


def case(ctx, rng):
    dtype = F64 if rng.random() < 0.8 else F32
    r, s = gen.serial_robot_pair(rng, n=int(rng.choice([2, 3, 4, 6, 8])), dtype=dtype, offset_scale=0.7)
    n = r.n
    B = gen.batch(rng, r, [1, 2, 3])
    q = rng.uniform(-3, 3, (B, n)).astype(np.float32).astype(float)
    if rng.random() < 0.3:
        q[rng.integers(B), rng.integers(n)] = 0.0
    form = ("none", "none", "pos(3)", "pos(1,3)", "pos(B,3)", "tf(B)")[rng.integers(6)]
    with_pose = bool(rng.integers(2))
    P = rng.uniform(-1, 1, (B, 3))
    if form in ("pos(3)", "pos(1,3)"):
        P[:] = P[0]
    if form == "none":
        P[:] = 0
    # objective: linear or smooth non-linear in (J, pose)
    WJ, WT = rng.standard_normal((B, 6, n)), rng.standard_normal((B, 3, 4)) * with_pose
    kind = ("linear", "square", "angular", "linear part")[rng.integers(4)]
    if kind == "angular":
        WJ[:, :3] = 0
    if kind == "linear part":
        WJ[:, 3:] = 0
    vals = [ref(r, q[b], homog(p=P[b])) for b in range(B)]
    W = np.concatenate([WJ.reshape(B, -1), WT.reshape(B, -1)], 1)
    co = np.stack(vals) * W * 2 * (W != 0) if kind == "square" else W
    want_q = np.stack([diff(lambda x: ref(r, x, homog(p=P[b])), q[b]) @ co[b] for b in range(B)])
    want_p = np.stack([diff(lambda x: ref(r, q[b], homog(p=x)), P[b]) @ co[b] for b in range(B)])

    x = torch.tensor(q, dtype=dtype, requires_grad=True)
    need_p = form != "none" and rng.random() < 0.7
    if form == "pos(3)":
        leaf = torch.tensor(P[0], dtype=dtype, requires_grad=need_p)
        loc = leaf
    elif form == "pos(1,3)":
        leaf = torch.tensor(P[:1], dtype=dtype, requires_grad=need_p)
        loc = leaf
    elif form == "pos(B,3)":
        leaf = torch.tensor(P, dtype=dtype, requires_grad=need_p)
        loc = leaf
    elif form == "tf(B)":
        leaf = torch.tensor(P, dtype=dtype, requires_grad=need_p)
        loc = pk.Transform3d(pos=leaf, dtype=dtype)
    else:
        leaf, loc = None, None
    if rng.random() < 0.2:
        out = jm.calc_jacobian(s, x, tool=loc, ret_eef_pose=with_pose)
        J, T = out if with_pose else (out, None)
    elif with_pose:
        J, T = s.jacobian(x, locations=loc, ret_eef_pose=True)
    elif form == "none" and rng.random() < 0.4:
        J, T = s.jacobian_tensor(x), None
    else:
        J, T = s.jacobian(x, locations=loc), None
    wj, wt = torch.tensor(WJ, dtype=dtype), torch.tensor(WT, dtype=dtype)
    sq = kind == "square"
    loss = ((J * J if sq else J) * wj).sum() if not sq else (J * J * wj).sum()
    if T is not None:
        loss = loss + ((T[:, :3] * T[:, :3] if sq else T[:, :3]) * wt).sum()
    t = (1e-8 if dtype == F64 else 2e-5) * r.scale(q) ** 2 * (5 + n) * 10
    joints = [f.joint.type for f in r.frames]
    if loss.requires_grad:
        gs = torch.autograd.grad(loss, [x] + ([leaf] if need_p else []), allow_unused=True)
    else:
        gs = [None, None]
    gq = torch.zeros_like(x) if gs[0] is None else gs[0]
    ctx.close(gq, want_q, t, f"gradient of the Jacobian, tool {form}", kind=kind, pose=with_pose, joints=joints, B=B)
    ctx.count("gradients")
    if need_p:
        gp = torch.zeros_like(leaf) if gs[1] is None else gs[1]
        w = want_p if form in ("pos(B,3)", "tf(B)") else want_p.sum(0) if form == "pos(3)" else want_p.sum(0, keepdims=True)
        ctx.close(gp, w, t * B, f"gradient of the tool position, tool {form}", kind=kind, pose=with_pose, joints=joints, B=B)
        ctx.count("tool_gradients")
        if rng.random() < 0.5 and form != "none":  # the same when only the tool requires gradients
            out = s.jacobian(x.detach(), locations=loc, ret_eef_pose=with_pose)
            J2 = out[0] if with_pose else out
            l2 = ((J2 * J2 if sq else J2) * wj).sum() + ((((out[1][:, :3] ** 2) if sq else out[1][:, :3]) * wt).sum() if with_pose else 0)
            g2 = torch.autograd.grad(l2, leaf, allow_unused=True)[0] if l2.requires_grad else None
            ctx.close(torch.zeros_like(leaf) if g2 is None else g2, w, t * B, "gradient of the tool position alone", kind=kind)
    ctx.seen(gen.shape_sig(r), form, kind, with_pose, B, str(dtype))
    ctx.sample(form=form, kind=kind, joints=str(joints), B=B)


def manipulability(ctx, rng):
    """A function users do differentiate: log det(J J^T), by differences of the exact value."""
    r, s = gen.serial_robot_pair(rng, n=int(rng.integers(7, 11)), mix=[0.1, 0.9, 0.0], offset_scale=0.6)
    q = rng.uniform(-2, 2, (1, r.n))

    def val(x):
        J = jacobian(r, x)[0]
        return np.array([np.log(np.linalg.det(J @ J.T + 0.1 * np.eye(6)))])

    x = torch.tensor(q, requires_grad=True)
    J = s.jacobian(x)
    y = torch.logdet(J @ J.transpose(1, 2) + 0.1 * torch.eye(6, dtype=F64)).sum()
    ctx.close(y.detach().reshape(1), val(q[0]), 1e-8, "manipulability")
    g, = torch.autograd.grad(y, x)
    ctx.close(g[0], diff(val, q[0])[:, 0], 1e-6 * (1 + r.scale(q) ** 2), "gradient of manipulability")
    ctx.count("gradients")
    ctx.seen("manipulability", gen.shape_sig(r))


FAMILIES = [("case", case)] * 4 + [("manipulability", manipulability)]
