"""C16: gradients through forward kinematics are exact."""
from ..env import F32, F64, Frame, Joint, Link, np, npy, pk, torch
from .. import gen
from ..ref import homog, serial_robot

ORACLE = "exact derivative of the reference pose (product rule) and differences of it for second order"
RULE = "distinct (robot shape, objective, backward kind, batch size, dtype) combinations whose gradients were compared"
CONFIG = {"quick": {"cases": 2800, "min": {"gradients": 900, "second_order": 80, "parameter_gradients": 80, "scaled_gradients": 40}},
          "thorough": {"cases": 30000, "seconds": 1400, "min": {"gradients": 10000}}}


def objective(rng, kind, shape):
    """f(T) for a torch tensor, and df/dT for numpy."""
    W = rng.standard_normal(shape)
    w = torch.tensor(W)
    if kind == "linear":
        return (lambda T: (T * w.to(T)).sum()), (lambda T: W)
    if kind == "sin":
        return (lambda T: torch.sin(T * w.to(T)).sum()), (lambda T: np.cos(T * W) * W)
    if kind == "square":
        return (lambda T: ((T - w.to(T)) ** 2).sum()), (lambda T: 2 * (T - W))
    M = np.zeros(shape)
    if kind == "position":
        M[..., :3, 3] = 1
    else:  # rotation only
        M[..., :3, :3] = 1
    m = torch.tensor(M)
    return (lambda T: ((T * m.to(T)) * w.to(T)).sum()), (lambda T: W * M)


KINDS = ("linear", "sin", "square", "position", "rotation")


def true_grad(r, q, dobj, frames):
    """q: (B, n); dobj: list over frames of (B,4,4)."""
    g = np.zeros_like(q)
    for b in range(len(q)):
        for f, D in zip(frames, dobj):
            g[b] += (r.dfk(q[b], f) * D[b]).sum((1, 2))
    return g


def query(rng, c, th, frames, ana):
    """Poses of the frames (F, B, 4, 4) by one of the public ways."""
    k = int(rng.integers(0, 3)) if ana else 3
    if k == 0:
        d = c.forward_kinematics(th) if not isinstance(c, pk.SerialChain) else c.forward_kinematics(th, end_only=False)
        return torch.stack([d[f].get_matrix() for f in frames])
    if k == 1:
        d = pk.Chain.forward_kinematics(c, th, c.get_frame_indices(*frames))
        return torch.stack([d[f].get_matrix() for f in frames])
    raw = c.forward_kinematics_tensor(th) if k == 2 else c.forward_kinematics_tensor(th, analytical_grad=False)
    return raw[c.get_frame_indices(*frames)]


def first(ctx, rng):
    dtype = F64 if rng.random() < 0.75 else F32
    r = gen.robot(rng, n=int(rng.choice([2, 3, 4, 6, 9, 14])) if rng.random() < 0.93 else int(rng.integers(20, 70)), min_joints=1)
    c = gen.to_chain(r, dtype)
    if rng.random() < 0.3 and len(r.frames) > 1:
        e = max(r.frames, key=lambda f: len(r.path(f.name)))
        sr = serial_robot(r, r.root.name, e.name)
        if sr.n:
            r, c = sr, pk.SerialChain(c, e.name)
            r.shape = "serial"
    B = gen.batch(rng, r, [1, 2, 3, 5])
    q = gen.configs(rng, r.n, B).astype(np.float32).astype(float)
    allf = [f.name for f in r.frames]
    nf = 1 if rng.random() < 0.4 else int(rng.integers(1, len(allf) + 1))
    frames = [allf[i] for i in rng.permutation(len(allf))[:nf]]
    kind = KINDS[rng.integers(len(KINDS))]
    f, df = objective(rng, kind, (nf, B, 4, 4))
    T = np.stack([r.fk_batch(q)[k] for k in frames])
    want = true_grad(r, q, df(T), frames)
    t = 30 * gen.tol(r, q, dtype) * nf * r.scale(q)
    plain = npy(query(rng, c, torch.tensor(q, dtype=dtype), frames, True))
    got = {}
    for ana in (True, True, False):
        mode = int(rng.integers(0, 4))
        x0 = torch.tensor(q, dtype=dtype)
        if mode == 0:
            leaf = gen.layout(rng, x0).requires_grad_(True)
            th = leaf
        elif mode == 1:  # non-leaf
            leaf = (x0 / 2).requires_grad_(True)
            th = leaf * 2
        elif mode == 2:  # assembled from columns
            leaf = x0.clone().requires_grad_(True)
            th = torch.cat([leaf[:, i:i + 1] for i in range(r.n)], 1)
        else:  # column major view of a leaf
            leaf = x0.T.contiguous().requires_grad_(True)
            th = leaf.T
        P = query(rng, c, th, frames, ana)
        ctx.close(P, plain, 1e-12 if dtype == F64 else 1e-5, "requesting gradients does not change the poses")
        loss = f(P)
        if not loss.requires_grad:
            g = np.zeros_like(q)
            ctx.expect(not any(fr.joint.type != "fixed" for k in frames for fr in r.path(k)), "poses that depend on joints are differentiable")
        else:
            loss.backward()
            g = npy(leaf.grad)
            g = g / 2 if mode == 1 else g.T if mode == 3 else g
        ctx.close(g, want, t, f"gradient, {'fast' if ana else 'standard'} backward", kind=kind, frames=frames, mode=mode, joints=[x.joint.type for x in r.frames], B=B)
        got[ana] = g
        ctx.count("gradients")
        ctx.seen(gen.shape_sig(r), kind, nf, ana, mode, B, str(dtype))
    ctx.close(got[True], got[False], t, "both backwards agree")
    if rng.random() < 0.4:  # the gradient is linear in what is handed back, however small or large
        W = rng.standard_normal((nf, B, 4, 4))
        s = float(10.0 ** rng.integers(-12, 13))
        x = torch.tensor(q, dtype=dtype, requires_grad=True)
        P = query(rng, c, x, frames, True)
        if P.requires_grad:
            P.backward(torch.tensor(W * s).to(P))
            ctx.close(npy(x.grad) / s, true_grad(r, q, W, frames), t, "gradient of a scaled objective", scale=s, frames=frames)
            ctx.count("scaled_gradients")


def dict_inputs(ctx, rng):
    """Gradients reach the tensors of a dict, and shared ones accumulate over uses."""
    r = gen.robot(rng, n=int(rng.integers(2, 8)), min_joints=1)
    c = gen.to_chain(r)
    B = int(rng.integers(1, 4))
    q = gen.configs(rng, r.n, B)
    f = r.frames[-1].name
    fo, df = objective(rng, "sin", (1, B, 4, 4))
    want = true_grad(r, q, df(r.fk_batch(q)[f][None]), [f])
    leaves = {n: torch.tensor(q[:, i], requires_grad=True) for i, n in enumerate(r.joint_names)}
    keys = [r.joint_names[i] for i in rng.permutation(r.n)]
    loss = fo(c.forward_kinematics({k: leaves[k] for k in keys})[f].get_matrix()[None])
    gs = torch.autograd.grad(loss, [leaves[n] for n in r.joint_names], allow_unused=True)
    ctx.close(torch.stack([torch.zeros(B, dtype=F64) if g is None else g for g in gs], 1), want, 40 * gen.tol(r, q) * r.scale(q), "gradient to dict values")
    x = torch.tensor(q, requires_grad=True)
    P = c.forward_kinematics_tensor(x)
    i = int(c.get_frame_indices(f)[0])
    l1 = fo(P[i][None])
    l1.backward(retain_graph=True)
    l1.backward()
    fo(c.forward_kinematics(x)[f].get_matrix()[None]).backward()
    ctx.close(x.grad / 3, want, 40 * gen.tol(r, q) * r.scale(q), "gradients accumulate over three backward passes")
    ctx.count("gradients", 2)
    ctx.seen("dict", gen.shape_sig(r), B)


def second(ctx, rng):
    r = gen.robot(rng, n=int(rng.choice([2, 3, 4, 5, 7])), min_joints=1, offset_scale=0.7)
    c = gen.to_chain(r)
    B = int(rng.integers(1, 3))
    q = rng.uniform(-3, 3, (B, r.n))
    f = r.frames[rng.integers(len(r.frames))].name
    kind = KINDS[rng.integers(len(KINDS))]
    fo, df = objective(rng, kind, (1, B, 4, 4))
    v = rng.standard_normal((B, r.n))

    def grad(qq):
        return true_grad(r, qq, df(r.fk_batch(qq)[f][None]), [f])

    h = 1e-5
    want = (grad(q + h * v) - grad(q - h * v)) / (2 * h)
    x = torch.tensor(q, requires_grad=True)
    P = c.forward_kinematics_tensor(x, analytical_grad=False)[c.get_frame_indices(f)]
    g, = torch.autograd.grad(fo(P), x, create_graph=True)
    ctx.close(g, grad(q), 40 * gen.tol(r, q) * r.scale(q), "gradient with a graph")
    if g.requires_grad:
        H, = torch.autograd.grad((g * torch.tensor(v)).sum(), x, allow_unused=True)
        H = torch.zeros_like(x) if H is None else H
    else:
        H = torch.zeros_like(x)
    # every element's second derivative only involves its own row, so the directional derivative of the whole batch is exact
    ctx.close(H, want, 1e-5 * r.scale(q) ** 2 * (1 + np.abs(v).max()) * r.n, "second derivative in a direction", kind=kind, joints=[x.joint.type for x in r.frames])
    ctx.count("second_order")
    ctx.seen("second", gen.shape_sig(r), kind, B)


def parameters(ctx, rng):
    """Gradients with respect to the offsets the model was built from."""
    r = gen.robot(rng, n=int(rng.choice([2, 3, 5, 8])))
    leaves = {}

    def tfm(M, key):
        if M is None:
            return None
        m = torch.tensor(M, requires_grad=True)
        leaves[key] = m
        return pk.Transform3d(matrix=m)

    def conv(f):
        x = Frame(f.name, link=Link(f.link_name, offset=tfm(f.link_offset, (f.name, "link"))),
                  joint=Joint(f.joint.name, offset=tfm(f.joint.offset, (f.name, "joint")), joint_type=f.joint.type, axis=f.joint.axis, dtype=F64))
        for k in f.children:
            x.add_child(conv(k))
        return x

    c = pk.Chain(conv(r.root), dtype=F64)
    if not leaves:
        return
    B = int(rng.integers(1, 4))
    q = gen.configs(rng, r.n, B)
    f = r.frames[rng.integers(len(r.frames))].name
    W = rng.standard_normal((B, 4, 4))
    P = c.forward_kinematics_tensor(torch.tensor(q), analytical_grad=False)[int(c.get_frame_indices(f)[0])]
    ctx.close(P, r.fk_batch(q)[f], gen.tol(r, q), "pose of a model with learnable offsets")
    path = r.path(f)
    if not P.requires_grad:
        ctx.expect(not any((g.name, k) in leaves for g in path for k in ("link", "joint")), "poses are differentiable in the model's offsets")
        return
    gs = torch.autograd.grad((P * torch.tensor(W)).sum(), list(leaves.values()), allow_unused=True, retain_graph=True)
    for (name, which), g in zip(leaves, gs):
        want = np.zeros((4, 4))
        if name in [x.name for x in path]:
            for b in range(B):
                A = np.eye(4)
                C = None
                for x in path:
                    parts = [("link", np.eye(4) if x.link_offset is None else x.link_offset), ("joint", np.eye(4) if x.joint.offset is None else x.joint.offset),
                             ("motion", x.joint.motion(r.q_of(x, q[b])))]
                    for kk, M in parts:
                        if x.name == name and kk == which:
                            C = np.eye(4)
                        elif C is None:
                            A = A @ M
                        else:
                            C = C @ M
                want += A.T @ W[b] @ C.T
        ctx.close(torch.zeros(4, 4, dtype=F64) if g is None else g, want, 60 * gen.tol(r, q) * r.scale(q) * B, f"gradient of the {which} offset", frame=name)
        ctx.count("parameter_gradients")
    ctx.seen("params", gen.shape_sig(r), B)
    # the same gradients when the joint values require gradients too
    x = torch.tensor(q, requires_grad=True)
    P = c.forward_kinematics_tensor(x, analytical_grad=False)[int(c.get_frame_indices(f)[0])]
    gs2 = torch.autograd.grad((P * torch.tensor(W)).sum(), list(leaves.values()) + [x], allow_unused=True, retain_graph=True)
    for a, b in zip(gs, gs2):
        ctx.expect((a is None) == (b is None), "gradients exist")
        if a is not None:
            ctx.close(b, a, 1e-9 * r.scale(q), "parameter gradients with joint gradients")
    if gs2[-1] is not None:
        ctx.close(gs2[-1], true_grad(r, q, [W], [f]), 60 * gen.tol(r, q) * r.scale(q), "joint gradient of a model with learnable offsets")


FAMILIES = [("first", first), ("first", first), ("second", second), ("parameters", parameters), ("first", first), ("dict_inputs", dict_inputs)]
