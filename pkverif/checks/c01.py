"""C01: forward kinematics equals the product of transforms along each path."""
from ..env import F32, F64, Frame, Joint, np, npy, pk, t64, torch
from .. import gen
from ..ref import homog

ORACLE = "independent float64 product of transforms along each path"
RULE = "distinct (tree shape, joint types, offset pattern, dtype, batch size) combinations whose every frame pose was compared with the reference product"
CONFIG = {"quick": {"cases": 3000, "min": {"poses_compared": 5000}}, "thorough": {"cases": 30000, "seconds": 1500, "min": {"poses_compared": 50000}}}


def check_poses(ctx, r, got, want, q, dtype, what):
    """got: {name: (B,4,4)}"""
    ctx.expect(set(got) == set(want), f"{what}: frames {sorted(set(got) ^ set(want))} missing or extra")
    t = gen.tol(r, q, dtype)
    for name, T in want.items():
        ctx.close(got[name], T, t, f"{what} [{name}]", frame=name, shape=r.shape, joints=[f.joint.type for f in r.frames], q=q[:2])
        ctx.count("poses_compared", len(T))
        R = npy(got[name])[:, :3, :3].astype(float)
        ctx.close(R @ R.transpose(0, 2, 1), np.broadcast_to(np.eye(3), R.shape), 40 * t, f"{what} is rigid [{name}]")
        ctx.expect(bool((npy(got[name])[:, 3] == np.array([0, 0, 0, 1])).all()), f"{what}: bottom row [{name}]")


def tree(ctx, rng):
    dtype = F64 if rng.random() < 0.7 else F32
    r = gen.robot(rng)
    c = gen.to_chain(r, dtype, rng)
    B = gen.batch(rng, r)
    q = gen.configs(rng, r.n, B)
    if dtype == F32:
        q = q.astype(np.float32).astype(float)
    want = r.fk_batch(q)
    th = gen.layout(rng, torch.tensor(q, dtype=dtype), grad=True)
    got = {k: v.get_matrix() for k, v in c.forward_kinematics(th).items()}
    check_poses(ctx, r, got, want, q, dtype, "pose")
    for v in got.values():
        ctx.expect(v.dtype == dtype, "pose dtype")
    raw = c.forward_kinematics_tensor(gen.layout(rng, torch.tensor(q, dtype=dtype), grad=True), analytical_grad=bool(rng.integers(2)))
    ctx.expect(tuple(raw.shape) == (len(r.frames), B, 4, 4), f"raw shape {tuple(raw.shape)}")
    for name in want:
        k = int(c.get_frame_indices(name)[0])
        ctx.close(raw[k], got[name], 1e-12 if dtype == F64 else 1e-5, "raw row equals the frame's pose")
    sub = [str(x) for x in rng.permutation(list(want))[: int(rng.integers(1, len(want) + 1))]]
    part = c.forward_kinematics(th, c.get_frame_indices(*sub))
    ctx.expect(set(part) == set(sub), "subset of frames")
    for name in sub:
        ctx.close(part[name].get_matrix(), got[name], 1e-12 if dtype == F64 else 1e-5, "subset pose equals full pose")
    ctx.seen(gen.shape_sig(r), str(dtype), B)
    ctx.sample(frames=len(r.frames), joints=r.n, shape=r.shape, batch=B, dtype=str(dtype))


def deep(ctx, rng):
    """Long chains and wide trees."""
    n = int(rng.choice([40, 80, 150]))
    r = gen.robot(rng, n=n, shape=("path", "random", "star", "broom")[rng.integers(4)], mix=[0.2, 0.5, 0.3], offset_scale=0.2)
    c = gen.to_chain(r)
    q = gen.configs(rng, r.n, 2)
    got = {k: v.get_matrix() for k, v in c.forward_kinematics(torch.tensor(q)).items()}
    check_poses(ctx, r, got, r.fk_batch(q), q, F64, "pose")
    ctx.seen("deep", n, r.shape, r.n)


def big_batch(ctx, rng):
    r = gen.robot(rng, n=int(rng.integers(2, 9)), min_joints=1)
    c = gen.to_chain(r)
    B = int(rng.choice([64, 257, 1000]))
    q = gen.configs(rng, r.n, B)
    got = c.forward_kinematics(torch.tensor(q))
    pick = np.unique(np.r_[0, B - 1, rng.integers(0, B, 10)])
    want = r.fk_batch(q[pick])
    for k, T in want.items():
        m = got[k].get_matrix()
        ctx.expect(m.shape[0] == B, "batch size of the pose")
        ctx.close(m[pick], T, gen.tol(r, q), "pose in a large batch", frame=k)
        ctx.count("poses_compared", len(pick))
    ctx.seen("batch", B, gen.shape_sig(r))


def serial(ctx, rng):
    """Serial robots: end pose and all poses."""
    r = gen.serial_spec(rng, n=int(rng.integers(1, 12)))
    r.root.joint.offset = None
    r.root.link_offset = None
    c = gen.to_chain(r)
    s = pk.SerialChain(c, r.frames[-1].name)
    B = gen.batch(rng, r, [1, 2, 5])
    q = gen.configs(rng, r.n, B)
    want = r.fk_batch(q)
    th = torch.tensor(q)
    end = s.forward_kinematics(th)
    ctx.close(end.get_matrix(), want[r.frames[-1].name], gen.tol(r, q), "serial end pose", joints=[f.joint.type for f in r.frames])
    al = s.forward_kinematics(th, end_only=False)
    check_poses(ctx, r, {k: v.get_matrix() for k, v in al.items()}, want, q, F64, "serial pose")
    ctx.seen("serial", gen.shape_sig(r), B)


def local(ctx, rng):
    """The local transform of a single frame."""
    r = gen.robot(rng, n=1, moving_root=True)
    f = r.root
    f.link_offset = None
    fr = gen.to_frames(r)
    B = int(rng.integers(1, 5))
    th = gen.configs(rng, 1, B)[:, 0]
    got = fr.get_transform(torch.tensor(th))
    off = f.static()
    ctx.close(got.get_matrix(), np.stack([off @ f.joint.motion(x) for x in th]), 1e-12 * (1 + np.abs(th).max()), "local transform")
    ctx.seen("local", f.joint.type, B, f.joint.offset is None)
FAMILIES = [("tree", tree), ("serial", serial), ("tree", tree), ("local", local), ("tree", tree), ("deep", deep), ("tree", tree), ("big_batch", big_batch)]
