"""C14: a serial robot is the path between two frames of the full robot."""
from ..env import F32, F64, np, npy, pk, torch
from .. import gen
from ..ref import inv_rigid, jacobian, serial_robot
from .c04 import model

ORACLE = "relative poses and joint lists computed from the full robot's tree, and a snapshot of the full robot"
RULE = "distinct (robot shape, position of root and end frame, joint types on and off the path) extractions compared"
CONFIG = {"quick": {"cases": 1600, "min": {"extractions": 1000, "poses": 3000, "refusals_observed": 800}}, "thorough": {"cases": 20000, "seconds": 1400, "min": {"extractions": 30000}}}


def compare(ctx, rng, r, c, a, e, s):
    sr = serial_robot(r, a.name, e.name)
    path = r.path(e.name)
    path = path[path.index(a):]
    want_joints = [f for f in path[1:] if f.joint.type != "fixed"]
    ctx.expect(s.get_joint_parameter_names() == [f.joint.name for f in want_joints], "joints of the serial robot", got=s.get_joint_parameter_names(), want=[f.joint.name for f in want_joints])
    ctx.expect(s.n_joints == len(want_joints), "number of joints")
    ctx.expect(s.get_frame_names(exclude_fixed=False) == [f.name for f in path], "frames of the serial robot in path order")
    ctx.expect([tuple(x) for x in zip(*s.get_joint_limits())] == [(-np.inf, np.inf) if f.joint.limits is None else f.joint.limits for f in want_joints], "limits of the serial robot")
    ctx.close(s.low, np.array([-np.inf if f.joint.limits is None else f.joint.limits[0] for f in want_joints]), 1e-6, "low")
    # the remaining joints take two different random values
    col = {f.joint.name: i for i, f in enumerate(r.moving)}
    B = gen.batch(rng, r, [1, 2, 4])
    qs = gen.configs(rng, len(want_joints), B)
    for rep in range(2):
        q = gen.configs(rng, r.n, B)
        for k, f in enumerate(want_joints):
            q[:, col[f.joint.name]] = qs[:, k]
        full = c.forward_kinematics(torch.tensor(q, dtype=c.dtype))
        rel = s.forward_kinematics(torch.tensor(qs, dtype=s.dtype), end_only=False)
        ctx.expect(set(rel) == {f.name for f in path}, "frames reported by the serial robot")
        base = full[a.name].get_matrix()
        ref = r.fk_batch(q)
        t = 6 * gen.tol(r, q, s.dtype)
        for f in path:
            w = torch.linalg.inv(base) @ full[f.name].get_matrix()
            ctx.close(rel[f.name].get_matrix(), w.expand(B, 4, 4), t, "serial pose equals the full robot's relative pose", frame=f.name, root=a.name)
            w2 = np.stack([inv_rigid(ref[a.name][i]) @ ref[f.name][i] for i in range(B)])
            ctx.close(rel[f.name].get_matrix(), w2, t, "serial pose equals the reference relative pose", frame=f.name, root=a.name)
            ctx.count("poses")
        end = s.forward_kinematics(torch.tensor(qs, dtype=s.dtype))
        ctx.close(end.get_matrix(), rel[e.name].get_matrix(), 1e-12 if s.dtype == F64 else 1e-5, "end pose")
    if want_joints:
        J = s.jacobian(torch.tensor(qs, dtype=s.dtype))
        ctx.close(J, np.stack([jacobian(sr, x)[0] for x in qs]), 20 * gen.tol(sr, qs, s.dtype), "Jacobian of the serial robot")
    ctx.count("extractions")
    ctx.seen(gen.shape_sig(r), len(r.path(a.name)), len(path), a.joint.type)


def extract(ctx, rng):
    dtype = F64 if rng.random() < 0.75 else F32
    r = gen.robot(rng, n=int(rng.integers(2, 12)) if rng.random() < 0.95 else int(rng.integers(13, 50)))
    c = gen.to_chain(r, dtype)
    m = model(c)
    for _ in range(4):
        a = r.frames[rng.integers(len(r.frames))]
        below = [f for f in r.frames if a in r.path(f.name)]
        e = below[rng.integers(len(below))]
        if a is r.root and rng.random() < 0.6:
            k = rng.integers(3)
            s = pk.SerialChain(c, e.name) if k == 0 else pk.SerialChain(c, e.name, "") if k == 1 else pk.SerialChain(c, end_frame_name=e.name, root_frame_name="")
        else:
            s = pk.SerialChain(c, e.name, a.name) if rng.random() < 0.5 else pk.SerialChain(chain=c, end_frame_name=e.name, root_frame_name=a.name)
        ctx.expect(model(c) == m, "extraction left the full robot unchanged")
        compare(ctx, rng, r, c, a, e, s)
        if rng.random() < 0.3:  # extraction from a serial robot
            p = r.path(e.name)
            p = p[p.index(a):]
            b = p[rng.integers(len(p))]
            if rng.random() < 0.5 and len(p) > 1:
                s2 = pk.SerialChain(s, e.name, b.name)
                compare(ctx, rng, r, c, b, e, s2)
            else:
                s2 = pk.SerialChain(s, b.name)
                compare(ctx, rng, r, c, a, b, s2)
        if rng.random() < 0.3:  # independence
            ms = model(s)
            s.to(dtype=F32 if dtype == F64 else F64)
            for f in s.get_joints(False):
                f.axis.mul_(-1)
            for x in s.get_links():
                x.name = "changed"
                if x.offset is not None:
                    x.offset.get_matrix().add_(1)
            s.find_frame(e.name).add_child(pk.frame.Frame("new"))
            ctx.expect(model(c) == m, "changing the serial robot left the full robot unchanged")
            s = pk.SerialChain(c, e.name, a.name)
            ctx.expect(model(s) == ms, "extracting again gives the same serial robot")
    ctx.sample(frames=len(r.frames), end=e.name, root=a.name, dtype=str(dtype))


def refuse(ctx, rng):
    r = gen.robot(rng, n=int(rng.integers(2, 10)))
    c = gen.to_chain(r)
    m = model(c)
    taken = {f.name for f in r.frames}
    e = r.frames[-1].name
    for bad in ("nope", e + "_", e[:-1], " " + e, e.upper() + "X", r.frames[0].joint.name or "zzz", r.frames[-1].joint.name):
        if bad in taken or bad is None:
            continue
        ctx.refused(lambda: pk.SerialChain(c, bad), "unknown end frame", end=bad)
        ctx.refused(lambda: pk.SerialChain(c, bad, r.root.name), "unknown end frame", end=bad)
        if bad:
            ctx.refused(lambda: pk.SerialChain(c, e, bad), "unknown root frame", root=bad)
    for a in r.frames:
        for f in r.frames:
            if a not in r.path(f.name) and rng.random() < 0.3:
                ctx.refused(lambda: pk.SerialChain(c, f.name, a.name), "end frame not below the root frame", root=a.name, end=f.name)
                ctx.seen("not below", gen.shape_sig(r), len(r.path(a.name)), len(r.path(f.name)))
    ctx.expect(model(c) == m, "refused extractions left the full robot unchanged")


FAMILIES = [("extract", extract), ("extract", extract), ("refuse", refuse)]
