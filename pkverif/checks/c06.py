"""C06: changing dtype, copying and re-extracting preserve the robot."""
import copy
import io
import pickle

from ..env import F32, F64, np, npy, pk, torch
from .. import gen
from ..ref import jacobian, serial_robot
from .c04 import model

ORACLE = "reference poses, Jacobians, limits and gradients after every step of a random history of moves, copies and extractions"
RULE = "distinct (history of operations, robot shape) combinations with every reachable robot object verified after each step"
CONFIG = {"quick": {"cases": 800, "min": {"objects_verified": 1000}}, "thorough": {"cases": 12000, "seconds": 1500, "min": {"objects_verified": 20000}}}
F16 = torch.bfloat16


class Obj:
    """A library robot together with what it must be: reference tree, dtype, and the narrowest dtype it went through."""

    def __init__(self, chain, ref, dtype, worst, serial, label):
        self.chain, self.ref, self.dtype, self.worst, self.serial, self.label = chain, ref, dtype, worst, serial, label


def verify(ctx, rng, o, rr):
    c, r, dt = o.chain, o.ref, o.dtype
    q = gen.configs(rng, r.n, 2).astype(np.float32).astype(float)
    w = F32 if F32 in (o.worst, dt) else F64
    t = gen.tol(r, q, w) * (3 if w == F32 else 1)
    th = torch.tensor(q, dtype=dt)
    lab = f"[{o.label}]"
    ctx.expect(c.dtype == dt, f"dtype attribute {lab}")
    ctx.expect(c.get_joint_parameter_names() == r.joint_names, f"joint names {lab}")
    want = r.fk_batch(q)
    got = pk.Chain.forward_kinematics(c, th)
    ctx.expect(set(got) == set(want), f"frames {lab}")
    for k in want:
        ctx.expect(got[k].get_matrix().dtype == dt and got[k].dtype == dt, f"pose dtype {lab}", got=got[k].dtype)
        ctx.close(got[k].get_matrix(), want[k], t, f"pose after {lab}", history=o.label)
    got = pk.Chain.forward_kinematics(c, q.copy())
    ctx.expect(all(v.dtype == dt for v in got.values()), f"pose dtype from array {lab}")
    lo = np.array([-np.inf if f.joint.limits is None else f.joint.limits[0] for f in r.moving])
    hi = np.array([np.inf if f.joint.limits is None else f.joint.limits[1] for f in r.moving])
    lt = 1e-12 if w == F64 else 1e-6 * 10
    ctx.close(c.low, lo, lt, f"low {lab}")
    ctx.close(c.high, hi, lt, f"high {lab}")
    ctx.close(np.array(c.get_joint_limits()), np.stack([lo, hi]), lt, f"limits {lab}")
    ctx.expect(c.low.dtype == dt and c.high.dtype == dt, f"limit dtype {lab}")
    cl = c.clamp(th)
    ctx.expect(cl.dtype == dt, f"clamp dtype {lab}")
    ctx.close(cl, np.clip(q, lo, hi), lt, f"clamp {lab}")
    for ana in (True, False):
        x = th.clone().requires_grad_(True)
        raw = c.forward_kinematics_tensor(x, analytical_grad=ana)
        ctx.expect(raw.dtype == dt, f"raw pose dtype {lab}")
        f = r.frames[rng.integers(len(r.frames))].name
        W = rng.standard_normal((4, 4))
        if r.n:
            y = (raw[int(c.get_frame_indices(f)[0])] * torch.tensor(W, dtype=dt)).sum()
            g = torch.autograd.grad(y, x, allow_unused=True)[0]
            if g is not None:
                ctx.expect(g.dtype == dt, f"gradient dtype {lab}")
                ctx.close(g, np.stack([(r.dfk(v, f) * W).sum((1, 2)) for v in q]), 40 * t, f"gradient after {lab}")
    for f in [c.find_frame(f.name) for f in r.frames] if o.label.endswith(" to " + str(dt)[6:]) else []:
        ctx.expect(f.joint.axis.dtype == dt, f"axis dtype {lab}", frame=f.name)
    if o.serial and r.n:
        J, T = c.jacobian(th, ret_eef_pose=True)
        p = rng.standard_normal(3)
        Tm = np.eye(4)
        Tm[:3, 3] = p
        ctx.expect(J.dtype == dt and T.dtype == dt, f"Jacobian dtype {lab}")
        ctx.close(J, np.stack([jacobian(r, v)[0] for v in q]), 20 * t, f"Jacobian after {lab}")
        Jt = c.jacobian(th, locations=torch.tensor(p, dtype=F64 if rng.random() < 0.5 else dt) if dt == F64 else torch.tensor(p, dtype=dt))
        ctx.expect(Jt.dtype == dt, f"tool Jacobian dtype {lab}")
        ctx.close(Jt, np.stack([jacobian(r, v, Tm)[0] for v in q]), 40 * t, f"tool Jacobian after {lab}")
        other = pk.Transform3d(pos=torch.tensor(p, dtype=F32 if dt == F64 else F64), dtype=F32 if dt == F64 else F64)
        Jt = c.jacobian(th, locations=other)
        ctx.expect(Jt.dtype == dt, f"Jacobian dtype with a tool of another dtype {lab}")
        ctx.close(Jt, np.stack([jacobian(r, v, Tm)[0] for v in q]), 60 * gen.tol(r, q, F32), f"tool Jacobian after {lab}")
        e = c.forward_kinematics([float(v) for v in q[0]])
        ctx.expect(e.dtype == dt, f"serial pose dtype {lab}")
        ctx.close(e.get_matrix(), want[r.frames[-1].name][:1], t, f"serial pose after {lab}")
    ctx.count("objects_verified")


def narrower(a, b):
    return F32 if F32 in (a, b) else F64


def history(ctx, rng):
    for _ in range(20):
        r = gen.robot(rng, n=int(rng.integers(2, 9)) if rng.random() < 0.9 else int(rng.integers(9, 26)), min_joints=1)
        if len(r.frames) > 1:
            break
    d0 = (F64, F32)[rng.integers(2)]
    objs = [Obj(gen.to_chain(r, d0, rng), r, d0, d0, False, str(d0)[6:])]
    how = []
    for step in range(int(rng.integers(3, 8))):
        o = objs[rng.integers(len(objs))]
        k = int(rng.integers(0, 6))
        if k <= 1:  # move
            dt = (F64, F32)[rng.integers(2)]
            form = int(rng.integers(3))
            res = o.chain.to(dtype=dt) if form == 0 else o.chain.to(dtype=dt, device="cpu") if form == 1 else o.chain.to(device="cpu", dtype=dt)
            ctx.expect(res is o.chain, "to() returns the robot")
            o.worst = narrower(o.worst, dt)
            o.dtype = dt
            o.label += f" to {str(dt)[6:]}"
        elif k == 2:
            o.chain.to(device=("cpu", torch.device("cpu"))[rng.integers(2)])
            o.label += " to cpu"
        elif k == 3:
            n = Obj(copy.deepcopy(o.chain), o.ref, o.dtype, o.worst, o.serial, o.label + " deepcopy")
            objs.append(n)
        elif k == 4:
            if rng.random() < 0.5:
                n = pickle.loads(pickle.dumps(o.chain))
            else:
                b = io.BytesIO()
                torch.save(o.chain, b)
                b.seek(0)
                n = torch.load(b, weights_only=False)
            objs.append(Obj(n, o.ref, o.dtype, o.worst, o.serial, o.label + " pickle"))
        else:
            fr = o.ref.frames
            a = fr[rng.integers(len(fr))]
            below = [f for f in fr if a in o.ref.path(f.name) and f is not a]
            if not below:
                continue
            e = below[rng.integers(len(below))]
            kw = {}
            dt = o.dtype
            if rng.random() < 0.3:
                dt = (F64, F32)[rng.integers(2)]
                kw = {"dtype": dt}
            s = pk.SerialChain(o.chain, e.name, a.name, **kw)
            # a root frame called "" means the default; names here are never empty
            objs.append(Obj(s, serial_robot(o.ref, a.name, e.name), dt, narrower(o.worst, dt), True, o.label + " extract" + (f"({str(dt)[6:]})" if kw else "")))
        if len(objs) > 4:
            objs.pop(int(rng.integers(len(objs))))
        for x in objs:
            verify(ctx, rng, x, r)
    for x in objs:
        ctx.seen(x.label, gen.shape_sig(x.ref))
    ctx.sample(histories=[x.label for x in objs])


def independence(ctx, rng):
    """Using, moving or changing a copy leaves the original alone, and the other way round."""
    r = gen.robot(rng, n=int(rng.integers(2, 8)), min_joints=1)
    c = gen.to_chain(r, F64)
    mk = int(rng.integers(3))
    leaf = r.frames[-1].name
    d = copy.deepcopy(c) if mk == 0 else pickle.loads(pickle.dumps(c)) if mk == 1 else pk.SerialChain(c, leaf) if leaf != r.root.name else copy.deepcopy(c)
    mc, md = model(c), model(d)
    a, b, mb = (c, d, md) if rng.random() < 0.5 else (d, c, mc)
    a.forward_kinematics(torch.zeros(3, a.n_joints, dtype=F64))
    ctx.expect(model(b) == mb, "using one robot changed its copy")
    a.to(dtype=F32)
    ctx.expect(model(b) == mb, "moving one robot changed its copy", kind=mk)
    for x in (a.low, a.high, a.axes):  # in-place changes of the copy's own tables
        x.mul_(0.5)
    for f in a.get_joints(False):
        f.axis.mul_(0.5)
        if f.offset is not None:
            f.offset.get_matrix().mul_(0.5)
    for x in a.get_links():
        if x.offset is not None:
            x.offset.get_matrix().mul_(0.5)
    ctx.expect(model(b) == mb, "changing one robot's tables changed its copy", kind=mk)
    ctx.expect(b.dtype == F64 and b.low.dtype == F64, "dtype of the untouched robot")
    o = Obj(b, r if b is c or mk != 2 or leaf == r.root.name else serial_robot(r, r.root.name, leaf), F64, F64, isinstance(b, pk.SerialChain), "untouched")
    verify(ctx, rng, o, r)
    ctx.seen("independence", mk, a is c, gen.shape_sig(r))


def frames(ctx, rng):
    """Frames, joints and links moved on their own."""
    r = gen.robot(rng, n=int(rng.integers(1, 6)), moving_root=True)
    f = gen.to_frames(r, F64)
    g = copy.deepcopy(f)
    f.to(dtype=F32, device="cpu")
    th = torch.linspace(-1, 1, 3)
    for dt, x in ((F32, f), (F64, g)):
        j = x.joint
        ctx.expect(j.axis.dtype == dt, "axis dtype")
        ctx.expect(j.offset is None or j.offset.dtype == dt, "joint offset dtype")
        ctx.expect(x.link.offset is None or x.link.offset.dtype == dt, "link offset dtype")
        m = x.get_transform(th.to(dt)).get_matrix()
        off = np.eye(4) if r.root.joint.offset is None else r.root.joint.offset
        ctx.expect(m.dtype == dt, "local transform dtype", dt=dt, got=m.dtype)
        ctx.close(m, np.stack([off @ r.root.joint.motion(float(v)) for v in th]), 1e-5 if dt == F32 else 1e-7, "local transform after to()")
    c = pk.Chain(f, dtype=F64)
    ctx.expect(c.dtype == F64 and c.low.dtype == F64, "chain dtype")
    x = c.forward_kinematics(torch.zeros(1, c.n_joints, dtype=F64))
    ctx.expect(all(v.dtype == F64 for v in x.values()), "chain built in another dtype than its frames")
    want = r.fk(np.zeros(r.n))
    for k, v in x.items():
        ctx.close(v.get_matrix()[0], want[k], gen.tol(r, np.zeros(r.n), F32), "pose of a chain built in another dtype than its frames")
    ctx.seen("frames", gen.shape_sig(r))
    ctx.count("objects_verified")


FAMILIES = [("history", history), ("history", history), ("independence", independence), ("frames", frames)]
