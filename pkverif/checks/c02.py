"""C02: every accepted form of joint values gives the same result; bad ones are refused."""
from ..env import F32, F64, np, npy, pk, t64, torch
from .. import gen
from ..ref import jacobian

ORACLE = "equality of all input forms with the independent reference; refusal of bad inputs"
RULE = "distinct (input form, single/batched, robot shape, query) combinations compared with the reference"
CONFIG = {"quick": {"cases": 3000, "min": {"forms_compared": 4000, "refusals_observed": 1200}},
          "thorough": {"cases": 30000, "seconds": 1400, "min": {"forms_compared": 50000, "refusals_observed": 10000}}}


def forms(rng, names, q, dtype, batched):
    """name -> value, all describing configuration(s) q (B, n)."""
    keys = [names[i] for i in rng.permutation(len(names))]
    col = {n: i for i, n in enumerate(names)}
    out = {}
    if not batched:
        v = q[0]
        out["list"] = [float(x) for x in v]
        out["array"] = v.copy()
        out["array32"] = v.astype(np.float32)
        out["tensor"] = gen.layout(rng, torch.tensor(v, dtype=dtype))
        out["dict"] = {k: float(v[col[k]]) for k in keys}
        out["dict_np"] = {k: v[col[k]] for k in keys}
        out["dict_t0"] = {k: torch.tensor(v[col[k]], dtype=dtype) for k in keys}
        if len(keys) > 1:
            out["dict_mixed"] = {k: (float(v[col[k]]) if j % 2 else torch.tensor(v[col[k]], dtype=dtype)) for j, k in enumerate(keys)}
        out["array_1row"] = v[None].copy()
        out["tensor_1row"] = torch.tensor(v[None], dtype=dtype)
    out["array_2d"] = q.copy()
    out["array_2d_f"] = np.asfortranarray(q)
    out["tensor_2d"] = gen.layout(rng, torch.tensor(q, dtype=dtype))
    out["dict_vec"] = {k: torch.tensor(q[:, col[k]], dtype=dtype) for k in keys}
    out["dict_np_vec"] = {k: q[:, col[k]].copy() for k in keys}
    if len(keys) > 1:
        out["dict_views"] = {k: torch.tensor(q, dtype=dtype)[:, col[k]] for k in keys}
    return out


def _robot(rng, serial=False):
    dtype = F64 if rng.random() < 0.7 else F32
    if serial:
        r, c = gen.serial_robot_pair(rng, n=int(rng.integers(2, 9)), dtype=dtype)
    else:
        r = gen.robot(rng, n=int(rng.integers(1, 11)), min_joints=1)
        c = gen.to_chain(r, dtype)
    return r, c, dtype


def _q(rng, r, batched):
    B = int(rng.integers(2, 6)) if batched else 1
    q = gen.configs(rng, r.n, B)
    if rng.random() < 0.2:
        q = np.round(q)
    return q.astype(np.float32).astype(float)


def chain_forms(ctx, rng):
    r, c, dtype = _robot(rng)
    batched = rng.random() < 0.5
    q = _q(rng, r, batched)
    want = r.fk_batch(q)
    t = gen.tol(r, q, dtype)
    lo = np.array([-np.inf if f.joint.limits is None else f.joint.limits[0] for f in r.moving])
    hi = np.array([np.inf if f.joint.limits is None else f.joint.limits[1] for f in r.moving])
    ctx.expect(c.get_joint_parameter_names() == r.joint_names, "joint order")
    for form, v in forms(rng, r.joint_names, q, dtype, batched).items():
        got = c.forward_kinematics(v)
        ctx.expect(set(got) == set(want), f"frames for {form}")
        for k in want:
            ctx.close(got[k].get_matrix(), want[k], t, f"pose from {form} [{k}]", q=q, form=form)
        ctx.count("forms_compared")
        cl = c.clamp(v)
        w = np.clip(q, lo, hi)
        ctx.close(cl.reshape(-1, r.n), w if cl.dim() == 2 else w[:1], 1e-12 if dtype == F64 else 1e-5, f"clamp from {form}")
        ctx.expect(cl.dtype == dtype, f"clamp dtype {form}")
        e = c.ensure_tensor(v)
        ctx.close(e.reshape(-1, r.n), q, 1e-12 if dtype == F64 else 1e-6, f"joint order of {form}")
        ctx.seen("chain", form, batched, gen.shape_sig(r), str(dtype))


def serial_forms(ctx, rng):
    r, c, dtype = _robot(rng, True)
    batched = rng.random() < 0.5
    q = _q(rng, r, batched)
    want = r.fk_batch(q)
    end = r.frames[-1].name
    t = gen.tol(r, q, dtype)
    J = np.stack([jacobian(r, x)[0] for x in q])
    tool = rng.uniform(-1, 1, 3)
    Tt = np.eye(4)
    Tt[:3, 3] = tool
    Jt = np.stack([jacobian(r, x, Tt)[0] for x in q])
    for form, v in forms(rng, r.joint_names, q, dtype, batched).items():
        ctx.close(c.forward_kinematics(v).get_matrix(), want[end], t, f"serial end pose from {form}", q=q, form=form)
        al = c.forward_kinematics(v, end_only=False)
        ctx.expect(set(al) == set(want), f"serial frames for {form}")
        for k in want:
            ctx.close(al[k].get_matrix(), want[k], t, f"serial pose from {form} [{k}]", form=form)
        ctx.close(c.jacobian(v), J, 10 * t, f"Jacobian from {form}", form=form)
        ctx.close(c.jacobian(v, locations=torch.tensor(tool, dtype=dtype)), Jt, 20 * t, f"tool Jacobian from {form}", form=form)
        ctx.count("forms_compared", 2)
        ctx.seen("serial", form, batched, gen.shape_sig(r), str(dtype))


def branch_forms(ctx, rng):
    """A serial robot taken out of a branched robot takes values for its own joints only."""
    r = gen.robot(rng, n=int(rng.integers(3, 12)), min_joints=2)
    c = gen.to_chain(r)
    ends = [f for f in r.frames if sum(g.joint.type != "fixed" for g in r.path(f.name)[1:]) >= 1]
    if not ends:
        return
    end = ends[rng.integers(len(ends))].name
    from ..ref import serial_robot
    s = pk.SerialChain(c, end)
    sr = serial_robot(r, r.root.name, end)
    batched = rng.random() < 0.5
    q = _q(rng, sr, batched)
    want = sr.fk_batch(q)
    for form, v in forms(rng, sr.joint_names, q, F64, batched).items():
        ctx.close(s.forward_kinematics(v).get_matrix(), want[end], gen.tol(sr, q), f"branch end pose from {form}")
        ctx.count("forms_compared")
    if r.n > sr.n:
        n = r.n
        ctx.refused(lambda: s.forward_kinematics(torch.zeros(1, n, dtype=F64)), "joint values of the full robot given to a serial robot")
        ctx.refused(lambda: s.forward_kinematics({k: 0.0 for k in r.joint_names}), "dict of the full robot's joints given to a serial robot")
    ctx.seen("branch", gen.shape_sig(sr), batched)


def bad(ctx, rng):
    serial = rng.random() < 0.5
    r, c, dtype = _robot(rng, serial)
    n = r.n
    names = r.joint_names
    B = int(rng.integers(2, 5))
    q = {k: float(rng.uniform(-1, 1)) for k in names}
    qb = {k: torch.tensor(rng.uniform(-1, 1, B), dtype=dtype) for k in names}
    fns = {"fk": c.forward_kinematics, "clamp": c.clamp}
    if serial:
        fns["jacobian"] = c.jacobian
        fns["fk_all"] = lambda v: c.forward_kinematics(v, end_only=False)
    for fname, fn in fns.items():
        for base, kind in ((q, "single"), (qb, "batched")):
            x = next(iter(base.values()))
            others = ["no_such_joint", names[0] + "_", names[0][:-1], names[0].upper() + "X", "", r.frames[0].name + "?"]
            unknown = [o for o in others if o not in names][int(rng.integers(3))]
            ctx.refused(lambda: fn({**base, unknown: x}), f"{fname}: {kind} dict with an extra unknown joint", unknown=unknown)
            drop = names[rng.integers(n)]
            rest = {k: v for k, v in base.items() if k != drop}
            ctx.refused(lambda: fn({**rest, unknown: x}), f"{fname}: {kind} dict naming an unknown joint", unknown=unknown)
            if rest:
                ctx.refused(lambda: fn(rest), f"{fname}: {kind} dict without a joint", drop=drop, n=n)
    if True:
        for k in {n + 1, n - 1, 1, 2 * n, n + 3} - {n, 0}:
            for form, v in (("tensor", torch.zeros(k, dtype=dtype)), ("list", [0.1] * k), ("array", np.zeros(k)), ("batch", torch.zeros(B, k, dtype=dtype)),
                            ("batch_n", torch.zeros(n, k, dtype=dtype))):
                ctx.refused(lambda: c.forward_kinematics(v), f"fk: {form} of {k} values for {n} joints")
                if serial:
                    ctx.refused(lambda: c.jacobian(v), f"jacobian: {form} of {k} values for {n} joints")
                    ctx.refused(lambda: c.forward_kinematics(v, end_only=False), f"fk_all: {form} of {k} values for {n} joints")
                    ctx.refused(lambda: c.jacobian(v, locations=torch.zeros(3, dtype=dtype)), f"tool jacobian: {form} of {k} values for {n} joints")
    # the model still works afterwards
    z = np.zeros((1, n))
    end = r.frames[-1].name
    got = c.forward_kinematics(torch.zeros(1, n, dtype=dtype))
    ctx.close((got if serial else got[end]).get_matrix(), r.fk_batch(z)[end], gen.tol(r, z, dtype), "pose after refusals")
    ctx.seen("bad", serial, n, B)


def subset(ctx, rng):
    r, c, dtype = _robot(rng)
    q = _q(rng, r, rng.random() < 0.5)
    want = r.fk_batch(q)
    full = c.forward_kinematics(torch.tensor(q, dtype=dtype))
    allf = list(want)
    for _ in range(4):
        k = int(rng.integers(0, len(allf) + 1))
        sub = [allf[i] for i in rng.integers(0, len(allf), k)] if rng.random() < 0.3 else [allf[i] for i in rng.permutation(len(allf))[:k]]
        idx = c.get_frame_indices(*sub)
        if rng.random() < 0.3:
            idx = [i for i in idx]
        v = forms(rng, r.joint_names, q, dtype, q.shape[0] > 1)
        form = list(v)[rng.integers(len(v))]
        got = c.forward_kinematics(v[form], idx if k else torch.zeros(0, dtype=torch.long))
        ctx.expect(set(got) == set(sub), "exactly the requested frames", got=list(got), want=sub)
        for name in sub:
            ctx.close(got[name].get_matrix(), want[name], gen.tol(r, q, dtype), f"subset pose ({form})")
            ctx.close(got[name].get_matrix(), full[name].get_matrix(), 1e-12 if dtype == F64 else 1e-5, "subset pose equals full pose")
        ctx.count("forms_compared")
        ctx.seen("subset", form, len(sub), len(set(sub)), len(allf))
    ctx.refused(lambda: c.get_frame_indices("no such frame"), "index of an unknown frame")
    ctx.refused(lambda: c.get_frame_indices(allf[0], allf[0] + "_"), "indices including an unknown frame") if allf[0] + "_" not in allf else None


FAMILIES = [("chain_forms", chain_forms), ("serial_forms", serial_forms), ("bad", bad), ("subset", subset), ("branch_forms", branch_forms)]
