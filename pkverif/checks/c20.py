"""C20: inverse kinematics solutions are finite and respect joint limits."""
from .. import iks
from ..env import F32, F64, np, pk, torch
from ..rots import back

ORACLE = "limits as given to the robot; whole-turn representatives computed in float64; poses by the independent model"
RULE = "distinct (limit patterns, joint types, solver options, target kinds, dtype) situations"
CONFIG = {"quick": {"cases": 4000, "min": {"limited_values": 10000, "wrapped": 800, "solves": 350, "single_limit_wrapped": 100, "clamped_searches": 80}},
          "thorough": {"cases": 1000000, "seconds": 700}}
ASSUMPTIONS = ["limits without a value between them (lower above upper) and negative damping are not generated"]


def wrap(ctx, rng):
    """No iterations and no refinement: limit enforcement alone, on chosen joint values."""
    dt = F64 if rng.random() < 0.7 else F32
    r, c, lim = iks.robot(rng, dt)
    pr = iks.prismatic(r)
    M, K = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 6]))
    q = iks.draw(rng, lim, pr, M * K)
    k = rng.integers(0, 4)
    if k == 0:
        q = q + rng.integers(-3, 4, q.shape) * 2 * np.pi  # every representative of values inside
    elif k == 1:
        q = rng.uniform(-20, 20, q.shape)
    elif k == 2:
        q = q + (rng.random(q.shape) < 0.3) * rng.uniform(-8, 8, q.shape)
    else:
        q = q + rng.integers(-1, 2, q.shape) * 2 * np.pi * (rng.random(q.shape) < 0.5)
    qt = torch.tensor(q.reshape(M, K, r.n), dtype=dt)
    q = back(qt)
    t = torch.tensor(np.stack([iks.fk(r, x[0]) for x in q]), dtype=dt)
    kw, ls = iks.options(rng, hostile=True)
    kw.update(max_iterations=0, num_limit_refinement_iterations=0, enforce_joint_limits=True)
    s = iks.solver(c, kw, ls, bool(rng.random() < 0.3), retry_configs=qt).solve(pk.Transform3d(matrix=t))
    x = back(s.solutions)
    ctx.expect(np.isfinite(x).all(), "finite joint values", q=q, x=x, limits=lim)
    lo, hi = lim[:, 0], lim[:, 1]
    eps = 1e-5 if dt == F32 else 1e-12
    none = not np.isfinite(lim).any()
    for i in range(M):
        for j in range(K):
            same_pose = True
            for d in range(r.n):
                a, b, l, h = q[i, j, d], x[i, j, d], lo[d], hi[d]
                ctx.expect(l <= b <= h, f"joint {d} within its limits: {b} not in [{l}, {h}]", q=a, type=r.moving[d].joint.type)
                if np.isfinite(l) or np.isfinite(h):
                    ctx.count("limited_values")
                turns = (b - a) / (2 * np.pi)
                if pr[d]:
                    ctx.expect(b == min(max(a, l), h), f"prismatic joint moved from {a} to {b}, limits [{l}, {h}]")
                    same_pose &= b == a
                    continue
                if none or not (np.isfinite(l) or np.isfinite(h)):
                    ctx.expect(b == a, f"unlimited revolute joint moved from {a} to {b}")
                    continue
                # a representative inside the limits (with a margin for rounding)?
                m = eps * (1 + abs(a))
                first = np.ceil((l + m - a) / (2 * np.pi)) if np.isfinite(l) else -np.inf
                last = np.floor((h - m - a) / (2 * np.pi)) if np.isfinite(h) else np.inf
                if first <= last:
                    ctx.expect(abs(turns - round(turns)) <= eps * (1 + abs(a)), f"revolute joint at {a}, limits [{l}, {h}], brought inside by whole turns: got {b} ({turns} turns)")
                    if round(turns):
                        ctx.count("wrapped")
                        if not (np.isfinite(l) and np.isfinite(h)):
                            ctx.count("single_limit_wrapped")
                else:
                    on = min(abs(b - l), abs(b - h))
                    ctx.expect(on <= m or abs(turns - round(turns)) <= m, f"revolute joint at {a} without a representative in [{l}, {h}] is at {b}")
                    same_pose = False
            if same_pose and j == 0:  # whole turns leave the pose unchanged
                ctx.close(back(s.err_pos)[i, j], 0.0, iks.tols(r, np.abs(q[i, j]) + np.abs(x[i, j]), t[i].numpy(), dt)[0] + eps * (1 + np.abs(q[i, j]).max()) * r.scale(x[i]), "position after whole turns")
                ctx.close(back(s.err_rot)[i, j], 0.0, 20 * eps * (1 + np.abs(q[i, j]).max()), "rotation after whole turns")
                ctx.count("pose_kept")
    ctx.seen("wrap", [f.joint.type[0] for f in r.frames], [(np.isfinite(v[0]), np.isfinite(v[1])) for v in lim], k, M, K, str(dt))


def solve(ctx, rng):
    """Any option set: finite, and within limits with enforcement on."""
    dt = F64 if rng.random() < 0.5 else F32
    r, c, lim = iks.robot(rng, dt, limits=("mixed", "mixed", "finite", "none")[rng.integers(4)])
    kw, ls = iks.options(rng, hostile=True)
    if rng.random() < 0.1:
        kw[("position_weight", "orientation_weight")[rng.integers(2)]] = 0.0
    svd = bool(rng.random() < 0.4)
    M, K = int(rng.choice([1, 2, 4])), int(rng.choice([1, 3, 6]))
    q = iks.draw(rng, lim, iks.prismatic(r), K)
    q = q * rng.choice([0.0, 1.0, 1.0, 1.0]) + rng.choice([0.0, 0.0, 7.0]) * rng.standard_normal(q.shape)
    qt = torch.tensor(q, dtype=dt)
    if rng.random() < 0.2:  # started anywhere within the robot's own limits
        ik = iks.solver(c, kw, ls, svd, num_retries=K, joint_limits=torch.tensor(c.get_joint_limits(), dtype=dt).T)
        qt = ik.initial_config.clone()
        q = back(qt)
        ctx.count("sampled_starts")
    else:
        ik = iks.solver(c, kw, ls, svd, retry_configs=qt)
    t, kinds = iks.targets(rng, r, lim, M, dt)
    if rng.random() < 0.2:  # exactly at an attempt
        t = torch.cat([t, torch.tensor(iks.fk(r, back(qt)[0]), dtype=dt)[None]])
    s = ik.solve(pk.Transform3d(matrix=t))
    on = kw.get("enforce_joint_limits", True)
    x = back(s.solutions)
    ctx.expect(np.isfinite(x).all(), "finite joint values", options=kw, kinds=kinds, limits=lim, q=q, x=x)
    ctx.expect(bool(torch.isfinite(s.err_pos).all() and torch.isfinite(s.err_rot).all()), "finite errors", options=kw)
    if on:
        bad = ~((x >= lim[:, 0]) & (x <= lim[:, 1]))
        ctx.expect(not bad.any(), f"{int(bad.sum())} joint values outside their limits", options=kw, x=x[bad.any(-1)], limits=lim)
        ctx.count("limited_values", int(np.isfinite(lim).any(1).sum()) * x.shape[0] * x.shape[1])
    if on and not np.isfinite(lim).any():  # nothing to enforce
        s2 = iks.solver(c, {**kw, "enforce_joint_limits": False}, ls, svd, retry_configs=qt).solve(pk.Transform3d(matrix=t))
        ctx.expect(torch.equal(s.solutions, s2.solutions) and torch.equal(s.converged, s2.converged), "enforcement changes nothing without limits")
        ctx.count("no_limits")
    if kw.get("clamp_to_limits") and not on and kw["max_iterations"]:
        inside = ((q >= lim[:, 0]) & (q <= lim[:, 1])).all()
        if inside:
            ctx.expect(((x >= lim[:, 0]) & (x <= lim[:, 1])).all(), "clamping during the search keeps every value within limits", x=x, limits=lim)
            ctx.count("clamped")
    ctx.count("solves")
    ctx.seen("solve", [f.joint.type[0] for f in r.frames], [(np.isfinite(v[0]), np.isfinite(v[1])) for v in lim], iks.sig(kw, ls, svd), sorted(set(kinds)), str(dt))


def clamping(ctx, rng):
    """Clamping during the search alone: no stored value is ever outside, whichever step it comes from."""
    dt = F64 if rng.random() < 0.5 else F32
    r, c, lim = iks.robot(rng, dt, limits=("mixed", "finite", "finite")[rng.integers(3)])
    if not np.isfinite(lim).any():
        return
    kw, ls = iks.options(rng, hostile=True)
    kw.update(enforce_joint_limits=False, clamp_to_limits=True, max_iterations=int(rng.integers(1, 26)))
    M, K = int(rng.choice([1, 2, 4])), int(rng.choice([1, 3, 6]))
    qt = torch.tensor(iks.draw(rng, lim, iks.prismatic(r), K), dtype=dt)
    q = back(qt)
    if not ((q >= lim[:, 0]) & (q <= lim[:, 1])).all():
        return
    t, kinds = iks.targets(rng, r, lim, M, dt, kinds=("reach", "far", "wild", "turned"))
    s = iks.solver(c, kw, ls, bool(rng.random() < 0.3), retry_configs=qt).solve(pk.Transform3d(matrix=t))
    x = back(s.solutions)
    bad = ~((x >= lim[:, 0]) & (x <= lim[:, 1]))
    ctx.expect(not bad.any(), "clamping during the search keeps every value within limits", options=kw, x=x[bad.any(-1)], limits=lim)
    ctx.count("clamped_searches")
    ctx.seen("clamping", [f.joint.type[0] for f in r.frames], iks.sig(kw, ls, False), sorted(set(kinds)), str(dt))


def reachable(ctx, rng):
    """A converged solution that only needs whole turns stays converged."""
    r, c, lim = iks.robot(rng, F64, limits="finite", min_joints=2)
    pr = iks.prismatic(r)
    q = iks.draw(rng, lim, pr, 3)
    shift = np.where(pr, 0, rng.integers(-2, 3, q.shape)) * 2 * np.pi
    t = torch.tensor(np.stack([iks.fk(r, x) for x in q]))
    qt = torch.tensor((q + shift)[:, None])
    kw = {"max_iterations": int(rng.choice([1, 5, 30])), "num_limit_refinement_iterations": int(rng.choice([0, 2, 10])), "regularlization": 1e-4}
    s = iks.solver(c, kw, None, bool(rng.random() < 0.4), retry_configs=qt).solve(pk.Transform3d(matrix=t))
    ctx.expect(bool(s.converged.all()), "a solution shifted by whole turns stays converged when brought inside", q=q, shift=shift, limits=lim)
    x = back(s.solutions)[:, 0]
    ctx.expect(((x >= lim[:, 0]) & (x <= lim[:, 1])).all(), "within limits")
    w = lim[:, 1] - lim[:, 0]
    d = (x - q) / (2 * np.pi)
    d = np.where(pr, x - q, d - np.round(d))
    del w
    edge = (np.minimum(q - lim[:, 0], lim[:, 1] - q) < 1e-3).any(1)
    ctx.close(np.where(edge[:, None], 0, d), np.zeros_like(d), 1e-4, "the same configuration up to whole turns", q=q, x=x)
    ctx.count("solves")
    ctx.seen("reachable", [f.joint.type[0] for f in r.frames], sorted(kw.items()))


FAMILIES = [("wrap", wrap), ("solve", solve), ("wrap2", wrap), ("clamping", clamping), ("reachable", reachable)]
