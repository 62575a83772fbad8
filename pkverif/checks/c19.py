"""C19: inverse kinematics never reports convergence it did not achieve."""
from .. import iks, rots
from ..env import F32, F64, np, pk, torch
from ..rots import back

ORACLE = "position and rotation error of every returned joint vector recomputed by the independent float64 model, compared with the reported errors and flags"
RULE = "distinct (robot shape, solver options, number of targets and attempts, target kinds, dtype) situations"
CONFIG = {"quick": {"cases": 1600, "min": {"attempts": 3000, "converged_attempts": 600, "unconverged_attempts": 1200, "resolves": 150, "large_batches": 15}},
          "thorough": {"cases": 1000000, "seconds": 700}}
ASSUMPTIONS = ["flags are not judged where the recomputed error is within rounding of the tolerance", "diverged joint values (beyond 1e4 in float32, 1e8 in float64) only have to be flagged consistently with the reported errors"]


def judge(ctx, r, c, s, t, ik_tol, retries, dt, msg):
    """Everything a solution object says about itself."""
    pt, rt = ik_tol
    n = r.n
    Ts = back(t)
    M = len(Ts)
    ctx.expect(tuple(s.solutions.shape) == (M, retries, n), f"{msg}: solutions of shape {tuple(s.solutions.shape)} instead of {(M, retries, n)}")
    for k in ("err_pos", "err_rot", "converged", "converged_pos", "converged_rot"):
        ctx.expect(tuple(getattr(s, k).shape) == (M, retries), f"{msg}: {k} of shape {tuple(getattr(s, k).shape)}")
    for k in ("converged", "converged_pos", "converged_rot", "converged_any", "converged_pos_any", "converged_rot_any"):
        ctx.expect(getattr(s, k).dtype == torch.bool, f"{msg}: {k} is not boolean")
    for k, a in (("converged_any", "converged"), ("converged_pos_any", "converged_pos"), ("converged_rot_any", "converged_rot")):
        ctx.expect(tuple(getattr(s, k).shape) == (M,) and torch.equal(getattr(s, k), getattr(s, a).any(dim=1)), f"{msg}: {k} is set exactly when one attempt is",
                   any=getattr(s, k), attempts=getattr(s, a))
    ctx.expect(torch.equal(s.converged, s.converged_pos & s.converged_rot), f"{msg}: converged means position and rotation converged", sol=vars(s))
    Q, ep, er = back(s.solutions), back(s.err_pos), back(s.err_rot)
    cp, cr = s.converged_pos.numpy(), s.converged_rot.numpy()
    for i in range(M):
        for j in range(retries):
            q = Q[i, j]
            if not np.isfinite(q).all() or np.abs(q).max(initial=0) > (1e4 if dt == F32 else 1e8):
                ctx.count("diverged_attempts")
                ctx.expect(not (cp[i, j] and not ep[i, j] < pt) and not (cr[i, j] and not er[i, j] < rt), f"{msg}: flags agree with the errors")
                continue
            a, b = iks.errors(r, q, Ts[i])
            ta, tb = iks.tols(r, q, Ts[i], dt)
            ctx.close(ep[i, j], a, ta, f"{msg}: reported position error", q=q, target=Ts[i])
            ctx.close(er[i, j], b, tb + (3e-3 if dt == F32 else 1e-7) * (np.pi - b < 1e-2), f"{msg}: reported rotation error", q=q, target=Ts[i])
            if abs(a - pt) > ta:
                ctx.expect(bool(cp[i, j]) == (a < pt), f"{msg}: position converged flag is {cp[i, j]} but the position error is {a:.6g} (tolerance {pt:.6g})", q=q, target=Ts[i])
            if abs(b - rt) > tb:
                ctx.expect(bool(cr[i, j]) == (b < rt), f"{msg}: rotation converged flag is {cr[i, j]} but the rotation error is {b:.6g} (tolerance {rt:.6g})", q=q, target=Ts[i])
            if abs(a - pt) > ta and abs(b - rt) > tb:
                ctx.count("converged_attempts" if a < pt and b < rt else "unconverged_attempts")
            ctx.count("attempts")


def attempts(rng, r, lim, dt, M):
    """(retries, kwargs for the initial configurations)."""
    k = int(rng.integers(0, 5))
    n = int(rng.choice([1, 2, 3, 5, 8])) if rng.random() < 0.93 else int(rng.integers(9, 80))
    pr = iks.prismatic(r)
    q = iks.draw(rng, lim, pr, n)
    if rng.random() < 0.3:  # outside the limits, singular
        q = q * rng.choice([0.0, 3.0]) + rng.choice([0, 0, 7.0])
    if k == 0:
        return n, {"num_retries": n, "config_sampling_method": "gaussian"}
    if k == 1:
        return n, {"num_retries": n, "joint_limits": torch.tensor(np.stack([q.min(0) - 0.5, q.max(0) + 0.5], 1), dtype=dt)}
    if k == 2:
        q = np.stack([iks.draw(rng, lim, pr, n) for _ in range(M)])
    return n, {"retry_configs": torch.tensor(q, dtype=dt)}


def solve(ctx, rng, near=False):
    dt = F64 if rng.random() < 0.6 else F32
    r, c, lim = iks.robot(rng, dt)
    kw, ls = iks.options(rng, hostile=True)
    svd = bool(rng.random() < 0.4)
    M = int(rng.choice([1, 1, 2, 3, 5])) if rng.random() < 0.95 else int(rng.integers(6, 40))
    retries, init = attempts(rng, r, lim, dt, M)
    ctx.count("large_batches", M * retries > 40)
    if near:
        kw["max_iterations"] = int(rng.choice([3, 5, 10, 20]))
    ik = iks.solver(c, kw, ls, svd, **init)
    tol = (kw.get("pos_tolerance", 1e-3), kw.get("rot_tolerance", 1e-2))
    fixed_m = init.get("retry_configs") is not None and init["retry_configs"].dim() == 3
    done = []
    for rep in range(int(rng.choice([1, 2, 3]))):  # repeated use of one solver
        m = M if fixed_m else int(rng.choice([1, 2, 4]))
        if near and "retry_configs" in init:
            q0 = back(init["retry_configs"]).reshape(-1, r.n)
            q0 = q0[rng.integers(0, len(q0), m)] + rng.standard_normal((m, r.n)) * rng.choice([0, 0.01, 0.1, 0.3])
            t, kinds = torch.tensor(np.stack([iks.fk(r, q) for q in q0]), dtype=dt), ("near",)
        else:
            t, kinds = iks.targets(rng, r, lim, m, dt)
        s = ik.solve(pk.Transform3d(matrix=t.clone()))
        keep = {k: v.clone() for k, v in vars(s).items() if torch.is_tensor(v)}
        judge(ctx, r, c, s, t, tol, retries, dt, "IK")
        ctx.expect(0 <= s.iterations <= kw["max_iterations"], "number of iterations within the budget", iterations=s.iterations)
        done.append((s, keep, t))
        ctx.seen([f.joint.type[0] for f in r.frames], iks.sig(kw, ls, svd), m, retries, sorted(kinds), str(dt), rep)
        if rep:
            ctx.count("resolves")
    for s, keep, t in done[:-1]:  # earlier answers are still what they were
        for k, v in keep.items():
            ctx.expect(torch.equal(getattr(s, k), v) or bool(torch.isnan(v).any()), f"an earlier solution's {k} is not changed by later solves")


def solve_near(ctx, rng):
    solve(ctx, rng, near=True)


FAMILIES = [("solve", solve), ("solve_near", solve_near)]
