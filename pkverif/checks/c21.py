"""C21: inverse kinematics pairs each target with its own attempts, reproducibly."""
import warnings

from matplotlib import pyplot as plt

from .. import iks
from ..env import F32, F64, np, pk, torch
from ..rots import back

ORACLE = "the same problem solved again, in another order, alone, or known in advance (attempts that are themselves the goal); bitwise for repetition, up to rounding for regrouping"
RULE = "distinct (robot shape, solver options, grouping of targets, attempts per target, form of the initial configurations, dtype) situations"
CONFIG = {"quick": {"cases": 1500, "min": {"repeats": 120, "target_dtypes": 30, "permuted": 120, "alone": 300, "at_goal": 120, "paired": 80}},
          "thorough": {"cases": 1000000, "seconds": 700}}
ASSUMPTIONS = ["regrouped solves are compared on damped problems in float64, where rounding is not amplified without bound"]
FIELDS = ("solutions", "err_pos", "err_rot", "converged", "converged_pos", "converged_rot", "converged_any", "converged_pos_any", "converged_rot_any")


def same(ctx, a, b, msg):
    for k in FIELDS:
        x, y = getattr(a, k), getattr(b, k)
        ctx.expect(x.shape == y.shape and (torch.equal(x, y) or bool(((x == y) | (x.isnan() & y.isnan())).all())), f"{msg}: {k}")
    ctx.expect(a.iterations == b.iterations, f"{msg}: iterations {a.iterations} and {b.iterations}")


def inits(rng, r, lim, M, dt):
    pr = iks.prismatic(r)
    K = int(rng.choice([1, 2, 3, 4, 6]))
    per = rng.random() < 0.5
    q = np.stack([iks.draw(rng, lim, pr, K) for _ in range(M)]) if per else iks.draw(rng, lim, pr, K)
    return K, per, torch.tensor(q, dtype=dt)


def repeat(ctx, rng):
    """Same problem again after other problems."""
    dt = F64 if rng.random() < 0.5 else F32
    r, c, lim = iks.robot(rng, dt)
    kw, ls = iks.options(rng)
    svd = bool(rng.random() < 0.4)
    M = int(rng.choice([1, 2, 3, 5]))
    K, per, q = inits(rng, r, lim, M, dt)
    form = ("given", "gaussian", "uniform", "callable")[rng.integers(4)]
    if form == "given":
        init = {"retry_configs": q}
    elif form == "gaussian":
        init = {"num_retries": K, "config_sampling_method": "gaussian"}
    elif form == "uniform":
        init = {"num_retries": K, "joint_limits": torch.tensor([[-2.0, 2.0]] * r.n, dtype=dt)}
    else:
        init = {"num_retries": K, "config_sampling_method": pk.ik.gaussian_around_config(torch.zeros(r.n, dtype=dt), 0.5)}
    per = per and form == "given"
    qk = q.clone()
    ik = iks.solver(c, kw, ls, svd, **init)
    t, _ = iks.targets(rng, r, lim, M, dt)
    T = pk.Transform3d(matrix=t)
    low, high = c.low.clone(), c.high.clone()
    start = ik.initial_config.clone()
    a = ik.solve(T)
    for _ in range(int(rng.integers(0, 3))):
        m = M if per else int(rng.choice([1, 2, 4]))
        ik.solve(pk.Transform3d(matrix=iks.targets(rng, r, lim, m, dt)[0]))
    if rng.random() < 0.5:
        torch.rand(3)
        c.forward_kinematics(torch.rand(2, r.n, dtype=dt))
    b = ik.solve(T)
    same(ctx, a, b, "the same targets again")
    if form == "given":
        same(ctx, a, iks.solver(c, kw, ls, svd, **init).solve(T), "the same targets with a new solver")
        t32 = t.to(F32)  # the same numbers in either dtype
        same(ctx, ik.solve(pk.Transform3d(matrix=t32)), ik.solve(pk.Transform3d(matrix=t32.to(F64))), "targets in another dtype")
        ctx.count("target_dtypes")
        if rng.random() < 0.12:  # with the plots of a debugging run
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    d = iks.solver(c, {**kw, "debug": True}, ls, svd, **init).solve(T)
                finally:
                    plt.close("all")
            same(ctx, a, d, "the same targets while debugging")
            ctx.count("debugged")
        ctx.expect(torch.equal(q, qk), "the given initial configurations are unchanged")
    ctx.expect(torch.equal(ik.initial_config, start), "initial configurations are unchanged by solving")
    ctx.expect(torch.equal(T.get_matrix(), t), "the targets are unchanged")
    ctx.expect(torch.equal(c.low, low) and torch.equal(c.high, high), "the robot's limits are unchanged")
    ctx.count("repeats")
    ctx.seen("repeat", [f.joint.type[0] for f in r.frames], iks.sig(kw, ls, svd), M, K, form, per, str(dt))


def close(ctx, a, b, i, j, r, msg):
    """Attempts of target i of solution a are those of target j of solution b."""
    x, y = back(a.solutions)[i], back(b.solutions)[j]
    if not (np.isfinite(x).all() and np.isfinite(y).all()) or max(np.abs(x).max(), np.abs(y).max()) > 1e3:
        ctx.count("diverged")
        return
    d = np.abs(x - y)
    ctx.expect(d.max() < 1e-5 * (1 + np.abs(x).max()), f"{msg}: joint values differ by {d.max():.3g}", a=x, b=y)
    for k in ("err_pos", "err_rot"):
        e = np.abs(back(getattr(a, k))[i] - back(getattr(b, k))[j])
        ctx.expect(e.max() < 1e-4 * r.scale(x), f"{msg}: {k} differs by {e.max():.3g}")


def calm(rng):
    """Options with which rounding differences stay small."""
    kw, ls = iks.options(rng)
    kw["regularlization"] = float(10 ** rng.uniform(-2, 0))
    kw["max_iterations"] = int(rng.choice([0, 1, 2, 3, 5]))
    kw["num_limit_refinement_iterations"] = int(rng.choice([0, 1, 3]))
    kw["lr"] = float(rng.choice([0.2, 0.5, 1.0]))
    return kw, ls


def regroup(ctx, rng):
    dt = F64
    r, c, lim = iks.robot(rng, dt)
    kw, ls = calm(rng)
    kw["lm_damping"] = float(rng.choice([0.1, 1.0]))
    ls = None  # thresholds in a line search amplify rounding
    svd = bool(rng.random() < 0.4)
    M = int(rng.choice([2, 3, 4, 6]))
    K, per, q = inits(rng, r, lim, M, dt)
    t, kinds = iks.targets(rng, r, lim, M, dt, kinds=("reach", "reach", "far", "wild"))
    for i in range(M):  # some targets start close to, or at, one of their attempts
        if rng.random() < 0.5:
            qq = back(q[i] if per else q)
            x = qq[rng.integers(len(qq))] + rng.standard_normal(r.n) * rng.choice([0.0, 0.02])
            t[i] = torch.tensor(iks.fk(r, x))
    a = iks.solver(c, kw, ls, svd, retry_configs=q).solve(pk.Transform3d(matrix=t))
    p = rng.permutation(M)
    b = iks.solver(c, kw, ls, svd, retry_configs=q[p] if per else q).solve(pk.Transform3d(matrix=t[torch.as_tensor(p)]))
    for j, i in enumerate(p):
        close(ctx, a, b, i, j, r, "permuted targets")
    ctx.count("permuted")
    # permuting the attempts permutes the answers
    kp = torch.as_tensor(rng.permutation(K))
    b = iks.solver(c, kw, ls, svd, retry_configs=q[..., kp, :]).solve(pk.Transform3d(matrix=t))
    x = back(a.solutions[:, kp])
    if np.isfinite(x).all() and np.abs(x).max() < 1e3:
        ctx.expect(np.abs(x - back(b.solutions)).max() < 1e-5 * (1 + np.abs(x).max()), "permuted attempts")
    ctx.seen("regroup", [f.joint.type[0] for f in r.frames], iks.sig(kw, ls, svd), M, K, per, sorted(set(kinds)))
    # alone, without early stopping
    kw.update(early_stopping_any_converged=False, early_stopping_no_improvement=None)
    a = iks.solver(c, kw, ls, svd, retry_configs=q).solve(pk.Transform3d(matrix=t))
    one = iks.solver(c, kw, ls, svd, retry_configs=q) if not per else None
    for i in range(M):
        b = (one or iks.solver(c, kw, ls, svd, retry_configs=q[i])).solve(pk.Transform3d(matrix=t[i:i + 1]))
        close(ctx, a, b, i, 0, r, "targets one at a time")
        ctx.count("alone")


def at_goal(ctx, rng):
    """Targets already reached by one of their initial configurations."""
    dt = F64 if rng.random() < 0.6 else F32
    r, c, lim = iks.robot(rng, dt)
    kw, ls = iks.options(rng)
    kw["regularlization"] = float(10 ** rng.uniform(-4, -1))
    kw["num_limit_refinement_iterations"] = int(rng.choice([0, 1, 10]))
    kw["pos_tolerance"] = float(10 ** rng.uniform(-3, -1)) * r.scale(np.zeros((1, r.n)))
    kw["rot_tolerance"] = float(10 ** rng.uniform(-2, -0.5))
    kw.pop("position_weight", 0)
    kw.pop("orientation_weight", 0)
    if kw.get("lr", 1) > 1:
        kw["lr"] = 1.0
    svd = bool(rng.random() < 0.4)
    M = int(rng.choice([1, 2, 3, 5]))
    K, per, q = inits(rng, r, lim, M, dt)
    Q = back(q)
    pick = rng.integers(0, K, M)
    goal = np.stack([(Q[i] if per else Q)[pick[i]] for i in range(M)])
    t = torch.tensor(np.stack([iks.fk(r, x) for x in goal]), dtype=dt)
    ik = iks.solver(c, kw, ls, svd, retry_configs=q)
    s = ik.solve(pk.Transform3d(matrix=t))
    ctx.expect(bool(s.converged_any.all()), "a target reached by an initial configuration is solved", options=kw)
    pr = iks.prismatic(r)
    X = back(s.solutions)
    loose = 1e-6 if dt == F64 else 3e-3
    for i in range(M):
        ctx.expect(bool(s.converged[i, pick[i]]), f"the attempt that starts at target {i} converged", options=kw, q=goal[i])
        d = X[i, pick[i]] - goal[i]
        if kw.get("enforce_joint_limits", True):
            d = np.where(pr, d, d - 2 * np.pi * np.round(d / (2 * np.pi)))
            # nothing to correct beyond rounding
            inner = np.minimum(goal[i] - lim[:, 0], lim[:, 1] - goal[i]).min()
            if inner < 1e-4 * (1 + np.abs(goal[i]).max()):
                continue
        else:
            loose = 0.0
        ctx.close(d, np.zeros(r.n), loose * (1 + np.abs(goal[i]).max()), f"the attempt that starts at target {i} stays there", options=kw, q=goal[i], x=X[i, pick[i]])
    if kw.get("early_stopping_any_converged"):
        ctx.expect(s.iterations <= 1, f"{s.iterations} iterations although every target was solved at once")
    ctx.count("at_goal")
    ctx.count("paired", per)
    ctx.seen("at_goal", [f.joint.type[0] for f in r.frames], iks.sig(kw, ls, svd), M, K, per, str(dt))


def initial(ctx, rng):
    """Without iterations each target keeps exactly its own initial configurations, in order."""
    dt = F64 if rng.random() < 0.5 else F32
    r, c, lim = iks.robot(rng, dt)
    M = int(rng.choice([1, 2, 3, 4]))
    K, per, q = inits(rng, r, lim, M, dt)
    kw, ls = iks.options(rng)
    kw.update(max_iterations=0, enforce_joint_limits=False)
    t, _ = iks.targets(rng, r, lim, M, dt)
    ik = iks.solver(c, kw, ls, bool(rng.random() < 0.4), retry_configs=q)
    s = ik.solve(pk.Transform3d(matrix=t))
    ctx.expect(torch.equal(s.solutions, q if per else q.expand(M, K, r.n)), "zero iterations return each target's own initial configurations", per_target=per)
    ctx.expect(s.iterations == 0, "no iterations")
    # a wrong number of sets is refused
    if per and M > 1:
        ctx.refused(lambda: ik.solve(pk.Transform3d(matrix=torch.cat([t, t[:1]]))), "one more target than sets of initial configurations")
    ctx.count("paired", per)
    ctx.seen("initial", [f.joint.type[0] for f in r.frames], M, K, per, str(dt))


FAMILIES = [("repeat", repeat), ("regroup", regroup), ("at_goal", at_goal), ("initial", initial)]
