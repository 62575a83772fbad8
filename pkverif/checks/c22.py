"""C22: inverse kinematics makes progress and its options mean what they say."""
import functools

from scipy import stats

from .. import iks, ref, rots
from ..env import F32, F64, np, pk, torch
from ..rots import back

ORACLE = "weighted, damped least-squares steps computed independently in float64; convergence known in advance from the conditioning of the Jacobian; distributions by Kolmogorov-Smirnov distance"
RULE = "distinct (robot shape, solver variant, options, numbers of targets and attempts, dtype) situations"
CONFIG = {"quick": {"cases": 1500, "min": {"steps": 500, "progress_attempts": 300, "line_search_steps": 200, "stops": 40, "samples": 20000, "compiled": 3, "clamped_steps": 80}},
          "thorough": {"cases": 1000000, "seconds": 740}}
ASSUMPTIONS = ["progress is demanded only where the Jacobian at the goal has smallest singular value above 0.15 and the start is near",
               "compiled solvers run with torch.compile's eager and aot_eager backends, and the default one in the thorough tier"]


def logR(R):
    a = float(rots.angles(R))
    v = 0.5 * np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    return v if a < 1e-9 else v * a / np.sin(a)


def delta(r, q, T):
    P = iks.fk(r, q)
    return np.r_[T[:3, 3] - P[:3, 3], logR(T[:3, :3] @ P[:3, :3].T)]


def step(r, q, T, kw):
    """One damped least-squares step."""
    w = np.r_[[kw.get("position_weight", 1.0)] * 3, [kw.get("orientation_weight", 1.0)] * 3]
    J, _ = ref.jacobian(r, q)
    dx = w * delta(r, q, T)
    Jw = w[:, None] * J
    A = Jw @ Jw.T + (kw["regularlization"] + kw["lm_damping"] * dx @ dx) * np.eye(6)
    return Jw.T @ np.linalg.solve(A, dx)


def step_options(rng):
    kw = {"pos_tolerance": 1e-12, "rot_tolerance": 1e-12, "enforce_joint_limits": False, "early_stopping_no_improvement": None,
          "regularlization": float(10 ** rng.uniform(-4, -0.5)), "lm_damping": float(rng.choice([0.0, 0.1, 0.1, 1.0]))}
    if rng.random() < 0.7:
        kw["lr"] = float(rng.choice([0.1, 0.5, 1.0, 1.5]))
    if rng.random() < 0.5:
        kw["position_weight"] = float(10 ** rng.uniform(-1, 1))
    if rng.random() < 0.5:
        kw["orientation_weight"] = float(10 ** rng.uniform(-1, 1))
    return kw


def problem(rng, dt=F64, limits="none"):
    r, c, lim = iks.robot(rng, dt, limits=limits)
    M, K = int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 4]))
    for _ in range(50):
        q = rng.uniform(-1.5, 1.5, (M, K, r.n))
        t = np.stack([iks.fk(r, rng.uniform(-1.5, 1.5, r.n)) if rng.random() < 0.7 else ref.homog(rots.one_R(rng), rng.uniform(-2, 2, 3)) for _ in range(M)])
        if all(rots.angles(t[i][:3, :3] @ iks.fk(r, q[i, j])[:3, :3].T) < 2.9 for i in range(M) for j in range(K)):
            break
    return r, c, lim, q, torch.tensor(t, dtype=dt)


def steps(ctx, rng):
    r, c, lim, q, t = problem(rng, limits=("none", "mixed")[rng.integers(2)])
    kw = step_options(rng)
    n = int(rng.choice([1, 1, 2]))
    clamp = bool(rng.random() < 0.5) and np.isfinite(lim).any()
    kw.update(max_iterations=n, clamp_to_limits=clamp)
    T = back(t)
    want = q.copy()
    for i in range(q.shape[0]):
        for j in range(q.shape[1]):
            for k in range(n):
                d = delta(r, want[i, j], T[i])
                if np.linalg.norm(d[3:]) > 3.0:
                    ctx.count("near_half_turn")
                    return
                want[i, j] = want[i, j] + kw.get("lr", 1.0) * step(r, want[i, j], T[i], kw)
                if clamp and np.isfinite(lim).any():
                    want[i, j] = np.clip(want[i, j], lim[:, 0], lim[:, 1])
    sols = []
    for svd in (False, True):
        s = iks.solver(c, kw, None, svd, retry_configs=torch.tensor(q)).solve(pk.Transform3d(matrix=t))
        sols.append(back(s.solutions))
        cond = 1e-9 / kw["regularlization"] * 10 ** (n - 1)
        ctx.close(s.solutions, want, max(1e-7, cond) * (1 + np.abs(want).max()), f"{'SVD' if svd else 'DLS'} step", options=kw, n=n)
        ctx.expect(s.iterations == n, f"{s.iterations} iterations instead of {n}")
        ctx.count("steps", q.shape[0] * q.shape[1])
    ctx.close(sols[0], sols[1], max(1e-8, 1e-9 / kw["regularlization"]) * (1 + np.abs(want).max()), "both variants take the same steps")
    ctx.count("clamped_steps", clamp * q.shape[0] * q.shape[1])
    ctx.seen("steps", [f.joint.type[0] for f in r.frames], sorted(kw), n, clamp, q.shape)


def line_search(ctx, rng):
    r, c, lim, q, t = problem(rng)
    kw = step_options(rng)
    kw.update(max_iterations=1)
    ls = {"max_lr": float(rng.choice([0.3, 1.0, 2.0, 4.0])), "decrease_factor": float(rng.choice([0.3, 0.5, 0.8])), "max_iterations": int(rng.integers(1, 6)),
          "sufficient_decrease": float(rng.choice([0.0, 0.01, 0.1, 0.3]))}
    T = back(t)
    s = iks.solver(c, kw, ls, bool(rng.random() < 0.3), retry_configs=torch.tensor(q)).solve(pk.Transform3d(matrix=t))
    x = back(s.solutions)
    # the same search on its own, and the pose error with and without a given buffer
    M, K = q.shape[:2]
    P = torch.tensor(np.stack([iks.fk(r, a) for a in q.reshape(-1, r.n)])).reshape(M, K, 4, 4)
    wxyz = pk.matrix_to_quaternion(t[:, :3, :3])
    d0, *parts = pk.ik.delta_pose(P, t[:, :3, 3], wxyz)
    buf = torch.full((M * K, 6, 1), float("nan"), dtype=F64)
    d1 = pk.ik.delta_pose(P, t[:, :3, 3], wxyz, out=buf)[0]
    want = np.stack([delta(r, q[i, j], T[i]) for i in range(M) for j in range(K)])
    far = np.linalg.norm(want[:, 3:], axis=1) < 3.0
    for nm, v in (("", d0), (" in a given buffer", d1), (" in parts", torch.cat(parts, 1))):
        ctx.close(back(v)[far, :, 0], want[far], 1e-9 * (1 + np.abs(want).max()), "pose error" + nm)
    dqs = np.stack([step(r, q[i, j], T[i], kw) for i in range(M) for j in range(K)])
    lr, _ = pk.ik.BacktrackingLineSearch(**ls).do_line_search(c, torch.tensor(q.reshape(-1, r.n)), torch.tensor(dqs), t[:, :3, 3], wxyz, d0)
    full = np.abs(dqs).max() * back(lr).reshape(M, K, 1) * (dqs / np.abs(dqs).max()).reshape(q.shape)
    ladder = ls["max_lr"] * ls["decrease_factor"] ** np.arange(ls["max_iterations"] + 1)
    for i in range(q.shape[0]):
        for j in range(q.shape[1]):
            dq = step(r, q[i, j], T[i], kw)
            if np.linalg.norm(dq) < 1e-6:
                continue
            lr = (x[i, j] - q[i, j]) @ dq / (dq @ dq)
            k = int(np.argmin(np.abs(ladder - lr)))
            ctx.close(x[i, j] - q[i, j], ladder[k] * dq, 1e-5 * (1 + np.abs(ladder[k] * dq).max()), "the step of a line search is a reduced full step", options=ls)
            e0 = np.linalg.norm(delta(r, q[i, j], T[i]))
            gain = np.array([e0 - np.linalg.norm(delta(r, q[i, j] + a * dq, T[i])) for a in ladder[:-1]])
            if (np.abs(gain - ls["sufficient_decrease"]) < 1e-5).any():
                continue
            ctx.close(x[i, j] - q[i, j], full[i, j], 1e-5 * (1 + np.abs(full[i, j]).max()), "the step the search proposes on its own", options=ls)
            good = np.flatnonzero(gain > ls["sufficient_decrease"])
            if len(good):
                ctx.expect(k == good[0], f"the line search takes the largest sufficient step: {ladder[k]:.4g} instead of {ladder[good[0]]:.4g}", gain=gain, options=ls)
            ctx.count("line_search_steps")
    ctx.seen("line_search", [f.joint.type[0] for f in r.frames], sorted(ls.items()), q.shape)


def progress(ctx, rng):
    dt = F64 if rng.random() < 0.6 else F32
    for _ in range(30):
        r, c, lim = iks.robot(rng, dt, limits=("none", "mixed", "finite")[rng.integers(3)], n=int(rng.choice([2, 3, 5, 6, 7, 8, 9, 10])))
        pr = iks.prismatic(r)
        M, K = int(rng.choice([1, 2, 4])), int(rng.choice([1, 2]))
        goal = iks.draw(rng, lim, pr, M)
        ok = np.array([np.linalg.svd(ref.jacobian(r, g)[0])[1][:min(6, r.n)].min() > 0.15 for g in goal])
        ok &= (np.minimum(goal - lim[:, 0], lim[:, 1] - goal) > 0.25).all(1)
        if ok.any():
            break
    else:
        return
    goal = goal[ok]
    M = len(goal)
    q = goal[:, None] + rng.uniform(-0.05, 0.05, (M, K, r.n))
    t = torch.tensor(np.stack([iks.fk(r, g) for g in goal]), dtype=dt)
    kw, ls = {}, None
    v = int(rng.integers(0, 7))
    if v == 1:
        kw["lr"] = float(rng.choice([0.3, 0.5, 0.8]))
    elif v == 2:
        ls = {"sufficient_decrease": float(rng.choice([0.0, 1e-7])), "decrease_factor": float(rng.choice([0.5, 0.8]))}
    elif v == 3:
        kw.update(position_weight=float(rng.choice([0.5, 2.0])), orientation_weight=float(rng.choice([0.5, 2.0])))
    elif v == 4:
        kw["clamp_to_limits"] = True
    elif v == 5:
        kw.update(early_stopping_any_converged=True, early_stopping_no_improvement=("all", "any", None, 0.5)[rng.integers(4)])
        K = 1
        q = q[:, :1]
    if rng.random() < 0.5:
        kw.update(pos_tolerance=float(10 ** rng.uniform(-4, -2)) * r.scale(goal), rot_tolerance=float(10 ** rng.uniform(-3.5, -2)))
    svd = bool(rng.random() < 0.5)
    s = iks.solver(c, kw, ls, svd, retry_configs=torch.tensor(q, dtype=dt)).solve(pk.Transform3d(matrix=t))
    ctx.expect(bool(s.converged.all()), "a regular nearby target is solved within the default budget", options=kw, line_search=ls, svd=svd, err_pos=s.err_pos, err_rot=s.err_rot,
               goal=goal, start=q)
    ctx.count("progress_attempts", M * K)
    ctx.seen("progress", [f.joint.type[0] for f in r.frames], v, svd, M, K, str(dt), ls is not None)


def stopping(ctx, rng):
    """Early stopping."""
    r, c, lim, q, t = problem(rng)
    near = rng.random() < 0.7
    if near:  # something that converges
        g = rng.uniform(-1, 1, (len(t), r.n))
        t = torch.tensor(np.stack([iks.fk(r, x) for x in g]))
        q = g[:, None] + 0.2 * rng.standard_normal(q.shape)
    T = pk.Transform3d(matrix=t)
    base = {"enforce_joint_limits": False, "regularlization": float(10 ** rng.uniform(-6, -2)), "lr": float(rng.choice([0.5, 1.0])), "pos_tolerance": 1e-2, "rot_tolerance": 3e-2}
    n = int(rng.choice([6, 12, 20]))
    run = lambda **kw: iks.solver(c, {**base, "max_iterations": n, **kw}, None, False, retry_configs=torch.tensor(q)).solve(T)  # noqa: E731
    full = run(early_stopping_no_improvement=None)
    ctx.expect(full.iterations == n, f"without early stopping all {n} iterations are used, not {full.iterations}")
    a = run(early_stopping_no_improvement=None, early_stopping_any_converged=True)
    if a.iterations < n:
        ctx.expect(bool(a.converged_any.all()), "stopping when any attempt converged leaves no target unsolved", iterations=a.iterations)
        b = run(early_stopping_no_improvement=None, max_iterations=a.iterations - 1)
        ctx.expect(bool(b.converged_any.all()), "stops only once every target was solved")
        if a.iterations >= 2:
            b = run(early_stopping_no_improvement=None, max_iterations=a.iterations - 2)
            ctx.expect(not bool(b.converged_any.all()), "stops as soon as every target is solved", iterations=a.iterations)
        ctx.count("stops")
    else:
        b = run(early_stopping_no_improvement=None, max_iterations=n - 2)
        ctx.expect(not bool(b.converged_any.all()), "stops as soon as every target is solved", iterations=a.iterations)
    # no improvement
    p = int(rng.integers(0, 5))
    it = {}
    for k in ("any", "all", 0.001, 0.999, 0.3, 0.6):
        it[k] = run(early_stopping_no_improvement=k, early_stopping_no_improvement_patience=p)
    for x, y in (("any", 0.001), ("all", 0.999)):
        ctx.expect(it[x].iterations == it[y].iterations and torch.equal(it[x].solutions, it[y].solutions), f"{x!r} means the same as ratio {y}", a=it[x].iterations, b=it[y].iterations)
    ctx.expect(it["all"].iterations <= it[0.6].iterations <= it[0.3].iterations <= it["any"].iterations <= n, "a larger demanded ratio stops no later", it={k: v.iterations for k, v in it.items()})
    more = run(early_stopping_no_improvement="any", early_stopping_no_improvement_patience=p + 2)
    ctx.expect(more.iterations >= it["any"].iterations, "more patience stops no earlier")
    ctx.count("stops", it["any"].iterations < n)
    if q.shape[:2] == (1, 1):  # the error history tells when to stop
        big = {"pos_tolerance": 0.0, "rot_tolerance": 0.0, "early_stopping_no_improvement": None}
        e = []
        for k in range(n):
            s = run(max_iterations=k, **big)
            e.append(float(torch.hypot(s.err_pos, s.err_rot)))
        got = run(early_stopping_no_improvement="any", early_stopping_no_improvement_patience=p, pos_tolerance=0.0, rot_tolerance=0.0).iterations
        m, cnt, run_len = e[0], 0, []
        for x in e:
            cnt = 0 if x < m or not run_len else cnt + 1
            m = min(m, x)
            run_len.append(cnt)
        if got < n:
            ctx.expect(run_len[got - 1] >= max(1, p), f"stopped after {got} iterations although the error last improved {run_len[got - 1]} iterations before (patience {p})", errors=e)
        ctx.expect(not any(x > p for x in run_len[:got - 1]), f"not stopped before iteration {got} although out of patience {p}", errors=e)
        ctx.count("histories")
    ctx.seen("stopping", [f.joint.type[0] for f in r.frames], near, n, p, q.shape)


def sampling(ctx, rng):
    """Sampling of initial configurations, zero iterations, refused arguments."""
    dt = F64 if rng.random() < 0.5 else F32
    r, c, lim = iks.robot(rng, dt)
    n = int(rng.choice([1, 3, 10])) if rng.random() < 0.5 else int(rng.integers(500, 3000))
    k = int(rng.integers(0, 4))
    seed = int(rng.integers(2 ** 31))
    mk = functools.partial(pk.PseudoInverseIK, c, num_retries=n, max_iterations=0, enforce_joint_limits=False)
    if k == 0:
        lo = rng.uniform(-3, 2, r.n)
        jl = torch.tensor(np.stack([lo, lo + rng.uniform(0, 4, r.n)], 1), dtype=dt)
        b = back(jl)
        if rng.random() < 0.4:  # some joints without one limit or both
            jl = jl.clone()
            jl[:, 0][torch.tensor(rng.random(r.n) < 0.4)] = -np.inf
            jl[:, 1][torch.tensor(rng.random(r.n) < 0.4)] = np.inf
            b = back(jl)
            ctx.count("unlimited_sampled", int(~np.isfinite(b).all()))
        if rng.random() < 0.2:
            jl = jl.numpy()
        make = lambda: mk(joint_limits=jl) if rng.random() < 0.5 else mk(joint_limits=jl, config_sampling_method="uniform")  # noqa: E731
        dist = [stats.uniform(b[d, 0], b[d, 1] - b[d, 0]).cdf if np.isfinite(b[d]).all() else None for d in range(r.n)]
    elif k == 1:
        make = lambda: mk(config_sampling_method="gaussian")  # noqa: E731
        dist = [stats.norm.cdf] * r.n
    elif k == 2:
        q0, sd = torch.tensor(rng.uniform(-2, 2, r.n), dtype=dt), float(10 ** rng.uniform(-1, 1))
        make = lambda: mk(config_sampling_method=pk.ik.gaussian_around_config(q0, sd))  # noqa: E731
        dist = [stats.norm(back(q0)[d], sd).cdf for d in range(r.n)]
    else:
        given, asked = torch.tensor(rng.standard_normal((n, r.n)), dtype=dt), []
        make = lambda: mk(config_sampling_method=lambda m: asked.append(m) or given)  # noqa: E731
        dist = None
    torch.manual_seed(seed)
    ik = make()
    M = int(rng.choice([1, 2]))
    t, _ = iks.targets(rng, r, lim, M, dt)
    s = ik.solve(pk.Transform3d(matrix=t))
    x = back(s.solutions)
    ctx.expect(s.solutions.dtype == dt and tuple(s.solutions.shape) == (M, n, r.n), f"{n} attempts per target in the robot's dtype: {tuple(s.solutions.shape)}")
    ctx.expect(ik.num_retries == n, "number of attempts")
    ctx.expect((x == x[:1]).all(), "sampled initial configurations are shared by the targets")
    if dist is None:
        ctx.expect(asked == [n] and torch.equal(s.solutions[0], given), "a sampling function is asked for the number of attempts and its answer is used", asked=asked)
    else:
        if k == 0:
            ctx.expect(np.isfinite(x).all(), "finite samples", x=x, limits=b)
            ctx.expect((x >= b[:, 0] - 1e-6).all() and (x <= b[:, 1] + 1e-6).all(), "uniform samples within the given limits", x=x, limits=b)
        if n >= 500:
            for d in range(r.n):
                if k == 0 and not 1e-3 < b[d, 1] - b[d, 0] < np.inf:
                    continue
                p = stats.kstest(x[0, :, d], dist[d]).pvalue
                ctx.expect(p > 1e-12, f"distribution of sampled joint {d}: p = {p:.2g}", form=k)
                if d:
                    rho = stats.spearmanr(x[0, :, d], x[0, :, d - 1])[0]
                    ctx.expect(abs(rho) < 8 / np.sqrt(n), f"joints are sampled independently: rank correlation {rho:.3f}")
            ctx.count("samples", n)
        torch.manual_seed(seed)
        y = ik.sample_configs(n)
        ctx.expect(tuple(y.shape) == (n, r.n) and y.dtype == dt, f"sample_configs({n}): {tuple(y.shape)} {y.dtype}")
        ctx.close(y, x[0], 1e-6 * (1 + np.abs(x[0])), "sample_configs with the same seed")
    ctx.refused(lambda: pk.PseudoInverseIK(c), "neither attempts nor initial configurations")
    ctx.refused(lambda: pk.PseudoInverseIK(c, num_retries=3), "uniform sampling without limits")
    ctx.refused(lambda: pk.PseudoInverseIK(c, num_retries=3, config_sampling_method="uniformly"), "unknown sampling method")
    ctx.refused(lambda: pk.PseudoInverseIK(c, retry_configs=torch.zeros(3, r.n + 1, dtype=dt)), "initial configurations of another robot")
    ctx.seen("sampling", k, n, r.n, M, str(dt))


def compiled(ctx, rng):
    """use_compile changes nothing (with cheap compiler backends: the guards and graphs are the same)."""
    if rng.random() > 0.03:
        return
    backend = "inductor" if ctx.tier == "thorough" and rng.random() < 0.15 else ("eager", "aot_eager")[rng.integers(2)]
    torch._dynamo.reset()
    real = torch.compile
    dt = F64
    r, c, lim = iks.robot(rng, dt, n=int(rng.choice([3, 5, 7])))
    kw, ls = iks.options(rng)
    kw.update(regularlization=float(10 ** rng.uniform(-2, 0)), max_iterations=int(rng.choice([1, 3, 5])), num_limit_refinement_iterations=int(rng.choice([0, 2])), lr=0.5)
    svd = bool(rng.random() < 0.5)
    K = int(rng.choice([1, 3]))
    q = torch.tensor(iks.draw(rng, lim, iks.prismatic(r), K))
    try:
        torch.compile = functools.partial(real, backend=backend)
        ik = iks.solver(c, kw, None, svd, retry_configs=q, use_compile=True)
    finally:
        torch.compile = real
    plain = iks.solver(c, kw, None, svd, retry_configs=q)
    for M in (2, 1, 4):
        t, _ = iks.targets(rng, r, lim, M, dt, kinds=("reach", "wild"))
        a, b = ik.solve(pk.Transform3d(matrix=t)), plain.solve(pk.Transform3d(matrix=t))
        for k in ("solutions", "err_pos", "err_rot"):
            x = back(getattr(b, k))
            ctx.close(getattr(a, k), x, 1e-6 * (1 + np.abs(x).max()), f"compiled IK: {k}", backend=backend, targets=M)
        ctx.count("compiled")
    ctx.seen("compiled", [f.joint.type[0] for f in r.frames], backend, svd, K)
    torch._dynamo.reset()


FAMILIES = [("steps", steps), ("progress", progress), ("line_search", line_search), ("stopping", stopping), ("sampling", sampling), ("compiled", compiled), ("progress2", progress), ("steps2", steps)]
