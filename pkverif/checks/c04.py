"""C04: calls have no side effects on inputs, earlier results, the model, or later calls."""
import copy

from ..env import F32, F64, Frame, Joint, Link, np, npy, pk, torch
from .. import gen, ops

ORACLE = "snapshots of every argument, model and earlier result, compared after every later call"
RULE = "distinct (operation, argument forms, position in the history) combinations whose arguments, model and earlier results were re-verified"
CONFIG = {"quick": {"cases": 900, "min": {"calls_monitored": 4000, "earlier_results_rechecked": 4000, "repeats_compared": 1500, "constructions_monitored": 250}},
          "thorough": {"cases": 12000, "seconds": 1500, "min": {"calls_monitored": 50000}}}


# ---- snapshots --------------------------------------------------------------------------
def snap(x, depth=0):
    """A value that compares equal exactly when x has not changed."""
    if torch.is_tensor(x):
        return ("t", str(x.dtype), tuple(x.shape), tuple(x.stride()), x.requires_grad, x.is_leaf and x.grad is not None, x.detach().clone().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, pk.Transform3d):
        return ("T", type(x).__name__, len(x), str(x.dtype), snap(x.get_matrix()))
    if isinstance(x, dict):
        return ("d", tuple((k, snap(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, depth + 1) for v in x))
    if isinstance(x, pk.SerialChain) or isinstance(x, pk.Chain):
        return ("c", model(x))
    if isinstance(x, pk.IKSolution):
        return ("ik", tuple((k, snap(getattr(x, k))) for k in ("solutions", "err_pos", "err_rot", "converged", "converged_any", "converged_pos", "converged_rot",
                                                              "converged_pos_any", "converged_rot_any", "iterations")))
    return ("v", repr(x))


def value(x):
    """Comparable content of a result (without strides)."""
    if torch.is_tensor(x):
        return ("t", str(x.dtype), tuple(x.shape), x.detach().clone().contiguous().numpy().copy())
    if isinstance(x, np.ndarray):
        return ("t", str(x.dtype), x.shape, x.copy())
    if isinstance(x, pk.Transform3d):
        return ("T", len(x), value(x.get_matrix()))
    if isinstance(x, dict):
        return ("d", tuple((k, value(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(value(v) for v in x))
    if isinstance(x, pk.IKSolution):
        return ("ik", tuple((k, value(getattr(x, k))) for k in ("solutions", "err_pos", "err_rot", "converged", "converged_any")))
    return ("v", repr(x) if isinstance(x, (str, int, float, bool, type(None))) else type(x).__name__)


def equal(a, b, tol):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind != "f":
            return bool((a == b).all())
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return a == b


def model(c):
    """Everything observable of a chain through its public queries."""
    n = c.n_joints
    th = torch.linspace(-1, 1, 2 * n, dtype=c.dtype).reshape(2, n) if n else torch.zeros(2, 0, dtype=c.dtype)
    fk = pk.Chain.forward_kinematics(c, th)
    return ("m", str(c), tuple(c.get_joint_parameter_names()), tuple(c.get_joint_parameter_names(False)), tuple(c.get_frame_names(False)), tuple(c.get_link_names()),
            snap(c.get_joint_limits()), snap(c.get_joint_velocity_limits()), snap(c.get_joint_effort_limits()), snap(c.low), snap(c.high),
            tuple((k, snap(v)) for k, v in fk.items()), tuple(snap(j.axis) + (j.name, j.joint_type, snap(j.limits)) for j in c.get_joints(False)),
            tuple((f.name, repr(f.visuals) if not f.visuals else len(f.visuals)) for f in c.get_links()), snap(c.get_all_frame_indices()))


def storages(x, acc):
    if torch.is_tensor(x):
        acc.add(x.untyped_storage().data_ptr())
    elif isinstance(x, pk.Transform3d):
        storages(x.get_matrix(), acc)
    elif isinstance(x, dict):
        for v in x.values():
            storages(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            storages(v, acc)
    return acc


def scribble(x):
    """Change a result in place, as a user may."""
    if torch.is_tensor(x):
        if not x.requires_grad and x.numel():
            y = x.detach()
            y.copy_(torch.full_like(y, 77) if y.dtype != torch.bool else ~y)
    elif isinstance(x, np.ndarray):
        x[...] = 77
    elif isinstance(x, pk.Transform3d):
        scribble(x.get_matrix())
    elif isinstance(x, list):
        if all(isinstance(v, (str, float, int, type(None))) for v in x):
            x.reverse()
            x.append("scribble")
        elif not any(isinstance(v, (pk.Link, pk.Joint)) if hasattr(pk, "Link") else False for v in x):
            for v in x:
                if torch.is_tensor(v):
                    scribble(v)
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()


class History:
    """Runs calls, checking after each one that arguments, models and all earlier results are as they were."""

    def __init__(self, ctx, models):
        self.ctx = ctx
        self.models = models
        self.model_snap = {k: model(v) for k, v in models.items()}
        self.kept = []  # (name, result, snapshot)
        self.n = 0

    def call(self, name, fn, args, forms="", keep=True):
        ctx = self.ctx
        before = [snap(a) for a in args]
        res = fn(*args)
        self.n += 1
        ctx.count("calls_monitored")
        for i, (a, b) in enumerate(zip(args, before)):
            ctx.expect(snap(a) == b, f"{name} changed its argument {i}", call=name, argument=i)
        for nm, r, s in self.kept:
            ctx.expect(snap(r) == s, f"the result of an earlier {nm} changed when {name} was called", earlier=nm, later=name)
            ctx.count("earlier_results_rechecked")
        ctx.seen(name, forms, min(self.n, 20))
        if keep and res is not None and not isinstance(res, (str,)):
            self.kept.append((name, res, snap(res)))
            if len(self.kept) > 25:
                self.kept.pop(0)
        return res

    def check_models(self, after):
        for k, c in self.models.items():
            self.ctx.expect(model(c) == self.model_snap[k], f"{after} changed the {k}", model=k)
            self.ctx.count("models_rechecked")


def chain_calls(rng, c, dtype):
    """name -> (fn, list of argument makers); the makers give fresh equal arguments every time."""
    names = c.get_joint_parameter_names()
    n = c.n_joints
    frames = c.get_frame_names(False)
    B = int(rng.choice([1, 2, 3]))
    qv = gen.configs(rng, n, B)

    def T():
        return torch.tensor(qv, dtype=dtype)

    def A():
        return qv.copy()

    def D():
        return {k: torch.tensor(qv[:, i], dtype=dtype) for i, k in enumerate(names)}

    def G():
        return torch.tensor(qv, dtype=dtype, requires_grad=True)

    forms = {"tensor": T, "array": A, "dict": D, "grad": G}
    if n:
        forms["1d"] = lambda: torch.tensor(qv[0], dtype=dtype)
        forms["list"] = lambda: [float(x) for x in qv[0]]
    sub = [str(x) for x in rng.permutation(frames)[: int(rng.integers(1, len(frames) + 1))]]
    calls = []
    for f, mk in forms.items():
        if f == "dict" and not n:
            continue
        calls += [(f"fk/{f}", c.forward_kinematics, [mk]), (f"clamp/{f}", c.clamp, [mk]), (f"ensure_tensor/{f}", c.ensure_tensor, [mk])]
    calls += [("fk_subset", lambda th, idx: pk.Chain.forward_kinematics(c, th, idx), [T, lambda: c.get_frame_indices(*sub)]),
              ("fk_tensor", c.forward_kinematics_tensor, [T]), ("fk_tensor_grad", c.forward_kinematics_tensor, [G]),
              ("fk_tensor_std", lambda th: c.forward_kinematics_tensor(th, analytical_grad=False), [G]),
              ("fk_backward", lambda th: torch.autograd.grad(c.forward_kinematics_tensor(th).sum(), th)[0], [G]),
              ("get_joint_parameter_names", c.get_joint_parameter_names, []), ("get_joint_parameter_names(False)", lambda: c.get_joint_parameter_names(False), []),
              ("get_joint_parameter_names(exclude_fixed=False)", lambda: c.get_joint_parameter_names(exclude_fixed=False), []),
              ("get_frame_names", c.get_frame_names, []), ("get_frame_names(False)", lambda: c.get_frame_names(exclude_fixed=False), []),
              ("get_link_names", c.get_link_names, []), ("get_joint_limits", c.get_joint_limits, []), ("get_joint_velocity_limits", c.get_joint_velocity_limits, []),
              ("get_joint_effort_limits", c.get_joint_effort_limits, []), ("get_all_frame_indices", c.get_all_frame_indices, []),
              ("get_frame_indices", lambda: c.get_frame_indices(*sub), []), ("get_frame_indices1", lambda: c.get_frame_indices(frames[-1]), []),
              ("get_joint_parent_frame_names", c.get_joint_parent_frame_names, []), ("print_tree", lambda: c.print_tree(do_print=False), []),
              ("joints_and_children", lambda: [(j.name, [x.name for x in ls]) for j, ls in c.get_joints_and_child_links()], []), ("str", lambda: str(c), []),
              ("find", lambda: [c.find_frame(f).name for f in sub] + [c.find_joint(j).name for j in names] + [c.find_link(x).name for x in c.get_link_names()], [])]
    if isinstance(c, pk.SerialChain):
        tool = rng.standard_normal(3)
        Tm = gen.transform(rng, none_ok=False)
        calls += [("jacobian", c.jacobian, [T]), ("jacobian/grad", c.jacobian, [G]), ("jacobian/dict", c.jacobian, [D]) if n else ("str", lambda: str(c), []),
                  ("jacobian+pose", lambda th: c.jacobian(th, ret_eef_pose=True), [T]), ("jacobian_tensor", c.jacobian_tensor, [T]),
                  ("jacobian_tensor/all", lambda th, al: c.jacobian_tensor(th, True, al), [T, lambda: c.forward_kinematics_tensor(T())]),
                  ("jacobian/tool", lambda th, p: c.jacobian(th, locations=p), [T, lambda: torch.tensor(tool, dtype=dtype)]),
                  ("jacobian/tool/grad", lambda th, p: c.jacobian(th, locations=p, ret_eef_pose=True), [G, lambda: torch.tensor(tool, dtype=dtype, requires_grad=True)]),
                  ("jacobian/tf", lambda th, p: c.jacobian(th, locations=p, ret_eef_pose=True), [T, lambda: pk.Transform3d(matrix=torch.tensor(Tm, dtype=dtype))]),
                  ("jacobian/tf32", lambda th, p: c.jacobian(th, locations=p), [T, lambda: pk.Transform3d(matrix=torch.tensor(Tm, dtype=F32))]),
                  ("fk_all", lambda th: c.forward_kinematics(th, end_only=False), [T])]
    return calls


def failing_calls(rng, c, dtype):
    """Calls that are refused; what they did before refusing must not matter to later calls."""
    names = c.get_joint_parameter_names()
    n = c.n_joints
    bad = {k: torch.tensor(rng.standard_normal(2), dtype=dtype) for k in names}
    out = [lambda: c.get_frame_indices("no such frame"), lambda: c.forward_kinematics_tensor(torch.full((2, n + 1), 9.0, dtype=dtype)),
           lambda: c.forward_kinematics({**bad, "no such joint": torch.ones(2, dtype=dtype)}), lambda: c.clamp({"no such joint": 1.0, **bad}),
           lambda: pk.SerialChain(c, "no such frame"), lambda: pk.SerialChain(c, c.get_frame_names(False)[-1], "no such frame"),
           lambda: c.forward_kinematics([9.0] * (n + 2)), lambda: c.ensure_tensor({k: v for k, v in list(bad.items())[:-1]} if n > 1 else {"no such joint": 1.0})]
    if isinstance(c, pk.SerialChain):
        out += [lambda: c.jacobian(torch.full((2, n + 1), 9.0, dtype=dtype)), lambda: c.jacobian(torch.zeros(2, n, dtype=dtype), locations=torch.zeros(3, 3, dtype=dtype)),
                lambda: c.jacobian({**bad, "no such joint": torch.ones(2, dtype=dtype)})]
    return out


def settings():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled(),
            np.geterr(), str(torch.get_default_device()) if hasattr(torch, "get_default_device") else "")


def play(ctx, rng, models, calls, length, tol, models_every=6, failing=(), fresh=None):
    h = History(ctx, models)
    first = {}
    env = settings()
    for step in range(length):
        if failing and rng.random() < 0.2:
            try:
                failing[rng.integers(len(failing))]()
            except Exception:
                ctx.count("refused_between")
        name, fn, mk = calls[rng.integers(len(calls))]
        args = [m() for m in mk]
        mode = rng.random()
        if "grad" not in name and "backward" not in name and "fk_tensor_std" not in name and mode < 0.3:
            with torch.no_grad() if mode < 0.2 else torch.inference_mode():
                v = value(h.call(name, fn, args, keep=mode < 0.2))
            ctx.count("without_gradients")
        else:
            v = value(h.call(name, fn, args))
        ctx.expect(settings() == env, f"{name} changed global settings of torch or numpy", call=name)
        if name in first:
            ctx.expect(equal(v, first[name], tol), f"repeating {name} gave another answer after {step} calls", call=name)
            ctx.count("repeats_compared")
        else:
            first[name] = v
        if step % models_every == 0:
            h.check_models(name)
    # change results in place, then ask everything again
    for nm, r, s in h.kept:
        if rng.random() < 0.7:
            scribble(r)
            ctx.count("results_scribbled")
    h.kept.clear()
    h.check_models("changing earlier results in place")
    for name, fn, mk in calls:
        if name in first:
            v = value(h.call(name, fn, [m() for m in mk]))
            ctx.expect(equal(v, first[name], tol), f"{name} gave another answer after earlier results were changed in place", call=name)
            ctx.count("repeats_compared")
    h.check_models("the whole history")
    if fresh is not None:  # what each call gives as the very first one
        for name in first:
            alone = fresh(name)
            if alone is not None:
                ctx.expect(equal(first[name], alone, tol), f"{name} gave another answer than as the very first call", call=name)
                ctx.count("first_calls_compared")


def chain_history(ctx, rng):
    dtype = F64 if rng.random() < 0.7 else F32
    r = gen.robot(rng, n=int(rng.integers(1, 9)))
    c = gen.to_chain(r, dtype)
    twin = gen.to_chain(r, dtype)
    models = {"chain": c}
    sets = [int(x) for x in rng.integers(1 << 30, size=int(rng.integers(1, 4)))]
    leafs = [f.name for f in r.frames[1:]]
    end = leafs[rng.integers(len(leafs))] if leafs else None

    def build(c, s):
        """All calls, on several sets of joint values."""
        out = []
        for k, x in enumerate(sets):
            out += [(f"{a}#{k}", b, m) for a, b, m in chain_calls(np.random.default_rng(x), c, dtype)]
            if s is not None:
                out += [(f"serial:{a}#{k}", b, m) for a, b, m in chain_calls(np.random.default_rng(x), s, dtype)]
        if s is not None:
            out += [("SerialChain", lambda: str(pk.SerialChain(c, end)), []), ("deepcopy", lambda: str(copy.deepcopy(c)), []),
                    ("SerialChain.to", lambda: str(pk.SerialChain(c, end).to(dtype=F32)), []), ("deepcopy.to", lambda: str(copy.deepcopy(c).to(dtype=F32)), [])]
        return out

    s = None
    failing = failing_calls(rng, c, dtype)
    if end:
        models["serial chain"] = s = pk.SerialChain(c, end)
        failing += failing_calls(rng, s, dtype)

    def fresh(name):
        if rng.random() < 0.5:
            return None
        c = gen.to_chain(r, dtype)
        fn, mk = next((f, m) for a, f, m in build(c, pk.SerialChain(c, end) if end else None) if a == name)
        return value(fn(*[m() for m in mk]))

    tol = 1e-12 if dtype == F64 else 1e-5
    play(ctx, rng, models, build(c, s), 36, tol, failing=failing, fresh=fresh)
    ctx.expect(model(c) == model(twin), "a used chain equals a freshly built one")


def function_history(ctx, rng):
    """Conversions, quaternion functions and transform operations, with views, gradients and hostile layouts as inputs."""
    dtype = F64 if rng.random() < 0.7 else F32
    cat = ops.catalogue(rng)
    calls = []
    for name in rng.permutation(list(cat))[:14]:
        make, fn = cat[str(name)]
        B = int(rng.choice([1, 2, 4]))
        arrays = make(rng, B)
        seed = int(rng.integers(1 << 30))

        def mk(i, arrays=arrays, seed=seed):
            def f():
                return gen.layout(np.random.default_rng([seed, i]), torch.tensor(arrays[i], dtype=dtype), grad=True)
            return f
        calls.append((str(name), fn, [mk(i) for i in range(len(arrays))]))
    play(ctx, rng, {}, calls, 24, 1e-12 if dtype == F64 else 1e-5)


def transform_history(ctx, rng):
    """Operations on a pool of transform objects: every transform keeps its matrix."""
    dtype = F64 if rng.random() < 0.7 else F32
    pool = []
    for _ in range(5):
        k = rng.integers(0, 5)
        n = int(rng.choice([1, 1, 2, 3]))
        if k == 0:
            pool.append(pk.Translate(torch.tensor(rng.standard_normal((n, 3)), dtype=dtype), dtype=dtype))
        elif k == 1:
            pool.append(pk.Scale(torch.tensor(rng.uniform(0.5, 2, (n, 3)), dtype=dtype), dtype=dtype))
        elif k == 2:
            pool.append(pk.Rotate(torch.tensor(ops.R(rng, n)[0], dtype=dtype), dtype=dtype))
        else:
            pool.append(pk.Transform3d(matrix=torch.tensor(ops.T(rng, n)[0], dtype=dtype)))
    h = History(ctx, {})
    pts = {n: torch.tensor(rng.standard_normal((n, 4, 3)), dtype=dtype) for n in (1, 2, 3)}

    def ok(a, b):
        return len(a) == len(b) or 1 in (len(a), len(b))

    for step in range(25):
        a, b = pool[rng.integers(len(pool))], pool[rng.integers(len(pool))]
        k = int(rng.integers(0, 15))
        n = len(a)
        calls = {0: ("compose", lambda x, y: x.compose(y), [a, b] if ok(a, b) else [a, a]), 1: ("inverse", lambda x: x.inverse(), [a]), 2: ("stack", lambda x, y: x.stack(y), [a, b]),
                 3: ("getitem", lambda x: x[0], [a]), 4: ("clone", lambda x: x.clone(), [a]), 5: ("to32", lambda x: x.to("cpu", dtype=F32), [a]), 6: ("to copy", lambda x: x.to("cpu", copy=True), [a]),
                 7: ("transform_points", lambda x, p: x.transform_points(p), [a, pts[n] if n in pts else pts[1]]), 8: ("transform_normals", lambda x, p: x.transform_normals(p), [a, pts[n] if n in pts else pts[1]]),
                 9: ("translate", lambda x, v: x.translate(v), [a, torch.tensor(rng.standard_normal((1, 3)), dtype=dtype)]), 10: ("scale", lambda x: x.scale(2.0), [a]),
                 11: ("rotate", lambda x, R: x.rotate(R), [a, torch.tensor(ops.R(rng, 1)[0], dtype=dtype)]), 12: ("rotate_axis_angle", lambda x, v: x.rotate_axis_angle(v), [a, torch.tensor([30.0])]),
                 13: ("repr", lambda x: repr(x), [a]), 14: ("sample_perturbations", lambda x: x.sample_perturbations(4, 0.1, 0.1), [a[0]])}
        name, fn, args = calls[k]
        snaps = [snap(p) for p in pool]
        res = h.call(name, fn, args)
        ctx.expect([snap(p) for p in pool] == snaps, f"{name} changed a transform", call=name)
        if isinstance(res, pk.Transform3d):
            # the result is independent of its source: changing it must leave the source alone, unless it is the source itself
            if name in ("clone", "to copy", "compose", "inverse", "stack"):
                before = [snap(p) for p in pool]
                res2 = fn(*args)
                scribble(res2)
                ctx.expect([snap(p) for p in pool] == before, f"changing the result of {name} in place changed its source", call=name)
                ctx.count("results_scribbled")
            if len(res) <= 3 and res.dtype == dtype and rng.random() < 0.4 and torch.isfinite(res.get_matrix()).all():
                pool[rng.integers(len(pool))] = res


def ik_history(ctx, rng):
    """Solving leaves targets, initial configurations, the chain and earlier solutions alone."""
    r, s = gen.serial_robot_pair(rng, n=int(rng.integers(3, 7)), dtype=F64, mix=[0.1, 0.8, 0.1], min_joints=2)
    n = r.n
    init = torch.tensor(rng.uniform(-1, 1, (4, n)))
    lim = torch.tensor(np.stack([-np.ones(n), np.ones(n)], 1))
    keep_init, keep_lim = init.clone(), lim.clone()
    cls = (pk.PseudoInverseIK, pk.PseudoInverseIKWithSVD)[rng.integers(2)]
    ik = cls(s, retry_configs=init, joint_limits=lim, max_iterations=int(rng.integers(0, 8)), early_stopping_any_converged=bool(rng.integers(2)),
             line_search=pk.BacktrackingLineSearch() if rng.random() < 0.4 else None, clamp_to_limits=bool(rng.integers(2)), enforce_joint_limits=bool(rng.integers(2)))
    h = History(ctx, {"chain": s})
    goals = [s.forward_kinematics(torch.tensor(rng.uniform(-1, 1, (int(rng.integers(1, 4)), n)))) for _ in range(3)]
    first = {}
    for step in range(6):
        k = int(rng.integers(3))
        sol = h.call(f"solve{k}", ik.solve, [goals[k]])
        v = value(sol)
        if k in first:
            ctx.expect(equal(v, first[k], 1e-9), "solving the same target again gave another solution")
            ctx.count("repeats_compared")
        first.setdefault(k, v)
        ctx.expect(torch.equal(init, keep_init) and torch.equal(lim, keep_lim), "solving changed the initial configurations or limits given to the solver")
    h.check_models("solve")


def loaders(ctx, rng):
    """Loading the same text twice gives equal, independent robots."""
    txt = """<robot name="r"><link name="a"/><link name="b"/><link name="c"/>
      <joint name="j1" type="revolute"><parent link="a"/><child link="b"/><origin xyz="%f 0 1" rpy="0.1 %f 0.3"/><axis xyz="0 1 1"/><limit lower="-1" upper="2" effort="3" velocity="4"/></joint>
      <joint name="j2" type="prismatic"><parent link="b"/><child link="c"/><axis xyz="1 0 0"/><limit lower="0" upper="%f" effort="3" velocity="4"/></joint></robot>""" % tuple(rng.uniform(0.1, 1, 3))
    a = pk.build_chain_from_urdf(txt)
    m = model(a)
    b = pk.build_chain_from_urdf(txt)
    ctx.expect(model(b) == m, "loading twice gives equal robots")
    b.to(dtype=F64)
    b.get_joint_limits()[0].append(3)
    s = pk.SerialChain(a, "c", "b")
    s.to(dtype=F64)
    s.jacobian(torch.zeros(1, s.n_joints, dtype=F64))
    ctx.expect(model(a) == m, "using another robot loaded from the same text or extracted from this one changed it")
    ctx.expect(model(pk.build_chain_from_urdf(txt)) == m, "loading again gives the same robot")
    ctx.count("models_rechecked", 3)
    e = torch.tensor(rng.standard_normal((2, 3)))
    ctx.count("calls_monitored")


def construction(ctx, rng):
    """Building joints, links, frames, robots, transforms and solvers leaves what they are built from alone."""
    dtype = (F32, F32, F64)[rng.integers(3)]
    n = int(rng.choice([1, 1, 2, 3]))

    def same(before, args, what):
        ctx.expect(equal(tuple(value(a) for a in args), before, 0), f"{what} changed what it was built from", dtype=str(dtype))
        ctx.count("constructions_monitored")

    def form(x, forms=3):
        k = int(rng.integers(forms))
        return gen.layout(rng, torch.tensor(x, dtype=dtype)) if k == 0 else np.array(x, dtype=np.float32 if dtype == F32 else float) if k == 1 else torch.tensor(x, dtype=F64 if dtype == F32 else F32)

    # joints: axes that are not of unit length, as tensor of the joint's dtype, another dtype, or array
    axis, lim = form(rng.standard_normal(3) * rng.uniform(0.5, 4)), [float(-rng.uniform()), float(rng.uniform())]
    off = pk.Transform3d(matrix=torch.tensor(ops.T(rng, 1)[0], dtype=dtype))
    args = (axis, lim, off.get_matrix())
    before = tuple(value(a) for a in args)
    j = Joint("q", offset=off, joint_type=("revolute", "prismatic")[rng.integers(2)], axis=axis, dtype=dtype, limits=lim, velocity_limits=lim)
    same(before, args, "Joint")
    link = Link("l", offset=off)
    kids = [Frame("k", link=Link("kl"), joint=Joint("p", joint_type="revolute", axis=axis, dtype=dtype))]
    f = Frame("f", link=link, joint=j, children=kids)
    f.add_child(Frame("more"))
    ctx.expect(len(kids) == 1, "adding a child to a frame changed the list its children were given in")
    root = Frame("root")
    root.add_child(f)
    tree = str(root)
    c = pk.Chain(root, dtype=(F32, F64)[rng.integers(2)])
    same(before, args, "Chain")
    ctx.expect(str(root) == tree and j.limits is lim and f.link is link and f.joint is j, "Chain changed the frames it was built from")
    m = model(c)
    th = form(rng.standard_normal((2, 2)), 1)
    keep = value(th)
    f.get_transform(th[:, 0].to(f.joint.axis.dtype))
    j.clamp(th[:, 0])
    s = pk.SerialChain(c, "k")
    s.to(dtype=F64)
    s.forward_kinematics(th.to(F64))
    ctx.expect(equal(value(th), keep, 0), "using a frame changed the joint values")
    same(before, args, "SerialChain")
    ctx.expect(model(c) == m, "extracting a serial robot changed the full one")
    # transforms
    R, p, M = ops.R(rng, n)[0], rng.standard_normal((n, 3)), ops.T(rng, n)[0]
    q = pk.matrix_to_quaternion(torch.tensor(R)).numpy()
    for what, fn, raw in (("Transform3d(matrix)", lambda a: pk.Transform3d(matrix=a, dtype=dtype), [M]), ("Transform3d(pos, rot)", lambda a, b: pk.Transform3d(pos=a, rot=b, dtype=dtype), [p, R]),
                          ("Transform3d(matrix, pos, rot)", lambda a, b, d: pk.Transform3d(matrix=a, pos=b, rot=d, dtype=dtype), [M, p, R]),
                          ("Transform3d(matrix, quaternion)", lambda a, b: pk.Transform3d(matrix=a, rot=b, dtype=dtype), [M, q]), ("Translate", lambda a: pk.Translate(a, dtype=dtype), [p]),
                          ("Transform3d(quaternion)", lambda a: pk.Transform3d(rot=a, dtype=dtype), [q * 2]), ("Rotate(quaternion)", lambda a: pk.Rotate(a, dtype=dtype), [q * 2]),
                          ("Scale", lambda a: pk.Scale(a, dtype=dtype), [np.abs(p) + 0.1]), ("Rotate", lambda a: pk.Rotate(a, dtype=dtype), [R]),
                          ("Translate(x, y, z)", lambda a, b, d: pk.Translate(a, b, d, dtype=dtype), [p[:, 0], p[:1, 1], p[:, 2]]), ("RotateAxisAngle", lambda a: pk.RotateAxisAngle(a, "Y"), [p[:, 0]])):
        # arrays are only taken by the general constructor
        xs = [form(x) if what.startswith("Transform3d") and "matrix" not in what else gen.layout(rng, torch.tensor(x, dtype=dtype)) for x in raw]
        keep = [value(x) for x in xs]
        t = fn(*xs)
        for use in (lambda: t.inverse(), lambda: t.translate(1.0, 2.0, 3.0), lambda: t.to("cpu", dtype=F64), lambda: t.compose(t), lambda: t.transform_points(torch.zeros(2, 3, dtype=t.dtype)), lambda: t.stack(t)):
            use()
        ctx.expect(all(equal(value(x), k, 0) for x, k in zip(xs, keep)), f"{what} changed what it was built from", shapes=[x.shape for x in raw])
        ctx.count("constructions_monitored")
    ctx.seen("construction", str(dtype), n, type(axis).__name__)


FAMILIES = [("chain_history", chain_history), ("function_history", function_history), ("transform_history", transform_history), ("chain_history", chain_history), ("ik_history", ik_history),
            ("loaders", loaders), ("construction", construction)]
