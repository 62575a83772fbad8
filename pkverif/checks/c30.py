"""C30: transform constructors build the documented matrices."""
import math
import warnings

from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..ops import CONVENTIONS  # noqa: F401
from ..rots import EPS, T, aa2R, back, q2R

ORACLE = "documented matrices computed independently in float64; central differences for gradients"
RULE = "distinct (constructor, argument forms, batch sizes, dtype) situations"
CONFIG = {"quick": {"cases": 20000, "min": {"constructed": 4000, "gradients": 800, "refusals_observed": 4000}},
          "thorough": {"cases": 1000000, "seconds": 700}}


def xyz(a):
    """Rotation of XYZ Euler angles."""
    e = np.eye(3)
    return aa2R(a[..., :1] * e[0]) @ aa2R(a[..., 1:2] * e[1]) @ aa2R(a[..., 2:] * e[2])


def form(rng, v, dt, forms=("tensor", "list", "array")):
    """The same numbers as a tensor, nested list or array."""
    f = forms[rng.integers(len(forms))]
    if f == "tensor":
        return f, T(v, dt, rng)
    if f == "list":
        return f, np.asarray(v).tolist()
    if f == "tuple":
        return f, tuple(np.asarray(v).tolist())
    return f, np.array(v)


def rounded(v, dt):
    return np.asarray(torch.tensor(np.asarray(v), dtype=dt).to(F64))


def rot_arg(rng, n, dt):
    """(form name, argument, rotation matrices (1 or n, 3, 3)); n None means a single rotation."""
    k = ("matrix", "quaternion", "euler")[rng.integers(3)]
    shp = () if n is None else (n,)
    if k == "euler" and n == 3:
        k = "quaternion"
    if k == "matrix":
        v = rots.fill(rng, rots.one_R, shp, (3, 3))
        R = rounded(v, dt)
    elif k == "quaternion":
        v = rots.fill(rng, rots.one_q, shp, (4,))
        R = q2R(rounded(v, dt))
    else:
        v = rng.uniform(-np.pi, np.pi, (*shp, 3)) * (rng.random((*shp, 3)) < 0.85)
        R = xyz(rounded(v, dt))
    f, a = form(rng, v, dt, ("tensor", "list", "array", "tuple") if n is None else ("tensor", "list", "array"))
    return k + ":" + f, a, R.reshape(-1, 3, 3)


def ok(ctx, t, want, dt, msg, k=10.0, dtype=None, **d):
    want = np.asarray(want)
    m = t.get_matrix()
    ctx.expect(len(t) == want.shape[0], f"{msg}: {len(t)} transforms instead of {want.shape[0]}", **d)
    ctx.expect(m.dtype == (dtype or dt) and t.dtype == m.dtype, f"{msg}: dtype {t.dtype}, matrix {m.dtype} instead of {dtype or dt}", **d)
    ctx.close(m, want, k * EPS[dt] * (1 + np.abs(want).max()), msg, **d)
    ctx.close(m[..., 3, :], np.broadcast_to([0.0, 0, 0, 1], (*want.shape[:-2], 4)), 0.0, msg + ": last row")
    ctx.count("constructed")


def general(ctx, rng):
    dt = rots.pick_dtype(rng)
    n = None if rng.random() < 0.45 else int(rng.choice([1, 2, 3, 4, 6]))
    which = int(rng.integers(0, 8))
    kw, sig = {"dtype": dt}, []
    N = 1 if n is None else n
    want = np.broadcast_to(np.eye(4), (N, 4, 4)).copy()
    if which & 1:
        M = np.stack([gen.transform(rng, none_ok=False, scale=3.0) for _ in range(N)])
        m = T(M, dt, rng)
        want = back(m).copy()
        kw["matrix"] = m[0] if n is None else m
        sig.append("matrix")
    if which & 2:
        v = rng.uniform(-5, 5, (3,) if n is None else (n, 3)) * (rng.random((3,) if n is None else (n, 3)) < 0.9)
        if rng.random() < 0.2:
            v = np.round(v)
        f, kw["pos"] = form(rng, v, dt, ("tensor", "list", "array", "tuple") if n is None else ("tensor", "list", "array"))
        want[:, :3, 3] = rounded(v, dt)
        sig.append("pos:" + f)
    if which & 4:
        f, kw["rot"], R = rot_arg(rng, n, dt)
        want[:, :3, :3] = R
        sig.append("rot:" + f)
    if not which:
        N = int(rng.integers(1, 5))
        kw["default_batch_size"] = N
        want = np.broadcast_to(np.eye(4), (N, 4, 4))
    keep = {k: v.detach().clone() if torch.is_tensor(v) else np.array(v) for k, v in kw.items() if k in ("matrix", "pos", "rot")}
    t = pk.Transform3d(**kw)
    ok(ctx, t, want, dt, f"Transform3d({', '.join(sig)})", n=n)
    for k, v in keep.items():
        ctx.close(np.asarray(kw[k]) if not torch.is_tensor(kw[k]) else kw[k], v, 0.0, f"argument {k} unchanged")
    if "rot" in kw and n is not None and n > 1:  # element by element the same
        i = int(rng.integers(n))
        a = {k: v[i] if k in ("matrix", "pos", "rot") else v for k, v in kw.items()}
        ctx.close(pk.Transform3d(**a).get_matrix()[0], t.get_matrix()[i], 4 * EPS[dt] * (1 + np.abs(want).max()), "one transform of a batch by itself")
    ctx.seen("Transform3d", tuple(sig), n, str(dt))


def coord(rng, n, dt, lo=-3, hi=3):
    """One coordinate in any accepted form: (form, argument, values (1 or n))."""
    k = int(rng.integers(0, 5))
    if k == 0:
        v = float(rng.uniform(lo, hi))
        return "number", v, rounded([v], dt)
    if k == 1:
        v = int(rng.integers(max(1, int(lo)), max(3, int(hi)) + 1))
        return "int", v, np.array([float(v)])
    if k == 2:
        t = torch.tensor(rng.uniform(lo, hi), dtype=dt)
        return "scalar", t, back(t)[None]
    m = n if k == 3 else 1
    t = T(rng.uniform(lo, hi, m), dt, rng)
    return f"vector{'N' if k == 3 else 1}", t, back(t)


def translate_scale(ctx, rng):
    dt = rots.pick_dtype(rng)
    n = int(rng.choice([1, 2, 3, 5]))
    scale = rng.random() < 0.5
    lo = 0.2 if scale and rng.random() < 0.6 else -3
    mag = float(10.0 ** rng.choice([-6, -3, 0, 0, 0, 0, 3, 6]))
    k = int(rng.integers(0, 4))
    if k == 0:
        a = T(rng.uniform(lo, 3, (n, 3)) * mag, dt, rng)
        args, v, sig = (a,), back(a), ("N3",)
    elif k == 1 and scale:
        f, a, v1 = coord(rng, n, dt, lo * mag, 3 * mag)
        args, v, sig = (a,), np.repeat(v1[:, None], 3, 1), (f,)
    else:
        cs = [coord(rng, n, dt, lo * mag, 3 * mag) for _ in range(3)]
        N = max(len(c[2]) for c in cs)
        args, v, sig = tuple(c[1] for c in cs), np.stack([np.broadcast_to(c[2], (N,)) for c in cs], 1), tuple(c[0] for c in cs)
    want = np.broadcast_to(np.eye(4), (len(v), 4, 4)).copy()
    if scale:
        want[:, range(3), range(3)] = v
    else:
        want[:, :3, 3] = v
    cls, name = (pk.Scale, "scale") if scale else (pk.Translate, "translate")
    if len(args) == 3 and rng.random() < 0.3:
        t = cls(x=args[0], y=args[1], z=args[2], dtype=dt)
    else:
        t = cls(*args, dtype=dt)
    ok(ctx, t, want, dt, f"{cls.__name__}({', '.join(sig)})")
    if (v == 0).any():
        return
    held = back(t.get_matrix())
    ctx.close((held[:, range(3), range(3)] if scale else held[:, :3, 3]) / v, np.ones(v.shape), 4 * EPS[dt], f"{cls.__name__}({', '.join(sig)}), relative to each entry", v=v)
    # as a step: composes on the right
    B = np.stack([gen.transform(rng, none_ok=False) for _ in range(len(v) if rng.random() < 0.5 else 1)])
    b = T(B, dt)
    ok(ctx, getattr(pk.Transform3d(matrix=b), name)(*args), back(b) @ want, dt, f".{name}({', '.join(sig)})")
    inv = want.copy()
    if scale:
        inv[:, range(3), range(3)] = 1 / v
    else:
        inv[:, :3, 3] = -v
    ok(ctx, t.inverse(), inv, dt, f"{cls.__name__} inverse", 20)
    ctx.close((back(t.inverse().get_matrix())[:, range(3), range(3)] * v) if scale else back(t.inverse().get_matrix())[:, :3, 3] / -v, np.ones(v.shape), 20 * EPS[dt], f"{cls.__name__} inverse, relative to each entry", v=v)
    ctx.seen(cls.__name__, sig, n, str(dt))


def rotate(ctx, rng):
    dt = rots.pick_dtype(rng)
    n = None if rng.random() < 0.4 else int(rng.choice([1, 2, 4, 5]))
    f, a, R = rot_arg(rng, n, dt)
    want = np.broadcast_to(np.eye(4), (len(R), 4, 4)).copy()
    want[:, :3, :3] = R
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        t = pk.Rotate(a, dtype=dt)
    ctx.expect(not [x for x in w if "valid rotation" in str(x.message)], "no warning for a valid rotation", R=R)
    ok(ctx, t, want, dt, f"Rotate({f})")
    B = np.stack([gen.transform(rng, none_ok=False) for _ in range(len(R) if rng.random() < 0.5 else 1)])
    b = T(B, dt)
    ok(ctx, pk.Transform3d(matrix=b).rotate(a), back(b) @ want, dt, f".rotate({f})")
    ok(ctx, t.inverse(), np.swapaxes(want, -1, -2), dt, "Rotate inverse")
    # something that is not a rotation is warned about
    bad = T(np.diag([1, 1, -1.0]) if rng.random() < 0.5 else gen.rotation(rng) * (1 + 10 ** rng.uniform(-2, 0)), dt)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        pk.Rotate(bad, dtype=dt)
    ctx.expect(any("valid rotation" in str(x.message) for x in w), "a warning for a matrix that is not a rotation", R=bad)
    ctx.seen("Rotate", f, n, str(dt))


def axis_angle(ctx, rng):
    n = int(rng.choice([1, 2, 4]))
    dt = rots.pick_dtype(rng)
    deg = rng.random() < 0.5
    k = int(rng.integers(0, 4))
    hi = (400 if deg else 7) * float(10.0 ** rng.choice([-6, -4, -2, -1, 0, 0, 0, 0, 1]))
    if k == 0:
        a = float(rng.uniform(-hi, hi))
        v = np.array([a])
    elif k == 1:
        a = int(rng.integers(-max(hi, 2), max(hi, 2)))
        v = np.array([float(a)])
    elif k == 2:
        a = torch.tensor(rng.uniform(-hi, hi), dtype=dt)
        v = back(a)[None]
    else:
        a = T(rng.uniform(-hi, hi, n), dt, rng)
        v = back(a)
    if rng.random() < 0.2 and k == 0:
        a = float(rng.choice([0, 90, 180, 360, -90])) if deg else float(rng.choice([0, np.pi, np.pi / 2]))
        v = np.array([a])
    ax = "XYZxyz"[rng.integers(6)]
    th = np.deg2rad(v) if deg else v
    want = np.broadcast_to(np.eye(4), (len(v), 4, 4)).copy()
    want[:, :3, :3] = aa2R(th[:, None] * np.eye(3)["XYZ".index(ax.upper())])
    kw = {"axis": ax}
    if not deg or rng.random() < 0.5:
        kw["degrees"] = deg
    if ax in "Xx" and rng.random() < 0.3:
        kw.pop("axis")
    t = pk.RotateAxisAngle(a, **kw)
    m = t.get_matrix()
    ctx.expect(len(t) == len(v) and t.dtype == m.dtype, "axis rotation length and dtype")
    ctx.close(m, want, 2e-6 * (1 + np.abs(th).max() * (dt == F32)), f"RotateAxisAngle({ax}, degrees={deg})", angle=v)
    B = np.stack([gen.transform(rng, none_ok=False) for _ in range(len(v) if rng.random() < 0.5 else 1)])
    b = T(B, dt)
    s = pk.Transform3d(matrix=b).rotate_axis_angle(a, **kw)
    ctx.expect(s.dtype == dt, "step keeps the dtype")
    ctx.close(s.get_matrix(), back(b) @ want, 1e-5 * (1 + np.abs(th).max() * (dt == F32)), f".rotate_axis_angle({ax}, degrees={deg})", angle=v)
    ctx.close(t.inverse().get_matrix(), np.swapaxes(want, -1, -2), 2e-6 * (1 + np.abs(th).max() * (dt == F32)), "inverse of an axis rotation")
    ctx.count("constructed", 2)
    ctx.seen("RotateAxisAngle", k, ax, deg, tuple(kw), n, str(dt))


def steps(ctx, rng):
    """Building step by step composes on the right."""
    dt = rots.pick_dtype(rng)
    n = int(rng.choice([1, 2, 3]))
    t, m, names = pk.Transform3d(dtype=dt), np.eye(4)[None], []
    f32 = dt == F32
    for _ in range(int(rng.integers(1, 6))):
        k = int(rng.integers(0, 5))
        N = n if rng.random() < 0.5 else 1
        E4 = np.broadcast_to(np.eye(4), (N, 4, 4)).copy()
        if k == 0:
            x = T(rng.uniform(-2, 2, (N, 3)), dt)
            E4[:, :3, 3] = back(x)
            t = t.translate(x)
        elif k == 1:
            x = [float(c) for c in rng.uniform(-2, 2, 3)]
            E4 = E4[:1]
            E4[:, :3, 3] = rounded(x, dt)
            t = t.translate(*x)
        elif k == 2:
            x = T(rng.uniform(0.5, 2, (N,)), dt)
            E4[:, range(3), range(3)] = back(x)[:, None]
            t = t.scale(x)
        elif k == 3:
            f, a, R = rot_arg(rng, N if N != 3 else None, dt)
            E4 = np.broadcast_to(np.eye(4), (len(R), 4, 4)).copy()
            E4[:, :3, :3] = R
            t = t.rotate(a)
        else:
            a = float(rng.uniform(-180, 180))
            E4[:, :3, :3] = aa2R(np.array([[0, 0, np.deg2rad(a)]]))
            E4 = E4[:1]
            t = t.rotate_axis_angle(a, "Z")
            f32 = True
        if m.shape[0] != 1 and E4.shape[0] != 1 and m.shape[0] != E4.shape[0]:
            return
        m = m @ E4
        names.append(k)
    ctx.expect(len(t) == len(m) and t.dtype == dt and t.get_matrix().dtype == dt, "built transform length and dtype", steps=names)
    ctx.close(t.get_matrix(), m, (1e-5 if f32 else 1e-13) * (1 + np.abs(m).max()) * 4, "built step by step", steps=names)
    ctx.count("constructed")
    ctx.seen("steps", tuple(names), n, str(dt))


def gradients(ctx, rng):
    n = int(rng.choice([1, 2, 4]))
    dt = F64

    def make():
        k = int(rng.integers(0, 9))
        if k == 0:
            q = rots.fill(rng, rots.one_q, (n,), (4,))
            return "rot+pos", [q, rng.standard_normal((n, 3))], lambda q, p: pk.Transform3d(rot=q, pos=p, dtype=dt), False
        if k == 1 and n != 3:
            return "euler+pos", [rng.uniform(-1, 1, (n, 3)), rng.standard_normal((n, 3))], lambda e, p: pk.Transform3d(rot=e, pos=p, dtype=dt), False
        if k == 2:
            return "matrix rot+pos", [rots.fill(rng, rots.one_R, (n,), (3, 3)), rng.standard_normal((n, 3))], lambda e, p: pk.Transform3d(rot=e, pos=p, dtype=dt), False
        if k == 3:
            return "scale-translate-scale", [rng.uniform(0.5, 2, n), rng.standard_normal((n, 3)), rng.uniform(0.5, 2, (n, 3))], \
                lambda a, b, c: pk.Transform3d(dtype=dt).scale(a).translate(b).scale(c), False
        if k == 4:
            return "translate xyz", [rng.standard_normal(n), rng.standard_normal(()), rng.standard_normal(1)], lambda a, b, c: pk.Translate(a, b, c, dtype=dt), False
        if k == 5:
            return "scale xyz inverse", [rng.uniform(0.5, 2, n), rng.uniform(0.5, 2, ()), rng.uniform(0.5, 2, 1)], lambda a, b, c: pk.Scale(a, b, c, dtype=dt).inverse(), False
        if k == 6:
            return "axis angle", [rng.uniform(-100, 100, n)], lambda a: pk.Transform3d(dtype=dt).rotate_axis_angle(a, "Y"), True
        if k == 7:
            return "rotate", [rots.fill(rng, rots.one_q, (n,), (4,))], lambda q: pk.Transform3d(dtype=dt).rotate(q), False
        M = np.stack([gen.transform(rng, none_ok=False) for _ in range(n)])
        return "matrix+pos inverse", [M, rng.standard_normal((n, 3))], lambda m, p: pk.Transform3d(matrix=m, pos=p, dtype=dt).inverse(), False

    name, xs, f, rough = make()
    P = T(rng.standard_normal((n, 3, 3)), dt)
    W = T(rng.standard_normal((n, 3, 3)), dt)
    ts = [torch.tensor(x, dtype=dt, requires_grad=True) for x in xs]

    def loss(ts):
        t = f(*ts)
        return (t.transform_points(P) * W).sum()

    try:
        gs = torch.autograd.grad(loss(ts), ts, allow_unused=True)
    except RuntimeError as e:
        ctx.expect(False, f"gradients flow through {name}: {e}")
    h = 1e-6 if not rough else 1e-1
    for i, (g, x) in enumerate(zip(gs, xs)):
        ctx.expect(g is not None and bool(torch.isfinite(g).all()), f"a finite gradient reaches parameter {i} of {name}")
        d = rng.standard_normal(np.shape(x))
        if name in ("rot+pos", "rotate") and i == 0:
            d = d - (d * x).sum(-1, keepdims=True) * x
        if np.ndim(x) == 3 and np.shape(x)[-1] == 3:
            d = rots.hats(rng.standard_normal((n, 3))) @ x
        if np.ndim(x) == 3 and np.shape(x)[-1] == 4:
            d[:, 3] = 0
            d[:, :, 3] = 0
        if rough:
            d = np.sign(d)
        with torch.no_grad():
            lp = [torch.tensor(x + h * d if j == i else y, dtype=dt) for j, y in enumerate(xs)]
            lm = [torch.tensor(x - h * d if j == i else y, dtype=dt) for j, y in enumerate(xs)]
            num = float(loss(lp) - loss(lm)) / (2 * h)
        ana = float((back(g) * d).sum())
        ctx.close(np.array(ana), np.array(num), (1e-6 if not rough else 1e-4) * (10 + abs(num)), f"gradient of {name}", parameter=i)
        ctx.count("gradients")
    ctx.seen("gradients", name, n)


def refusals(ctx, rng):
    dt = rots.pick_dtype(rng)
    z = lambda *s: torch.zeros(s, dtype=dt)  # noqa: E731
    for s in [(2,), (4,), (3, 2), (2, 4), (5,)]:
        ctx.refused(lambda: pk.Transform3d(pos=z(*s), dtype=dt), f"position of shape {s}")
    for s in [(2,), (5,), (2, 2), (4, 5), (2, 3, 2)]:
        ctx.refused(lambda: pk.Transform3d(rot=z(*s), dtype=dt), f"rotation of shape {s}")
    R = lambda *s: T(rots.fill(rng, rots.one_R, s, (3, 3)), dt)  # noqa: E731
    a, b = (int(x) for x in rng.permutation([2, 3, 4, 5])[:2])
    ctx.refused(lambda: pk.Transform3d(rot=R(a), pos=z(b, 3), dtype=dt), f"{a} rotations and {b} positions")
    ctx.refused(lambda: pk.Transform3d(matrix=z(a, 4, 4), pos=z(b, 3), dtype=dt), f"{a} matrices and {b} positions")
    ctx.refused(lambda: pk.Transform3d(matrix=z(a, 4, 4), rot=R(b), dtype=dt), f"{a} matrices and {b} rotations")
    for s in [(a, 2), (a, 4), (2, 3, 3)]:
        ctx.refused(lambda: pk.Translate(z(*s), dtype=dt), f"translation of shape {s}")
        ctx.refused(lambda: pk.Scale(z(*s), dtype=dt), f"scale of shape {s}")
    ctx.refused(lambda: pk.Translate(z(a, 3), 1.0, 2.0, dtype=dt), "a translation tensor and more coordinates")
    for kw in ({"y": 1.0}, {"z": 1.0}, {"y": z(a)}, {"z": 0.0}):
        ctx.refused(lambda: pk.Translate(z(a, 3), **kw, dtype=dt), "a translation tensor and one more coordinate")
        ctx.refused(lambda: pk.Scale(z(a, 3), **kw, dtype=dt), "a scale tensor and one more coordinate")
    ctx.refused(lambda: pk.Scale(z(a, 3), 1.0, 2.0, dtype=dt), "a scale tensor and more coordinates")
    ctx.refused(lambda: pk.Translate(1.0, dtype=dt), "a single coordinate as translation")
    ctx.refused(lambda: pk.Translate(1.0, 2.0, dtype=dt), "two coordinates as translation")
    ctx.refused(lambda: pk.Scale(1.0, 2.0, dtype=dt), "two scales")
    ctx.refused(lambda: pk.Translate(z(a), z(b), z(1), dtype=dt), f"coordinates of sizes {a} and {b}")
    ctx.refused(lambda: pk.Scale(z(a), 1.0, z(b), dtype=dt), f"scales of sizes {a} and {b}")
    for s in [(2, 2), (5,), (3, 2), (a, 3, 2), (2, 9)]:
        ctx.refused(lambda: pk.Rotate(z(*s), dtype=dt), f"rotation of shape {s}")
    for x in ("W", "", "XY", "0"):
        ctx.refused(lambda: pk.RotateAxisAngle(30.0, axis=x), f"axis {x!r}")
    ctx.refused(lambda: pk.RotateAxisAngle(z(a, 1)), "a matrix of angles")
    t = pk.Transform3d(default_batch_size=a, dtype=dt)
    ctx.refused(lambda: t.translate(z(b, 3)), f"{b} translations of {a} transforms")
    ctx.refused(lambda: t.rotate(R(b)), f"{b} rotations of {a} transforms")
    ctx.refused(lambda: t.rotate_axis_angle(z(b)), f"{b} axis rotations of {a} transforms")
    ctx.seen("refusals", a, b, str(dt))


FAMILIES = [("general", general), ("translate_scale", translate_scale), ("rotate", rotate), ("axis_angle", axis_angle), ("steps", steps), ("gradients", gradients),
            ("general2", general), ("refusals", refusals)]
