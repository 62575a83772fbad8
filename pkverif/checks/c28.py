"""C28: transforms compose, invert, stack and index as a batch of matrices."""
from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..rots import T, back

ORACLE = "a shadow batch of numpy matrices updated by ordinary matrix algebra after every operation of a random history"
RULE = "distinct (operation, transform kind, batch sizes, dtype) situations"
CONFIG = {"quick": {"cases": 10000, "min": {"operations": 12000, "refusals_observed": 2000, "subclass_inverses": 100, "extreme_inverses": 400}},
          "thorough": {"cases": 1000000, "seconds": 700}}
EPSM = {F64: 1e-14, F32: 5e-6}


class Item:
    """A transform, its shadow matrices, and the accumulated magnitude that scales the rounding allowance."""

    def __init__(self, t, m, mag=None, depth=1, kind=None):
        self.t, self.m = t, np.asarray(m, float)
        mx = float(np.abs(self.m).max()) if self.m.size else 1.0
        self.mag = max(mag or 0.0, 1.0 + mx)
        self.depth = depth
        self.kind = kind or type(t).__name__


def check(ctx, it, msg):
    t, m = it.t, it.m
    mat = t.get_matrix()
    ctx.expect(len(t) == m.shape[0], f"{msg}: length {len(t)} instead of {m.shape[0]}")
    ctx.expect(mat.shape[0] == len(t), f"{msg}: length and matrix disagree")
    ctx.expect(t.dtype == mat.dtype, f"{msg}: dtype {t.dtype} but matrix of {mat.dtype}")
    ctx.close(mat, m, EPSM[mat.dtype] * it.mag * it.depth, msg, kind=it.kind)
    ctx.count("operations")


def one_matrix(rng, scaling):
    M = gen.transform(rng, none_ok=False, scale=float(rng.choice([1.0, 5.0]))).copy()
    if scaling:
        M[:3, :3] = M[:3, :3] @ np.diag(rng.uniform(0.3, 3, 3) * rng.choice([1, 1, -1], 3))
    return M


def make(rng, n, dt):
    """A fresh transform of length n of some kind."""
    k = int(rng.integers(0, 8))
    if k <= 1:
        M = np.stack([one_matrix(rng, k == 1) for _ in range(n)])
        t = T(M, dt, rng)
        if n == 1 and rng.random() < 0.5:
            t = t[0]
        return Item(pk.Transform3d(matrix=t), back(t).reshape(-1, 4, 4))
    m = np.broadcast_to(np.eye(4), (n, 4, 4)).copy()
    if k == 2:
        x = T(rng.uniform(-3, 3, (n, 3)), dt)
        m[:, :3, 3] = back(x)
        return Item(pk.Translate(x, dtype=dt), m)
    if k == 3:
        x = T(rng.uniform(0.2, 3, (n, 3)) * rng.choice([1, -1], (n, 3)), dt)
        m[:, range(3), range(3)] = back(x)
        return Item(pk.Scale(x, dtype=dt), m)
    if k == 4:
        x = T(rots.fill(rng, rots.one_R, (n,), (3, 3)), dt)
        m[:, :3, :3] = back(x)
        return Item(pk.Rotate(x, dtype=dt), m)
    if k == 5:
        q, p = T(rots.fill(rng, rots.one_q, (n,), (4,)), dt), T(rng.uniform(-2, 2, (n, 3)), dt)
        m[:, :3, :3] = rots.q2R(back(q))
        m[:, :3, 3] = back(p)
        return Item(pk.Transform3d(rot=q, pos=p, dtype=dt), m)
    if k == 6:
        return Item(pk.Transform3d(default_batch_size=n, dtype=dt), m)
    a, ax = rng.uniform(-np.pi, np.pi, n), "XYZ"[rng.integers(3)]
    t = pk.RotateAxisAngle(torch.tensor(a, dtype=dt), axis=ax, degrees=False)
    m[:, :3, :3] = rots.aa2R(a[:, None] * np.eye(3)["XYZ".index(ax)])
    it = Item(t, m)
    it.mag *= 1.0
    return it


def lax(it):
    """Transforms that went through float32 keep its rounding."""
    return it


def invert(it):
    with np.errstate(all="ignore"):
        mi = np.linalg.inv(it.m)
    cond = float(np.max(np.linalg.norm(it.m, axis=(1, 2)) * np.linalg.norm(mi, axis=(1, 2)))) if it.m.size else 1
    return mi, cond


def pick_index(rng, n):
    k = int(rng.integers(0, 9))
    if k == 0:
        return int(rng.integers(-n, n))
    if k == 1:
        a, b = sorted(rng.integers(0, n + 1, 2))
        return slice(int(a), int(b), int(rng.choice([1, 2])))
    if k == 2:
        return [int(x) for x in rng.integers(-n, n, rng.integers(1, n + 2))]
    if k == 3:
        return torch.tensor(rng.integers(0, n, rng.integers(0, n + 2)))
    if k == 4:
        return torch.tensor(rng.random(n) < 0.5)
    if k == 5:
        return slice(None)
    if k == 6:
        return torch.tensor(int(rng.integers(n)))
    if k == 7:
        return slice(-1, None)
    return rng.permutation(n)


def np_index(i):
    return i.numpy() if torch.is_tensor(i) else i


def history(ctx, rng):
    dts = [rots.pick_dtype(rng)] if rng.random() < 0.7 else [F64, F32]
    N = int(rng.choice([1, 2, 3, 4, 5]))

    def new():
        return make(rng, N if rng.random() < 0.6 else 1, dts[rng.integers(len(dts))])

    pool = [new() for _ in range(3)]
    for it in pool:
        check(ctx, it, "new transform")
    for _ in range(int(rng.integers(3, 9))):
        a = pool[rng.integers(len(pool))]
        op = str(rng.choice(["compose", "compose", "inverse", "stack", "index", "clone", "to", "build", "new"]))
        n = len(a.m)
        snap = [(x, x.t.get_matrix().detach().clone()) for x in pool]
        f32 = any(x.t.dtype == F32 for x in pool)
        if op == "compose":
            others = [pool[rng.integers(len(pool))] for _ in range(int(rng.choice([1, 1, 2, 3])))]
            m, ok, size = a.m, True, n
            mag, depth = a.mag, a.depth
            for o in others:
                if len(o.m) != size and 1 not in (len(o.m), size):
                    ok = False
                    break
                size = max(size, len(o.m)) if 0 not in (size, len(o.m)) else 0
                m = m @ o.m
                mag *= o.mag
                depth += o.depth
            if not ok:
                ctx.refused(lambda: a.t.compose(*[o.t for o in others]), f"composing batches of {[n] + [len(o.m) for o in others]}")
                continue
            r = Item(a.t.compose(*[o.t for o in others]), m, min(mag, 1e6), depth + (300 if f32 and a.t.dtype == F64 else 0) * 1)
            if f32 and r.t.dtype == F64:  # a float32 factor was rounded already; its matrix is what counts
                m = back(a.t.get_matrix())
                for o in others:
                    m = m @ back(o.t.get_matrix())
                r = Item(r.t, m, min(mag, 1e6), depth)
            ctx.expect(r.t.dtype == a.t.dtype, "composition keeps the dtype of the first")
        elif op == "inverse":
            if n == 0:
                continue
            m0 = back(a.t.get_matrix())
            mi, cond = invert(Item(a.t, m0))
            if cond > 1e4:
                continue
            r = Item(a.t.inverse(), mi, None, 4 + cond)
            ctx.expect(r.t.dtype == a.t.dtype, "inverse keeps the dtype")
            ctx.count("subclass_inverses", a.kind != "Transform3d")
            check(ctx, Item(a.t.compose(r.t), np.broadcast_to(np.eye(4), (n, 4, 4)), a.mag * r.mag, 4 + cond), "transform times its inverse")
            check(ctx, Item(r.t.inverse(), m0, a.mag, 8 + 4 * cond), "inverse of the inverse")
            if rng.random() < 0.3:
                check(ctx, Item(a.t.inverse(invert_composed=True), mi, None, 4 + cond), "inverse, composed")
        elif op == "stack":
            others = [pool[rng.integers(len(pool))] for _ in range(int(rng.integers(0, 4)))]
            same = all(o.t.dtype == a.t.dtype for o in others)
            r = Item(a.t.stack(*[o.t for o in others]), np.concatenate([back(x.t.get_matrix()) for x in [a, *others]]), None, 1)
            if same:
                ctx.expect(r.t.dtype == a.t.dtype, "stack keeps the dtype")
        elif op == "index":
            if n == 0:
                continue
            i = pick_index(rng, n)
            m = back(a.t.get_matrix())[np_index(i)].reshape(-1, 4, 4)
            r = Item(a.t[i], m, None, 1)
            ctx.expect(r.t.dtype == a.t.dtype, "index keeps the dtype")
            ctx.seen("index", type(i).__name__, n, len(m))
            ctx.refused(lambda: a.t[n], "index beyond the end")
            ctx.refused(lambda: a.t[-n - 1], "index before the start")
        elif op == "clone":
            r = Item(a.t.clone(), back(a.t.get_matrix()), None, 1)
            if len(r.m):
                r.t.get_matrix()[:] = 7.0
                ctx.close(a.t.get_matrix(), a.m if False else snap[[k for k, x in enumerate(pool) if x is a][0]][1], 0.0, "a clone is independent of its original")
            r = Item(a.t.clone(), back(a.t.get_matrix()), None, 1)
            if len(r.m) and rng.random() < 0.5:
                c2 = r.t.inverse() if np.abs(np.linalg.det(r.m[:, :3, :3])).min() > 1e-3 else None
                if c2 is not None:
                    check(ctx, Item(c2, np.linalg.inv(r.m), None, 30 * (1 + invert(r)[1])), "inverse of a clone")
        elif op == "to":
            dt = F64 if rng.random() < 0.5 else F32
            how = int(rng.integers(0, 4))
            if how == 0:
                r = Item(a.t.to("cpu", dtype=dt), back(a.t.get_matrix().to(dt)), None, 1)
            elif how == 1:
                r = Item(a.t.to(torch.device("cpu"), copy=True), back(a.t.get_matrix()), None, 1)
                dt = a.t.dtype
            elif how == 2:
                r = Item(a.t.cpu(), back(a.t.get_matrix()), None, 1)
                dt = a.t.dtype
            else:
                r = Item(a.t.to(a.t.device, copy=True, dtype=dt), back(a.t.get_matrix().to(dt)), None, 1)
                if len(r.m):
                    r.t.get_matrix()[:] = 7.0
                    ctx.close(a.t.get_matrix(), snap[[k for k, x in enumerate(pool) if x is a][0]][1], 0.0, "a copy is independent of its original")
                    r = Item(a.t.to(a.t.device, copy=True, dtype=dt), back(a.t.get_matrix().to(dt)), None, 1)
            ctx.expect(r.t.dtype == dt, "requested dtype")
            op = f"to{how}"
        elif op == "build":
            m0 = back(a.t.get_matrix())
            B = 1 if n in (0,) or rng.random() < 0.5 else n
            E4 = np.broadcast_to(np.eye(4), (B, 4, 4)).copy()
            k = int(rng.integers(0, 3))
            dt = a.t.dtype
            if k == 0:
                x = T(rng.uniform(-2, 2, (B, 3)), dt)
                E4[:, :3, 3] = back(x)
                r = a.t.translate(x)
            elif k == 1:
                x = T(rng.uniform(0.5, 2, (B, 3)), dt)
                E4[:, range(3), range(3)] = back(x)
                r = a.t.scale(x)
            else:
                x = T(rots.fill(rng, rots.one_R, (B,), (3, 3)), dt)
                E4[:, :3, :3] = back(x)
                r = a.t.rotate(x)
            ctx.expect(r.dtype == dt, "building keeps the dtype")
            r = Item(r, m0 @ E4, a.mag * 4, 4)
        else:
            r = new()
        check(ctx, r, f"after {op}")
        ctx.seen(op, a.kind, n, len(r.m), str(a.t.dtype), str(r.t.dtype))
        for x, m in snap:  # operands are left alone
            ctx.close(x.t.get_matrix(), m, 0.0, f"{op} leaves other transforms alone")
        repr(r.t) if len(r.m) else None
        r.m = back(r.t.get_matrix())  # rounding does not accumulate in the shadow
        r.depth, r.mag = 1, 1 + (float(np.abs(r.m).max()) if r.m.size else 0)
        if r.mag < 1e4:
            pool.append(r)
        if len(pool) > 6:
            pool.pop(0)


def sizes(ctx, rng):
    """Every pair of batch sizes: broadcast where one is 1, refused otherwise."""
    dt = rots.pick_dtype(rng)
    a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    A, B = make(rng, a, dt), make(rng, b, dt)
    if a == b or 1 in (a, b):
        r = A.t.compose(B.t)
        check(ctx, Item(r, back(A.t.get_matrix()) @ back(B.t.get_matrix()), A.mag * B.mag, 2), f"composition of {a} and {b}")
        n = max(a, b)
        for i in range(n):  # every element by itself
            one = A.t[i if a > 1 else 0].compose(B.t[i if b > 1 else 0])
            ctx.close(one.get_matrix()[0], r.get_matrix()[i], EPSM[F32 if F32 in (A.t.dtype, B.t.dtype) else F64] * A.mag * B.mag, "composition element by element")
        # associativity
        C = make(rng, n if rng.random() < 0.5 else 1, dt)
        l, rr = A.t.compose(B.t).compose(C.t), A.t.compose(B.t.compose(C.t))
        ctx.close(l.get_matrix(), rr.get_matrix(), EPSM[F32 if F32 in (A.t.dtype, B.t.dtype, C.t.dtype) else F64] * A.mag * B.mag * C.mag * 4, "composition is associative")
        ctx.close(A.t.compose(B.t, C.t).get_matrix(), l.get_matrix(), EPSM[F32 if F32 in (A.t.dtype, B.t.dtype, C.t.dtype) else F64] * A.mag * B.mag * C.mag * 4, "composition of several")
    else:
        ctx.refused(lambda: A.t.compose(B.t), f"composition of batches of {a} and {b}")
        ctx.refused(lambda: make(rng, 1, dt).t.compose(A.t, B.t), f"composition of batches of 1, {a} and {b}")
    s = A.t.stack(B.t)
    check(ctx, Item(s, np.concatenate([back(A.t.get_matrix()), back(B.t.get_matrix())])), "stack")
    ctx.close(s[:a].get_matrix(), A.t.get_matrix(), 0.0 if A.t.dtype == s.dtype else 1e-6, "first part of a stack")
    ctx.close(s[a:].get_matrix(), B.t.get_matrix(), 0.0 if B.t.dtype == s.dtype else 1e-6, "second part of a stack")
    ctx.seen("sizes", a, b, A.kind, B.kind)


def magnitudes(ctx, rng):
    """Millimetres against kilometres: the inverse of very large, very small and very unequal scales, and of far away frames."""
    dt = rots.pick_dtype(rng)
    eps = 1.2e-7 if dt == F32 else 2.3e-16
    n = int(rng.choice([1, 2, 4]))
    top = 2 if dt == F32 else 4
    k = int(rng.integers(0, 4))
    p = rng.uniform(-1, 1, (n, 3)) * 10.0 ** rng.uniform(-6, 4 if dt == F32 else 8, (n, 1))
    if k == 0:  # one small or large scale for all axes, with a rotation
        s = np.broadcast_to(10.0 ** rng.uniform(-6, 6, (n, 1)), (n, 3))
    elif k == 1:  # unequal scales
        s = 10.0 ** rng.uniform(-top, top, (n, 3))
    elif k == 2:  # mixed batches: some rigid, some not
        s = np.where(rng.random((n, 1)) < 0.5, 1.0, 10.0 ** rng.uniform(-3, 3, (n, 3)))
    else:  # almost rigid
        s = 1.0 + rng.uniform(-1, 1, (n, 3)) * 10.0 ** rng.uniform(-9, -1)
    sign = np.where(rng.random((n, 3)) < 0.2, -1.0, 1.0)
    s = s * sign
    if rng.random() < 0.25:
        t = pk.Scale(T(s, dt), dtype=dt)
        p = np.zeros((n, 3))
    else:
        Q1, Q2 = (np.stack([gen.rotation(rng) for _ in range(n)]) for _ in range(2))
        M = np.broadcast_to(np.eye(4), (n, 4, 4)).copy()
        M[:, :3, :3] = Q1 * s[:, None, :] @ (Q2 if rng.random() < 0.3 else np.eye(3))
        M[:, :3, 3] = p
        t = pk.Transform3d(matrix=T(M, dt, rng))
    m = back(t.get_matrix())
    inv = t.inverse()
    ctx.expect(inv.dtype == t.dtype, "inverse keeps the dtype")
    g = back(inv.get_matrix())
    for i in range(n):
        A = m[i, :3, :3]
        Ai = np.linalg.inv(A)
        cond = np.linalg.norm(A, 2) * np.linalg.norm(Ai, 2)
        tol = 60 * eps * cond * np.linalg.norm(Ai, 2)
        ctx.close(g[i, :3, :3], Ai, tol, "linear part of the inverse", scales=s[i], pos=p[i])
        ctx.close(g[i, :3, 3], -Ai @ m[i, :3, 3], tol * (1e-300 + np.linalg.norm(m[i, :3, 3])), "position of the inverse", scales=s[i], pos=p[i])
        ctx.close(g[i, 3], [0, 0, 0, 1], 0.0, "last row of the inverse")
    ctx.count("operations", n)
    ctx.count("extreme_inverses", n)
    ctx.seen("magnitudes", k, n, str(dt), int(np.log10(np.abs(s)).min()), int(np.log10(np.abs(s)).max()))


def refusals(ctx, rng):
    for shp in [(4,), (3, 3), (3, 4), (4, 3), (2, 3, 4), (2, 4, 3), (1, 2, 4, 4), (16,), (5, 5)]:
        ctx.refused(lambda: pk.Transform3d(matrix=torch.zeros(shp)), f"transform from a matrix of shape {shp}")
    n = int(rng.integers(2, 6))
    t = make(rng, n, F64).t
    for i in (n, -n - 1, [0, n], torch.tensor([n]), "a", torch.ones(n + 1, dtype=torch.bool)):
        ctx.refused(lambda: t[i], f"index {i!r} of {n} transforms")
    ctx.seen("refusals", n)


FAMILIES = [("history", history), ("history2", history), ("sizes", sizes), ("magnitudes", magnitudes), ("refusals", refusals)]
