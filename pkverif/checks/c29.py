"""C29: transforms act on points, normals and shape operators geometrically."""
from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..rots import T, back

ORACLE = "point-by-point homogeneous products, perpendicularity and length preservation computed in float64"
RULE = "distinct (operation, transform kind, number of transforms, input shape, dtype) situations"
CONFIG = {"quick": {"cases": 36000, "min": {"points": 8000, "normals": 4000, "shape_operators": 2500, "horizon": 1000, "refusals_observed": 1500}},
          "thorough": {"cases": 1000000, "seconds": 700}}
EPSM = {F64: 2e-14, F32: 1e-5}


def transforms(rng, n, dt, rigid=False, projective=False):
    """(transform, its matrices (n,4,4), condition)"""
    k = int(rng.integers(0, 3)) if rigid else int(rng.integers(0, 6))
    M = np.stack([gen.transform(rng, none_ok=False, scale=float(rng.choice([1.0, 10.0]))) for _ in range(n)])
    if not rigid and k == 0 and not projective and rng.random() < 0.6:
        # not rigid, but close to it in some sense: volume preserving, length preserving on average, or by very little
        how = int(rng.integers(0, 5))
        if how == 0:  # unequal scales of unit product
            a, b = 10.0 ** rng.uniform(-0.5, 0.5, (2, n))
            D = np.stack([np.diag([x, y, 1 / (x * y)]) for x, y in zip(a, b)])
        elif how == 1:  # shear
            D = np.broadcast_to(np.eye(3), (n, 3, 3)).copy()
            i, j = rng.permutation(3)[:2]
            D[:, i, j] = rng.uniform(-1, 1, n)
        elif how == 2:  # mirror images
            D = np.stack([np.diag(rng.permutation([1.0, 1.0, -1.0])) for _ in range(n)])
        elif how == 3:  # nearly rigid
            D = np.stack([np.diag(1 + rng.uniform(-1, 1, 3) * 10.0 ** rng.uniform(-7, -2)) for _ in range(n)])
        else:  # one scale for all axes
            D = np.eye(3) * 10.0 ** rng.uniform(-1, 1, (n, 1, 1))
        M = M.copy()
        M[:, :3, :3] = M[:, :3, :3] @ (D if rng.random() < 0.7 else np.swapaxes(D, -1, -2))
        if n > 1 and rng.random() < 0.5:  # among rigid ones
            i = int(rng.integers(n))
            M[i, :3, :3] = gen.rotation(rng)
    elif not rigid:
        if k in (3, 4):  # non-uniform scaling and shear
            M = M.copy()
            M[:, :3, :3] = M[:, :3, :3] @ (rng.uniform(0.3, 3, (n, 1, 3)) * np.eye(3)) @ (rots.fill(rng, rots.one_R, (n,), (3, 3)) if k == 4 else np.eye(3))
        if k == 5:
            s = T(rng.uniform(0.3, 3, (n, 3)) * rng.choice([1, 1, -1], (n, 3)), dt)
            t = pk.Scale(s, dtype=dt)
            return t, back(t.get_matrix()), 10.0
    if projective:
        M = M.copy()
        s = float(10.0 ** rng.choice([0, 0, 0, -1, -2, -3, -4]))  # down to nearly affine
        if rng.random() < 0.7:
            M[:, 3, :3] = rng.uniform(-0.2, 0.2, (n, 3)) * s
        M[:, 3, 3] = 1 + rng.uniform(0, 1, n) * s
    if rigid and k == 2 and not projective:
        p = T(rng.uniform(-3, 3, (n, 3)), dt)
        q = T(rots.fill(rng, rots.one_q, (n,), (4,)), dt)
        t = pk.Transform3d(rot=q, pos=p, dtype=dt)
        return t, back(t.get_matrix()), 1.0
    m = T(M, dt, rng)
    return pk.Transform3d(matrix=m[0] if n == 1 and rng.random() < 0.4 else m), back(m).reshape(-1, 4, 4), 10.0


def combos(rng):
    """(number of transforms, input batch shape, output batch shape)"""
    P = int(rng.choice([1, 2, 3, 4, 7]))
    N = int(rng.choice([2, 3, 4, 5]))
    M = int(rng.choice([2, 3, 5]))
    return [(1, (P,), (P,)), (1, (1, P), (1, P)), (1, (M, P), (M, P)), (N, (P,), (N, P)), (N, (1, P), (N, P)), (N, (N, P), (N, P)), (N, (N,), (N, N)), (1, (0,), (0,)), (N, (N, 0), (N, 0))][rng.integers(9)]


def bc(n, s, out):
    """Broadcast pattern of the input against (transforms, points)."""
    return s if len(s) == 2 else (1, *s)


def points(ctx, rng):
    dt = rots.pick_dtype(rng)
    n, s, so = combos(rng)
    proj = rng.random() < 0.15
    t, M, _ = transforms(rng, n, dt, projective=proj)
    x = T(rng.standard_normal((*s, 3)) * rng.choice([1.0, 20.0]), dt, rng)
    keep = x.detach().clone()
    X = back(x).reshape(*bc(n, s, so), 3)
    H = np.concatenate([X, np.ones((*X.shape[:-1], 1))], -1)
    Y = np.einsum("nij,npj->npi", np.broadcast_to(M, (max(n, X.shape[0]), 4, 4)), np.broadcast_to(H, (max(n, X.shape[0]), *H.shape[1:])))
    den = Y[..., 3:]
    if proj and (np.abs(den) < 0.2).any():
        return
    want = (Y[..., :3] / den).reshape(*so, 3)
    y = t.transform_points(x)
    mag = (1 + np.abs(M).max()) * (1 + (np.abs(X).max() if X.size else 0)) * (30 if proj else 1)
    ctx.expect(y.dtype == dt, "points dtype")
    ctx.close(y, want, EPSM[dt] * mag, "points", n=n, shape=s)
    if not proj:
        ctx.close(t.transform_points(x, eps=1e-3), want, EPSM[dt] * mag, "points with a clamp that has nothing to clamp")
    else:
        e = float(rng.uniform(0.5, 3))
        sg = np.where(den >= 0, 1.0, -1.0)
        ctx.close(t.transform_points(x, eps=e), (Y[..., :3] / (sg * np.maximum(np.abs(den), e))).reshape(*so, 3), EPSM[dt] * mag, "points with the last coordinate clamped")
    if len(s) == 1 and s[0] == n:  # paired
        got = t.transform_points(x, batch_to_batch=True)
        ctx.close(got, (Y[..., :3] / den)[np.arange(n), np.arange(n)] if n > 1 else want, EPSM[dt] * mag, "points paired with transforms")
        ctx.count("points", n)
    ctx.close(x, keep, 0.0, "points unchanged")
    # and back, and in turn
    if not proj and X.size:
        z = t.inverse().transform_points(y if len(so) == 2 or n == 1 else y)
        ctx.close(z, np.broadcast_to(back(x).reshape(X.shape), (*((so[0] if len(so) == 2 else 1),), *X.shape[1:])).reshape(*so, 3), EPSM[dt] * mag * 300, "points there and back")
        k = n if rng.random() < 0.5 else 1
        u, U, _ = transforms(rng, k, dt)
        if k in (1, n) or n == 1:
            a = t.compose(u).transform_points(x)
            b = t.transform_points(u.transform_points(x))
            ctx.close(a, b, EPSM[dt] * mag * (1 + np.abs(U).max()) * 30, "composition acts as transforming in turn", n=n, k=k, shape=s)
    ctx.count("points", int(np.prod(so)))
    ctx.seen("points", n, s, str(dt), proj)


def normals(ctx, rng):
    dt = rots.pick_dtype(rng)
    n, s, so = combos(rng)
    rigid = rng.random() < 0.4
    t, M, cond = transforms(rng, n, dt, rigid=rigid)
    v = rng.standard_normal((*s, 3)) * rng.choice([1.0, 1.0, 5.0])
    x = T(v, dt, rng)
    keep = x.detach().clone()
    X = back(x).reshape(*bc(n, s, so), 3)
    A = M[:, :3, :3]
    Ai = np.linalg.inv(A)
    k = max(n, X.shape[0])
    Xb = np.broadcast_to(X, (k, *X.shape[1:]))
    want = np.einsum("nji,npj->npi", np.broadcast_to(Ai, (k, 3, 3)), Xb)
    y = t.transform_normals(x)
    mag = (1 + np.abs(Ai).max()) * (1 + (np.abs(X).max() if X.size else 0)) * cond
    ctx.expect(y.dtype == dt, "normals dtype")
    ctx.close(y, want.reshape(*so, 3), EPSM[dt] * mag * 10, "normals", n=n, shape=s)
    # perpendicular to what tangent vectors become
    w = np.cross(Xb, rng.standard_normal(Xb.shape))
    tw = np.einsum("nij,npj->npi", np.broadcast_to(A, (k, 3, 3)), w)
    Y = back(y).reshape(want.shape)
    ctx.close((Y * tw).sum(-1), np.zeros(Y.shape[:-1]), EPSM[dt] * mag * 30 * (1 + (np.abs(tw).max() if tw.size else 0)), "normals stay perpendicular to tangents")
    # tangents by the library itself: differences of transformed points
    if X.size:
        p0 = rng.standard_normal(Xb.shape)
        q0, q1 = t.transform_points(T(p0, dt)), t.transform_points(T(p0 + w, dt))
        d = back(q1 - q0).reshape(Xb.shape) if q0.shape[0] == k or n == 1 else None
        if d is not None and dt == F64:
            ctx.close((Y * d).sum(-1), np.zeros(Y.shape[:-1]), EPSM[dt] * mag * 300 * (1 + np.abs(d).max()) * (1 + np.abs(M).max()), "normals stay perpendicular to differences of transformed points")
    if rigid:
        ctx.close(np.linalg.norm(Y, axis=-1), np.linalg.norm(Xb, axis=-1), EPSM[dt] * mag * 10, "rigid transforms keep the length of normals")
    if len(s) == 1 and s[0] == n:
        got = t.transform_normals(x, batch_to_batch=True)
        ctx.close(got, want[np.arange(n), np.arange(n)] if n > 1 else want.reshape(*so, 3), EPSM[dt] * mag * 10, "normals paired with transforms")
    ctx.close(x, keep, 0.0, "normals unchanged")
    ctx.count("normals", int(np.prod(so)))
    ctx.seen("normals", n, s, str(dt), rigid)


def shape_ops(ctx, rng):
    """Curvature of a quadric surface: the shape operator maps tangents to changes of the normal, before and after."""
    dt = rots.pick_dtype(rng)
    P, N = int(rng.choice([1, 2, 4])), int(rng.choice([2, 3, 5]))
    n, s, so = [(1, (P,), (P,)), (1, (1, P), (1, P)), (1, (N, P), (N, P)), (N, (N, P), (N, P)), (N, (1, P), (N, P))][rng.integers(5)]
    rigid = rng.random() < 0.5
    t, M, _ = transforms(rng, n, dt, rigid=rigid)
    S0 = rng.standard_normal((*s, 3, 3))
    if rng.random() < 0.7:
        S0 = S0 + np.swapaxes(S0, -1, -2)
    x = T(S0, dt, rng)
    keep = x.detach().clone()
    k = max(n, s[0] if len(s) == 2 else 1)
    S = np.broadcast_to(back(x).reshape(*bc(n, s, so), 3, 3), (k, s[-1], 3, 3))
    A = np.broadcast_to(M[:, :3, :3], (k, 3, 3))[:, None]
    y = t.transform_shape_operator(x)
    ctx.expect(y.dtype == dt, "shape operator dtype")
    Ai = np.linalg.inv(A)
    a1, a2 = np.abs(A).max(), np.abs(Ai).max()
    sc = 1.0 if rigid else (a1 * a2) ** 2 * (1 + a2) ** 2
    ctx.close(y, (np.swapaxes(Ai, -1, -2) @ S @ Ai).reshape(*so, 3, 3), EPSM[dt] * 100 * sc, "shape operators", n=n, shape=s, rigid=rigid)
    if rigid:
        ctx.close(y, (A @ S @ np.swapaxes(A, -1, -2)).reshape(*so, 3, 3), EPSM[dt] * 100, "shape operators of rigid motions", n=n, shape=s)
    # consistent with normals and tangents: (transformed operator)(transformed tangent) = transformed normal change
    w = rng.standard_normal((k, s[-1], 3))
    dn = np.einsum("npij,npj->npi", S, w)
    lhs = np.einsum("npij,npj->npi", back(y).reshape(k, s[-1], 3, 3), np.einsum("npij,npj->npi", np.broadcast_to(A, (k, s[-1], 3, 3)), w))
    tn = t.transform_normals(T(dn, dt))
    ctx.close(lhs, back(tn).reshape(lhs.shape), EPSM[dt] * 300 * sc * (1 + a1), "shape operator consistent with normals and tangents", n=n, shape=s)
    ctx.close(x, keep, 0.0, "shape operators unchanged")
    ctx.count("shape_operators", int(np.prod(so)))
    ctx.seen("shape", n, s, str(dt), rigid)


def horizon(ctx, rng):
    """Points that a projection sends to infinity: the last coordinate is held at least eps away from zero, on its own side, zero counting as positive."""
    dt = rots.pick_dtype(rng)
    n, P = int(rng.choice([1, 1, 2, 3])), int(rng.choice([1, 2, 5]))
    M = np.stack([gen.transform(rng, none_ok=False) for _ in range(n)]).copy()
    M[:, 3] = 0.0
    ax = int(rng.integers(3))
    M[:, 3, ax] = rng.choice([1.0, -1.0, 0.5, 2.0], n)
    x = rng.standard_normal((P, 3))
    d = rng.choice([0.0, 0.0, 1e-6, -1e-6, 0.25, -0.25, 1.0, -1.0, 1e-2], P)
    x[:, ax] = d
    t, X = pk.Transform3d(matrix=T(M, dt)), T(x, dt)
    m, xx = back(t.get_matrix()), back(X)
    Y = np.einsum("nij,pj->npi", m, np.c_[xx, np.ones(P)])
    eps = float(rng.choice([1e-3, 0.1, 1.0, 1e-8]))
    den = Y[..., 3:]
    den = np.where(den < 0, -1.0, 1.0) * np.maximum(np.abs(den), eps)
    want = Y[..., :3] / den
    got = back(t.transform_points(X, eps=eps)).reshape(want.shape)
    ctx.expect(bool(np.isfinite(got).all()), "clamped points are finite", eps=eps, last=d)
    ctx.close(got * den, Y[..., :3], EPSM[dt] * 30, "points near the horizon", eps=eps, last=d)
    ctx.count("points", n * P)
    ctx.count("horizon", n * P)
    ctx.seen("horizon", n, P, eps, tuple(sorted(set(np.sign(d)))), str(dt))


def mixed_dtype(ctx, rng):
    """Inputs of another dtype than the transform give results of the inputs' dtype."""
    td, xd = (F64, F32) if rng.random() < 0.5 else (F32, F64)
    n = int(rng.choice([1, 3]))
    t, M, _ = transforms(rng, n, td)
    x = T(rng.standard_normal((4, 3)), xd)
    y = t.transform_points(x)
    X = back(x)
    want = X @ np.swapaxes(M[:, :3, :3], -1, -2) + M[:, None, :3, 3]
    ctx.expect(y.dtype == xd, "points of another dtype")
    ctx.close(y, want if n > 1 else want[0], 1e-5 * (1 + np.abs(M).max()) * 10, "points of another dtype")
    z = t.transform_normals(x)
    ctx.close(z, (X @ np.linalg.inv(M[:, :3, :3])) if n > 1 else X @ np.linalg.inv(M[0, :3, :3]), 1e-4 * (1 + np.abs(np.linalg.inv(M[:, :3, :3])).max()) * 10, "normals of another dtype")
    ctx.count("points", 4 * n)
    ctx.seen("mixed", str(td), n)


def refusals(ctx, rng):
    dt = rots.pick_dtype(rng)
    n = int(rng.choice([1, 2, 4]))
    t, _, _ = transforms(rng, n, dt)
    z = lambda *s: torch.zeros(s, dtype=dt)  # noqa: E731
    for s in [(3,), (1, 1, 2, 3), (), (n, 2), (n, 4), (2, 5, 2), (n, 5, 4)]:
        ctx.refused(lambda: t.transform_points(z(*s)), f"points of shape {s}")
    for s in [(3,), (1, 1, 2, 3), (), (n, 2), (n, 4), (n, 5, 4)]:
        ctx.refused(lambda: t.transform_normals(z(*s)), f"normals of shape {s}")
    for s in [(3, 3), (3,), (1, 1, 2, 3, 3), (n, 2, 4, 4), (2, 3, 2)]:
        ctx.refused(lambda: t.transform_shape_operator(z(*s)), f"shape operators of shape {s}")
    if n > 1:
        m = n + 1
        ctx.refused(lambda: t.transform_points(z(m, 5, 3)), f"{m} batches of points for {n} transforms")
        ctx.refused(lambda: t.transform_normals(z(m, 5, 3)), f"{m} batches of normals for {n} transforms")
        ctx.refused(lambda: t.transform_shape_operator(z(m, 5, 3, 3)), f"{m} batches of shape operators for {n} transforms")
    ctx.seen("refusals", n)


FAMILIES = [("points", points), ("normals", normals), ("shape_ops", shape_ops), ("mixed_dtype", mixed_dtype), ("horizon", horizon), ("refusals", refusals)]
