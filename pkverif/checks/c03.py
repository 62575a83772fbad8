"""C03: the result for one batch element is what the operation gives for that element alone."""
from ..env import F32, F64, np, npy, pk, torch
from .. import gen, ops
from ..common import Inconclusive

ORACLE = "self-consistency of every batched operation under splitting, permuting, duplicating and hostile neighbours"
RULE = "distinct (operation, batch relation, batch size, dtype) combinations compared"
CONFIG = {"quick": {"cases": 2000, "min": {"relations": 3000, "large_batches": 80}}, "thorough": {"cases": 60000, "seconds": 1500, "min": {"relations": 100000}}}


def same(ctx, got, want, dtype, msg, scale=1.0, **kw):
    t = (1e-11 if dtype == F64 else 3e-4) * scale
    ctx.expect(len(got) == len(want), "number of results")
    for g, w in zip(got, want):
        m = np.abs(npy(w)).max(initial=0.0, where=np.isfinite(npy(w)))
        ctx.close(g, w, t * (1 + m), msg, **kw)


def tensors(rng, arrays, dtype):
    return [gen.layout(rng, torch.tensor(a, dtype=dtype)) for a in arrays]


def relations(ctx, rng, name, make, fn, dtype, hostile=True, grads=False):
    B = int(rng.choice([1, 2, 3, 4, 5, 8, 17]))
    arrays = make(rng, B)
    if B > 1 and rng.random() < 0.2:  # equal or nearly equal elements
        noise = float(rng.choice([0.0, 1e-9, 1e-7, 1e-5]))
        arrays = [a[:1] + (min(noise, 1e-7) if a.ndim == 3 else noise) * rng.standard_normal(a.shape) if a.dtype == float else a for a in arrays]  # 3x3: within the tolerance of hat_inv
    if grads:
        base = fn

        def fn(*a):  # noqa: F811 - the gradient of a per-element objective, with respect to every argument
            xs = [x.detach().clone().requires_grad_(True) for x in a]
            out = ops.run(base, xs)
            loss = sum((o * torch.cos(torch.arange(o[0].numel(), dtype=o.dtype)).reshape(o.shape[1:])).sum() for o in out if o.numel() and o.requires_grad)
            gs = torch.autograd.grad(loss, xs, allow_unused=True)
            return tuple(torch.zeros_like(x) if g is None else g for g, x in zip(gs, xs))
    A = tensors(rng, arrays, dtype)
    full = ops.run(fn, A)
    for o in full:
        ctx.expect(o.shape[0] == B, f"{name}: leading dimension {tuple(o.shape)} for a batch of {B}")

    def rel(kind, idx, pick=None):
        out = ops.run(fn, tensors(rng, [a[idx] for a in arrays], dtype))
        same(ctx, out, [o[pick if pick is not None else idx] for o in full], dtype, f"{name}{' gradient' if grads else ''} {kind}", op=name, B=B, idx=list(idx))
        ctx.count("relations")
        ctx.seen(name, kind, B, str(dtype), grads)

    for i in {0, B - 1, int(rng.integers(B))}:
        rel("alone", np.array([i]))
    rel("permuted", rng.permutation(B))
    if B > 1:
        k = int(rng.integers(1, B))
        rel("first part", np.arange(k))
        rel("second part", np.arange(k, B))
    rel("duplicated", rng.integers(0, B, int(rng.choice([2, 3, 6, 11]))))
    if rng.random() < 0.15:
        rel("tiled", np.tile(np.arange(B), 40))
    # next to special and non-finite elements
    if hostile:
        extra = make(rng, 3)
        for a in extra:
            k = int(rng.integers(0, 5))
            if a.dtype == float:
                a[0] = [np.nan, np.inf, -np.inf, 0.0, 1e30][k]
                if k >= 3 and a.ndim > 1 and a.shape[-1] == 4 and a.ndim == 3:
                    a[0] = np.eye(4)
        where = int(rng.integers(0, B + 1))
        mixed = [np.concatenate([a[:where], e, a[where:]]) for a, e in zip(arrays, extra)]
        try:
            out = ops.run(fn, tensors(rng, mixed, dtype))
        except Exception:
            try:
                ops.run(fn, tensors(rng, extra, dtype))
            except Exception:
                ctx.count("refused_hostile_batch")  # e.g. traces outside of the valid range: refused alone, so the whole batch is refused
                return
            raise
        keep = np.r_[np.arange(where), np.arange(where + 3, B + 3)]
        same(ctx, [o[keep] for o in out], full, dtype, f"{name}{' gradient' if grads else ''} next to hostile elements", op=name, B=B, where=where)
        ctx.count("relations")
        ctx.seen(name, "hostile", B, str(dtype), grads)


def functions(ctx, rng):
    cat = ops.catalogue(rng)
    dtype = F64 if rng.random() < 0.75 else F32
    for name in rng.permutation(list(cat))[:6]:
        make, fn = cat[str(name)]
        relations(ctx, rng, str(name), make, fn, dtype)


def function_gradients(ctx, rng):
    cat = ops.catalogue(rng)
    for name in rng.permutation(list(cat))[:4]:
        make, fn = cat[str(name)]
        relations(ctx, rng, str(name), make, fn, F64, grads=True)


def robots(ctx, rng):
    dtype = F64 if rng.random() < 0.75 else F32
    r = gen.robot(rng, n=int(rng.integers(2, 10)), min_joints=1)
    c = gen.to_chain(r, dtype)
    for name, (make, fn) in ops.chain_ops(rng, r, c).items():
        relations(ctx, rng, name, make, fn, dtype)


def serial_robots(ctx, rng):
    dtype = F64 if rng.random() < 0.75 else F32
    r, s = gen.serial_robot_pair(rng, n=int(rng.integers(2, 9)), dtype=dtype)
    cat = ops.chain_ops(rng, r, s, s)
    for name in ("serial_fk", "jacobian", "jacobian+pose", "jacobian_tensor", "jacobian:tool", "jacobian:tool+pose", "jacobian:tf", "jacobian_grad", "jacobian_grad:tool"):
        make, fn = cat[name]
        relations(ctx, rng, name, make, fn, dtype)


def shared_tool(ctx, rng):
    """One shared tool equals the same tool given per element, also for a batch of 3."""
    r, s = gen.serial_robot_pair(rng, n=int(rng.integers(2, 7)))
    B = int(rng.choice([1, 2, 3, 4, 6]))
    q = torch.tensor(gen.configs(rng, r.n, B))
    p = torch.tensor(rng.standard_normal(3))
    J = s.jacobian(q, locations=p, ret_eef_pose=True)
    forms = [p[None], p[None].repeat(B, 1), pk.Transform3d(pos=p, dtype=F64), pk.Transform3d(pos=p[None].repeat(B, 1), dtype=F64)]
    for x in forms:
        same(ctx, s.jacobian(q, locations=x, ret_eef_pose=True), J, F64, "shared tool")
        ctx.count("relations")
    ctx.seen("shared_tool", B, r.n)


def large(ctx, rng):
    """Batches of thousands of elements equal the same elements in a small batch."""
    dtype = F64 if rng.random() < 0.75 else F32
    k = int(rng.integers(0, 3))
    if k == 0:
        cat = ops.catalogue(rng)
    elif k == 1:
        r = gen.robot(rng, n=int(rng.integers(2, 6)), min_joints=1)
        cat = ops.chain_ops(rng, r, gen.to_chain(r, dtype))
    else:
        r, s = gen.serial_robot_pair(rng, n=int(rng.integers(2, 6)), dtype=dtype)
        cat = {n: f for n, f in ops.chain_ops(rng, r, s, s).items() if "serial" in n or "jacobian" in n}
    B = int(rng.choice([513, 1025, 3000, 4099, 8193, 10007, 16411, 65539]))
    for name in rng.permutation(list(cat))[:3 if B < 20000 else 1]:
        make, fn = cat[str(name)]
        base = make(rng, 37)
        sel = np.r_[rng.integers(0, 37, B - 37), np.arange(37)]
        small = ops.run(fn, tensors(rng, base, dtype))
        full = ops.run(fn, tensors(rng, [a[sel] for a in base], dtype))
        for o in full:
            ctx.expect(o.shape[0] == B, f"{name}: leading dimension {tuple(o.shape)} for a batch of {B}")
        same(ctx, full, [o[sel] for o in small], dtype, f"{name} in a large batch", op=name, B=B)
        ctx.count("relations")
        ctx.count("large_batches")
        ctx.seen(str(name), "large", B, str(dtype))


FAMILIES = [("functions", functions), ("robots", robots), ("functions", functions), ("serial_robots", serial_robots), ("function_gradients", function_gradients),
            ("shared_tool", shared_tool), ("large", large)]
