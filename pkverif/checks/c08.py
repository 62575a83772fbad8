"""C08: joint limits are the documented ones and clamping applies them."""
import math

from ..env import F32, F64, np, npy, pk, torch
from .. import desc, gen
from ..ref import RJoint

ORACLE = "limits computed from the document's own numbers; clamped values compared with an element-by-element minimum and maximum"
RULE = "distinct (format, joint types, which bounds are given) robots and (clamp input form, batch) combinations"
CONFIG = {"quick": {"cases": 3600, "min": {"limits_compared": 3000, "clamped_values": 8000}}, "thorough": {"cases": 50000, "seconds": 780}}


def f32(x):
    return float(np.float32(x))


def compare(ctx, c, want, what):
    """want: name -> None or (low, high)."""
    names = c.get_joint_parameter_names()
    ctx.expect(sorted(names) == sorted(want), "the limited joints are the document's joints", got=names)
    for nm, fn in (("position", c.get_joint_limits), ("velocity", c.get_joint_velocity_limits), ("effort", c.get_joint_effort_limits)):
        lo, hi = fn()
        ctx.expect(len(lo) == len(hi) == len(names), f"one {nm} limit per joint")
        for i, n in enumerate(names):
            w = want[n][nm]
            w = (-math.inf, math.inf) if w is None else w
            g = (float(lo[i]), float(hi[i]))
            ok = all(a == b or abs(a - b) <= 1e-6 * max(1, abs(b)) for a, b in zip(g, w))
            ctx.expect(ok, f"{what}: {nm} limits of a joint", joint=n, got=g, want=w)
            ctx.count("limits_compared")


def clamping(ctx, rng, c, want, dtype, exact=True):
    # loaded robots are float32 first, so their float64 copies have bounds rounded once
    names = c.get_joint_parameter_names()
    n = len(names)
    if not n:
        return
    cast = f32 if dtype == F32 else float
    lo = np.array([-np.inf if want[x] is None else cast(want[x][0]) for x in names])
    hi = np.array([np.inf if want[x] is None else cast(want[x][1]) for x in names])
    B = int(rng.choice([1, 2, 5]))
    q = rng.uniform(-8, 8, (B, n))
    for b in range(B):
        for i in range(n):
            k = rng.integers(0, 8)
            f = [lo[i], hi[i], np.nextafter(lo[i], -np.inf), np.nextafter(hi[i], np.inf), np.nextafter(lo[i], np.inf), 1e6 * rng.choice([-1, 1]), 0.0]
            if k < 7 and np.isfinite(f[k]):
                q[b, i] = f[k]
            elif k == 7 and np.isfinite(lo[i]) and np.isfinite(hi[i]):
                q[b, i] = rng.uniform(lo[i], hi[i])
    q = q.astype(np.float32).astype(float) if dtype == F32 else q
    w = np.minimum(np.maximum(q, lo), hi)
    perm = [names[i] for i in rng.permutation(n)]
    forms = [("tensor", gen.layout(rng, torch.tensor(q, dtype=dtype)), w), ("array", q.copy(), w), ("1d", torch.tensor(q[0], dtype=dtype), w[0]), ("list", [float(x) for x in q[0]], w[0]),
             ("dict", {k: torch.tensor(q[:, names.index(k)], dtype=dtype) for k in perm}, w)]
    for nm, v, ww in forms:
        got = c.clamp(v)
        g = npy(got)
        ctx.expect(g.size == np.size(ww), "clamped shape", form=nm, got=g.shape)
        g = g.reshape(np.shape(ww))
        # float32 robots round array/list values first; the bounds are exact in the robot's dtype
        ctx.close(g, ww, 0.0 if dtype == F64 and exact else 1e-6 * (1 + np.abs(ww)), "clamped values", form=nm, low=lo, high=hi)
        if nm == "tensor":
            e = 0.0 if exact else 1e-6 * (1 + np.abs(q))
            inside = (q >= lo + e) & (q <= hi - e)
            ctx.expect((g[inside] == q[inside]).all(), "values inside the limits stay exactly as they are")
            ctx.expect(((g >= lo - e) & (g <= hi + e)).all(), "clamped values satisfy the limits")
        ctx.count("clamped_values", np.size(ww))
        ctx.seen("clamp", nm, B, str(dtype), tuple((np.isfinite(a), np.isfinite(b), a == b) for a, b in zip(lo, hi)))
    # the joints themselves
    for i, x in enumerate(names):
        j = c.find_joint(x)
        ctx.close(j.clamp(torch.tensor(q[:, i], dtype=dtype)), w[:, i], 1e-6 * (1 + np.abs(w[:, i])), "clamped by the joint")


def urdf_want(d):
    out = {}
    for j in d.joints:
        if j["type"] == "fixed":
            continue
        lim = j["limit"]
        out[j["name"]] = {"position": desc.limits(j), "velocity": None if lim is None else (-lim["velocity"], lim["velocity"]), "effort": None if lim is None else (-lim["effort"], lim["effort"])}
    return out


def finish(ctx, rng, c, want, what):
    compare(ctx, c, want, what)
    pos = {k: v["position"] for k, v in want.items()}
    if rng.random() < 0.5:
        c = c.to(dtype=F64)
        compare(ctx, c, want, what + " (float64)")
        clamping(ctx, rng, c, pos, F64, exact=False)
    else:
        clamping(ctx, rng, c, pos, c.dtype, exact=c.dtype == F32)


def serial_of(c, want, rng):
    """A serial robot of the chain, with the limits of its joints."""
    frames = c.get_frame_names(exclude_fixed=False)
    e = frames[int(rng.integers(len(frames)))]
    s = pk.SerialChain(c, e)
    return s, {k: want[k] for k in s.get_joint_parameter_names()}


def urdf(ctx, rng):
    d = desc.doc(rng, visuals=0.0)
    c = pk.build_chain_from_urdf(desc.urdf(rng, d))
    want = urdf_want(d)
    finish(ctx, rng, c, want, "URDF")
    ctx.seen("urdf", tuple((j["type"], j["limit"] is None, tuple(sorted(j["limit"] or ()))) for j in d.joints))
    if rng.random() < 0.4:
        s, w = serial_of(c, want, rng)
        finish(ctx, rng, s, w, "serial URDF")


def sdf(ctx, rng):
    d = desc.clean(desc.doc(rng, types=desc.SDF_TYPES, visuals=0.0))
    c = pk.build_chain_from_sdf(desc.sdf(rng, d))
    want = {j["name"]: {"position": desc.limits(j, "sdf"), "velocity": None, "effort": None} for j in d.joints if j["type"] != "fixed"}
    finish(ctx, rng, c, want, "SDF")
    ctx.seen("sdf", tuple((j["type"], tuple(sorted(j["limit"] or ()))) for j in d.joints))
    ctx.sample(format="sdf", limits={k: v["position"] for k, v in want.items()})


def mjcf(ctx, rng):
    d = desc.mjcf(rng)
    c = pk.build_chain_from_mjcf(d.xml)
    got = {f: c.get_joint_parameter_names() for f in [0]}[0]
    named = {b["joint"]["name"]: b["joint"]["limits"] for b in d.bodies if b["joint"] is not None and b["joint"]["name"] is not None}
    ctx.expect(len(got) == sum(b["joint"] is not None for b in d.bodies) and set(named) <= set(got), "the robot has the model's joints", got=got)
    # unnamed joints: compare as a collection, then use what was reported for clamping
    lo, hi = c.get_joint_limits()
    rest = sorted(tuple(np.round((l, h), 4)) for l, h, n in zip(lo, hi, got) if n not in named)
    want_rest = sorted(tuple(np.round(b["joint"]["limits"] or (-np.inf, np.inf), 4)) for b in d.bodies if b["joint"] is not None and b["joint"]["name"] is None)
    ctx.expect(len(rest) == len(want_rest) and np.allclose(np.array(rest, float).reshape(-1, 2), np.array(want_rest, float).reshape(-1, 2), atol=2e-4), "limits of unnamed joints", got=rest, want=want_rest)
    full = dict(named)
    for l, h, n in zip(lo, hi, got):
        if n not in full:
            full[n] = None if not np.isfinite(l) and not np.isfinite(h) else (float(l), float(h))
    finish(ctx, rng, c, {k: {"position": v, "velocity": None, "effort": None} for k, v in full.items()}, "MJCF")
    ctx.seen("mjcf", tuple((b["joint"]["type"], b["joint"]["range"] is None, b["joint"]["limited"]) for b in d.bodies if b["joint"]))


def built(ctx, rng):
    """Limits given to joints in Python."""
    r = gen.robot(rng, min_joints=1)
    for f in r.moving:  # degenerate and half-open ones too
        k = rng.integers(0, 6)
        if k == 0:
            f.joint.limits = (-np.inf, float(rng.uniform(-2, 2)))
        elif k == 1:
            f.joint.limits = (float(rng.uniform(-2, 2)), np.inf)
        elif k == 2:
            x = float(rng.uniform(-2, 2))
            f.joint.limits = (x, x)
    c = gen.to_chain(r)
    want = {f.joint.name: {"position": f.joint.limits, "velocity": None, "effort": None} for f in r.moving}
    compare(ctx, c, want, "built in Python")
    clamping(ctx, rng, c, {k: v["position"] for k, v in want.items()}, F64)
    c.to(dtype=F32)
    clamping(ctx, rng, c, {k: v["position"] for k, v in want.items()}, F32)
    ctx.seen("built", gen.shape_sig(r))


FAMILIES = [("urdf", urdf), ("sdf", sdf), ("mjcf", mjcf), ("built", built), ("urdf", urdf)]
