"""C13: structure queries agree with the tree and with the order of joint columns."""
import contextlib
import io
import re

from ..env import F32, F64, Frame, Joint, Link, np, npy, pk, torch
from .. import gen
from ..ref import jacobian, serial_robot

ORACLE = "an independently held tree against every structure query, and column order probed by perturbing single joint values"
RULE = "distinct (tree shape, joint types, fixed pattern, naming style) combinations whose queries were all compared with the tree"
CONFIG = {"quick": {"cases": 1500, "min": {"queries": 15000, "columns_probed": 1000}}, "thorough": {"cases": 25000, "seconds": 1400, "min": {"queries": 300000}}}


def eq(ctx, got, want, what, **kw):
    ctx.count("queries")
    ctx.expect(got == want, f"{what}: {str(got)[:200]} instead of {str(want)[:200]}", **kw)


def same_set(ctx, got, want, what, **kw):
    ctx.count("queries")
    ctx.expect(len(got) == len(want) and sorted(map(str, got)) == sorted(map(str, want)), f"{what}: {str(got)[:200]} instead of {str(want)[:200]}", **kw)


def parse_tree(text):
    """The printed tree, as nested (name, children)."""
    lines = text.rstrip("\n").split("\n")
    root = (lines[0], [])
    stack = [root]
    for ln in lines[1:]:
        m = re.match(r"^((?:│   |    )*)(├── |└── )(.*)$", ln)
        if not m:
            return None
        d = len(m.group(1)) // 4
        node = (m.group(3), [])
        del stack[d + 1:]
        stack[d][1].append(node)
        stack.append(node)
    return root


def printed(f, prefix="", root=True):
    out = f.name + "\n" if root else ""
    for i, c in enumerate(f.children):
        end = i == len(f.children) - 1
        out += prefix + ("└── " if end else "├── ") + c.name + "\n" + printed(c, prefix + ("    " if end else "│   "), False)
    return out


def tree_of(f):
    return (f.name, [tree_of(c) for c in f.children])


def check(ctx, r, c, probe=True, rng=None, is_root_anon=False):
    frames = r.frames
    nf = [f for f in frames if f.joint.type != "fixed"]
    # frames
    same_set(ctx, c.get_frame_names(exclude_fixed=False), [f.name for f in frames], "frame names")
    same_set(ctx, c.get_frame_names(), [f.name for f in nf], "frame names without fixed joints")
    same_set(ctx, c.get_frame_names(exclude_fixed=True), [f.name for f in nf], "frame names without fixed joints")
    # links: unique names
    same_set(ctx, c.get_link_names(), [f.link_name for f in frames], "link names")
    same_set(ctx, [x.name for x in c.get_links()], [f.link_name for f in frames], "links")
    # joints: order matters
    eq(ctx, c.get_joint_parameter_names(), [f.joint.name for f in nf], "joint names")
    eq(ctx, c.get_joint_parameter_names(exclude_fixed=True), [f.joint.name for f in nf], "joint names")
    eq(ctx, [j.name for j in c.get_joints()], [f.joint.name for f in nf], "joints")
    eq(ctx, [(j.name, j.joint_type) for j in c.get_joints(exclude_fixed=False)], [(f.joint.name, f.joint.type) for f in frames], "all joints")
    eq(ctx, list(c.get_joint_parameter_names(exclude_fixed=False)), [f.joint.name for f in frames], "all joint names")
    eq(ctx, c.n_joints, len(nf), "number of joints")
    same_set(ctx, c.get_joint_parent_frame_names(), [f.name for f in nf], "frames carrying joints")
    same_set(ctx, c.get_joint_parent_frame_names(exclude_fixed=False), [f.name for f in frames], "frames carrying any joint")
    # look-up by name
    for f in frames:
        x = c.find_frame(f.name)
        ctx.expect(x is not None and x.name == f.name, f"find_frame({f.name!r})")
        eq(ctx, [k.name for k in x.children], [k.name for k in f.children], "children of a frame")
        eq(ctx, (x.joint.name, x.joint.joint_type, x.link.name), (f.joint.name, f.joint.type, f.link_name), "joint and link of a frame")
        eq(ctx, x.is_end(), not f.children, "is_end")
        x = c.find_link(f.link_name)
        ctx.expect(x is not None and x.name == f.link_name, f"find_link({f.link_name!r})")
        if f.joint.name is not None:
            x = c.find_joint(f.joint.name)
            ctx.expect(x is not None and x.name == f.joint.name and x.joint_type == f.joint.type, f"find_joint({f.joint.name!r})")
            a = np.asarray(f.joint.axis, float)
            ctx.close(x.axis, a / np.linalg.norm(a), 1e-6, "axis of the joint found")
    taken = {f.name for f in frames} | {f.link_name for f in frames} | {f.joint.name for f in frames}
    for bad in ("nothing", frames[0].name + "_", frames[-1].name[:-1], frames[-1].name + " ", "", "f", "j", frames[0].name.upper()):
        if bad not in taken:
            ctx.expect(c.find_frame(bad) is None and c.find_link(bad) is None and c.find_joint(bad) is None, f"look-up of {bad!r} finds nothing")
    for f in frames:
        if f.joint.name is not None and f.joint.name not in {g.name for g in frames}:
            ctx.expect(c.find_frame(f.joint.name) is None, "a joint's name is not a frame")
    # indices, ancestors
    alln = [f.name for f in frames]
    idx = [int(i) for i in c.get_frame_indices(*alln)]
    eq(ctx, sorted(idx), list(range(len(alln))), "frame indices are a permutation of the rows")
    same_set(ctx, [int(i) for i in c.get_all_frame_indices()], idx, "all frame indices")
    for f, i in zip(frames, idx):
        eq(ctx, c.idx_to_frame[i], f.name, "frame of an index")
        eq(ctx, int(c.frame_to_idx[f.name]), i, "index of a frame")
        eq(ctx, [c.idx_to_frame[int(k)] for k in c.parents_indices[i]], [g.name for g in r.path(f.name)], "ancestors")
    # children below each joint
    below = {}
    for j, links in c.get_joints_and_child_links():
        ctx.expect(j.name not in below, "each joint once among joints and child links")
        below[j.name] = [x.name for x in links]
    want = {}
    for f in nf:
        want[f.joint.name] = sorted(str(g.link_name) for g in frames if f in r.path(g.name))
    eq(ctx, {k: sorted(map(str, v)) for k, v in below.items()}, want, "links below each joint")
    # printed tree
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        told = c.print_tree() if rng.random() < 0.5 else c.print_tree(do_print=True)
        out.write("|")
        quiet = c.print_tree(do_print=False)
    eq(ctx, out.getvalue().rstrip("|").rstrip("\n"), told.rstrip("\n"), "the tree that is printed")
    ctx.expect(out.getvalue().endswith("|"), "nothing printed without being asked to")
    for text in (str(c), told, quiet):
        eq(ctx, parse_tree(text), tree_of(r.root), "printed tree")
        eq(ctx, text, printed(r.root), "printed tree")
    # limits in joint order
    for got, key in ((c.get_joint_limits(), "limits"), (c.get_joint_velocity_limits(), "vel"), (c.get_joint_effort_limits(), "eff")):
        w = [getattr(f.joint, key) if key == "limits" else f.extra.get(key) for f in nf]
        eq(ctx, [tuple(x) for x in zip(*got)] if nf else [], [(-np.inf, np.inf) if v is None else tuple(v) for v in w], f"{key} in joint order")
    if not probe:
        return
    # column order: moving one joint value moves exactly the frames below that joint
    q = rng.uniform(-1, 1, (1, r.n))
    base = c.forward_kinematics_tensor(torch.tensor(q, dtype=c.dtype))
    fkw = r.fk(q[0])
    for f, i in zip(frames, idx):
        ctx.close(base[i, 0], fkw[f.name], gen.tol(r, q, c.dtype), "row of the named frame in stacked poses")
    for k, f in enumerate(nf):
        d = q.copy()
        d[0, k] += 0.7
        moved = c.forward_kinematics_tensor(torch.tensor(d, dtype=c.dtype))
        for g, i in zip(frames, idx):
            ch = float((moved[i] - base[i]).abs().max())
            on = f in r.path(g.name)
            ctx.expect(ch > 1e-3 if on else ch == 0.0 or ch < 1e-12, f"column {k} {'moves' if on else 'does not move'} {g.name}", change=ch)
        ctx.count("columns_probed")


def build(rng, dtype=F64):
    r = gen.robot(rng, n=int(rng.integers(1, 14)))
    for f in r.moving:
        if rng.random() < 0.5:
            v = float(rng.uniform(0, 5))
            f.extra["vel"] = (-v, v)
        if rng.random() < 0.5:
            v = float(rng.uniform(0, 5))
            f.extra["eff"] = (-v, v)

    def conv(f, by_ctor):
        j = Joint(f.joint.name, offset=gen.to_tf(f.joint.offset), joint_type=f.joint.type, axis=f.joint.axis, dtype=F64, limits=f.joint.limits,
                  velocity_limits=f.extra.get("vel"), effort_limits=f.extra.get("eff"))
        kids = [conv(k, by_ctor) for k in f.children]
        if by_ctor:
            return Frame(f.name, link=Link(f.link_name, offset=gen.to_tf(f.link_offset)), joint=j, children=kids)
        x = Frame(f.name, link=Link(f.link_name, offset=gen.to_tf(f.link_offset)), joint=j)
        for k in kids:
            x.add_child(k)
        return x

    return r, pk.Chain(conv(r.root, bool(rng.integers(2))), dtype=dtype)


def tree(ctx, rng):
    r, c = build(rng)
    # ask in another order first now and then: memoised answers must not depend on it
    if rng.random() < 0.5:
        c.get_joint_parameter_names(False)
        c.get_frame_indices(r.frames[-1].name, r.frames[0].name)
    check(ctx, r, c, rng=rng)
    if rng.random() < 0.3:
        check(ctx, r, c.to(dtype=F64), probe=False, rng=rng)
    ctx.seen(gen.shape_sig(r), tuple(len(f.name) for f in r.frames))
    ctx.sample(tree=str(c)[:150])


def serial_tree(ctx, rng):
    r, c = build(rng)
    fr = r.frames
    a = fr[rng.integers(len(fr))]
    below = [f for f in fr if a in r.path(f.name)]
    e = below[rng.integers(len(below))]
    if e is r.root or e is a:
        return
    s = pk.SerialChain(c, e.name, a.name)
    sr = serial_robot(r, a.name, e.name)
    for f in sr.frames:
        f.extra = r.by_name[f.name].extra
    check(ctx, sr, s, rng=rng)
    check(ctx, r, c, probe=False, rng=rng)
    # Jacobian columns
    if sr.n:
        q = rng.uniform(-1, 1, sr.n)
        ctx.close(s.jacobian(torch.tensor(q))[0], jacobian(sr, q)[0], 100 * gen.tol(sr, q), "Jacobian columns in joint order")
        ctx.count("columns_probed", sr.n)
    ctx.seen("serial", gen.shape_sig(sr))


def wide(ctx, rng):
    r = gen.robot(rng, n=int(rng.choice([30, 60])), mix=[0.3, 0.5, 0.2])
    c = gen.to_chain(r)
    check(ctx, r, c, probe=True, rng=rng)
    ctx.seen("wide", r.shape, r.n)


FAMILIES = [("tree", tree)] * 4 + [("serial_tree", serial_tree)] * 3 + [("wide", wide)]
