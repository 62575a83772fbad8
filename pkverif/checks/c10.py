"""C10: MJCF robots load with the kinematics MuJoCo computes."""
import glob
import os

from ..env import F32, F64, REPO, np, npy, pk, torch
from .. import desc, gen
from ..ref import homog, rot

import mujoco  # noqa: E402

ORACLE = "MuJoCo's own compiled model and forward kinematics (mj_kinematics) for the same joint values"
RULE = "distinct (tree shape, joint types, unnamed elements, root body) models loaded and compared with MuJoCo"
CONFIG = {"quick": {"cases": 3600, "min": {"documents": 450, "poses": 4000, "joints": 1000, "refusals_observed": 20, "column_orders": 150, "reference_values": 60}}, "thorough": {"cases": 30000, "seconds": 780}}


def mj_poses(m, qpos):
    d = mujoco.MjData(m)
    d.qpos[:] = qpos
    mujoco.mj_kinematics(m, d)
    out = {}
    for i in range(m.nbody):
        T = np.eye(4)
        T[:3, :3], T[:3, 3] = d.xmat[i].reshape(3, 3), d.xpos[i]
        out["body", i] = T
    for i in range(m.nsite):
        T = np.eye(4)
        T[:3, :3], T[:3, 3] = d.site_xmat[i].reshape(3, 3), d.site_xpos[i]
        out["site", i] = T
    return out


def children(m, i):
    return [("body", k) for k in range(1, m.nbody) if m.body_parentid[k] == i and k != i] + [("site", k) for k in range(m.nsite) if m.site_bodyid[k] == i]


def name_of(m, e):
    return (m.body(e[1]) if e[0] == "body" else m.site(e[1])).name


def match(ctx, m, c, root):
    """Which frame stands for which body and site: by name, and unnamed ones by where they are at zero joint values."""
    T0 = mj_poses(m, np.zeros(m.nq))
    got = c.forward_kinematics(torch.zeros(1, c.n_joints, dtype=c.dtype))
    names = c.get_frame_names(exclude_fixed=False)
    ctx.expect(len(set(names)) == len(names) and all(names), "frame names are unique and not empty", got=names)
    G = {k: npy(v.get_matrix())[0].astype(float) for k, v in got.items()}
    top = c.find_frame(names[0])
    pairs = {}

    def base(frame):
        return np.linalg.inv(G[frame])

    todo = [(("body", root), top)]
    Mr, Gr = np.linalg.inv(T0["body", root]), base(top.name)
    while todo:
        e, f = todo.pop()
        pairs[e] = f
        kids = children(m, e[1]) if e[0] == "body" else []
        ctx.expect(len(f.children) == len(kids), "every child body and site has a frame", frame=f.name, got=[x.name for x in f.children], want=[name_of(m, k) or k for k in kids])
        left = list(f.children)
        for k in kids:
            nm = name_of(m, k)
            if nm:
                hit = [x for x in left if x.name == nm]
                ctx.expect(len(hit) == 1, "named elements keep their names", element=nm, got=[x.name for x in f.children])
            else:
                hit = sorted(left, key=lambda x: np.linalg.norm((Gr @ G[x.name] - Mr @ T0[k])[:3]))
            left.remove(hit[0])
            todo.append((k, hit[0]))
    return pairs, T0


def joints(ctx, m, c, pairs):
    """qpos address per joint column; also checks joint names, types and axes."""
    cols = {}
    names = c.get_joint_parameter_names()
    for e, f in pairs.items():
        if e[0] == "site" or f is c.find_frame(c.get_frame_names(exclude_fixed=False)[0]):
            ctx.expect(f.joint.joint_type == "fixed", "sites and the root do not move", frame=f.name)
            continue
        n = m.body_jntnum[e[1]]
        if n == 0:
            ctx.expect(f.joint.joint_type == "fixed", "bodies without joints do not move", frame=f.name)
            continue
        j = m.joint(m.body_jntadr[e[1]])
        want = {mujoco.mjtJoint.mjJNT_HINGE: "revolute", mujoco.mjtJoint.mjJNT_SLIDE: "prismatic"}[mujoco.mjtJoint(int(j.type[0]))]
        ctx.expect(f.joint.joint_type == want, "joint type", frame=f.name, got=f.joint.joint_type, want=want)
        ctx.expect(bool(f.joint.name) and (not j.name or f.joint.name == j.name), "joint name", frame=f.name, got=f.joint.name, want=j.name)
        ctx.close(f.joint.axis, np.asarray(j.axis), 1e-6, "joint axis", frame=f.name)
        ctx.expect(names.count(f.joint.name) == 1, "every joint has its own column", joint=f.joint.name, got=names)
        cols[names.index(f.joint.name)] = int(j.qposadr[0])
        ctx.count("joints")
    ctx.expect(len(cols) == len(names), "the joints are exactly the model's", got=names, want=len(cols))
    return cols


def compare(ctx, rng, m, c, root=0, B=2):
    pairs, _ = match(ctx, m, c, root)
    cols = joints(ctx, m, c, pairs)
    n = len(cols)
    addr = [cols[k] for k in range(n)]  # MuJoCo numbers bodies depth first, in the document's order
    ctx.expect(addr == sorted(addr), "joint columns are in the model's order", got=c.get_joint_parameter_names(), qpos=addr)
    ctx.count("column_orders", n > 1)
    q = gen.configs(rng, n, B).astype(np.float32).astype(float)
    got = c.forward_kinematics(torch.tensor(q, dtype=c.dtype) if n else torch.zeros(B, 0, dtype=c.dtype))
    top = c.get_frame_names(exclude_fixed=False)[0]
    for b in range(B):
        qpos = rng.uniform(-1, 1, m.nq)  # joints outside the chosen root do not matter
        for col, adr in cols.items():
            qpos[adr] = q[b, col]
        T = mj_poses(m, qpos)
        Mr = np.linalg.inv(T["body", root])
        G = {k: npy(v.get_matrix())[b].astype(float) for k, v in got.items()}
        Gr = np.linalg.inv(G[top])
        t = 4e-6 * (2 + np.abs(q[b]).sum() + m.nbody + sum(np.abs(m.body_pos[i]).sum() for i in range(m.nbody)))
        for e, f in pairs.items():
            ctx.close(Gr @ G[f.name], Mr @ T[e], t, "pose relative to the root body", element=name_of(m, e) or e, q=q[b])
            if root == 0:
                ctx.close(G[f.name], T[e], t, "pose in the world", element=name_of(m, e) or e, q=q[b])
            ctx.count("poses")
    return pairs


def document(ctx, rng):
    d = desc.mjcf(rng)
    m = mujoco.MjModel.from_xml_string(d.xml)
    c = pk.build_chain_from_mjcf(d.xml)
    compare(ctx, rng, m, c)
    named = sorted(b["joint"]["name"] for b in d.bodies if b["joint"] and b["joint"]["name"])
    ctx.expect(set(named) <= set(c.get_joint_parameter_names()) and len(c.get_joint_parameter_names()) == sum(b["joint"] is not None for b in d.bodies), "joints are those written in the document")
    ctx.count("documents")
    ctx.count("reference_values", sum(b["joint"] is not None and b["joint"]["ref"] is not None for b in d.bodies))
    ctx.seen(tuple((b["parent"], b["joint"] and b["joint"]["type"], b["name"] is None, len(b["sites"])) for b in d.bodies))
    ctx.sample(bodies=d.n, joints=c.get_joint_parameter_names(), xml=d.xml[:160])


def rooted(ctx, rng):
    d = desc.mjcf(rng, n=int(rng.choice([2, 3, 5, 8])))
    m = mujoco.MjModel.from_xml_string(d.xml)
    i = int(rng.integers(0, m.nbody))
    nm = m.body(i).name
    c = pk.build_chain_from_mjcf(d.xml, body=nm if nm and rng.random() < 0.6 else i)
    compare(ctx, rng, m, c, i)
    ctx.count("documents")
    ctx.seen("rooted", i, tuple((b["parent"], b["joint"] and b["joint"]["type"], b["name"] is None) for b in d.bodies))


def serial(ctx, rng):
    d = desc.mjcf(rng, n=int(rng.choice([2, 4, 6])))
    m = mujoco.MjModel.from_xml_string(d.xml)
    ends = [("body", i) for i in range(1, m.nbody) if m.body(i).name] + [("site", i) for i in range(m.nsite) if m.site(i).name]
    if not ends:
        return
    e = ends[int(rng.integers(len(ends)))]
    path, i = [], e[1] if e[0] == "body" else int(m.site_bodyid[e[1]])
    while i > 0:
        path.append(i)
        i = int(m.body_parentid[i])
    tops = [i for i in path if m.body(i).name and ("body", i) != e]
    top = int(rng.choice(tops)) if tops and rng.random() < 0.6 else 0
    if top:  # from a body on the way
        s = pk.build_serial_chain_from_mjcf(d.xml, name_of(m, e), name_of(m, ("body", top)))
        path = path[:path.index(top)]
    else:
        s = pk.build_serial_chain_from_mjcf(d.xml, name_of(m, e))
    path = [i for i in path[::-1] if m.body_jntnum[i]]
    names = s.get_joint_parameter_names()
    ctx.expect(len(names) == len(path), "joints of the serial robot", got=names, want=path)
    q = rng.uniform(-2, 2, len(path)).astype(np.float32).astype(float)
    qpos = rng.uniform(-1, 1, m.nq)
    for k, i in enumerate(path):
        qpos[m.jnt_qposadr[m.body_jntadr[i]]] = q[k]
        want = m.joint(m.body_jntadr[i]).name
        ctx.expect(not want or names[k] == want, "joint order of the serial robot", got=names)
    G = s.forward_kinematics(torch.tensor(q[None], dtype=F32) if len(path) else torch.zeros(1, 0)).get_matrix()[0]
    all_poses = mj_poses(m, qpos)
    ctx.close(G, np.linalg.inv(all_poses["body", top]) @ all_poses[e], 4e-6 * (5 + m.nbody * 3 + np.abs(q).sum()), "end pose of the serial robot", end=name_of(m, e))
    ctx.count("poses")
    ctx.count("documents")
    ctx.seen("serial", e[0], top, tuple((b["parent"], b["joint"] and b["joint"]["type"]) for b in d.bodies))


def several(ctx, rng):
    """Bodies with several joints (and joints that are neither hinge nor slide) are refused."""
    d = desc.mjcf(rng, n=int(rng.choice([1, 2, 4])))
    extra = str(rng.choice(['<joint type="hinge" axis="1 0 0"/><joint type="hinge" axis="0 1 0"/>', '<joint type="slide"/><joint type="hinge"/><joint type="hinge"/>', '<joint type="hinge" range="-1 1"/><joint type="slide"/>',
                            '<joint name="first" type="slide" axis="1 0 0"/><joint name="second" type="hinge" axis="1 0 0"/>']))
    body = f'<body name="extra" pos="0 0 1">{extra}<inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/></body>'
    xml = d.xml.replace("</worldbody>", body + "</worldbody>")
    mujoco.MjModel.from_xml_string(xml)  # valid for MuJoCo
    ctx.refused(lambda: pk.build_chain_from_mjcf(xml), "a body with several joints", extra=extra)
    ctx.count("documents")
    ctx.seen("several", extra)
    ctx.refused(lambda: pk.build_chain_from_mjcf(xml[:-9]), "MJCF that is not well formed")


def defaults(ctx, rng):
    """Models written with defaults, classes and nesting that MuJoCo expands."""
    deg = bool(rng.integers(2))
    n = int(rng.integers(2, 6))
    ax = " ".join(f"{x:.4f}" for x in gen.unit(rng))
    body, ref = "", ("", ' ref="0.7"')[rng.integers(2)]
    for i in reversed(range(n)):
        j = ["<joint/>", '<joint class="s"/>', f'<joint type="hinge" name="q{i}"/>', "", f'<joint ref="{rng.uniform(-1, 1) * (57 if deg else 1):.3f}"/>'][int(rng.integers(5))]
        p = " ".join(f"{x:.3f}" for x in rng.uniform(-1, 1, 3))
        e = " ".join(f"{x:.3f}" for x in rng.uniform(-3, 3, 3) * (57 if deg else 1))
        side = f'<body pos="{p} "><geom type="sphere" size="0.1" mass="1"/>{j if not "name" in j else ""}</body>' if rng.random() < 0.3 else ""
        cc = 'childclass="s"' if rng.random() < 0.3 else ""
        body = f'<body name="b{i}" {cc} pos="{p}" euler="{e}">{j}<geom type="sphere" size="0.1" mass="1"/><site pos="0.1 {0.1 * i} 0"/>{side}{body}</body>'
    xml = (f'<mujoco><compiler angle="{"degree" if deg else "radian"}"/><default><joint axis="{ax}"/><default class="s"><joint type="slide" axis="0 3 4"{ref}/></default></default>'
           f"<worldbody>{body}</worldbody></mujoco>")
    m = mujoco.MjModel.from_xml_string(xml)
    c = pk.build_chain_from_mjcf(xml)
    compare(ctx, rng, m, c)
    ctx.count("documents")
    ctx.seen("defaults", xml.count("<joint/>"), xml.count("class"), n, deg)


def anchored_document(rng):
    """Named bodies whose joints sit away from the body origin, some with a reference value."""
    n = int(rng.integers(1, 5))
    par = gen.parents(rng, n, gen.SHAPES[rng.integers(len(gen.SHAPES))])
    bodies = []
    for i in range(n):
        t = ("none", "hinge", "hinge", "slide")[rng.integers(4)] if i else ("hinge", "slide")[rng.integers(2)]
        off = i == 0 or rng.random() < 0.6
        bodies.append({"p": rng.uniform(-1, 1, 3), "q": rng.standard_normal(4), "t": t, "axis": gen.unit(rng), "at": rng.uniform(-1, 1, 3) if off else np.zeros(3),
                       "ref": float(rng.uniform(-1, 1)) if t != "none" and rng.random() < 0.4 else 0.0})

    def text(i):
        b = bodies[i]
        j = "" if b["t"] == "none" else f'<joint name="j{i}" type="{b["t"]}" axis="{desc.vec(rng, b["axis"])}" pos="{desc.vec(rng, b["at"])}" ref="{b["ref"]!r}"/>'
        return (f'<body name="b{i}" pos="{desc.vec(rng, b["p"])}" quat="{desc.vec(rng, b["q"])}">{j}<inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/>' +
                "".join(text(k) for k in range(n) if par[k] == i) + "</body>")

    return bodies, par, '<mujoco><compiler angle="radian"/><worldbody>' + "".join(text(i) for i in range(n) if par[i] == -1) + "</worldbody></mujoco>"


def known_poses(m, bodies, par, q):
    """What the library computes for such models: the frame of a body is at the anchor of its joint."""
    out = {}
    for i, b in enumerate(bodies):
        R = np.zeros(9)
        mujoco.mju_quat2Mat(R, b["q"] / np.linalg.norm(b["q"]))
        T = (out[f"b{par[i]}"] if par[i] >= 0 else np.eye(4)) @ homog(R.reshape(3, 3), b["p"])
        if b["t"] != "none":
            v = q[f"j{i}"] - b["ref"]
            T = T @ homog(p=b["at"]) @ (homog(rot(b["axis"], v)) if b["t"] == "hinge" else homog(p=b["axis"] * v))
        out[f"b{i}"] = T
    return out


def anchored_poses(rng):
    bodies, par, xml = anchored_document(rng)
    m = mujoco.MjModel.from_xml_string(xml)
    c = pk.build_chain_from_mjcf(xml)
    q = {nm: float(rng.uniform(-2, 2)) for nm in c.get_joint_parameter_names()}
    qpos = np.zeros(m.nq)
    for nm, v in q.items():
        qpos[m.jnt_qposadr[m.joint(nm).id]] = v
    T = mj_poses(m, qpos)
    want = {f"b{i}": T["body", m.body(f"b{i}").id] for i in range(len(bodies))}
    got = {k: npy(v.get_matrix())[0] for k, v in c.forward_kinematics(q).items()}
    return bodies, par, c, q, want, known_poses(m, bodies, par, q), got


def anchored(ctx, rng):
    """Joints away from the body origin: either right, or wrong in exactly the recorded way (known_findings.json)."""
    bodies, par, c, q, want, known, got = anchored_poses(rng)
    moving = {f"j{i}": b for i, b in enumerate(bodies) if b["t"] != "none"}
    ctx.expect(set(c.get_joint_parameter_names()) == set(moving), "the joints are exactly the model's", got=c.get_joint_parameter_names())
    for nm, b in moving.items():
        ctx.close(c.find_joint(nm).axis, b["axis"], 1e-6, "joint axis", joint=nm)
        ctx.expect(c.find_joint(nm).joint_type == {"hinge": "revolute", "slide": "prismatic"}[b["t"]], "joint type", joint=nm)
    err = {k: max(np.abs(got[n] - w[n]).max() for n in w) for k, w in (("right", want), ("recorded", known))}
    ctx.expect(min(err.values()) < 2e-4, "poses with displaced joints are right or wrong as recorded", errors=err, q=q)
    ctx.count("displaced_joints", err["right"] < 2e-4)
    ctx.count("displaced_joints_wrong_as_recorded", err["right"] >= 2e-4)
    ctx.seen("anchored", tuple(b["t"] for b in bodies), tuple(par))


def probe(ctx, rng):
    xml = ('<mujoco><compiler angle="radian"/><worldbody><body name="a" pos="0 0 1"><joint name="q" type="hinge" axis="0 0 1" pos="0.2 0.1 0"/><inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/>'
           '<body name="b" pos="1 0 0"><inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/></body></body></worldbody></mujoco>')
    m = mujoco.MjModel.from_xml_string(xml)
    T = mj_poses(m, [0.7])
    got = pk.build_chain_from_mjcf(xml).forward_kinematics([0.7])
    for i, nm in ((1, "a"), (2, "b")):
        ctx.close(got[nm].get_matrix()[0], T["body", i], 1e-5, "pose of a body with a joint pos", body=nm)


PROBES = [("joint-away-from-the-body-origin", probe)]
FAMILIES = [("document", document), ("document", document), ("rooted", rooted), ("serial", serial), ("defaults", defaults), ("document", document), ("several", several), ("rooted", rooted), ("anchored", anchored)]
