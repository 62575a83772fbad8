"""C07: URDF robots load with the structure and kinematics they describe."""
import glob
import os
import sys

from ..env import F32, F64, REPO, np, npy, pk, torch
from .. import desc, gen
from ..ref import serial_robot

ORACLE = "float64 reference built from the document's own numbers (generator ground truth and an independent XML reader), and PyBullet's loader"
RULE = "distinct (tree shape, joint types, which origins, axes and limits are omitted) documents loaded and compared"
CONFIG = {"quick": {"cases": 3200, "min": {"documents": 600, "poses": 5000, "joints": 2000, "bullet_poses": 200, "column_orders": 100}}, "thorough": {"cases": 30000, "seconds": 780}}


def sig(d):
    return tuple((j["type"], j["parent"], j["xyz"] is None, j["rpy"] is None, j["axis"] is None) for j in d.joints)


def structure(ctx, d, c, kind="urdf"):
    names = [l["name"] for l in d.links]
    ctx.expect(sorted(c.get_frame_names(exclude_fixed=False)) == sorted(names), "the robot has exactly the document's links", got=c.get_frame_names(exclude_fixed=False), want=names)
    ctx.expect(sorted(c.get_link_names()) == sorted(names), "link names are the document's")
    mv = [j["name"] for j in d.joints if j["type"] != "fixed"]
    ctx.expect(sorted(c.get_joint_parameter_names()) == sorted(mv), "the moving joints are the document's", got=c.get_joint_parameter_names(), want=mv)
    root = d.root()
    for i, n in enumerate(names):
        f = c.find_frame(n)
        ctx.expect(f is not None and f.name == n and f.link.name == n, "every link has a frame", link=n)
        kids = sorted(names[j["child"]] for j in d.joints if j["parent"] == i)
        ctx.expect(sorted(x.name for x in f.children) == kids, "children of a link are the document's", link=n, got=[x.name for x in f.children], want=kids)
        if i == root:
            ctx.expect(f.joint.joint_type == "fixed", "the root does not move")
            continue
        j = [x for x in d.joints if x["child"] == i][0]
        want = "revolute" if j["type"] == "continuous" else j["type"]
        ctx.expect(f.joint.name == j["name"] and f.joint.joint_type == want, "joint name and type", joint=j["name"], got=(f.joint.name, f.joint.joint_type), want=want)
        if want != "fixed":
            a = np.array(desc.axis_of(d, j))
            ctx.close(f.joint.axis, a / np.linalg.norm(a), 3e-6, "joint axis", joint=j["name"])
        ctx.count("joints")


def columns(ctx, text, c):
    want = desc.joint_order(text)
    ctx.expect(c.get_joint_parameter_names() == want, "joint columns run depth first, siblings in the document's order", got=c.get_joint_parameter_names(), want=want)
    ctx.count("column_orders", len(want) > 1)


def poses(ctx, rng, r, c, B=2, tolk=1.0, what="pose"):
    q = gen.configs(rng, r.n, B).astype(np.float32).astype(float)
    order = c.get_joint_parameter_names()
    cols = [r.joint_names.index(n) for n in order]
    th = torch.tensor(q[:, cols], dtype=c.dtype) if r.n else torch.zeros(B, 0, dtype=c.dtype)
    if r.n and rng.random() < 0.3:
        got = c.forward_kinematics({n: torch.tensor(q[:, i], dtype=c.dtype) for i, n in enumerate(r.joint_names)})
    else:
        got = c.forward_kinematics(th)
    want = r.fk_batch(q)
    ctx.expect(set(got) == set(want), "poses for every link")
    for k, T in want.items():
        ctx.close(got[k].get_matrix(), T, tolk * gen.tol(r, q, F32, 2), f"{what}", link=k, path=[f.joint.type for f in r.path(k)])
        ctx.count("poses", B)


def document(ctx, rng):
    d = desc.doc(rng)
    text = desc.urdf(rng, d)
    c = pk.build_chain_from_urdf(text if rng.random() < 0.6 else text.encode())
    structure(ctx, d, c)
    columns(ctx, text, c)
    r = desc.robot(d)
    poses(ctx, rng, r, c)
    ctx.count("documents")
    ctx.seen(sig(d))
    ctx.sample(links=len(d.links), joints=[j["type"] for j in d.joints], text=text[:180])
    # the same robot written in another order is the same robot
    if rng.random() < 0.4:
        c2 = pk.build_chain_from_urdf(desc.urdf(rng, d, extras=bool(rng.integers(2))))
        structure(ctx, d, c2)
        poses(ctx, rng, r, c2)


def serial(ctx, rng):
    d = desc.doc(rng, n=int(rng.integers(2, 9)))
    text = desc.urdf(rng, d)
    r = desc.robot(d)
    e = r.frames[int(rng.integers(1, len(r.frames)))]
    path = r.path(e.name)
    top = path[int(rng.integers(0, len(path) - 1))] if rng.random() < 0.6 else path[0]
    if top is path[0] and rng.random() < 0.5:
        s = pk.build_serial_chain_from_urdf(text, e.name)
    else:
        s = pk.build_serial_chain_from_urdf(text, e.name, top.name)
    sr = serial_robot(r, top.name, e.name)
    ctx.expect(s.get_joint_parameter_names() == sr.joint_names, "joints of the serial robot", got=s.get_joint_parameter_names(), want=sr.joint_names)
    q = gen.configs(rng, sr.n, 3).astype(np.float32).astype(float)
    th = torch.tensor(q, dtype=F32) if sr.n else torch.zeros(3, 0)
    got = s.forward_kinematics(th, end_only=False)
    for k, T in sr.fk_batch(q).items():
        ctx.close(got[k].get_matrix(), T, gen.tol(sr, q, F32, 2), "pose on the serial robot", link=k)
        ctx.count("poses", 3)
    ctx.count("documents")
    ctx.seen("serial", sig(d), top.name == path[0].name)


def handwritten(ctx, rng):
    """Documents dominated by one feature: every rpy component alone, deep chains, only defaults, odd axes."""
    k = int(rng.integers(0, 5))
    if k == 0:
        d = desc.doc(rng, n=2)
        j = d.joints[0]
        j["rpy"] = [0.0, 0.0, 0.0]
        j["rpy"][rng.integers(3)] = float(rng.uniform(-6, 6))
        j["xyz"] = None
    elif k == 1:
        d = desc.doc(rng, n=int(rng.choice([15, 25])), visuals=0.0)
    elif k == 2:
        d = desc.doc(rng, n=5)
        for j in d.joints:
            j.update(xyz=None, rpy=None, axis=None, limit=None)
    elif k == 3:
        d = desc.doc(rng, n=4, types=("revolute", "prismatic", "continuous"))
        for j in d.joints:
            j["axis"] = [float(x) for x in gen.unit(rng) * 10 ** rng.uniform(-4, 4)]
    else:
        d = desc.doc(rng, n=6)
        for j in d.joints:
            j["rpy"] = [float(x) for x in rng.uniform(-7, 7, 3)]
            j["xyz"] = [float(x) for x in rng.uniform(-2, 2, 3)]
    c = pk.build_chain_from_urdf(desc.urdf(rng, d, extras=False))
    structure(ctx, d, c)
    poses(ctx, rng, desc.robot(d), c, B=2)
    ctx.count("documents")
    ctx.seen(k, sig(d))


_bullet = {}


def bullet(ctx, rng):
    """PyBullet's own loader on a generated document."""
    try:
        if "p" not in _bullet:
            fd = os.dup(1)
            import pybullet
            _bullet["p"] = pybullet
            pybullet.connect(pybullet.DIRECT)
            os.close(fd)
        p = _bullet["p"]
    except ImportError:
        ctx.count("bullet_missing")
        return
    import tempfile
    d = desc.doc(rng, n=int(rng.integers(2, 7)), visuals=0.0)
    for i, l in enumerate(d.links):
        l["name"] = f"l{i}"
    for i, j in enumerate(d.joints):
        j["name"] = f"j{i}"
        # PyBullet has other defaults, does not normalise axes and wants limits
        a = np.array(j["axis"] if j["axis"] is not None and any(j["axis"]) else [0.0, 0.0, 1.0])
        j.update(axis=None if j["type"] == "fixed" else [float(x) for x in a / np.linalg.norm(a)], xyz=j["xyz"] or [0.0] * 3, rpy=j["rpy"] or [0.0] * 3,
                 limit=None if j["type"] == "fixed" else {"effort": 1.0, "velocity": 1.0, "lower": -30.0, "upper": 30.0})
    desc.PLAIN = True  # PyBullet only reads plainly written numbers
    try:
        text = desc.urdf(rng, d, extras=False, order=False).replace("<!-- generated -->\n", "")
    finally:
        desc.PLAIN = False
    with tempfile.TemporaryDirectory(prefix="pkverif_") as tmp:
        path = os.path.join(tmp, "r.urdf")
        with open(path, "w") as f:
            f.write(text)
        sys.stdout.flush()
        saved, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            b = p.loadURDF(path, useFixedBase=True)
        finally:
            os.dup2(saved, 1)
            os.close(saved)
            os.close(null)
    try:
        c = pk.build_chain_from_urdf(text)
        r = desc.robot(d)
        q = rng.uniform(-3, 3, r.n)
        val = dict(zip(r.joint_names, q))
        link_of = {"l%d" % d.root(): -1}
        for i in range(p.getNumJoints(b)):
            info = p.getJointInfo(b, i)
            link_of[info[12].decode()] = i
            if info[1].decode() in val:
                p.resetJointState(b, i, val[info[1].decode()])
        got = c.forward_kinematics({k: float(v) for k, v in val.items()}) if r.n else c.forward_kinematics(torch.zeros(1, 0))
        for name, i in link_of.items():
            if i < 0:
                continue
            s = p.getLinkState(b, i, computeForwardKinematics=True)
            M = np.eye(4)
            M[:3, :3] = np.array(p.getMatrixFromQuaternion(s[5])).reshape(3, 3)
            M[:3, 3] = s[4]
            ctx.close(got[name].get_matrix()[0], M, 4 * gen.tol(r, q, F32, 2), "pose against PyBullet", link=name, path=[f.joint.type for f in r.path(name)])
            ctx.count("bullet_poses")
    finally:
        p.removeBody(b)
    ctx.count("documents")
    ctx.seen("bullet", sig(d))


def files(ctx, rng):
    """Robots shipped with the repository, read independently."""
    fs = sorted(glob.glob(os.path.join(REPO, "tests", "*.urdf")) + glob.glob(os.path.join(REPO, "tests", "widowx", "*.urdf")))
    if not fs:
        return
    f = fs[int(rng.integers(len(fs)))]
    text = open(f, "rb").read()
    d = desc.read_urdf(text)
    if any(j["type"] not in desc.URDF_TYPES for j in d.joints):
        return
    c = pk.build_chain_from_urdf(text)
    structure(ctx, d, c)
    poses(ctx, rng, desc.robot(d), c, B=2)
    ctx.count("documents")
    ctx.seen("file", os.path.basename(f))


FAMILIES = [("document", document), ("document", document), ("serial", serial), ("handwritten", handwritten), ("bullet", bullet), ("document", document), ("document", document),
            ("handwritten", handwritten), ("serial", serial), ("files", files)]
