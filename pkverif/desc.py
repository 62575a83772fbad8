"""Generated robot descriptions with their ground truth: URDF and SDF documents, and an independent URDF reader."""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

import numpy as np

from . import gen
from .ref import RFrame, RJoint, Robot, homog, inv_rigid, rpy


class Doc:
    """links: list of dict(name, visuals, pose); joints: list of dict(name, type, parent, child, xyz, rpy, axis, limit), indices into links."""

    def __init__(self, links, joints, name="bot"):
        self.links, self.joints, self.name = links, joints, name

    def root(self):
        kids = {j["child"] for j in self.joints}
        return [i for i in range(len(self.links)) if i not in kids][0]


PLAIN = False


# ---- numbers and text -------------------------------------------------------------------
def num(rng, x):
    """One of the spellings of a number that denote exactly the same double."""
    x = float(x)
    if PLAIN:
        return f"{x:.12f}"
    k = rng.integers(0, 6)
    if x == int(x) and abs(x) < 1e6:
        return [str(int(x)), f"{x:.1f}", f"{x:.3f}", f"{x:e}", repr(x), ("+" if x >= 0 else "") + str(int(x)) if not (x == 0) else "-0.0"][k]
    s = repr(x)
    if k == 0 and s.startswith("0."):
        return s[1:]
    if k == 1 and x > 0:
        return "+" + s
    if k == 2:
        return f"{x:.17e}"
    return s


def vec(rng, v):
    if PLAIN:
        return " ".join(num(rng, x) for x in v)
    sep = [" ", "  ", "\t", " \n "][rng.choice(4, p=[0.7, 0.1, 0.1, 0.1])]
    s = sep.join(num(rng, x) for x in v)
    return s if rng.random() < 0.8 else f" {s} "


def value(rng, scale=1.0):
    k = rng.integers(0, 5)
    if k == 0:
        return 0.0
    if k == 1:
        return float(round(rng.uniform(-scale, scale), 2))
    if k == 2 and rng.random() < 0.4:
        return float(rng.uniform(-scale, scale) * 10.0 ** rng.integers(-6, -1))
    return float(rng.uniform(-scale, scale))


def angles(rng):
    k = rng.integers(0, 5)
    if k == 0:
        return [0.0, 0.0, 0.0]
    if k == 1:
        v = [0.0, 0.0, 0.0]
        v[rng.integers(3)] = float(rng.choice([np.pi / 2, -np.pi / 2, np.pi, 1.5708, -3.14159, 3.1415926535]))
        return v
    if k == 2:  # gimbal lock of the angles
        return [float(rng.uniform(-3, 3)), float(rng.choice([-1, 1]) * np.pi / 2), float(rng.uniform(-3, 3))]
    if k == 3 and rng.random() < 0.4:
        return [float(x) for x in rng.uniform(-1, 1, 3) * 10.0 ** rng.integers(-6, -1)]
    return [float(x) for x in rng.uniform(-np.pi, np.pi, 3)]


def bounds(rng, lo, up):
    """Position limits with the values that are easily mistaken for missing or meaningless ones."""
    k = int(rng.integers(0, 16))
    if k < 8:
        return [(0.0, abs(up)), (-abs(lo), 0.0), (-1e16, 1e16), (0.0, 0.0), (-abs(lo), abs(lo)), (lo, lo), (-6.283185307179586, 6.283185307179586), (abs(lo), abs(lo) + abs(up))][k]
    return lo, up


def xname(rng, n, prefix):
    style = rng.integers(0, 5)
    if style == 0:
        out = [f"{prefix}{i}" for i in range(n)]
    elif style == 1:
        out = [prefix + "_x" * i for i in range(n)]
    elif style == 2:
        out = [f"{prefix} {i}&<é>'{i}" for i in range(n)]
    elif style == 3:
        out = [f"robot/{prefix}-{i}_frame" for i in range(n)]
    else:
        out = [f"{prefix}{int(x)}" for x in rng.permutation(12 * n)[:n]]
    return [out[i] for i in rng.permutation(n)] if style else out


def geometry(rng, kinds=("box", "cylinder", "sphere", "mesh")):
    k = kinds[rng.integers(len(kinds))]

    def d():
        return float(round(rng.uniform(0.01, 2), 3))

    if k == "box":
        return k, [d(), d(), d()]
    if k in ("cylinder", "capsule"):
        return k, (d(), d())
    if k == "sphere":
        return k, d()
    return k, (f"package://m/mesh_{int(rng.integers(100))}.stl", [d(), d(), d()] if rng.random() < 0.5 else None)


def visual(rng, kinds=("box", "cylinder", "sphere", "mesh", "capsule")):
    k, p = geometry(rng, kinds)
    pose = None if rng.random() < 0.3 else ([value(rng) for _ in range(3)], angles(rng))
    return {"kind": k, "param": p, "pose": pose, "part": int(rng.integers(0, 4))}


URDF_TYPES = ("fixed", "revolute", "continuous", "prismatic")
SDF_TYPES = ("fixed", "revolute", "prismatic")


def doc(rng, n=None, types=URDF_TYPES, kinds=("box", "cylinder", "sphere", "mesh", "capsule"), visuals=0.5):
    n = int(n if n is not None else rng.choice([1, 2, 3, 4, 5, 7, 10]))
    par = gen.parents(rng, n, gen.SHAPES[rng.integers(len(gen.SHAPES))])
    ln, jn = xname(rng, n, "link"), xname(rng, n, "joint")
    if rng.random() < 0.2:
        jn = list(ln)  # joints named like links
    links, joints = [], []
    for i in range(n):
        vs = [visual(rng, kinds) for _ in range(int(rng.choice([1, 1, 2, 3])))] if rng.random() < visuals else []
        links.append({"name": ln[i], "visuals": vs, "pose": None if rng.random() < 0.25 else ([value(rng) for _ in range(3)], angles(rng))})
        if i == 0:
            continue
        t = types[rng.integers(len(types))]
        k = rng.integers(0, 5)
        xyz = None if k == 0 or k == 1 else [value(rng) for _ in range(3)]
        ang = None if k == 0 or k == 2 else angles(rng)
        if rng.random() < 0.07:  # calibration-sized
            s = 10.0 ** rng.uniform(-5, -1.5)
            xyz, ang = [float(x) for x in rng.uniform(-s, s, 3)], None if rng.random() < 0.5 else [float(x) for x in rng.uniform(-s, s, 3)]
        ax = None if rng.random() < 0.2 else [float(x) for x in gen.axis(rng)]
        if t == "fixed":
            ax = ([0.0, 0.0, 0.0], ax, None)[rng.integers(3)]
        lim = None
        if t == "fixed":
            lim = {"effort": 0.0, "velocity": 0.0} if rng.random() < 0.2 else None
        elif t == "continuous":
            lim = {"effort": float(round(rng.uniform(0, 90), 1)), "velocity": float(round(rng.uniform(0, 9), 2))} if rng.random() < 0.5 else None
            if lim and rng.random() < 0.3:
                lim.update(lower=-1.0, upper=1.0)
        elif rng.random() < 0.85:
            lim = {"effort": float(rng.choice([0.0, 1e9, 100.0, round(rng.uniform(0, 90), 1)], p=[0.1, 0.1, 0.1, 0.7])), "velocity": float(rng.choice([0.0, 1e4, round(rng.uniform(0, 9), 2)], p=[0.1, 0.1, 0.8]))}
            kk = rng.integers(0, 6)
            if kk != 0:
                lo = float(round(rng.uniform(-4, 0.5), 3))
                up = float(round(lo + rng.uniform(0, 5), 3))
                lo, up = bounds(rng, lo, up)
                if kk == 1:
                    lim["upper"] = abs(up)
                elif kk == 2:
                    lim["lower"] = -abs(lo)
                else:
                    lim.update(lower=lo, upper=up)
        joints.append({"name": jn[i], "type": t, "parent": par[i], "child": i, "xyz": xyz, "rpy": ang, "axis": ax, "limit": lim})
    if joints and rng.random() < 0.2:  # poses and axes that coincide
        for j in joints:
            o, l, m = joints[int(rng.integers(len(joints)))], links[j["child"]], links[int(rng.integers(n))]
            k = int(rng.integers(0, 6))
            if k in (0, 1):
                j["xyz"], j["rpy"] = o["xyz"], o["rpy"]
            if k in (0, 2) and (j["type"] == "fixed") == (o["type"] == "fixed"):
                j["axis"] = o["axis"]
            if k in (0, 3):
                l["pose"] = m["pose"]
            if k == 4 and l["visuals"]:
                l["visuals"][0]["pose"] = l["pose"] if rng.random() < 0.5 else m["visuals"][0]["pose"] if m["visuals"] else None
            if k == 5 and j["xyz"] is not None and j["rpy"] is not None:
                (l["visuals"][0] if l["visuals"] else l)["pose"] = (list(j["xyz"]), list(j["rpy"]))
    return Doc(links, joints)


def robot(d, kind="urdf"):
    """Ground truth Robot; moving joints carry the document's position limits."""
    fr = [RFrame(l["name"], RJoint(), l["name"]) for l in d.links]
    poses = [np.eye(4) if l["pose"] is None else homog(rpy(*l["pose"][1]), l["pose"][0]) for l in d.links]
    for j in d.joints:
        c = j["child"]
        t = "revolute" if j["type"] == "continuous" else j["type"]
        if kind == "urdf":
            off = homog(None if j["rpy"] is None else rpy(*j["rpy"]), j["xyz"])
        else:
            off = inv_rigid(poses[j["parent"]]) @ poses[c]
        ax = axis_of(d, j)
        fr[c].joint = RJoint(j["name"], t, tuple(ax), off, limits(j, kind))
        fr[j["parent"]].children.append(fr[c])
    root = fr[d.root()]
    if kind == "sdf":
        root.joint.offset = poses[d.root()]
    return Robot(root)


def axis_of(d, j):
    """The axis in the frame of the child link (SDF documents may give it in the model's)."""
    ax = j["axis"] if j["axis"] is not None and any(j["axis"]) else (0.0, 0.0, 1.0)
    l = d.links[j["child"]]
    if j.get("in_model") and l["pose"] is not None:
        ax = rpy(*l["pose"][1]).T @ np.array(ax, float)
    return ax


def limits(j, kind="urdf"):
    lim = j["limit"]
    if lim is None or j["type"] == "continuous":
        return None
    if kind == "urdf":
        return (lim.get("lower", 0.0), lim.get("upper", 0.0))
    if "lower" not in lim and "upper" not in lim and not lim.get("empty"):
        return None
    return (lim.get("lower", -np.inf), lim.get("upper", np.inf))


# ---- writing ----------------------------------------------------------------------------
def q(s):
    return quoteattr(str(s))


def origin(rng, xyz, ang, tag="origin"):
    if xyz is None and ang is None:
        return f"<{tag}/>" if rng.random() < 0.3 else ""
    parts = []
    if xyz is not None:
        parts.append(f'xyz="{vec(rng, xyz)}"')
    if ang is not None:
        parts.append(f'rpy="{vec(rng, ang)}"')
    if rng.random() < 0.4:
        parts.reverse()
    return f"<{tag} {' '.join(parts)}/>"


def urdf_geometry(rng, k, p):
    if k == "box":
        return f'<box size="{vec(rng, p)}"/>'
    if k in ("cylinder", "capsule"):
        a = [f'radius="{num(rng, p[0])}"', f'length="{num(rng, p[1])}"']
        return f"<{k} {' '.join(a if rng.random() < 0.5 else a[::-1])}/>"
    if k == "sphere":
        return f'<sphere radius="{num(rng, p)}"/>'
    return f'<mesh filename={q(p[0])}' + (f' scale="{vec(rng, p[1])}"' if p[1] is not None else "") + "/>"


def shuffled(rng, parts):
    parts = [p for p in parts if p]
    return [parts[i] for i in rng.permutation(len(parts))]


def noise(rng):
    return str(rng.choice(["", "", "<!-- a comment -->", "\n   "]))


def material(rng):
    m = f"mat{int(rng.integers(5))}"
    return str(rng.choice(["", f'<material name="{m}"/>', f'<material name="{m}"><color rgba="0.1 0.2 0.3 1"/></material>',
                           f'<material name="{m}"><texture filename="t.png"/></material>']))


def urdf_link(rng, l, extras=True):
    parts = []
    vis = []
    for v in l["visuals"]:
        o = origin(rng, *v["pose"]) if v["pose"] is not None else ""
        vis.append("<visual>" + noise(rng).join(shuffled(rng, [o, "<geometry>" + urdf_geometry(rng, v["kind"], v["param"]) + "</geometry>", material(rng)])) + "</visual>")
    other = []
    if extras:
        if rng.random() < 0.5:  # must not leak into poses or visuals
            other.append("<inertial>" + "".join(shuffled(rng, [origin(rng, [value(rng, 9) for _ in range(3)], angles(rng)), f'<mass value="{num(rng, rng.uniform(0, 9))}"/>',
                                                               '<inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/>'])) + "</inertial>")
        for _ in range(int(rng.integers(0, 3))):
            k, p = geometry(rng)
            other.append("<collision>" + "".join(shuffled(rng, [origin(rng, [value(rng, 9) for _ in range(3)], angles(rng)), "<geometry>" + urdf_geometry(rng, k, p) + "</geometry>"])) + "</collision>")
    # visuals keep their order; the others go anywhere between them
    parts = list(vis)
    for o in other:
        parts.insert(int(rng.integers(0, len(parts) + 1)), o)
    body = noise(rng).join(parts)
    return f"<link name={q(l['name'])}/>" if not body and rng.random() < 0.5 else f"<link name={q(l['name'])}>{body}</link>"


def urdf_joint(rng, j, d, extras=True):
    parts = [f"<parent link={q(d.links[j['parent']]['name'])}/>", f"<child link={q(d.links[j['child']]['name'])}/>", origin(rng, j["xyz"], j["rpy"])]
    if j["axis"] is not None:
        parts.append(f'<axis xyz="{vec(rng, j["axis"])}"/>')
    if j["limit"] is not None:
        a = [f'{k}="{num(rng, v)}"' for k, v in j["limit"].items()]
        parts.append("<limit " + " ".join(shuffled(rng, a)) + "/>")
    if extras:
        if rng.random() < 0.2:
            parts.append('<dynamics damping="0.7" friction="0.1"/>')
        if rng.random() < 0.1:
            parts.append('<safety_controller k_velocity="10" k_position="15" soft_lower_limit="-0.1" soft_upper_limit="0.1"/>')
        if rng.random() < 0.1:
            parts.append('<calibration rising="0.3"/>')
    at = [f"name={q(j['name'])}", f'type="{j["type"]}"']
    return f"<joint {' '.join(at if rng.random() < 0.5 else at[::-1])}>" + noise(rng).join(shuffled(rng, parts)) + "</joint>"


def urdf(rng, d, extras=True, order=True):
    parts = [urdf_link(rng, l, extras) for l in d.links] + [urdf_joint(rng, j, d, extras) for j in d.joints]
    if extras:
        if rng.random() < 0.3:
            parts.append('<material name="blue"><color rgba="0 0 1 1"/></material>')
        if rng.random() < 0.2:
            parts.append(f"<gazebo reference={q(d.links[0]['name'])}><selfCollide>true</selfCollide></gazebo>")
        if rng.random() < 0.15 and d.joints:
            jn = q(d.joints[0]["name"])
            parts.append(f'<transmission name="t0"><type>simple</type><joint name={jn}><hardwareInterface>E</hardwareInterface></joint><actuator name="m0"/></transmission>')
    if order and rng.random() < 0.7:
        parts = shuffled(rng, parts)
    head = str(rng.choice(["", '<?xml version="1.0"?>\n', "<!-- generated -->\n"]))
    return head + f"<robot name={q(d.name)}>\n" + ("\n  " + noise(rng)).join(parts) + "\n</robot>\n"


def pose_text(rng, pose):
    return f"<pose>{vec(rng, list(pose[0]) + list(pose[1]))}</pose>"


def esc(s):
    return str(s).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def sdf_geometry(rng, k, p):
    if k == "box":
        return f"<box><size>{vec(rng, p)}</size></box>"
    if k == "cylinder":
        a = [f"<radius>{num(rng, p[0])}</radius>", f"<length>{num(rng, p[1])}</length>"]
        return "<cylinder>" + "".join(shuffled(rng, a)) + "</cylinder>"
    if k == "sphere":
        return f"<sphere><radius>{num(rng, p)}</radius></sphere>"
    return f"<mesh><filename>{esc(p[0])}</filename>" + (f"<scale>{vec(rng, p[1])}</scale>" if p[1] is not None else "") + "</mesh>"


def sdf_link(rng, l):
    vis = []
    for i, v in enumerate(l["visuals"]):
        o = pose_text(rng, v["pose"]) if v["pose"] is not None else ""
        vis.append(f'<visual name="v{i}">' + "".join(shuffled(rng, [o, "<geometry>" + sdf_geometry(rng, v["kind"], v["param"]) + "</geometry>"])) + "</visual>")
    inert = ["<mass>1.5</mass>", "<inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia>"]
    if rng.random() < 0.5:
        inert.append(pose_text(rng, ([value(rng, 9) for _ in range(3)], angles(rng))))
    k = rng.random()  # links need no inertial properties, nor all of them
    inert = inert if k < 0.7 else inert[:int(rng.integers(0, len(inert)))]
    other = [] if k > 0.85 else ["<inertial>" + "".join(shuffled(rng, inert)) + "</inertial>"]
    if l["pose"] is not None:
        other.append(pose_text(rng, l["pose"]))
    if rng.random() < 0.5:
        k, p = geometry(rng)
        other.append('<collision name="c">' + "".join(shuffled(rng, [pose_text(rng, ([value(rng, 9) for _ in range(3)], angles(rng))), "<geometry>" + sdf_geometry(rng, k, p) + "</geometry>"])) + "</collision>")
    parts = list(vis)
    for o in other:
        parts.insert(int(rng.integers(0, len(parts) + 1)), o)
    return f"<link name={q(l['name'])}>" + noise(rng).join(parts) + "</link>"


def sdf_joint(rng, j, d):
    parts = [f"<parent>{esc(d.links[j['parent']]['name'])}</parent>", f"<child>{esc(d.links[j['child']]['name'])}</child>"]
    if j["axis"] is not None or j["type"] != "fixed":
        ax = j["axis"] if j["axis"] is not None else [0.0, 0.0, 1.0]
        a = [f"<xyz>{vec(rng, ax)}</xyz>"]
        if j["limit"] is not None:
            lim = shuffled(rng, [f"<{k}>{num(rng, j['limit'][k])}</{k}>" for k in ("lower", "upper") if k in j["limit"]])
            if lim or j["limit"].get("empty"):
                a.append("<limit>" + "".join(lim) + "</limit>")
        if rng.random() < 0.2:
            a.append("<dynamics><damping>0.1</damping></dynamics>")
        if j.get("in_model") is not None:
            t = [("0", "false"), ("1", "true")][bool(j["in_model"])][int(rng.integers(2))]
            a.append(f"<use_parent_model_frame>{t}</use_parent_model_frame>")
        parts.append("<axis>" + "".join(shuffled(rng, a)) + "</axis>")
    return f"<joint name={q(j['name'])} type=\"{j['type']}\">" + noise(rng).join(shuffled(rng, parts)) + "</joint>"


def sdf(rng, d):
    parts = [sdf_link(rng, l) for l in d.links] + [sdf_joint(rng, j, d) for j in d.joints]
    if rng.random() < 0.7:
        parts = shuffled(rng, parts)
    if rng.random() < 0.3:
        parts.append(pose_text(rng, ([1.0, 2.0, 3.0], [0.1, 0.2, 0.3])))  # pose of the model in its world
    ver = str(rng.choice(["1.4", "1.5", "1.6"]))
    return f"<sdf version='{ver}'><model name={q(d.name)}>" + ("\n " + noise(rng)).join(parts) + "</model></sdf>"


def clean(d):
    """SDF limits only have lower and upper."""
    for j in d.joints:
        if j["limit"] is not None:
            j["limit"] = {k: v for k, v in j["limit"].items() if k in ("lower", "upper")}
            if not j["limit"] or j["type"] == "fixed":
                j["limit"] = None
        if j["axis"] is None and j["type"] != "fixed":
            j["axis"] = [0.0, 0.0, 1.0]
    for k, j in enumerate(d.joints):  # no draw, so that the other choices stay as they were
        if j["type"] != "fixed":
            j["in_model"] = (None, None, False, True)[(k + len(d.links[j["child"]]["name"]) + int(abs(j["axis"][0]) * 1000)) % 4]
    return d


# ---- an independent reader --------------------------------------------------------------
def read_urdf(text):
    """Doc of an arbitrary URDF by the standard library's XML reader."""
    t = ET.fromstring(text)

    def vecof(s):
        return [float(x) for x in s.split()]

    def pose(e):
        o = e.find("origin")
        if o is None:
            return None, None
        return (vecof(o.get("xyz")) if o.get("xyz") is not None else None), (vecof(o.get("rpy")) if o.get("rpy") is not None else None)

    links, index = [], {}
    for l in t.findall("link"):
        vs = []
        for v in l.findall("visual"):
            g = list(v.find("geometry"))[0]
            k = g.tag
            p = {"box": lambda: vecof(g.get("size")), "sphere": lambda: float(g.get("radius")), "mesh": lambda: (g.get("filename"), vecof(g.get("scale")) if g.get("scale") else None)}.get(
                k, lambda: (float(g.get("radius")), float(g.get("length"))))()
            o = v.find("origin")
            xyz, ang = pose(v)
            vs.append({"kind": k, "param": p, "pose": None if o is None else (xyz or [0.0] * 3, ang or [0.0] * 3)})
        index[l.get("name")] = len(links)
        links.append({"name": l.get("name"), "visuals": vs, "pose": None})
    joints = []
    for j in t.findall("joint"):
        xyz, ang = pose(j)
        a, lim = j.find("axis"), j.find("limit")
        joints.append({"name": j.get("name"), "type": j.get("type"), "parent": index[j.find("parent").get("link")], "child": index[j.find("child").get("link")],
                       "xyz": xyz, "rpy": ang, "axis": None if a is None or a.get("xyz") is None else vecof(a.get("xyz")),
                       "limit": None if lim is None else {k: float(lim.get(k)) for k in ("effort", "velocity", "lower", "upper") if lim.get(k) is not None}})
    return Doc(links, joints, t.get("name"))


def joint_order(text):
    """Moving joints depth first, siblings in the order a URDF or SDF document has them, by the standard library's XML reader."""
    t = ET.fromstring(text)
    t = t if t.tag == "robot" else t.find("model")
    js = []
    for j in t.findall("joint"):
        a, b = j.find("parent"), j.find("child")
        js.append((j.get("name"), j.get("type"), a.get("link") or (a.text or "").strip(), b.get("link") or (b.text or "").strip()))
    out = []

    def walk(link):
        for n, kind, a, b in js:
            if a == link:
                if kind != "fixed":
                    out.append(n)
                walk(b)

    for root in dict.fromkeys(a for _, _, a, _ in js if a not in {x[3] for x in js}):
        walk(root)
    return out


# ---- MJCF ---------------------------------------------------------------------------------
def mj_orient(rng, radian):
    """Orientation attribute text, in one of MJCF's forms."""
    k = int(rng.integers(0, 6))
    u = 1.0 if radian else 180 / np.pi
    if k == 0:
        return ""
    if k == 1:
        v = rng.standard_normal(4) * (1.0 if rng.random() < 0.5 else 3.0)
        return f'quat="{vec(rng, v)}"'
    if k == 2:
        return f'euler="{vec(rng, np.array(angles(rng)) * u)}"'
    if k == 3:
        return f'axisangle="{vec(rng, list(gen.unit(rng) * 2) + [rng.uniform(-3, 3) * u])}"'
    if k == 4:
        a = gen.unit(rng)
        b = np.cross(a, gen.unit(rng))
        return f'xyaxes="{vec(rng, list(a) + list(b))}"'
    return f'zaxis="{vec(rng, gen.unit(rng))}"'


def mj_geom(rng, radian, moving):
    k = ("sphere", "capsule", "ellipsoid", "cylinder", "box", "plane")[int(rng.integers(0, 5 if moving else 6))]
    n = {"sphere": 1, "capsule": 2, "ellipsoid": 3, "cylinder": 2, "box": 3, "plane": 3}[k]
    size = [float(round(rng.uniform(0.05, 1), 3)) for _ in range(n)]
    pick = int(size[0] * 1000)  # no draw, so that the other choices stay as they were
    more = ("", "", 'group="3"', 'group="1" contype="0" conaffinity="0"', 'rgba="0.1 0.5 0.9 1"', 'density="10" group="5"', 'margin="0.01" priority="1"')[pick % 7]
    return {"kind": k, "size": size, "text": f'<geom type="{k}" {more} size="{vec(rng, size)}" pos="{vec(rng, rng.uniform(-1, 1, 3))}" {mj_orient(rng, radian)}/>'}


class MJ:
    """Document plus facts: bodies are listed in the order MuJoCo numbers them (depth first)."""


def mjcf(rng, n=None, multi=False):
    n = int(n if n is not None else rng.choice([1, 2, 3, 4, 6, 9]))
    par = gen.parents(rng, n, gen.SHAPES[rng.integers(len(gen.SHAPES))])
    radian = bool(rng.integers(2))
    bn, jn, sn = xname(rng, n, "body"), xname(rng, n, "joint"), xname(rng, 3 * n, "site")
    eulerseq = str(rng.choice(["xyz", "XYZ", "zyx", "xyx"]))
    bodies = []
    u = 1.0 if radian else np.pi / 180
    nsite = 0
    for i in range(n):
        b = {"name": bn[i] if rng.random() < 0.75 else None, "parent": par[i], "joint": None, "geoms": [], "sites": []}
        b["pos"] = rng.uniform(-1, 1, 3)
        b["orient"] = mj_orient(rng, radian)
        t = ("none", "hinge", "hinge", "slide")[rng.integers(4)]
        if t != "none":
            j = {"name": jn[i] if rng.random() < 0.75 else None, "type": t, "axis": None if rng.random() < 0.2 else gen.axis(rng), "text_type": t == "slide" or rng.random() < 0.7,
                 "range": None, "limited": None}
            k = rng.integers(0, 5)
            if k > 1:
                lo = rng.uniform(-3, 1)
                rg = np.round([lo, lo + rng.uniform(0.1, 4)], 4)
                if rng.random() < 0.4:
                    rg = np.array([(0.0, abs(lo) + 0.1), (-abs(lo) - 0.1, 0.0), (-abs(lo) - 0.1, abs(lo) + 0.1), (-6.2832, 6.2832), (1.0, 1.5)][int(rng.integers(5))])
                if t == "hinge" and not radian:
                    rg = np.round(np.degrees(rg), 2)
                j["range"] = rg
                j["limited"] = (None, "true", "false")[rng.integers(3)] if k > 2 else None
            j["limits"] = None if j["range"] is None or j["limited"] == "false" else tuple(float(x) * (u if t == "hinge" else 1.0) for x in j["range"])
            j["ref"] = round(float(rng.uniform(-2, 2)) / (u if t == "hinge" else 1.0), 3) if rng.random() < 0.2 else None
            b["joint"] = j
        for _ in range(int(rng.choice([0, 1, 1, 2, 3]))):
            b["geoms"].append(mj_geom(rng, radian, True))
        for _ in range(int(rng.choice([0, 0, 1, 2]))):
            b["sites"].append({"name": sn[nsite] if rng.random() < 0.75 else None, "pos": rng.uniform(-1, 1, 3), "orient": mj_orient(rng, radian),
                               "form": str(rng.choice(["", "", 'type="box" size=".1 .2 .3"', 'type="capsule" size=".1 .2" group="3"', 'size=".05" rgba="1 0 0 1"']))})
            nsite += 1
        bodies.append(b)
    if rng.random() < 0.3:  # poses that coincide
        parts = [x for b in bodies for x in [b, *b["sites"]]]
        for x in parts:
            o = parts[int(rng.integers(len(parts)))]
            k = int(rng.integers(0, 4))
            if k in (0, 1):
                x["orient"] = o["orient"]
            if k in (0, 2):
                x["pos"] = o["pos"] if rng.random() < 0.6 else np.zeros(3)
        for b in bodies:
            for x in b["sites"]:
                if rng.random() < 0.3:
                    x["orient"] = b["orient"]

    def text(i):
        b = bodies[i]
        nm = f"name={q(b['name'])}" if b["name"] is not None else ""
        parts = [f'<inertial pos="{vec(rng, rng.uniform(-1, 1, 3))}" mass="1" diaginertia="1 1 1"/>']
        if b["joint"] is not None:
            j = b["joint"]
            a = [f"name={q(j['name'])}" if j["name"] is not None else "", f'type="{j["type"]}"' if j["text_type"] else "", f'axis="{vec(rng, j["axis"])}"' if j["axis"] is not None else "",
                 f'range="{vec(rng, j["range"])}"' if j["range"] is not None else "", f'limited="{j["limited"]}"' if j["limited"] is not None else "", f'ref="{j["ref"]!r}"' if j["ref"] is not None else ""]
            parts.append("<joint " + " ".join(shuffled(rng, a)) + "/>")
        parts += [g["text"] for g in b["geoms"]]
        parts += [f'<site {"name=" + q(s["name"]) if s["name"] is not None else ""} {s["form"]} pos="{vec(rng, s["pos"])}" {s["orient"]}/>' for s in b["sites"]]
        parts += [text(k) for k in range(n) if par[k] == i]
        # elements of one kind keep their relative order (bodies, geoms and sites are numbered by it)
        order = [int(x) for x in rng.permutation(len(parts))]
        kinds = [p.split()[0].lstrip("<") for p in parts]
        it = {k: iter([y for y in range(len(parts)) if kinds[y] == k]) for k in set(kinds)}
        seq = [next(it[kinds[x]]) for x in order]
        return f"<body {nm} pos=\"{vec(rng, b['pos'])}\" {b['orient']}>" + noise(rng).join(parts[x] for x in seq) + "</body>"

    d = MJ()
    d.bodies, d.n, d.parent = bodies, n, par
    world = [text(i) for i in range(n) if par[i] == -1]
    d.world_geoms, d.world_sites = [], []
    if rng.random() < 0.5:
        d.world_geoms = [mj_geom(rng, radian, False) for _ in range(int(rng.integers(1, 3)))]
    wg = [g["text"] for g in d.world_geoms]
    if rng.random() < 0.3:
        d.world_sites = [{"name": "world site", "pos": rng.uniform(-1, 1, 3)}]
        wg.append(f'<site name="world site" pos="{vec(rng, d.world_sites[0]["pos"])}"/>')
    d.xml = (f'<mujoco model="m"><compiler angle="{"radian" if radian else "degree"}" eulerseq="{eulerseq}"/><option gravity="0 0 -1"/>' +
             "<worldbody>" + "".join(wg) + "".join(world) + "</worldbody></mujoco>")
    return d
