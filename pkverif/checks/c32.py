"""C32: parsed description models hold what the document says, answer structure queries, can be edited, printed and written."""
import copy
import os
import tempfile
import xml.etree.ElementTree as ET

import yaml
from pytorch_kinematics.urdf_parser_py import sdf as S
from pytorch_kinematics.urdf_parser_py import urdf as U

from ..env import np, pk
from .. import desc, gen

ORACLE = "a second, independent representation of the document (plain trees) to which every edit is applied too"
RULE = "distinct (format, element kinds present, edits applied, order of kinds) histories whose model, maps, print and written document agreed with it"
CONFIG = {"quick": {"cases": 1800, "min": {"models": 500, "edits": 500, "written": 700, "printed": 300, "map_checks": 600, "chains": 200}},
          "thorough": {"cases": 30000, "seconds": 780}}


class N:
    """tag, attributes, text, children; values are numbers, lists of numbers, booleans or strings."""

    def __init__(self, tag, at=None, text=None, kids=(), raw=False):
        self.tag, self.at, self.text, self.kids, self.raw = tag, {k: v for k, v in (at or {}).items() if v is not None}, text, [k for k in kids if k is not None], raw

    def all(self, tag):
        return [k for k in self.kids if k.tag == tag]

    def get(self, tag):
        return next((k for k in self.kids if k.tag == tag), None)

    def put(self, tag, node):
        """Replace the (single) child of that kind."""
        self.kids = [k for k in self.kids if k.tag != tag] + ([node] if node is not None else [])


# ---- canonical form -----------------------------------------------------------------------
STRINGS = {"name", "link", "filename", "type", "joint", "reference", "version"}
TEXTS = {"type", "hardwareInterface", "parent", "child", "filename", "name", "uri"}
BOOLS = {"use_parent_model_frame", "kinematic"}
DEFAULTS = {("origin", "xyz"): [0, 0, 0], ("origin", "rpy"): [0, 0, 0], ("limit", "lower"): 0, ("limit", "upper"): 0, ("calibration", "rising"): 0, ("calibration", "falling"): 0,
            ("safety_controller", "k_position"): 0, ("safety_controller", "soft_lower_limit"): 0, ("safety_controller", "soft_upper_limit"): 0}


def val(v):
    if isinstance(v, (bool, str)):
        return v
    if isinstance(v, (list, tuple, np.ndarray)):
        return tuple(float(x) for x in v)
    return (float(v),)


def canon(n, fmt):
    if n.raw:
        return ("raw", n.tag, tuple(sorted(n.at.items())), (n.text or "").strip(), tuple(canon(k, fmt) for k in n.kids))
    at = {k: val(v) for k, v in n.at.items()}
    if fmt == "urdf":
        for (tag, k), v in DEFAULTS.items():
            if n.tag == tag:
                at.setdefault(k, val(v))
    elif n.tag == "link":
        at.setdefault("kinematic", False)
    groups = {}
    for k in n.kids:
        groups.setdefault(k.tag, []).append(canon(k, fmt))
    return (n.tag, tuple(sorted(at.items())), None if n.text is None else val(n.text), tuple((t, tuple(groups[t])) for t in sorted(groups)))


def boolean(s):
    return {"true": True, "1": True, "false": False, "0": False}[s.strip()]


def from_et(e, raw=False):
    raw = raw or e.tag == "gazebo"
    kids = [from_et(c, raw) for c in e if isinstance(c.tag, str)]
    if raw:
        return N(e.tag, dict(e.attrib), e.text, kids, True)
    at = {k: boolean(v) if k in BOOLS else v if k in STRINGS else [float(x) for x in v.split()] for k, v in e.attrib.items()}
    text = None
    if not kids and e.text is not None and e.text.strip():
        text = boolean(e.text) if e.tag in BOOLS else e.text if e.tag in TEXTS else [float(x) for x in e.text.split()]
    return N(e.tag, at, text, kids)


# ---- text -------------------------------------------------------------------------------------
def spell(rng, v):
    if isinstance(v, bool):
        return str(rng.choice(["true", "1"] if v else ["false", "0"]))
    if isinstance(v, str):
        return v
    return desc.vec(rng, v) if isinstance(v, (list, tuple)) else desc.num(rng, v)


def text_of(rng, n):
    at = [f"{k}={desc.q(v if n.raw else spell(rng, v))}" for k, v in n.at.items()]
    if rng.random() < 0.3:
        at.reverse()
    kids = list(n.kids)
    if not n.raw and len(kids) > 1 and rng.random() < 0.5:  # shuffled, each kind in its own order
        order = [kids[i].tag for i in rng.permutation(len(kids))]
        it = {t: iter([k for k in kids if k.tag == t]) for t in set(order)}
        kids = [next(it[t]) for t in order]
        n.kids = list(kids)
    body = desc.esc(n.text if n.raw else spell(rng, n.text)) if n.text is not None else ""
    inner = [text_of(rng, k) for k in kids]
    sep = "\n" if rng.random() < 0.3 else ""
    if not n.raw and kids and rng.random() < 0.15:
        inner.insert(int(rng.integers(0, len(inner) + 1)), "<!-- note -->")
    return f"<{' '.join([n.tag] + at)}>{body}{sep.join(inner)}</{n.tag}>" if body or inner or rng.random() < 0.3 else f"<{' '.join([n.tag] + at)}/>"


# ---- random documents -----------------------------------------------------------------------
def v3(rng):
    return [desc.value(rng, 3) for _ in range(3)]


def pos(rng):
    return float(rng.choice([0.0, 1.0, round(rng.uniform(0.01, 9), 3), rng.uniform(0.01, 9)]))


def maybe(rng, p, f):
    return f() if rng.random() < p else None


def some(rng, p, d):
    return {k: f() for k, f in d.items() if rng.random() < p}


def u_origin(rng):
    return N("origin", some(rng, 0.7, {"xyz": lambda: v3(rng), "rpy": lambda: desc.angles(rng)}))


def u_geometry(rng):
    k, p = desc.geometry(rng, ("box", "cylinder", "sphere", "mesh", "capsule"))
    at = {"box": lambda: {"size": list(p)}, "sphere": lambda: {"radius": p}, "mesh": lambda: {"filename": p[0], "scale": p[1]}}.get(k, lambda: {"radius": p[0], "length": p[1]})()
    return N("geometry", kids=[N(k, at)])


def u_material(rng, top=False):
    c = N("color", {"rgba": [float(round(x, 2)) for x in rng.uniform(0, 1, 4)]})
    t = N("texture", {"filename": "t&<>.png"})
    kids = ([c], [t], [c, t], [])[int(rng.integers(0, 3 if top else 4))]
    return N("material", {"name": f"mat {int(rng.integers(50))}"}, kids=kids)


def u_visual(rng):
    return N("visual", kids=[maybe(rng, 0.6, lambda: u_origin(rng)), u_geometry(rng), maybe(rng, 0.5, lambda: u_material(rng))])


def u_collision(rng):
    return N("collision", kids=[maybe(rng, 0.6, lambda: u_origin(rng)), u_geometry(rng)])


KEYS = ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")


def u_inertial(rng):
    return N("inertial", kids=[maybe(rng, 0.6, lambda: u_origin(rng)), N("mass", {"value": pos(rng)}), maybe(rng, 0.7, lambda: N("inertia", {k: desc.value(rng) for k in KEYS}))])


def u_link(rng, name):
    return N("link", {"name": name}, kids=[maybe(rng, 0.1, lambda: u_origin(rng)), maybe(rng, 0.5, lambda: u_inertial(rng))] +
             [u_visual(rng) for _ in range(int(rng.choice([0, 0, 1, 1, 2, 3])))] + [u_collision(rng) for _ in range(int(rng.choice([0, 0, 1, 2])))])


def u_limit(rng):
    return N("limit", dict({"effort": pos(rng), "velocity": pos(rng)}, **some(rng, 0.7, {"lower": lambda: -pos(rng), "upper": lambda: pos(rng)})))


def u_dynamics(rng):
    return N("dynamics", some(rng, 0.7, {"damping": lambda: pos(rng), "friction": lambda: pos(rng)}))


def u_safety(rng):
    return N("safety_controller", dict({"k_velocity": pos(rng)}, **some(rng, 0.6, {"k_position": lambda: pos(rng), "soft_lower_limit": lambda: -pos(rng), "soft_upper_limit": lambda: pos(rng)})))


def u_calibration(rng):
    return N("calibration", some(rng, 0.6, {"rising": lambda: pos(rng), "falling": lambda: pos(rng)}))


def u_mimic(rng):
    return N("mimic", dict({"joint": "j other"}, **some(rng, 0.6, {"multiplier": lambda: desc.value(rng), "offset": lambda: desc.value(rng)})))


U_TYPES = ("revolute", "continuous", "prismatic", "floating", "planar", "fixed")
U_PARTS = {"origin": u_origin, "limit": u_limit, "dynamics": u_dynamics, "safety_controller": u_safety, "calibration": u_calibration, "mimic": u_mimic,
           "axis": lambda rng: N("axis", {"xyz": [float(x) for x in gen.axis(rng)]})}


def u_joint(rng, name, parent, child):
    return N("joint", {"name": name, "type": U_TYPES[int(rng.integers(len(U_TYPES)))]},
             kids=[N("parent", {"link": parent}), N("child", {"link": child})] + [maybe(rng, 0.5 if k in ("origin", "limit", "axis") else 0.2, lambda f=f: f(rng)) for k, f in U_PARTS.items()])


def u_gazebo(rng):
    deep = N("plugin", {"name": "p", "filename": "lib.so"}, kids=[N("rate", text="100.0", raw=True), N("nested", {"a": "1"}, kids=[N("x", raw=True)], raw=True)], raw=True)
    if rng.random() < 0.2:
        return N("gazebo", some(rng, 0.6, {"reference": lambda: "a"}), text="just <text> é", raw=True)
    return N("gazebo", some(rng, 0.6, {"reference": lambda: "link é&"}), kids=[k for k in (N("selfCollide", text="true", raw=True), deep, N("mu1", text="0.20", raw=True)) if rng.random() < 0.7], raw=True)


def u_transmission(rng):
    nm = f"t{int(rng.integers(100))}"
    if rng.random() < 0.4:
        return N("transmission", {"name": nm, "type": "pr2/SimpleTransmission"}, kids=[N("joint", {"name": "j a"}), N("actuator", {"name": "m"}), N("mechanicalReduction", text=pos(rng))])
    return N("transmission", {"name": nm}, kids=[N("type", text="transmission_interface/Simple")] +
             [N("joint", {"name": f"j{i}"}, kids=[N("hardwareInterface", text=f"Effort{k}") for k in range(int(rng.integers(1, 3)))]) for i in range(int(rng.integers(1, 3)))] +
             [N("actuator", {"name": f"m{i}"}, kids=[maybe(rng, 0.5, lambda: N("mechanicalReduction", text=pos(rng)))]) for i in range(int(rng.integers(1, 3)))])


def names(rng, n):
    par = gen.parents(rng, n, gen.SHAPES[int(rng.integers(len(gen.SHAPES)))])
    return par, desc.xname(rng, n, "link"), desc.xname(rng, n, "joint")


def u_robot(rng):
    n = int(rng.choice([1, 2, 3, 5, 8]))
    par, ln, jn = names(rng, n)
    kids = [u_link(rng, ln[i]) for i in range(n)] + [u_joint(rng, jn[i], ln[par[i]], ln[i]) for i in range(1, n)]
    for f in (u_gazebo, u_transmission, lambda r: u_material(r, True)):
        kids += [f(rng) for _ in range(int(rng.choice([0, 0, 1, 2])))]
    return N("robot", {"name": "r é"}, kids=kids)


def T(tag, v):
    return None if v is None else N(tag, text=v)


def s_pose(rng):
    return N("pose", text=v3(rng) + desc.angles(rng))


def s_geometry(rng):
    k, p = desc.geometry(rng, ("box", "cylinder", "sphere", "mesh"))
    return N("geometry", kids=[N(k, kids={"box": lambda: [T("size", list(p))], "sphere": lambda: [T("radius", p)], "mesh": lambda: [T("filename", p[0]), T("scale", p[1])],
                                          "cylinder": lambda: [T("radius", p[0]), T("length", p[1])]}[k]())])


def s_material(rng):
    return N("material", some(rng, 0.5, {"name": lambda: "m a"}), kids=[maybe(rng, 0.6, lambda: N("script", kids=[maybe(rng, 0.7, lambda: T("name", "Gazebo/Grey")), maybe(rng, 0.7, lambda: T("uri", "file://a&b"))]))])


def s_visual(rng):
    return N("visual", some(rng, 0.8, {"name": lambda: "v <1>"}), kids=[maybe(rng, 0.6, lambda: s_pose(rng)), s_geometry(rng), maybe(rng, 0.5, lambda: s_material(rng))])


def s_collision(rng):
    return N("collision", some(rng, 0.8, {"name": lambda: "c"}), kids=[maybe(rng, 0.6, lambda: s_pose(rng)), s_geometry(rng)])


def s_inertial(rng):
    return N("inertial", kids=[maybe(rng, 0.7, lambda: T("mass", pos(rng))), maybe(rng, 0.5, lambda: s_pose(rng)), maybe(rng, 0.7, lambda: N("inertia", kids=[T(k, desc.value(rng)) for k in KEYS]))])


def s_link(rng, name):
    return N("link", dict({"name": name}, **some(rng, 0.3, {"kinematic": lambda: bool(rng.integers(2))})), kids=[maybe(rng, 0.6, lambda: s_pose(rng)), maybe(rng, 0.6, lambda: s_inertial(rng))] +
             [s_visual(rng) for _ in range(int(rng.choice([0, 1, 1, 2])))] + [s_collision(rng) for _ in range(int(rng.choice([0, 0, 1, 2])))])


def s_axis(rng):
    return N("axis", kids=[T("xyz", [float(x) for x in gen.axis(rng)]), maybe(rng, 0.6, lambda: N("limit", kids=[maybe(rng, 0.7, lambda: T("lower", -pos(rng))), maybe(rng, 0.7, lambda: T("upper", pos(rng)))])),
                           maybe(rng, 0.4, lambda: N("dynamics", kids=[maybe(rng, 0.7, lambda: T("damping", pos(rng))), maybe(rng, 0.7, lambda: T("friction", pos(rng)))])),
                           maybe(rng, 0.4, lambda: T("use_parent_model_frame", bool(rng.integers(2))))])


def s_joint(rng, name, parent, child):
    return N("joint", {"name": name, "type": ("revolute", "prismatic", "fixed", "ball", "screw", "universal")[int(rng.integers(6))]},
             kids=[T("parent", parent), T("child", child), maybe(rng, 0.7, lambda: s_axis(rng)), maybe(rng, 0.3, lambda: s_pose(rng))])


def s_robot(rng):
    n = int(rng.choice([1, 2, 3, 5, 8]))
    par, ln, jn = names(rng, n)
    kids = [maybe(rng, 0.4, lambda: s_pose(rng))] + [s_link(rng, ln[i]) for i in range(n)] + [s_joint(rng, jn[i], ln[par[i]], ln[i]) for i in range(1, n)]
    return N("sdf", {"version": "1.6"}, kids=[N("model", {"name": "m é"}, kids=kids)])


# ---- the library's objects as trees ----------------------------------------------------------
def at_of(o, *ks):
    return {k: getattr(o, k) for k in ks}


def u_obj(o):
    if o is None:
        return None
    if isinstance(o, U.Pose):
        return N("origin", at_of(o, "xyz", "rpy"))
    for cls, tag, ks in ((U.Box, "box", ("size",)), (U.Cylinder, "cylinder", ("radius", "length")), (U.Capsule, "capsule", ("radius", "length")), (U.Sphere, "sphere", ("radius",)),
                         (U.Mesh, "mesh", ("filename", "scale")), (U.Color, "color", ("rgba",)), (U.Texture, "texture", ("filename",)), (U.Inertia, "inertia", KEYS),
                         (U.JointLimit, "limit", ("effort", "velocity", "lower", "upper")), (U.JointDynamics, "dynamics", ("damping", "friction")),
                         (U.SafetyController, "safety_controller", ("k_velocity", "k_position", "soft_lower_limit", "soft_upper_limit")),
                         (U.JointCalibration, "calibration", ("rising", "falling")), (U.JointMimic, "mimic", ("joint", "multiplier", "offset"))):
        if type(o) is cls:
            return N(tag, at_of(o, *ks))
    if isinstance(o, U.Material):
        return N("material", at_of(o, "name"), kids=[u_obj(o.color), u_obj(o.texture)])
    if isinstance(o, U.Visual):
        return N("visual", kids=[u_obj(o.origin), N("geometry", kids=[u_obj(o.geometry)]), u_obj(o.material)])
    if isinstance(o, U.Collision):
        return N("collision", kids=[u_obj(o.origin), N("geometry", kids=[u_obj(o.geometry)])])
    if isinstance(o, U.Inertial):
        return N("inertial", kids=[u_obj(o.origin), N("mass", {"value": o.mass}), u_obj(o.inertia)])
    if isinstance(o, U.Link):
        return N("link", {"name": o.name}, kids=[u_obj(o.origin), u_obj(o.inertial)] + [u_obj(v) for v in o.visuals] + [u_obj(v) for v in o.collisions])
    if isinstance(o, U.Joint):
        return N("joint", {"name": o.name, "type": o.joint_type}, kids=[N("parent", {"link": o.parent}), N("child", {"link": o.child}), u_obj(o.origin), None if o.axis is None else N("axis", {"xyz": o.axis}),
                                                                       u_obj(o.limit), u_obj(o.dynamics), u_obj(o.safety_controller), u_obj(o.calibration), u_obj(o.mimic)])
    if isinstance(o, U.PR2Transmission):
        return N("transmission", at_of(o, "name", "type"), kids=[N("joint", {"name": o.joint}), N("actuator", {"name": o.actuator}), T("mechanicalReduction", o.mechanicalReduction)])
    if isinstance(o, U.Transmission):
        return N("transmission", {"name": o.name}, kids=[T("type", o.type)] + [N("joint", {"name": j.name}, kids=[T("hardwareInterface", h) for h in j.hardwareInterfaces]) for j in o.joints] +
                 [N("actuator", {"name": a.name}, kids=[T("mechanicalReduction", a.mechanicalReduction)]) for a in o.actuators])
    if isinstance(o, U.Robot):
        return N("robot", {"name": o.name}, kids=[u_obj(x) for k in (o.links, o.joints, o.gazebos, o.transmissions, o.materials) for x in k])
    return from_et(o, True)  # a raw element


def s_obj(o):
    if o is None:
        return None
    if isinstance(o, S.Inertia):
        return N("inertia", kids=[T(k, getattr(o, k)) for k in KEYS])
    for cls, tag, ks in ((S.Box, "box", ("size",)), (S.Cylinder, "cylinder", ("radius", "length")), (S.Sphere, "sphere", ("radius",)), (S.Mesh, "mesh", ("filename", "scale")),
                         (S.Script, "script", ("name", "uri")), (S.Limit, "limit", ("lower", "upper")), (S.Dynamics, "dynamics", ("damping", "friction"))):
        if type(o) is cls:
            return N(tag, kids=[T(k, getattr(o, k)) for k in ks])
    if isinstance(o, S.Inertial):
        return N("inertial", kids=[T("mass", o.mass), T("pose", o.pose), s_obj(o.inertia)])
    if isinstance(o, S.Material):
        return N("material", {"name": o.name}, kids=[s_obj(o.script)])
    if isinstance(o, S.Visual):
        return N("visual", {"name": o.name}, kids=[T("pose", o.pose), N("geometry", kids=[s_obj(o.geometry)]), s_obj(o.material)])
    if isinstance(o, S.Collision):
        return N("collision", {"name": o.name}, kids=[T("pose", o.pose), N("geometry", kids=[s_obj(o.geometry)])])
    if isinstance(o, S.Axis):
        return N("axis", kids=[T("xyz", o.xyz), s_obj(o.limit), s_obj(o.dynamics), T("use_parent_model_frame", o.use_parent_model_frame)])
    if isinstance(o, S.Link):
        return N("link", {"name": o.name, "kinematic": o.kinematic}, kids=[T("pose", o.pose), s_obj(o.inertial)] + [s_obj(v) for v in o.visuals] + [s_obj(v) for v in o.collisions])
    if isinstance(o, S.Joint):
        return N("joint", {"name": o.name, "type": o.joint_type}, kids=[T("parent", o.parent), T("child", o.child), s_obj(o.axis), T("pose", o.pose)])
    if isinstance(o, S.Model):
        return N("model", {"name": o.name}, kids=[T("pose", o.pose)] + [s_obj(x) for x in o.links + o.joints])
    return N("sdf", {"version": o.version}, kids=[s_obj(o.model)])


# ---- trees as objects made in Python ---------------------------------------------------------
def lst(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def u_make(n):
    """Object built with the constructors."""
    if n is None:
        return None
    a = {k: lst(v) for k, v in n.at.items()}
    t = n.tag
    if t == "origin":
        return U.Pose(a.get("xyz"), a.get("rpy"))
    if t == "mimic":
        return U.JointMimic(a["joint"], a.get("multiplier"), a.get("offset"))
    if t == "safety_controller":
        return U.SafetyController(a["k_velocity"], a.get("k_position"), a.get("soft_lower_limit"), a.get("soft_upper_limit"))
    flat = {"box": U.Box, "cylinder": U.Cylinder, "capsule": U.Capsule, "sphere": U.Sphere, "mesh": U.Mesh, "texture": U.Texture, "inertia": U.Inertia, "limit": U.JointLimit,
            "dynamics": U.JointDynamics, "calibration": U.JointCalibration}
    if t in flat:
        return flat[t](**a)
    if t == "color":
        return U.Color(a["rgba"]) if len(n.kids) == 0 and a["rgba"][0] < 0.5 else U.Color(*a["rgba"])
    g = lambda k: u_make(n.get(k))  # noqa: E731
    if t == "material":
        return U.Material(a["name"], g("color"), g("texture"))
    if t == "visual":
        return U.Visual(u_make(n.get("geometry").kids[0]), g("material"), g("origin"))
    if t == "collision":
        return U.Collision(u_make(n.get("geometry").kids[0]), g("origin"))
    if t == "inertial":
        return U.Inertial(n.get("mass").at["value"], g("inertia"), g("origin"))
    if t == "link":
        vs, cs = [u_make(v) for v in n.all("visual")], [u_make(v) for v in n.all("collision")]
        o = U.Link(a["name"], vs[0] if vs else None, g("inertial"), cs[0] if cs else None, g("origin"))
        for k, xs in (("visual", vs[1:]), ("collision", cs[1:])):
            for x in xs:
                o.add_aggregate(k, x)
        return o
    if t == "joint":
        ax = n.get("axis")
        return U.Joint(a["name"], n.get("parent").at["link"], n.get("child").at["link"], a["type"], None if ax is None else list(ax.at["xyz"]), g("origin"), g("limit"), g("dynamics"), g("safety_controller"), g("calibration"), g("mimic"))
    if t == "transmission":
        if "type" in a:
            return U.PR2Transmission(a["name"], n.get("joint").at["name"], n.get("actuator").at["name"], a["type"], n.get("mechanicalReduction").text)
        o = U.Transmission(a["name"])
        o.type = n.get("type").text
        for j in n.all("joint"):
            x = U.TransmissionJoint(j.at["name"])
            for h in j.all("hardwareInterface"):
                x.add_aggregate("hardwareInterface", h.text)
            o.add_aggregate("joint", x)
        for k in n.all("actuator"):
            r = k.get("mechanicalReduction")
            o.add_aggregate("actuator", U.Actuator(k.at["name"], None if r is None else r.text))
        return o
    if n.raw:
        from lxml import etree
        return etree.fromstring(text_of(np.random.default_rng(0), n))
    raise AssertionError(t)


def tx(n, k):
    k = n.get(k)
    return None if k is None else lst(k.text)


def s_make(n):
    if n is None:
        return None
    t = n.tag
    g = lambda k: s_make(n.get(k))  # noqa: E731
    flat = {"box": (S.Box, ("size",)), "cylinder": (S.Cylinder, ("radius", "length")), "sphere": (S.Sphere, ("radius",)), "mesh": (S.Mesh, ("filename", "scale")), "script": (S.Script, ("uri", "name")),
            "limit": (S.Limit, ("lower", "upper")), "dynamics": (S.Dynamics, ("damping", "friction")), "inertia": (S.Inertia, KEYS)}
    if t in flat:
        return flat[t][0](**{k: tx(n, k) for k in flat[t][1]})
    if t == "material":
        return S.Material(n.at.get("name"), g("script"))
    if t == "visual":
        return S.Visual(n.at.get("name"), s_make(n.get("geometry").kids[0]), tx(n, "pose"), material=g("material"))
    if t == "collision":
        return S.Collision(n.at.get("name"), s_make(n.get("geometry").kids[0]), tx(n, "pose"))
    if t == "inertial":
        return S.Inertial(tx(n, "mass"), g("inertia"), tx(n, "pose"))
    if t == "axis":
        return S.Axis(tx(n, "xyz"), g("limit"), g("dynamics"), tx(n, "use_parent_model_frame"))
    if t == "link":
        o = S.Link(n.at["name"], tx(n, "pose"), g("inertial"), n.at.get("kinematic", False))
        for k in ("visual", "collision"):
            for x in n.all(k):
                o.add_aggregate(k, s_make(x))
        return o
    if t == "joint":
        return S.Joint(n.at["name"], tx(n, "parent"), tx(n, "child"), n.at["type"], g("axis"), tx(n, "pose"))
    raise AssertionError(t)


# ---- one model beside its tree ---------------------------------------------------------------
class Pair:
    def __init__(self, fmt, tree, obj):
        self.fmt, self.tree, self.obj = fmt, tree, obj

    @property
    def model(self):
        return self.obj if self.fmt == "urdf" else self.obj.model

    @property
    def node(self):
        return self.tree if self.fmt == "urdf" else self.tree.kids[0]

    def of(self, o):
        return (u_obj if self.fmt == "urdf" else s_obj)(o)

    def make(self, n):
        return (u_make if self.fmt == "urdf" else s_make)(n)

    def ends(self, j):
        return (j.get("parent").at["link"], j.get("child").at["link"]) if self.fmt == "urdf" else (tx(j, "parent"), tx(j, "child"))


def differ(a, b):
    """The first place two canonical forms differ, for the report."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            d = differ(x, y)
            if d is not None:
                return d
    return (a, b)


def agree(ctx, p, got, what):
    a, b = canon(got, p.fmt), canon(p.tree, p.fmt)
    ctx.expect(a == b, what, format=p.fmt, difference=differ(a, b))


def parse(p_fmt, rng, text):
    cls = U.URDF if p_fmt == "urdf" else S.SDF
    k = int(rng.integers(0, 4))
    if k == 0:
        return cls().parse(text)
    if k == 1:
        return cls.from_xml_string(text.encode())
    if k == 2:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "m.xml")
            with open(f, "w") as h:
                h.write(text)
            return cls.from_xml_file(f)
    return cls.from_xml_string(text)


def maps(ctx, rng, p):
    m, n = p.model, p.node
    links, joints = [k.at["name"] for k in n.all("link")], [(k.at["name"],) + p.ends(k) for k in n.all("joint")]
    ctx.expect(sorted(m.link_map) == sorted(links) and all(m.link_map[l.name] is l for l in m.links), "link_map", got=sorted(m.link_map), want=sorted(links))
    ctx.expect(sorted(m.joint_map) == sorted(j for j, _, _ in joints) and all(m.joint_map[j.name] is j for j in m.joints), "joint_map", got=sorted(m.joint_map))
    ctx.expect(dict(m.parent_map) == {c: (j, q) for j, q, c in joints}, "parent_map", got=m.parent_map, want=joints)
    want = {}
    for j, q, c in joints:
        want.setdefault(q, []).append((j, c))
    ctx.expect({k: list(v) for k, v in m.child_map.items() if v} == want, "child_map", got=m.child_map, want=want)
    ctx.count("map_checks")
    if p.fmt != "urdf":
        return
    up = {c: (j, q) for j, q, c in joints}
    roots = [x for x in links if x not in up]
    if len(roots) == 1:
        ctx.expect(m.get_root() == roots[0], "get_root", got=m.get_root(), want=roots[0])
    else:
        ctx.refused(m.get_root, "the root of a model with %d roots" % len(roots))
    types = {k.at["name"]: k.at["type"] for k in n.all("joint")}
    tip = links[int(rng.integers(len(links)))] if links else None
    if tip is None:
        return
    path, steps = [tip], []
    while path[-1] in up:
        j, q = up[path[-1]]
        steps.append(j)
        path.append(q)
    k = int(rng.integers(0, len(path)))
    for a, b, f in ((True, True, True), (True, False, True), (False, True, True), (True, True, False), (True, False, False), (False, True, False)):
        want = []
        for i in range(k, -1, -1):
            if b:
                want.append(path[i])
            if i and a and (f or types[steps[i - 1]] != "fixed"):
                want.append(steps[i - 1])
        got = m.get_chain(path[k], tip, joints=a, links=b, fixed=f)
        ctx.expect(list(got) == want, "get_chain", root=path[k], tip=tip, flags=(a, b, f), got=got, want=want)
        ctx.count("chains")
    ctx.expect(list(m.get_chain(path[k], tip)) == list(m.get_chain(path[k], tip, True, True, True)), "get_chain without flags")
    other = [x for x in links if x not in path]
    if other:
        ctx.refused(lambda: m.get_chain(other[0], tip), "a chain from a link that is not above the tip")


def written(ctx, rng, p, again=True):
    s = p.obj.to_xml_string()
    bare = p.obj.to_xml_string(addHeader=False)
    ctx.expect(s.split("\n", 1)[1] == bare and s.startswith("<?xml"), "header of the written document", head=s[:60])
    agree(ctx, p, from_et(ET.fromstring(bare)), "written document")
    agree(ctx, p, p.of(p.obj), "the model after writing it")
    ctx.expect(p.obj.to_xml_string(addHeader=False) == bare, "a document written twice")
    from lxml import etree
    agree(ctx, p, from_et(ET.fromstring(etree.tostring(p.obj.to_xml()))), "written tree")
    ctx.count("written", 2)
    if again:
        r = Pair(p.fmt, p.tree, parse(p.fmt, rng, bare))
        agree(ctx, r, r.of(r.obj), "model parsed from the written document")
        maps(ctx, rng, r)
        ctx.expect(canon(from_et(ET.fromstring(r.obj.to_xml_string(addHeader=False))), p.fmt) == canon(p.tree, p.fmt), "document written by the parsed copy")


def plain(v):
    return v if isinstance(v, (str, bool, int, float)) or v is None else str(v)


def printed(ctx, p):
    y = yaml.safe_load(str(p.obj))
    y = y if p.fmt == "urdf" else y["model"]
    ctx.expect(p.obj.to_yaml().keys() == (y.keys() if p.fmt == "urdf" else {"version", "model"}), "printed fields")
    n = p.node
    ctx.expect(y["name"] == n.at["name"], "printed name", got=y["name"])
    ctx.expect([x["name"] for x in y["links"]] == [str(k.at["name"]) for k in n.all("link")], "printed links", got=[x["name"] for x in y["links"]])
    ctx.expect([(x["name"], x["type"], x["parent"], x["child"]) for x in y["joints"]] == [(k.at["name"], k.at["type"]) + p.ends(k) for k in n.all("joint")], "printed joints")
    for x, k in zip(y["joints"], n.all("joint")):
        ax = k.get("axis")
        want = None if ax is None else ax.at["xyz"] if p.fmt == "urdf" else tx(ax, "xyz")
        got = x["axis"] if p.fmt == "urdf" or x["axis"] in (None, "None") else x["axis"]["xyz"]
        ctx.expect((got in (None, "None")) if want is None else [float(v) for v in got] == [float(v) for v in want], "printed axis", got=got, want=want)
    for x, k in zip(y["links"], n.all("link")):
        ctx.expect(len(x["visuals"]) == len(k.all("visual")) and len(x["collisions"]) == len(k.all("collision")), "printed visuals and collisions")
    if p.fmt == "urdf":
        for key, tag in (("gazebos", "gazebo"), ("transmissions", "transmission"), ("materials", "material")):
            ctx.expect(len(y[key]) == len(n.all(tag)), "printed " + key)
        for x, k in zip(y["gazebos"], n.all("gazebo")):  # printed as XML
            e = from_et(ET.fromstring(x), True)
            ctx.expect(canon(e, "urdf") == canon(k, "urdf"), "printed raw element", got=x)
    agree(ctx, p, p.of(p.obj), "the model after printing it")
    ctx.count("printed")


# ---- edits -------------------------------------------------------------------------------------
def one(rng, xs):
    return xs[int(rng.integers(len(xs)))] if xs else None


def pick(rng, p, tag, lists):
    """(object, node) of one element of a kind."""
    nodes = p.node.all(tag)
    if not nodes:
        return None, None
    i = int(rng.integers(len(nodes)))
    return getattr(p.model, lists)[i], nodes[i]


def free_name(rng, p, tag):
    return f"new {tag} {int(rng.integers(10 ** 9))}"


def e_add_link(rng, p):
    n = (u_link if p.fmt == "urdf" else s_link)(rng, free_name(rng, p, "link"))
    o = p.make(n)
    p.model.add_link(o) if rng.random() < 0.5 else p.model.add_aggregate("link", o)
    p.node.kids.append(n)


def e_add_joint(rng, p):
    up = {p.ends(j)[1]: p.ends(j)[0] for j in p.node.all("joint")}
    links = [l.at["name"] for l in p.node.all("link")]
    tops = [l for l in links if l not in up]

    def top(x):
        while x in up:
            x = up[x]
        return x

    options = [(a, b) for b in tops for a in links if top(a) != b]
    if not options:
        return False
    a, b = one(rng, options)
    n = (u_joint if p.fmt == "urdf" else s_joint)(rng, free_name(rng, p, "joint"), a, b)
    o = p.make(n)
    p.model.add_joint(o) if rng.random() < 0.5 else p.model.add_aggregate("joint", o)
    p.node.kids.append(n)


def e_add_other(rng, p):
    if p.fmt != "urdf":
        return False
    f = one(rng, [u_gazebo, u_transmission, lambda r: u_material(r, True)])
    n = f(rng)
    p.model.add_aggregate(n.tag, p.make(n))
    p.node.kids.append(n)


def e_remove(rng, p):
    kinds = {"link": "links", "joint": "joints", "gazebo": "gazebos", "transmission": "transmissions", "material": "materials"}
    tag = one(rng, sorted({k.tag for k in p.node.kids} & set(kinds)))
    if tag is None or tag == "link" and (len(p.node.all("link")) == 1 or rng.random() < 0.5):
        return False
    o, n = pick(rng, p, tag, kinds[tag])
    p.model.remove_aggregate(o)
    p.node.kids = [k for k in p.node.kids if k is not n]


def e_joint(rng, p):
    o, n = pick(rng, p, "joint", "joints")
    if o is None:
        return False
    if rng.random() < 0.2:
        t = one(rng, ["revolute", "fixed", "prismatic"])
        if rng.random() < 0.5:
            o.joint_type = t
        else:
            o.type = t
        n.at["type"] = t
    elif p.fmt == "urdf":
        k = one(rng, sorted(U_PARTS))
        new = None if rng.random() < 0.25 else U_PARTS[k](rng)
        setattr(o, k, None if new is None else list(new.at["xyz"]) if k == "axis" else u_make(new))
        n.put(k, new)
    else:
        k = one(rng, ["axis", "pose"])
        new = None if rng.random() < 0.25 else s_axis(rng) if k == "axis" else s_pose(rng)
        setattr(o, k, None if new is None else s_make(new) if k == "axis" else list(new.text))
        n.put(k, new)


def e_in_place(rng, p):
    """Change lists and values inside of what was parsed."""
    x = float(round(rng.uniform(-5, 5), 3))
    i = int(rng.integers(3))
    if p.fmt == "urdf":
        o, n = pick(rng, p, "joint", "joints")
        if o is None or o.origin is None:
            return False
        t = n.get("origin")
        for k, alias in (("xyz", "position"), ("rpy", "rotation")):
            t.at.setdefault(k, [0.0, 0.0, 0.0])
            t.at[k] = list(t.at[k])
            r = rng.random()
            if r < 0.4 and getattr(o.origin, k) is not None:
                getattr(o.origin, k if rng.random() < 0.5 else alias)[i] = x
                t.at[k][i] = x
            elif r < 0.7:
                setattr(o.origin, alias, [x, 1.0, 2.0])
                t.at[k] = [x, 1.0, 2.0]
            elif getattr(o.origin, k) is None:
                pass  # unset: written as zeros
    else:
        o, n = pick(rng, p, "link", "links")
        if o is None or o.pose is None:
            return False
        o.pose[i] = x
        k = n.get("pose")
        k.text = list(k.text)
        k.text[i] = x


def e_link(rng, p):
    o, n = pick(rng, p, "link", "links")
    if o is None:
        return False
    k = int(rng.integers(0, 6))
    tag = one(rng, ["visual", "collision"])
    new = {("urdf", "visual"): u_visual, ("urdf", "collision"): u_collision, ("sdf", "visual"): s_visual, ("sdf", "collision"): s_collision}[p.fmt, tag](rng)
    had = n.all(tag)
    if k == 0:
        t = (u_inertial if p.fmt == "urdf" else s_inertial)(rng) if rng.random() < 0.7 else None
        o.inertial = p.make(t)
        n.put("inertial", t)
    elif k == 1:
        o.add_aggregate(tag, p.make(new))
        n.kids.append(new)
    elif k == 2:
        if not had:
            return False
        i = int(rng.integers(len(had)))
        o.remove_aggregate(getattr(o, tag + "s")[i])
        n.kids = [x for x in n.kids if x is not had[i]]
    elif k in (3, 4):
        if p.fmt != "urdf":
            return False
        setattr(o, tag, p.make(new))
        if had:
            n.kids = [new if x is had[0] else x for x in n.kids]
        else:
            n.kids.append(new)
    else:  # the documented way for changes made to the lists directly
        getattr(o, tag + "s").append(p.make(new))
        o.lump_aggregates()
        n.kids.append(new)


def e_lump(rng, p):
    p.model.lump_aggregates()
    if rng.random() < 0.5:
        for l in p.model.links:
            l.lump_aggregates()
    tags = [e.tag for e in (p.model.to_xml())]
    runs = [t for i, t in enumerate(tags) if i == 0 or tags[i - 1] != t]
    if len(runs) != len(set(runs)):
        return f"kinds are not together after lump_aggregates: {tags}"


EDITS = [e_add_link, e_add_joint, e_add_other, e_remove, e_joint, e_in_place, e_link, e_link, e_lump, e_joint]


def fresh(rng, fmt):
    tree = (u_robot if fmt == "urdf" else s_robot)(rng)
    text = text_of(rng, tree)
    return Pair(fmt, tree, parse(fmt, rng, text)), text


def sig(p):
    return (p.fmt, tuple(k.tag[0] for k in p.node.kids), tuple(sorted({k.tag for j in p.node.all("joint") for k in j.kids})))


def history(ctx, rng, p, n):
    done = []
    for _ in range(n):
        f = one(rng, EDITS)
        r = f(rng, p)
        if r is False:
            continue
        ctx.expect(not isinstance(r, str), str(r))
        done.append(f.__name__)
        ctx.count("edits")
        agree(ctx, p, p.of(p.obj), f"the model after {f.__name__}")
        maps(ctx, rng, p)
        if rng.random() < 0.3:
            written(ctx, rng, p, again=False)
        if rng.random() < 0.2:
            printed(ctx, p)
    return tuple(done)


def parsed(fmt):
    def fam(ctx, rng):
        p, text = fresh(rng, fmt)
        agree(ctx, p, p.of(p.obj), "parsed model")
        maps(ctx, rng, p)
        order = [printed, lambda c, q: written(c, rng, q)]
        for i in rng.permutation(2):
            order[i](ctx, p)
        ctx.count("models")
        ctx.seen("parsed", sig(p))
        ctx.sample(format=fmt, text=text[:160])
    return fam


def edited(fmt):
    def fam(ctx, rng):
        p, text = fresh(rng, fmt)
        twin_tree = copy.deepcopy(p.tree)
        twin = Pair(fmt, twin_tree, parse(fmt, rng, text))
        done = history(ctx, rng, p, int(rng.choice([2, 4, 8])))
        written(ctx, rng, p)
        printed(ctx, p)
        # other models of the same document are not touched, neither those parsed before nor after
        agree(ctx, twin, twin.of(twin.obj), "another model, after the edits")
        later = Pair(fmt, twin_tree, parse(fmt, rng, text))
        agree(ctx, later, later.of(later.obj), "a model parsed after the edits")
        written(ctx, rng, later, again=False)
        ctx.count("models", 3)
        ctx.seen("edited", sig(p), done)
    return fam


def built(ctx, rng):
    """Put together in Python from nothing."""
    fmt = one(rng, ["urdf", "sdf"])
    tree = (u_robot if fmt == "urdf" else s_robot)(rng)
    if fmt == "urdf":
        obj = U.URDF(tree.at["name"])
        root, model = tree, obj
    else:
        root = tree.kids[0]
        model = S.Model(root.at["name"], tx(root, "pose"))
        obj = S.SDF("1.6", model) if rng.random() < 0.5 else S.SDF("1.6")
        obj.model = model
    p = Pair(fmt, tree, obj)
    for n in root.kids:
        if n.tag != "pose":
            model.add_aggregate(n.tag, p.make(n))
    agree(ctx, p, p.of(obj), "model put together")
    maps(ctx, rng, p)
    done = history(ctx, rng, p, int(rng.choice([0, 3])))
    written(ctx, rng, p)
    printed(ctx, p)
    ctx.count("models")
    ctx.seen("built", sig(p), done)


def colours(ctx, rng):
    """The ways to give a colour; the caller's list stays his."""
    v = [float(round(x, 3)) for x in rng.uniform(0, 1, int(rng.integers(3, 5)))]
    keep = list(v)
    c = U.Color(v) if rng.random() < 0.5 else U.Color(*v)
    ctx.expect(list(c.rgba) == keep + [1.0] * (4 - len(keep)), "colour", got=c.rgba, want=keep)
    c.rgba[0] = 0.5
    ctx.expect(v == keep, "the list a colour was made of", got=v, want=keep)
    ctx.refused(lambda: U.Color([0.1] * int(rng.choice([1, 2, 5]))), "a colour with a wrong number of components")
    m = [[1.0, 2.0, 3.0], [2.0, 4.0, 5.0], [3.0, 5.0, 6.0]]
    for X in (U, S):
        ctx.expect(X.Inertia(1.0, 2.0, 3.0, 4.0, 5.0, 6.0).to_matrix() == m, "inertia matrix")
    ctx.seen("colour", len(keep))


FAMILIES = [("parsed_urdf", parsed("urdf")), ("edited_urdf", edited("urdf")), ("parsed_sdf", parsed("sdf")), ("edited_sdf", edited("sdf")), ("built", built), ("edited_urdf", edited("urdf")), ("colours", colours)]
