"""C11: broken descriptions are refused; a parsed URDF survives being written out."""
import contextlib
import io
import xml.etree.ElementTree as ET

from ..env import F32, F64, np, npy, pk, torch
from .. import desc, gen
from .c07 import poses

from pytorch_kinematics.urdf_parser_py import urdf as U  # noqa: E402

ORACLE = "each mutated document breaks exactly one stated rule and must raise; written documents are compared with the original through an independent XML reader"
RULE = "distinct (format, broken rule, place) mutations observed to be refused and distinct documents written out and compared"
CONFIG = {"quick": {"cases": 1500, "min": {"refusals_observed": 1500, "round_trips": 120}}, "thorough": {"cases": 30000, "seconds": 780}}

BAD_NUMBER = ("", "x", "1.0.0", "1,5", "--1", "1e", "0x1p", "one", "1 2")
BAD_VECTOR = ("", "1 2", "1 2 3 4", "a b c", "1,2,3", "1 2 x", "1 2 3m")


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def urdf_mutations(rng, root):
    """name -> function that breaks the tree in place (targets chosen at random); only applicable ones."""
    J, L = root.findall("joint"), root.findall("link")
    out = {}

    def attr(key, elems, name, value):
        elems = [e for e in elems if e.get(name) is not None]
        if elems:
            out[key] = lambda e=pick(rng, elems): e.attrib.__setitem__(name, value) if value is not None else e.attrib.pop(name)

    def drop(key, parents, tag):
        ps = [p for p in parents if p.find(tag) is not None]
        if ps:
            out[key] = lambda p=pick(rng, ps): p.remove(p.find(tag))

    attr("link without name", L, "name", None)
    attr("joint without name", J, "name", None)
    attr("joint without type", J, "type", None)
    for t in ("floating", "planar", "ball", "Revolute", "", "hinge", "revolute "):
        attr(f"joint type {t!r}", J, "type", t)
    for tag in ("parent", "child"):
        drop(f"joint without {tag}", J, tag)
        el = [j.find(tag) for j in J]
        attr(f"{tag} without link", el, "link", None)
        attr(f"{tag} of a missing link", el, "link", "no such link")
        if el:
            out[f"{tag} differs by case"] = lambda e=pick(rng, el): e.attrib.__setitem__("link", e.get("link").swapcase() + "Q")
    if len(L) > 1:
        out["link removed"] = lambda: root.remove(pick(rng, L))
    bv = pick(rng, BAD_VECTOR)
    bn = pick(rng, BAD_NUMBER)
    jo = [o for j in J for o in j.findall("origin")]
    vo = [o for l in L for v in l.findall("visual") for o in v.findall("origin")]
    attr(f"joint origin xyz {bv!r}", jo, "xyz", bv)
    attr(f"joint origin rpy {bv!r}", jo, "rpy", bv)
    attr(f"visual origin xyz {bv!r}", vo, "xyz", bv)
    attr(f"visual origin rpy {bv!r}", vo, "rpy", bv)
    attr(f"axis {bv!r}", [a for j in J for a in j.findall("axis")], "xyz", bv)
    lim = [x for j in J for x in j.findall("limit")]
    for k in ("lower", "upper", "effort", "velocity"):
        attr(f"limit {k} {bn!r}", lim, k, bn)
    geo = [g for l in L for v in l.findall("visual") for g in v.find("geometry")]
    attr(f"box size {bv!r}", geo, "size", bv)
    attr(f"radius {bn!r}", geo, "radius", bn)
    attr(f"length {bn!r}", geo, "length", bn)
    return out


def sdf_mutations(rng, root):
    model = root.find("model")
    J, L = model.findall("joint"), model.findall("link")
    out = {}

    def text(key, elems, value):
        elems = [e for e in elems if e is not None]
        if elems:
            out[key] = lambda e=pick(rng, elems): setattr(e, "text", value)

    def attr(key, elems, name, value):
        elems = [e for e in elems if e.get(name) is not None]
        if elems:
            out[key] = lambda e=pick(rng, elems): e.attrib.__setitem__(name, value) if value is not None else e.attrib.pop(name)

    attr("link without name", L, "name", None)
    attr("joint without name", J, "name", None)
    attr("joint without type", J, "type", None)
    for t in ("ball", "universal", "screw", "revolute2", "Revolute", ""):
        attr(f"joint type {t!r}", J, "type", t)
    for tag in ("parent", "child"):
        if J:
            out[f"joint without {tag}"] = lambda j=pick(rng, J), t=tag: j.remove(j.find(t))
        text(f"{tag} of a missing link", [j.find(tag) for j in J], "no such link")
        text(f"empty {tag}", [j.find(tag) for j in J], None)
    if len(L) > 1:
        out["link removed"] = lambda: model.remove(pick(rng, L))
    mv = [j for j in J if j.get("type") != "fixed"]
    if mv:
        out["moving joint without axis"] = lambda j=pick(rng, mv): j.remove(j.find("axis"))
    bp = pick(rng, ("", "1 2 3", "1 2 3 4 5", "0 0 0 0 0 0 0", "a b c d e f", "0,0,0,0,0,0", "0 0 0 0 0 x"))
    bv, bn = pick(rng, BAD_VECTOR), pick(rng, BAD_NUMBER)
    text(f"link pose {bp!r}", [l.find("pose") for l in L], bp)
    text(f"visual pose {bp!r}", [v.find("pose") for l in L for v in l.findall("visual")], bp)
    text(f"axis {bv!r}", [j.find("axis/xyz") for j in J], bv)
    for k in ("lower", "upper"):
        text(f"limit {k} {bn!r}", [j.find("axis/limit/" + k) for j in J], bn)
    text(f"box size {bv!r}", [v.find("geometry/box/size") for l in L for v in l.findall("visual")], bv)
    for k in ("radius", "length"):
        text(f"{k} {bn!r}", [v.find("geometry/cylinder/" + k) for l in L for v in l.findall("visual")], bn)
    return out


def refuse_all(ctx, rng, text, mutations, build, fmt, limit=12):
    tree = ET.fromstring(text)
    keys = list(mutations(rng, tree))
    build(text)  # the unbroken document loads
    for k in [keys[i] for i in rng.permutation(len(keys))[:limit]]:
        t = ET.fromstring(text)
        # the random targets differ per call, the rules do not; re-draw until the rule is there
        for _ in range(20):
            m = mutations(rng, t)
            hit = [x for x in m if x == k or x.split("'")[0].split('"')[0] == k.split("'")[0].split('"')[0]]
            if hit:
                break
        if not hit:
            continue
        m[hit[0]]()
        bad = ET.tostring(t, encoding="unicode")
        with contextlib.redirect_stderr(io.StringIO()):
            ctx.refused(lambda: build(bad), f"{fmt} with {hit[0]}", document=bad[:1200])
        ctx.seen(fmt, hit[0])


def syntax(ctx, rng, text, build, fmt):
    i = int(rng.integers(1, len(text.rstrip()) - 1))
    bad = [text[:i], text.replace("</robot>", "").replace("</sdf>", ""), text.rstrip()[:-1], text.replace('name="', "name=", 1).replace("name='", "name=", 1), text + text, "", "   ", "not xml at all"]
    for b in bad:
        try:
            ET.fromstring(b)
            continue  # still well formed
        except ET.ParseError:
            pass
        ctx.refused(lambda: build(b), f"{fmt} that is not well formed", document=b[:300])
        ctx.seen(fmt, "syntax", bad.index(b))


def broken_urdf(ctx, rng):
    d = desc.doc(rng, n=int(rng.integers(1, 7)), visuals=0.8)
    text = desc.urdf(rng, d)
    build = pk.build_chain_from_urdf if rng.random() < 0.7 else lambda t: pk.build_serial_chain_from_urdf(t, d.links[-1]["name"])
    refuse_all(ctx, rng, text, urdf_mutations, build, "URDF")
    if rng.random() < 0.5:
        syntax(ctx, rng, text, build, "URDF")


def broken_sdf(ctx, rng):
    d = desc.clean(desc.doc(rng, n=int(rng.integers(1, 7)), types=desc.SDF_TYPES, kinds=("box", "cylinder", "sphere", "mesh"), visuals=0.8))
    text = desc.sdf(rng, d)
    refuse_all(ctx, rng, text, sdf_mutations, pk.build_chain_from_sdf, "SDF")
    if rng.random() < 0.5:
        syntax(ctx, rng, text, pk.build_chain_from_sdf, "SDF")


# ---- writing ------------------------------------------------------------------------------
DEFAULT = {("origin", "xyz"): "0 0 0", ("origin", "rpy"): "0 0 0", ("limit", "lower"): "0", ("limit", "upper"): "0"}
ORDERED = ("visual", "collision")


def numbers(s):
    try:
        return tuple(float(x) for x in s.split()) if s.strip() else s
    except ValueError:
        return s


NAMES = {"name", "link", "filename", "type"}


def canonical(e):
    at = dict(e.attrib)
    for (tag, k), v in DEFAULT.items():
        if e.tag == tag:
            at.setdefault(k, v)
    kids = [c for c in e if isinstance(c.tag, str)]
    kept = [canonical(c) for c in kids if c.tag not in ("dynamics", "safety_controller", "calibration", "mimic")]
    seq = [k for k in kept if k[0] in ORDERED]
    rest = sorted((k for k in kept if k[0] not in ORDERED), key=repr)
    return (e.tag, tuple(sorted((k, v if k in NAMES else numbers(v)) for k, v in at.items())), tuple(rest), tuple(seq))


def content(text):
    t = ET.fromstring(text)
    return {k: sorted((canonical(e) for e in t.findall(k)), key=repr) for k in ("link", "joint", "material")}


def same(ctx, a, b, what):
    ca, cb = content(a), content(b)
    for k in ca:
        if ca[k] != cb[k]:
            diff = [(x, y) for x, y in zip(ca[k], cb[k]) if x != y][:1]
            ctx.expect(False, f"{what}: the {k}s differ", difference=diff, counts=(len(ca[k]), len(cb[k])))
        ctx.expect(True, what)


def round_trip(ctx, rng):
    d = desc.doc(rng, n=int(rng.integers(1, 8)), visuals=0.8)
    text = desc.urdf(rng, d)
    m = U.URDF.from_xml_string(text)
    out = m.to_xml_string()
    out = out if isinstance(out, str) else out.decode()
    same(ctx, text, out, "written URDF against the original")
    m2 = U.URDF.from_xml_string(out)
    out2 = m2.to_xml_string()
    same(ctx, text, out2 if isinstance(out2, str) else out2.decode(), "URDF written twice")
    again = m.to_xml_string()
    same(ctx, text, again if isinstance(again, str) else again.decode(), "the same model written again")
    c = pk.build_chain_from_urdf(out)
    poses(ctx, rng, desc.robot(d), c, what="pose of the re-parsed robot")
    c0 = pk.build_chain_from_urdf(text)
    ctx.expect(sorted(zip(c0.get_joint_parameter_names(), *c0.get_joint_limits())) == sorted(zip(c.get_joint_parameter_names(), *c.get_joint_limits())), "limits of the re-parsed robot")
    # the parsed models themselves
    for a, b in zip(sorted(m.joints, key=lambda j: j.name), sorted(m2.joints, key=lambda j: j.name)):
        for k in ("name", "type", "parent", "child", "axis"):
            ctx.expect(getattr(a, k) == getattr(b, k), f"joint {k} after parsing again", joint=a.name)
    ctx.count("round_trips")
    ctx.seen("trip", tuple((j["type"], j["limit"] and tuple(sorted(j["limit"]))) for j in d.joints), tuple(len(l["visuals"]) for l in d.links))


def constructed(ctx, rng):
    """Models put together in Python, written and read."""
    d = desc.doc(rng, n=int(rng.integers(1, 6)), visuals=0.7)
    m = U.URDF(d.name)

    def pose(p):
        return None if p is None else U.Pose(list(p[0]), list(p[1]))

    def geo(v):
        p = v["param"]
        return {"box": lambda: U.Box(list(p)), "sphere": lambda: U.Sphere(p), "cylinder": lambda: U.Cylinder(*p), "capsule": lambda: U.Capsule(*p), "mesh": lambda: U.Mesh(p[0], p[1])}[v["kind"]]()

    for l in d.links:
        x = U.Link(l["name"])
        for v in l["visuals"]:
            x.add_aggregate("visual", U.Visual(geo(v), U.Material("m", U.Color([0.1, 0.2, 0.3, 1.0])) if rng.random() < 0.5 else None, pose(v["pose"])))
        m.add_link(x)
    for j in d.joints:
        o = None if j["xyz"] is None and j["rpy"] is None else U.Pose(j["xyz"] or [0.0] * 3, j["rpy"] or [0.0] * 3)
        lim = None if j["limit"] is None else U.JointLimit(**j["limit"])
        m.add_joint(U.Joint(j["name"], d.links[j["parent"]]["name"], d.links[j["child"]]["name"], j["type"], j["axis"], o, lim))
    out = m.to_xml_string()
    out = out if isinstance(out, str) else out.decode()
    r = desc.read_urdf(out)
    key = lambda j: j["name"]  # noqa: E731
    ctx.expect([l["name"] for l in r.links] == [l["name"] for l in d.links], "written links")
    for a, b in zip(r.links, d.links):
        ctx.expect([(v["kind"], v["param"], v["pose"] or None) for v in a["visuals"]] == [(v["kind"], v["param"], v["pose"] and (list(v["pose"][0]), list(v["pose"][1]))) for v in b["visuals"]],
                   "written visuals", got=a["visuals"], want=b["visuals"])
    for a, b in zip(sorted(r.joints, key=key), sorted(d.joints, key=key)):
        for k in ("name", "type", "parent", "child", "axis"):
            ctx.expect(a[k] == b[k], f"written joint {k}", got=a[k], want=b[k])
        for k in ("xyz", "rpy"):
            ctx.expect((a[k] or [0.0] * 3) == (b[k] or [0.0] * 3), f"written joint {k}", got=a[k], want=b[k])
        la, lb = a["limit"], b["limit"]
        ctx.expect((la is None) == (lb is None) and (la is None or all(la.get(k, 0.0) == lb.get(k, 0.0) for k in ("lower", "upper", "effort", "velocity"))), "written limits", got=la, want=lb)
    c = pk.build_chain_from_urdf(out)
    poses(ctx, rng, desc.robot(d), c, what="pose of the written robot")
    ctx.count("round_trips")
    ctx.seen("constructed", tuple(j["type"] for j in d.joints))


FAMILIES = [("broken_urdf", broken_urdf), ("broken_sdf", broken_sdf), ("round_trip", round_trip), ("constructed", constructed), ("broken_urdf", broken_urdf), ("broken_sdf", broken_sdf),
            ("round_trip", round_trip)]
