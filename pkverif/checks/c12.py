"""C12: loaded links carry the visual geometry their description gives."""
import mujoco

from ..env import F32, F64, np, npy, pk, torch
from .. import desc, gen
from ..ref import homog, rpy
from . import c10

ORACLE = "the visuals of the generated document (URDF, SDF) or MuJoCo's compiled geoms placed by mj_kinematics (MJCF)"
RULE = "distinct (format, per-link sequence of shapes and omitted placements) documents compared"
CONFIG = {"quick": {"cases": 3200, "min": {"visuals": 1500, "bare_links": 500}}, "thorough": {"cases": 40000, "seconds": 780}}


def shape_ok(v, w, fmt):
    p, q = v.geom_param, w["param"]
    if w["kind"] == "mesh":
        if fmt == "sdf":
            name = p if isinstance(p, str) else p[0]
            return name == q[0]
        return p[0] == q[0] and (p[1] is None if q[1] is None else list(p[1]) == list(q[1]))
    return np.array_equal(np.ravel(np.asarray(p, float)), np.ravel(np.asarray(q, float)))


def placed(ctx, v, w, **kw):
    T = np.eye(4) if w["pose"] is None else homog(rpy(*w["pose"][1]), w["pose"][0])
    got = np.eye(4) if v.offset is None else npy(v.offset.get_matrix())[0].astype(float)
    ctx.expect(got.shape == (4, 4), "a visual has one placement")
    ctx.close(got[:, 3], T[:, 3], 3e-6, "visual position", **kw)
    ctx.close(got[:3, 2], T[:3, 2], 5e-6, "direction of the visual's own axis", **kw)
    if w["kind"] != "cylinder":  # a cylinder may be turned about its own axis
        ctx.close(got[:3, :3], T[:3, :3], 5e-6, "visual rotation", **kw)
    ctx.close(got[:3, :3] @ got[:3, :3].T, np.eye(3), 1e-5, "visual placement is rigid", **kw)


def compare(ctx, c, d, fmt):
    for l in d.links:
        for link in (c.find_link(l["name"]), c.find_frame(l["name"]).link):
            vs = [v for v in link.visuals if v.geom_type is not None]
            want = l["visuals"][:1] if fmt == "urdf" else l["visuals"]
            ctx.expect([v.geom_type for v in vs] == [w["kind"] for w in want], "shapes of a link", link=l["name"], got=[v.geom_type for v in vs], want=[w["kind"] for w in want])
            for v, w in zip(vs, want):
                ctx.expect(shape_ok(v, w, fmt), "dimensions of a visual", link=l["name"], kind=w["kind"], got=v.geom_param, want=w["param"])
                placed(ctx, v, w, link=l["name"], kind=w["kind"])
                ctx.count("visuals")
            if not want:
                ctx.expect(all(v.geom_type is None and v.geom_param is None for v in link.visuals), "a link without a visual carries no geometry", link=l["name"])
                ctx.count("bare_links")
    ctx.expect(len(c.get_links()) == len(d.links), "all links are there")


def sig(d):
    return tuple(tuple((v["kind"], v["pose"] is None) for v in l["visuals"]) for l in d.links)


def urdf(ctx, rng):
    d = desc.doc(rng, visuals=float(rng.choice([0.2, 0.6, 1.0])))
    c = pk.build_chain_from_urdf(desc.urdf(rng, d))
    compare(ctx, c, d, "urdf")
    ctx.seen("urdf", sig(d))
    ctx.sample(format="urdf", visuals=sig(d))
    if rng.random() < 0.3:  # still there after moving and on the serial robot
        c = c.to(dtype=F64)
        compare(ctx, c, d, "urdf")
        e = d.links[-1]["name"]
        s = pk.SerialChain(c, e)
        for n in s.get_frame_names(exclude_fixed=False):
            a, b = s.find_link(n).visuals, c.find_link(n).visuals
            ctx.expect([v.geom_type for v in a] == [v.geom_type for v in b], "visuals on the serial robot", link=n)


def sdf(ctx, rng):
    d = desc.clean(desc.doc(rng, types=desc.SDF_TYPES, kinds=("box", "cylinder", "sphere", "mesh"), visuals=float(rng.choice([0.2, 0.6, 1.0]))))
    c = pk.build_chain_from_sdf(desc.sdf(rng, d))
    compare(ctx, c, d, "sdf")
    ctx.seen("sdf", sig(d))


def mjcf(ctx, rng):
    d = desc.mjcf(rng)
    assets = None
    if rng.random() < 0.25:  # mesh geoms, whose frame MuJoCo moves to their centre
        pts = rng.uniform(-1, 1, (4, 3))
        assets = {"m.obj": ("".join("v %.6f %.6f %.6f\n" % tuple(p) for p in pts) + "f 1 2 3\nf 1 4 2\nf 1 3 4\nf 2 4 3\n").encode()}
        body = '<body name="mesh body" pos="1 0 0"><geom type="mesh" mesh="m" pos="0.3 0.2 0.1" euler="0.1 0.2 0.3"/><geom type="sphere" size="0.1"/></body>'
        d.xml = d.xml.replace("<worldbody>", '<asset><mesh name="m" file="m.obj" inertia="convex"/></asset><worldbody>').replace("</worldbody>", body + "</worldbody>")
    m = mujoco.MjModel.from_xml_string(d.xml, assets=assets)
    root = int(rng.integers(0, m.nbody)) if rng.random() < 0.4 else 0
    c = pk.build_chain_from_mjcf(d.xml, assets=assets) if root == 0 else pk.build_chain_from_mjcf(d.xml, body=root, assets=assets)
    pairs, _ = c10.match(ctx, m, c, root)
    data = mujoco.MjData(m)
    mujoco.mj_kinematics(m, data)
    for (kind, i), f in pairs.items():
        vs = list(f.link.visuals)
        ctx.expect(c.find_link(f.name) is f.link, "the link of a body or site is found by its name", frame=f.name)
        if kind == "site":
            ctx.expect(not vs, "sites carry no geometry", frame=f.name)
            ctx.count("bare_links")
            continue
        want = [g for g in range(m.ngeom) if m.geom_bodyid[g] == i]
        ctx.expect(len(vs) == len(want), "all geoms of a body, and only those", frame=f.name, got=len(vs), want=len(want))
        B = np.eye(4)
        B[:3, :3], B[:3, 3] = data.xmat[i].reshape(3, 3), data.xpos[i]
        for v, g in zip(vs, want):
            ctx.expect(int(np.ravel(v.geom_type)[0]) == int(m.geom_type[g]), "geom type", frame=f.name, got=v.geom_type, want=m.geom_type[g])
            ctx.close(np.ravel(np.asarray(v.geom_param, float)), m.geom_size[g], 1e-9, "geom size", frame=f.name)
            G = np.eye(4)
            G[:3, :3], G[:3, 3] = data.geom_xmat[g].reshape(3, 3), data.geom_xpos[g]
            ctx.close(npy(v.offset.get_matrix())[0].astype(float), np.linalg.inv(B) @ G, 1e-5, "geom placement in the body", frame=f.name)
            ctx.count("visuals")
        if not want:
            ctx.count("bare_links")
    ctx.seen("mjcf", root, tuple((tuple(g["kind"] for g in b["geoms"]), len(b["sites"])) for b in d.bodies))


FAMILIES = [("urdf", urdf), ("sdf", sdf), ("mjcf", mjcf)]
