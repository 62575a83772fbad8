"""C09: SDF robots load with the structure and kinematics they describe."""
import os

from ..env import F32, F64, REPO, np, npy, pk, torch
from .. import desc, gen
from ..ref import RFrame, RJoint, Robot, homog, inv_rigid, rot, rpy, serial_robot
from .c07 import columns, poses, structure

ORACLE = "float64 reference built from the document's own link poses and axes"
RULE = "distinct (tree shape, joint types, which poses and axes are omitted) documents loaded and compared"
CONFIG = {"quick": {"cases": 3000, "min": {"documents": 500, "poses": 3000, "joints": 1200, "model_frame_axes": 150, "column_orders": 80}}, "thorough": {"cases": 30000, "seconds": 780}}


def sig(d):
    return tuple((j["type"], j["parent"], j["axis"] is None, d.links[j["child"]]["pose"] is None) for j in d.joints)


def make(rng, **kw):
    return desc.clean(desc.doc(rng, types=desc.SDF_TYPES, kinds=("box", "cylinder", "sphere", "mesh"), **kw))


def zero(ctx, d, c):
    """At zero joint values every link is where the document says, whatever the structure."""
    got = c.forward_kinematics(torch.zeros(1, c.n_joints, dtype=c.dtype))
    for l in d.links:
        T = np.eye(4) if l["pose"] is None else homog(rpy(*l["pose"][1]), l["pose"][0])
        ctx.close(got[l["name"]].get_matrix()[0], T, 3e-6 * (3 + len(d.links)), "pose at zero joint values", link=l["name"])
        ctx.count("zero_poses")


def document(ctx, rng):
    d = make(rng)
    text = desc.sdf(rng, d)
    c = pk.build_chain_from_sdf(text if rng.random() < 0.6 else text.encode())
    structure(ctx, d, c)
    columns(ctx, text, c)
    zero(ctx, d, c)
    poses(ctx, rng, desc.robot(d, "sdf"), c, tolk=2)
    ctx.count("documents")
    ctx.count("model_frame_axes", sum(bool(j.get("in_model")) for j in d.joints))
    ctx.seen(sig(d))
    ctx.sample(links=len(d.links), joints=[j["type"] for j in d.joints], text=text[:160])
    if rng.random() < 0.4:
        c2 = pk.build_chain_from_sdf(desc.sdf(rng, d))
        structure(ctx, d, c2)
        zero(ctx, d, c2)
        poses(ctx, rng, desc.robot(d, "sdf"), c2, tolk=2)


def serial(ctx, rng):
    d = make(rng, n=int(rng.integers(2, 9)))
    r = desc.robot(d, "sdf")
    e = r.frames[int(rng.integers(1, len(r.frames)))]
    path = r.path(e.name)
    top = path[int(rng.integers(0, len(path) - 1))]
    s = pk.build_serial_chain_from_sdf(desc.sdf(rng, d), e.name, top.name)
    sr = serial_robot(r, top.name, e.name)
    ctx.expect(s.get_joint_parameter_names() == sr.joint_names, "joints of the serial robot", got=s.get_joint_parameter_names(), want=sr.joint_names)
    q = gen.configs(rng, sr.n, 2).astype(np.float32).astype(float)
    got = s.forward_kinematics(torch.tensor(q, dtype=F32) if sr.n else torch.zeros(2, 0), end_only=False)
    for k, T in sr.fk_batch(q).items():
        ctx.close(got[k].get_matrix(), T, gen.tol(sr, q, F32, 4), "pose on the serial robot", link=k)
        ctx.count("poses", 2)
    ctx.count("documents")
    ctx.seen("serial", sig(d), top is path[0])


def handwritten(ctx, rng):
    k = int(rng.integers(0, 4))
    d = make(rng, n=int(rng.choice([2, 3, 4, 12])))
    for l in d.links:
        if k == 0:  # a single angle
            a = [0.0, 0.0, 0.0]
            a[rng.integers(3)] = float(rng.uniform(-4, 4))
            l["pose"] = ([0.0, 0.0, 0.0], a)
        elif k == 1:
            l["pose"] = None
        elif k == 2:
            l["pose"] = ([float(x) for x in rng.uniform(-2, 2, 3)], [float(x) for x in rng.uniform(-6, 6, 3)])
    if k == 3:
        for j in d.joints:
            if j["type"] != "fixed":
                j["axis"] = [float(x) for x in gen.unit(rng) * 10 ** rng.uniform(-4, 4)]
    c = pk.build_chain_from_sdf(desc.sdf(rng, d))
    structure(ctx, d, c)
    zero(ctx, d, c)
    poses(ctx, rng, desc.robot(d, "sdf"), c, tolk=2)
    ctx.count("documents")
    ctx.seen(k, sig(d))


def jointed(rng):
    """A model whose joints have poses of their own (in the frame of the child link, as SDF says)."""
    d = make(rng, n=int(rng.choice([2, 3, 5])))
    for j in d.joints:
        j["in_model"] = None
        j["pose"] = None if rng.random() < 0.3 and j is not d.joints[0] else ([float(x) for x in rng.uniform(-1, 1, 3)], [0.0] * 3 if rng.random() < 0.5 else [float(x) for x in rng.uniform(-1, 1, 3)])
    return d


def with_joint_poses(rng, d):
    text = desc.sdf(rng, d)
    for j in d.joints:
        if j["pose"] is not None:
            head = f"<joint name={desc.q(j['name'])} type=\"{j['type']}\">"
            assert text.count(head) == 1
            text = text.replace(head, head + desc.pose_text(rng, j["pose"]))
    return text


def jointed_poses(d, q, honour):
    """Pose per link, honouring the joints' own poses or ignoring them."""
    at = [np.eye(4) if l["pose"] is None else homog(rpy(*l["pose"][1]), l["pose"][0]) for l in d.links]
    out = {d.root(): at[d.root()]}
    left = list(d.joints)
    while left:
        j = next(x for x in left if x["parent"] in out)
        left.remove(j)
        P = np.eye(4) if j["pose"] is None or not honour else homog(rpy(*j["pose"][1]), j["pose"][0])
        a = np.array(desc.axis_of(d, j), float)
        a /= np.linalg.norm(a)
        M = np.eye(4) if j["type"] == "fixed" else homog(rot(a, q[j["name"]])) if j["type"] == "revolute" else homog(p=a * q[j["name"]])
        out[j["child"]] = out[j["parent"]] @ inv_rigid(at[j["parent"]]) @ at[j["child"]] @ P @ M @ inv_rigid(P)
    return {d.links[i]["name"]: T for i, T in out.items()}


def joint_poses(ctx, rng):
    """Joints with their own pose: either right, or wrong in exactly the recorded way (known_findings.json)."""
    d = jointed(rng)
    c = pk.build_chain_from_sdf(with_joint_poses(rng, d))
    structure(ctx, d, c)
    q = {n: float(rng.uniform(-2, 2)) for n in c.get_joint_parameter_names()}
    got = c.forward_kinematics(q) if q else c.forward_kinematics(torch.zeros(1, 0))
    err = {}
    for k, honour in (("right", True), ("recorded", False)):
        err[k] = max(np.abs(npy(got[n].get_matrix())[0] - T).max() for n, T in jointed_poses(d, q, honour).items())
    ctx.expect(min(err.values()) < 2e-4, "poses with posed joints are right or wrong as recorded", errors=err, q=q)
    ctx.count("posed_joints_wrong_as_recorded", err["right"] >= 2e-4)
    ctx.seen("joint_poses", sig(d))


def joint_pose_probe(ctx, rng):
    inert = "<inertial><mass>1</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial>"
    x = (f'<sdf version="1.6"><model name="m"><link name="a">{inert}</link><link name="b"><pose>1 0 0 0 0 0</pose>{inert}</link><joint name="j" type="revolute"><pose>0.5 0 0 0 0 0</pose>'
         "<parent>a</parent><child>b</child><axis><xyz>0 0 1</xyz></axis></joint></model></sdf>")
    T = npy(pk.build_chain_from_sdf(x).forward_kinematics([np.pi / 2])["b"].get_matrix())[0]
    ctx.close(T, homog(rot((0, 0, 1), np.pi / 2), [1.5, -0.5, 0.0]), 1e-5, "pose of a link whose joint has its own pose")


PROBES = [("joint-with-its-own-pose", joint_pose_probe)]
FAMILIES = [("document", document), ("document", document), ("serial", serial), ("handwritten", handwritten), ("document", document), ("joint_poses", joint_poses)]
