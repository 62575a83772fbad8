"""Executable reference model: trees of frames, float64 numpy kinematics and exact derivatives."""
from dataclasses import dataclass, field
from typing import Optional

import numpy as np


def hat(v):
    x, y, z = v
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]], dtype=float)


def rot(axis, angle):
    """Rotation by angle about the normalised axis (matrix exponential form)."""
    a = np.asarray(axis, dtype=float)
    k = hat(a / np.linalg.norm(a))
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * (k @ k)


def rpy(r, p, y):
    """Fixed-axis roll, pitch, yaw."""
    return rot([0, 0, 1], y) @ rot([0, 1, 0], p) @ rot([1, 0, 0], r)


def homog(R=None, p=None):
    T = np.eye(4)
    if R is not None:
        T[:3, :3] = R
    if p is not None:
        T[:3, 3] = p
    return T


def inv_rigid(T):
    return homog(T[:3, :3].T, -T[:3, :3].T @ T[:3, 3])


def quat_mul(a, b):
    w1, v1, w2, v2 = a[..., 0], a[..., 1:], b[..., 0], b[..., 1:]
    w = w1 * w2 - (v1 * v2).sum(-1)
    v = w1[..., None] * v2 + w2[..., None] * v1 + np.cross(v1, v2)
    return np.concatenate([w[..., None], v], -1)


def quat_to_R(q):
    """wxyz, any norm, single quaternion."""
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q)
    w, v = q[0], q[1:]
    k = hat(v)
    return np.eye(3) + 2 * w * k + 2 * (k @ k)


def rot_angle(R):
    """Angle of a rotation matrix, accurate everywhere."""
    s = 0.5 * np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    c = 0.5 * (np.trace(R) - 1)
    return float(np.arctan2(s, c))


@dataclass
class RJoint:
    name: Optional[str] = None
    type: str = "fixed"
    axis: tuple = (0.0, 0.0, 1.0)
    offset: Optional[np.ndarray] = None
    limits: Optional[tuple] = None

    def motion(self, q):
        if self.type == "revolute":
            return homog(rot(self.axis, q))
        if self.type == "prismatic":
            a = np.asarray(self.axis, float)
            return homog(p=q * a / np.linalg.norm(a))
        return np.eye(4)

    def dmotion(self, q):
        """Derivative of motion with respect to q."""
        a = np.asarray(self.axis, float)
        a = a / np.linalg.norm(a)
        D = np.zeros((4, 4))
        if self.type == "revolute":
            D[:3, :3] = hat(a) @ rot(a, q)
        elif self.type == "prismatic":
            D[:3, 3] = a
        return D


@dataclass
class RFrame:
    name: str
    joint: RJoint = field(default_factory=RJoint)
    link_name: Optional[str] = None
    link_offset: Optional[np.ndarray] = None
    children: list = field(default_factory=list)
    parent: Optional["RFrame"] = None
    extra: dict = field(default_factory=dict)

    def static(self):
        T = np.eye(4) if self.link_offset is None else self.link_offset
        return T if self.joint.offset is None else T @ self.joint.offset


class Robot:
    def __init__(self, root):
        self.root = root
        self.frames = []

        def walk(f):
            stack = [f]
            while stack:
                x = stack.pop()
                self.frames.append(x)
                for c in reversed(x.children):
                    c.parent = x
                    stack.append(c)

        walk(root)
        self.by_name = {f.name: f for f in self.frames}
        self.moving = [f for f in self.frames if f.joint.type != "fixed"]
        self.joint_names = [f.joint.name for f in self.moving]
        self.n = len(self.moving)

    def path(self, name):
        f = self.by_name[name]
        out = []
        while f is not None:
            out.append(f)
            f = f.parent
        return out[::-1]

    def depth(self):
        return max(len(self.path(f.name)) for f in self.frames)

    def q_of(self, f, q):
        return q[self.joint_names.index(f.joint.name)] if f.joint.type != "fixed" else 0.0

    def fk(self, q):
        """q: (n,) -> {frame name: 4x4}"""
        col = {id(f): i for i, f in enumerate(self.moving)}
        T = {}
        for f in self.frames:
            L = f.static() @ f.joint.motion(q[col[id(f)]] if id(f) in col else 0.0)
            T[f.name] = L if f.parent is None else T[f.parent.name] @ L
        return T

    def fk_batch(self, qs):
        out = {f.name: [] for f in self.frames}
        for q in qs:
            for k, v in self.fk(q).items():
                out[k].append(v)
        return {k: np.stack(v) for k, v in out.items()}

    def scale(self, q=None):
        """Upper bound of any position reachable: used to scale tolerances."""
        s = 1.0
        for f in self.frames:
            s += np.linalg.norm(f.static()[:3, 3])
        if q is not None and len(q):
            s += np.abs(np.asarray(q))[..., [i for i, f in enumerate(self.moving) if f.joint.type == "prismatic"]].sum(-1).max() \
                if any(f.joint.type == "prismatic" for f in self.moving) else 0.0
        return s

    def dfk(self, q, name):
        """(n, 4, 4): derivative of the frame's pose by every moving joint, by the product rule."""
        path = self.path(name)
        out = np.zeros((self.n, 4, 4))
        for f in path:
            if f.joint.type == "fixed":
                continue
            P = np.eye(4)
            for g in path:
                qq = self.q_of(g, q)
                P = P @ g.static() @ (g.joint.dmotion(qq) if g is f else g.joint.motion(qq))
            out[self.moving.index(f)] = P
        return out


def serial(robot, root, end):
    """Reference of the serial robot from frame root to frame end: (moving frames below root, relative pose fn)."""
    path = robot.path(end)
    names = [f.name for f in path]
    sub = path[names.index(root):]
    moving = [f for f in sub[1:] if f.joint.type != "fixed"]
    return sub, moving


def serial_robot(robot, root, end):
    """The same, as a stand-alone Robot whose root sits at the origin."""
    sub, _ = serial(robot, root, end)
    top = prev = RFrame(sub[0].name, RJoint(), sub[0].link_name)
    for f in sub[1:]:
        g = RFrame(f.name, f.joint, f.link_name, f.link_offset)
        prev.children = [g]
        prev = g
    return Robot(top)


def jacobian(srobot, q, tool=None):
    """6 x n geometric Jacobian of the last frame of a serial Robot at a tool transform (4x4)."""
    end = srobot.frames[-1].name
    T = srobot.fk(q)[end]
    tool = np.eye(4) if tool is None else tool
    Te = T @ tool
    J = np.zeros((6, srobot.n))
    for j, D in enumerate(srobot.dfk(q, end)):
        Dt = D @ tool
        J[:3, j] = Dt[:3, 3]
        W = Dt[:3, :3] @ Te[:3, :3].T
        J[3:, j] = [0.5 * (W[2, 1] - W[1, 2]), 0.5 * (W[0, 2] - W[2, 0]), 0.5 * (W[1, 0] - W[0, 1])]
    return J, Te
