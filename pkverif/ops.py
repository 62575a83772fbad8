"""Catalogue of batched public operations, used by the batch-independence and dtype monitors.

Each entry: name -> (generator(rng, n) -> list of float64 numpy arrays with leading dimension n, fn(*tensors) -> tensor or tuple of tensors
with leading dimension n).  Nothing here knows the right answers: oracles compare the library with itself across batches."""
import numpy as np

from . import gen
from .env import F64, pk, torch
from .ref import quat_mul  # noqa: F401


def R(rng, n):
    return [np.stack([gen.rotation(rng) for _ in range(n)]) if n else np.zeros((0, 3, 3))]


def Rgen(rng, n):
    """Rotations away from identity and half turns."""
    return [np.stack([gen.rot(gen.unit(rng), rng.uniform(0.2, 2.9)) for _ in range(n)])]


def quat(rng):
    k = rng.integers(0, 6)
    if k == 0:
        return np.array([1.0, 0, 0, 0])
    if k == 1:
        q = np.zeros(4)
        q[rng.integers(4)] = rng.choice([-1.0, 1.0])
        return q
    if k == 2:
        a = 10 ** rng.uniform(-9, -1)
        return np.r_[np.cos(a), np.sin(a) * gen.unit(rng)]
    q = rng.standard_normal(4)
    return q / np.linalg.norm(q)


def Q(rng, n):
    return [np.stack([quat(rng) for _ in range(n)])]


def QQ(rng, n):
    a, b = Q(rng, n)[0], Q(rng, n)[0]
    for i in range(n):
        k = rng.integers(0, 5)
        if k == 0:
            b[i] = a[i]
        elif k == 1:
            b[i] = -a[i]
        elif k == 2:
            b[i] = a[i] + 1e-4 * rng.standard_normal(4)
            b[i] /= np.linalg.norm(b[i])
    return [a, b]


def V(rng, n):
    v = rng.standard_normal((n, 3))
    for i in range(n):
        k = rng.integers(0, 5)
        if k == 0:
            v[i] = 0
        elif k == 1:
            v[i] *= 1e-8
    return [v]


def AV(rng, n):
    return [np.stack([gen.unit(rng) for _ in range(n)]), np.array([float(gen.angle(rng, 1)[0]) for _ in range(n)])]


def S(rng, n):
    return [rng.uniform(-0.99, 0.99, n)]


def T(rng, n, scale=False):
    out = []
    for _ in range(n):
        M = gen.transform(rng, none_ok=False)
        if scale:
            M = M.copy()
            M[:3, :3] = M[:3, :3] @ np.diag(rng.uniform(0.3, 3, 3))
        out.append(M)
    return [np.stack(out)]


def cat(*gs):
    return lambda rng, n: [a for g in gs for a in g(rng, n)]


def N(*shape):
    return lambda rng, n: [rng.standard_normal((n, *shape))]


def skew(rng, n):
    from .ref import hat
    return [np.stack([hat(v) for v in rng.standard_normal((n, 3))])]


def t3(m):
    return pk.Transform3d(matrix=m)


CONVENTIONS = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if a != b and b != c]


def catalogue(rng):
    conv = CONVENTIONS[rng.integers(12)]
    seq = ("s", "r")[rng.integers(2)] + CONVENTIONS[rng.integers(12)].lower()
    tt = float(rng.uniform(0, 1))
    ops = {
        "quaternion_to_matrix": (Q, pk.quaternion_to_matrix),
        "matrix_to_quaternion": (R, pk.matrix_to_quaternion),
        "matrix_to_axis_angle": (R, pk.matrix_to_axis_angle),
        "axis_angle_to_quaternion": (V, pk.axis_angle_to_quaternion),
        "quaternion_to_axis_angle": (Q, pk.quaternion_to_axis_angle),
        "rotation_6d_to_matrix": (N(6), pk.rotation_6d_to_matrix),
        "matrix_to_rotation_6d": (R, pk.matrix_to_rotation_6d),
        "axis_and_angle_to_matrix_33": (AV, pk.axis_and_angle_to_matrix_33),
        "axis_and_d_to_pris_matrix": (AV, pk.axis_and_d_to_pris_matrix),
        "matrix44_to_se3_9d": (T, pk.matrix44_to_se3_9d),
        "se3_9d_to_matrix44": (N(9), pk.se3_9d_to_matrix44),
        "pos_rot_to_matrix": (cat(N(3), Q), pk.pos_rot_to_matrix),
        "matrix_to_pos_rot": (T, pk.matrix_to_pos_rot),
        "wxyz_to_xyzw": (Q, pk.wxyz_to_xyzw),
        "xyzw_to_wxyz": (Q, pk.xyzw_to_wxyz),
        f"euler_angles_to_matrix:{conv}": (N(3), lambda x: pk.euler_angles_to_matrix(x, conv)),
        f"matrix_to_euler_angles:{conv}": (Rgen, lambda x: pk.matrix_to_euler_angles(x, conv)),
        f"quaternion_from_euler:{seq}": (N(3), lambda x: pk.quaternion_from_euler(x, seq)),
        "standardize_quaternion": (Q, pk.standardize_quaternion),
        "quaternion_raw_multiply": (QQ, pk.quaternion_raw_multiply),
        "quaternion_multiply": (QQ, pk.quaternion_multiply),
        "quaternion_invert": (Q, pk.quaternion_invert),
        "quaternion_apply": (cat(Q, N(3)), pk.quaternion_apply),
        "quaternion_angular_distance": (QQ, pk.quaternion_angular_distance),
        "quaternion_slerp": (QQ, lambda a, b: pk.quaternion_slerp(a, b, tt)),
        "quaternion_slerp:t": (cat(QQ, lambda rng, n: [rng.uniform(0, 1, n)]), pk.quaternion_slerp),
        "acos_linear_extrapolation": (lambda rng, n: [rng.uniform(-1.5, 1.5, n)], pk.acos_linear_extrapolation),
        "so3_exp_map": (V, pk.so3_exp_map),
        "so3_log_map": (R, pk.so3_log_map),
        "so3_rotation_angle": (R, pk.so3_rotation_angle),
        "so3_rotation_angle:cos": (R, lambda x: pk.so3_rotation_angle(x, cos_angle=True)),
        "so3_relative_angle": (cat(R, R), pk.so3_relative_angle),
        "hat": (V, pk.transforms.so3.hat),
        "hat_inv": (skew, pk.transforms.so3.hat_inv),
        "compose": (cat(T, T), lambda a, b: t3(a).compose(t3(b)).get_matrix()),
        "compose3": (cat(T, T, T), lambda a, b, c: t3(a).compose(t3(b), t3(c)).get_matrix()),
        "inverse": (lambda rng, n: T(rng, n, True), lambda a: t3(a).inverse().get_matrix()),
        "transform_points": (cat(T, N(4, 3)), lambda a, p: t3(a).transform_points(p)),
        "transform_normals": (lambda rng, n: T(rng, n, True) + N(4, 3)(rng, n), lambda a, p: t3(a).transform_normals(p)),
        "transform_shape_operator": (cat(T, N(2, 3, 3)), lambda a, p: t3(a).transform_shape_operator(p)),
        "Transform3d(rot,pos)": (cat(Q, N(3)), lambda q, p: pk.Transform3d(rot=q, pos=p, dtype=q.dtype).get_matrix()),
        "Transform3d(euler,pos)": (cat(N(3), N(3)), lambda q, p: pk.Transform3d(rot=q.reshape(-1, 3), pos=p, dtype=q.dtype).get_matrix() if q.shape[0] != 3
                                   else pk.Transform3d(rot=pk.euler_angles_to_matrix(q, "XYZ"), pos=p, dtype=q.dtype).get_matrix()),
        "Translate": (N(3), lambda p: pk.Translate(p, dtype=p.dtype).get_matrix()),
        "Translate.inverse": (N(3), lambda p: pk.Translate(p, dtype=p.dtype).inverse().get_matrix()),
        "Scale": (N(3), lambda p: pk.Scale(p, dtype=p.dtype).get_matrix()),
        "Scale.inverse": (N(3), lambda p: pk.Scale(p, dtype=p.dtype).inverse().get_matrix()),
        "Rotate": (R, lambda p: pk.Rotate(p, dtype=p.dtype).get_matrix()),
        "Rotate.inverse": (R, lambda p: pk.Rotate(p, dtype=p.dtype).inverse().get_matrix()),
    }
    return ops


def chain_ops(rng, r, c, s=None):
    """Operations of a Chain c of reference robot r (and of a serial chain s)."""
    n = c.n_joints
    order = [f.name for f in r.frames]
    W = torch.tensor(rng.standard_normal((len(order), 1, 4, 4)), dtype=c.dtype)

    def q(rng, b):
        return [gen.configs(rng, n, b)]

    def fk_all(th):
        d = c.forward_kinematics(th)
        return torch.stack([d[k].get_matrix() for k in order], 1)

    def fk_raw(th):
        return c.forward_kinematics_tensor(th).transpose(0, 1)

    def grad_of(f):
        def g(th, *rest):
            x = th.detach().clone().requires_grad_(True)
            y = f(x, *rest)
            return torch.autograd.grad(y, x)[0]
        return g

    out = {"fk": (q, fk_all), "fk_raw": (q, fk_raw), "clamp": (q, c.clamp),
           "fk_grad": (q, grad_of(lambda th: (c.forward_kinematics_tensor(th) * W).sum())),
           "fk_grad_std": (q, grad_of(lambda th: (c.forward_kinematics_tensor(th, analytical_grad=False) * W).sum()))}
    if s is not None:
        m = s.n_joints
        Wj = torch.tensor(rng.standard_normal((6, m)), dtype=c.dtype)

        def qs(rng, b):
            return [gen.configs(rng, m, b)]

        def qtool(rng, b):
            return [gen.configs(rng, m, b), rng.standard_normal((b, 3))]

        def qtf(rng, b):
            return [gen.configs(rng, m, b), T(rng, b)[0]]

        out.update({
            "serial_fk": (qs, lambda th: s.forward_kinematics(th).get_matrix()),
            "jacobian": (qs, s.jacobian),
            "jacobian+pose": (qs, lambda th: s.jacobian(th, ret_eef_pose=True)),
            "jacobian_tensor": (qs, s.jacobian_tensor),
            "jacobian:tool": (qtool, lambda th, p: s.jacobian(th, locations=p)),
            "jacobian:tool+pose": (qtool, lambda th, p: s.jacobian(th, locations=p, ret_eef_pose=True)),
            "jacobian:tf": (qtf, lambda th, p: s.jacobian(th, locations=t3(p), ret_eef_pose=True)),
            "jacobian_grad": (qs, grad_of(lambda th: (s.jacobian(th) * Wj).sum())),
            "jacobian_grad:tool": (qtool, grad_of(lambda th, p: (s.jacobian(th, locations=p) * Wj).sum())),
        })
    return out


def run(fn, args):
    r = fn(*args)
    return r if isinstance(r, tuple) else (r,)
