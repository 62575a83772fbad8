"""C27: Euler angle conversions follow their stated convention."""
from ..env import F32, F64, np, pk, torch
from .. import gen, rots
from ..ops import CONVENTIONS
from ..rots import EPS, T, aa2R, back, q2R

ORACLE = "products of elementary rotations about the named axes, computed independently in float64"
RULE = "distinct (conversion, convention or axis sequence, dtype, batch shape, near or at the singular middle angle) situations"
CONFIG = {"quick": {"cases": 36000, "min": {"rotations": 10000, "near_singular": 1000, "refusals_observed": 2000}},
          "thorough": {"cases": 1000000, "seconds": 600}}
E = {"X": np.array([1.0, 0, 0]), "Y": np.array([0, 1.0, 0]), "Z": np.array([0, 0, 1.0])}
# the encoded tuples of the transformations library: (inner axis, parity, repetition, frame)
SEQ = [f + a + b + c for f in "sr" for a in "xyz" for b in "xyz" for c in "xyz" if a != b and b != c]


def elem(letter, a):
    return aa2R(np.asarray(a)[..., None] * E[letter.upper()])


def product(conv, a):
    return elem(conv[0], a[..., 0]) @ elem(conv[1], a[..., 1]) @ elem(conv[2], a[..., 2])


def ang(rng):
    k = rng.integers(0, 7)
    if k == 0:
        return float(rng.choice([0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, np.pi / 4]))
    if k == 1:
        return float(rng.standard_normal() * 1e-6)
    if k == 2:
        return float(rng.uniform(-15, 15))
    return float(rng.uniform(-np.pi, np.pi))


def triple(rng, conv):
    a = np.array([ang(rng) for _ in range(3)])
    if rng.random() < 0.25:  # at or near the singular middle angle
        lock = rng.choice([0.0, np.pi]) if conv[0] == conv[2] else rng.choice([-1, 1]) * np.pi / 2
        a[1] = lock + (0 if rng.random() < 0.4 else rng.choice([-1, 1]) * 10 ** rng.uniform(-14, -1))
    return a


def to_matrix(ctx, rng):
    conv, dt, s = CONVENTIONS[rng.integers(12)], rots.pick_dtype(rng), rots.shape(rng)
    t = T(rots.fill(rng, lambda r: triple(r, conv), s, (3,)), dt, rng)
    keep = t.detach().clone()
    A = back(t)
    m = pk.euler_angles_to_matrix(t, conv)
    ctx.expect(m.dtype == dt, "matrix dtype")
    ctx.close(m, product(conv, A), 10 * EPS[dt], f"Euler angles to matrix ({conv})", angles=A)
    ctx.close(t, keep, 0.0, "angles unchanged")
    ctx.count("rotations", max(1, int(np.prod(s))))
    ctx.seen("to_matrix", conv, str(dt), s)


def middle(R, conv):
    """Distance measure from the singular middle angle: its sine or cosine."""
    i, k = "XYZ".index(conv[0]), "XYZ".index(conv[2])
    o = [x for x in range(3) if x != i]
    if i == k:
        return np.sqrt(R[..., i, o[0]] ** 2 + R[..., i, o[1]] ** 2)
    o = [x for x in range(3) if x != k]
    return np.sqrt(R[..., i, o[0]] ** 2 + R[..., i, o[1]] ** 2)


def from_matrix(ctx, rng):
    conv, dt, s = CONVENTIONS[rng.integers(12)], rots.pick_dtype(rng), rots.shape(rng)
    if rng.random() < 0.5:
        A = rots.fill(rng, lambda r: triple(r, conv), s, (3,))
        M = product(conv, A)
    else:
        M = rots.fill(rng, rots.one_R, s, (3, 3))
    m = T(M, dt, rng)
    keep = m.detach().clone()
    R = back(m)
    a = pk.matrix_to_euler_angles(m, conv)
    ctx.expect(a.dtype == dt and tuple(a.shape) == (*s, 3), "angles dtype and shape")
    a64 = back(a)
    ctx.expect(bool(np.isfinite(a64).all()), f"finite Euler angles ({conv})", R=R, a=a64)
    e = 1e-12 if dt == F64 else 1e-6
    lo, hi = (0, np.pi) if conv[0] == conv[2] else (-np.pi / 2, np.pi / 2)
    if a64.size:
        ctx.expect(bool((np.abs(a64[..., [0, 2]]) <= np.pi + e).all()), f"outer angles in [-pi, pi] ({conv})", a=a64)
        ctx.expect(bool(((a64[..., 1] >= lo - e) & (a64[..., 1] <= hi + e)).all()), f"middle angle in its principal range ({conv})", a=a64)
    c = middle(R, conv)
    ok = c > (1e-5 if dt == F64 else 2e-2)
    tol = 20 * EPS[dt] / np.maximum(c, 1e-5)
    back_m = back(pk.euler_angles_to_matrix(a, conv))
    ctx.close(product(conv, a64)[ok], R[ok], tol[ok][:, None, None], f"extracted angles give the rotation ({conv})", R=R, a=a64)
    ctx.close(back_m[ok], R[ok], 2 * tol[ok][:, None, None], f"matrix to Euler angles and back ({conv})", R=R)
    ctx.close(m, keep, 0.0, "matrices unchanged")
    ctx.count("rotations", max(1, int(np.prod(s))))
    ctx.count("near_singular", int((c < 1e-2).sum()))
    ctx.seen("from_matrix", conv, str(dt), s, bool((c < 1e-9).any()), bool((c < 1e-2).any()))


def angles_back(ctx, rng):
    """Angles inside their principal ranges come back as they were."""
    conv, dt, s = CONVENTIONS[rng.integers(12)], rots.pick_dtype(rng), rots.shape(rng, empty=False)
    a = rng.uniform(-np.pi + 0.01, np.pi - 0.01, (*s, 3))
    a[..., 1] = rng.uniform(0.1, np.pi - 0.1, s) if conv[0] == conv[2] else rng.uniform(-np.pi / 2 + 0.1, np.pi / 2 - 0.1, s)
    t = T(a, dt)
    ctx.close(pk.matrix_to_euler_angles(pk.euler_angles_to_matrix(t, conv), conv), back(t), 300 * EPS[dt], f"Euler angles there and back ({conv})", a=a)
    ctx.count("rotations", max(1, int(np.prod(s))))
    ctx.seen("angles_back", conv, str(dt), s)


def code(seq):
    """Encode an axis sequence the way the transformations library documents it."""
    frame = int(seq[0] == "r")
    i, j, k = ("xyz".index(c) for c in (seq[1:] if not frame else seq[:0:-1]))
    return i, int(j != (i + 1) % 3), int(i == k), frame


def quaternion(ctx, rng):
    dt, s = rots.pick_dtype(rng), rots.shape(rng)
    seq = SEQ[rng.integers(24)]
    t = T(rots.fill(rng, lambda r: triple(r, seq[1:].upper()), s, (3,)), dt, rng)
    keep = t.detach().clone()
    A = back(t)
    if seq[0] == "s":  # fixed axes: later rotations multiply on the left
        R = elem(seq[3], A[..., 2]) @ elem(seq[2], A[..., 1]) @ elem(seq[1], A[..., 0])
    else:
        R = product(seq[1:].upper(), A)
    form = int(rng.integers(0, 4))
    arg = (seq, seq.upper(), code(seq), seq)[form]
    if seq == "sxyz" and rng.random() < 0.5:
        q = pk.quaternion_from_euler(t)
    else:
        q = pk.quaternion_from_euler(t, arg)
    ctx.expect(q.dtype == dt and tuple(q.shape) == (*s, 4), "quaternion dtype and shape")
    ctx.close(np.linalg.norm(back(q), axis=-1), np.ones(s), 4 * EPS[dt], "unit quaternion")
    ctx.close(q2R(back(q)), R, 12 * EPS[dt], f"Euler angles to quaternion ({seq})", angles=A, arg=arg)
    ctx.close(t, keep, 0.0, "angles unchanged")
    # the two functions agree: rotating sequences are the conventions
    ctx.close(pk.euler_angles_to_matrix(t, seq[1:].upper()) if seq[0] == "r" else pk.euler_angles_to_matrix(t.flip(-1), seq[:0:-1].upper()), R, 12 * EPS[dt], f"conventions and axis sequences agree ({seq})")
    ctx.count("rotations", max(1, int(np.prod(s))))
    ctx.seen("quaternion", seq, str(dt), s, form)


BAD_CONV = ["XXY", "XYY", "YYY", "XY", "XYZX", "", "XYW", "xyz", "XyZ", "ABC", "X Z", "ZZ", "ZZZ", "Z1X"]


def refusals(ctx, rng):
    dt, s = rots.pick_dtype(rng), rots.shape(rng, empty=False)
    a, m = torch.zeros((*s, 3), dtype=dt), T(rots.fill(rng, rots.one_R, s, (3, 3)), dt)
    for c in rng.permutation(BAD_CONV)[:5]:
        ctx.refused(lambda: pk.euler_angles_to_matrix(a, str(c)), f"convention {c!r}")
        ctx.refused(lambda: pk.matrix_to_euler_angles(m, str(c)), f"convention {c!r}")
    conv = CONVENTIONS[rng.integers(12)]
    for k in (1, 2, 4, 6):
        ctx.refused(lambda: pk.euler_angles_to_matrix(torch.zeros((*s, k), dtype=dt), conv), f"{k} Euler angles")
    ctx.refused(lambda: pk.euler_angles_to_matrix(torch.tensor(0.0), conv), "a single number as Euler angles")
    for k in ((2, 3), (3, 2), (4, 4), (3, 4), (1, 3)):
        ctx.refused(lambda: pk.matrix_to_euler_angles(torch.zeros((*s, *k), dtype=dt), conv), f"Euler angles of a {k} matrix")
    for q in ("xyz", "sxxy", "sxyy", "txyz", "sxy", "", "sxyzx", "sabc", (4, 0, 0, 0), (0, 2, 0, 0)):
        ctx.refused(lambda: pk.quaternion_from_euler(a, q), f"axis sequence {q!r}")
    ctx.seen("refusals", conv, s)


FAMILIES = [("to_matrix", to_matrix), ("from_matrix", from_matrix), ("angles_back", angles_back), ("quaternion", quaternion), ("from_matrix2", from_matrix), ("refusals", refusals)]
