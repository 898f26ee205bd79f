"""Independent float64 reference for the Lie groups used by the library's variables.

Elements are flat parameter vectors with the library's public parameter order:
SO2 (cos, sin), SE2 (cos, sin, x, y), SO3 (w, x, y, z), SE3 (w, x, y, z, tx, ty, tz).
Everything is computed from homogeneous matrices and closed forms; nothing here uses
jaxlie or the code under test.
"""
import numpy as np


def hat3(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def quat_to_R(q):
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def quat_mul(a, b):
    w0, x0, y0, z0 = a
    w1, x1, y1, z1 = b
    return np.array(
        [
            w0 * w1 - x0 * x1 - y0 * y1 - z0 * z1,
            w0 * x1 + x0 * w1 + y0 * z1 - z0 * y1,
            w0 * y1 - x0 * z1 + y0 * w1 + z0 * x1,
            w0 * z1 + x0 * y1 - y0 * x1 + z0 * w1,
        ]
    )


def quat_conj(q):
    return np.array([q[0], -q[1], -q[2], -q[3]])


def so3_exp(w):
    th = np.linalg.norm(w)
    half = th / 2
    s = np.sinc(half / np.pi) / 2  # sin(th/2)/th
    return np.concatenate([[np.cos(half)], s * np.asarray(w)])


def so3_log(q):
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q)
    if q[0] < 0:
        q = -q
    n = np.linalg.norm(q[1:])
    if n < 1e-8:
        return q[1:] * (2.0 / q[0]) * (1 - n * n / 3.0)
    return q[1:] * (2 * np.arctan2(n, q[0]) / n)


def so3_V(w):
    """Integral of exp(s w) over s in [0, 1]."""
    th2 = float(np.dot(w, w))
    W = hat3(w)
    if th2 < 1e-6:
        a = 0.5 - th2 / 24 + th2 * th2 / 720
        b = 1 / 6 - th2 / 120 + th2 * th2 / 5040
    else:
        th = np.sqrt(th2)
        a = (1 - np.cos(th)) / th2
        b = (th - np.sin(th)) / (th2 * th)
    return np.eye(3) + a * W + b * W @ W


def so2_V(th):
    if abs(th) < 1e-4:
        a = 1 - th * th / 6
        b = th / 2 - th**3 / 24
    else:
        a = np.sin(th) / th
        b = (1 - np.cos(th)) / th
    return np.array([[a, -b], [b, a]])


def rot2(c, s):
    n = np.hypot(c, s)
    return np.array([[c, -s], [s, c]]) / n


class SO2:
    name, pdim, ldim = "SO2", 2, 1

    @staticmethod
    def identity():
        return np.array([1.0, 0.0])

    @staticmethod
    def mul(a, b):
        return np.array([a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]])

    @staticmethod
    def inv(a):
        return np.array([a[0], -a[1]])

    @staticmethod
    def exp(d):
        return np.array([np.cos(d[0]), np.sin(d[0])])

    @staticmethod
    def log(a):
        return np.array([np.arctan2(a[1], a[0])])

    @staticmethod
    def normalize(a):
        return np.asarray(a, float) / np.linalg.norm(a)

    @staticmethod
    def rot_norm_error(a):
        return abs(np.linalg.norm(a) - 1)

    @staticmethod
    def canon(a):
        return np.asarray(a, float)


class SE2:
    name, pdim, ldim = "SE2", 4, 3

    @staticmethod
    def identity():
        return np.array([1.0, 0, 0, 0])

    @staticmethod
    def mul(a, b):
        r = SO2.mul(a[:2], b[:2])
        t = rot2(a[0], a[1]) @ b[2:] + a[2:]
        return np.concatenate([r, t])

    @staticmethod
    def inv(a):
        return np.concatenate([SO2.inv(a[:2]), -rot2(a[0], a[1]).T @ a[2:]])

    @staticmethod
    def exp(d):
        return np.concatenate([SO2.exp(d[2:]), so2_V(d[2]) @ d[:2]])

    @staticmethod
    def log(a):
        th = np.arctan2(a[1], a[0])
        return np.concatenate([np.linalg.solve(so2_V(th), a[2:]), [th]])

    @staticmethod
    def normalize(a):
        a = np.array(a, float)
        a[:2] /= np.linalg.norm(a[:2])
        return a

    @staticmethod
    def rot_norm_error(a):
        return abs(np.linalg.norm(a[:2]) - 1)

    @staticmethod
    def canon(a):
        return np.asarray(a, float)


class SO3:
    name, pdim, ldim = "SO3", 4, 3

    @staticmethod
    def identity():
        return np.array([1.0, 0, 0, 0])

    mul = staticmethod(quat_mul)
    inv = staticmethod(quat_conj)
    exp = staticmethod(so3_exp)
    log = staticmethod(so3_log)

    @staticmethod
    def normalize(a):
        return np.asarray(a, float) / np.linalg.norm(a)

    @staticmethod
    def rot_norm_error(a):
        return abs(np.linalg.norm(a) - 1)

    @staticmethod
    def canon(a):
        # Quaternions double-cover rotations.
        return np.outer(a, a).ravel()


class SE3:
    name, pdim, ldim = "SE3", 7, 6

    @staticmethod
    def identity():
        return np.array([1.0, 0, 0, 0, 0, 0, 0])

    @staticmethod
    def mul(a, b):
        return np.concatenate(
            [quat_mul(a[:4], b[:4]), quat_to_R(a[:4]) @ b[4:] + a[4:]]
        )

    @staticmethod
    def inv(a):
        return np.concatenate([quat_conj(a[:4]), -quat_to_R(a[:4]).T @ a[4:]])

    @staticmethod
    def exp(d):
        return np.concatenate([so3_exp(d[3:]), so3_V(d[3:]) @ d[:3]])

    @staticmethod
    def log(a):
        w = so3_log(a[:4])
        return np.concatenate([np.linalg.solve(so3_V(w), a[4:]), w])

    @staticmethod
    def normalize(a):
        a = np.array(a, float)
        a[:4] /= np.linalg.norm(a[:4])
        return a

    @staticmethod
    def rot_norm_error(a):
        return abs(np.linalg.norm(a[:4]) - 1)

    @staticmethod
    def canon(a):
        return np.concatenate([np.outer(a[:4], a[:4]).ravel(), a[4:]])


GROUPS = {g.name: g for g in (SO2, SE2, SO3, SE3)}


def angle(group, a):
    """Rotation angle of an element, in [0, pi]."""
    l = group.log(group.normalize(a))
    return float(np.linalg.norm({"SO2": l, "SE2": l[2:], "SO3": l, "SE3": l[3:]}[group.name]))
