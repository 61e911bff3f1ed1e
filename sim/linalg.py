"""Plain-Python 3D linear algebra for the reference models. No numpy: the
models must not share code, or rounding behaviour, with what they judge."""
import math

I4 = ((1., 0., 0., 0.), (0., 1., 0., 0.), (0., 0., 1., 0.), (0., 0., 0., 1.))


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def mul(a, s):
    return (a[0]*s, a[1]*s, a[2]*s)


def along(p, d, t):
    return (p[0] + d[0]*t, p[1] + d[1]*t, p[2] + d[2]*t)


def cross(a, b):
    return (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return (a[0]/n, a[1]/n, a[2]/n)


def dist(a, b):
    return norm(sub(a, b))


def matmul(A, B):
    return tuple(tuple(sum(A[i][k]*B[k][j] for k in range(4)) for j in range(4))
                 for i in range(4))


def rot_axis(axis, ang):
    """Rodrigues rotation, 3x3, right-hand rule."""
    x, y, z = unit(axis)
    s, c = math.sin(ang), math.cos(ang)
    v = 1. - c
    return ((x*x*v + c, x*y*v - z*s, x*z*v + y*s),
            (x*y*v + z*s, y*y*v + c, y*z*v - x*s),
            (x*z*v - y*s, y*z*v + x*s, z*z*v + c))


def homog(R, p):
    return ((R[0][0], R[0][1], R[0][2], float(p[0])),
            (R[1][0], R[1][1], R[1][2], float(p[1])),
            (R[2][0], R[2][1], R[2][2], float(p[2])),
            (0., 0., 0., 1.))


R_I = ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
# Exact quarter turns, by name.
NAMED = {
    'I': R_I,
    'x90': ((1., 0., 0.), (0., 0., -1.), (0., 1., 0.)),
    'x180': ((1., 0., 0.), (0., -1., 0.), (0., 0., -1.)),
    'x270': ((1., 0., 0.), (0., 0., 1.), (0., -1., 0.)),
    'y90': ((0., 0., 1.), (0., 1., 0.), (-1., 0., 0.)),
    'y180': ((-1., 0., 0.), (0., 1., 0.), (0., 0., -1.)),
    'y270': ((0., 0., -1.), (0., 1., 0.), (1., 0., 0.)),
    'z90': ((0., -1., 0.), (1., 0., 0.), (0., 0., 1.)),
    'z180': ((-1., 0., 0.), (0., -1., 0.), (0., 0., 1.)),
}


def rot3(spec):
    """spec: a name above, or [ax, ay, az, angle]"""
    if isinstance(spec, str):
        return NAMED[spec]
    return rot_axis(spec[:3], spec[3])


def T4(spec):
    """spec: None (identity) or {"R": rot spec, "p": [x,y,z]}"""
    if spec is None:
        return I4
    return homog(rot3(spec.get('R', 'I')), spec.get('p', (0., 0., 0.)))


def xform_pt(M, p):
    return (M[0][0]*p[0] + M[0][1]*p[1] + M[0][2]*p[2] + M[0][3],
            M[1][0]*p[0] + M[1][1]*p[1] + M[1][2]*p[2] + M[1][3],
            M[2][0]*p[0] + M[2][1]*p[1] + M[2][2]*p[2] + M[2][3])


def xform_dir(M, d):
    return (M[0][0]*d[0] + M[0][1]*d[1] + M[0][2]*d[2],
            M[1][0]*d[0] + M[1][1]*d[1] + M[1][2]*d[2],
            M[2][0]*d[0] + M[2][1]*d[1] + M[2][2]*d[2])


def inv_pt(M, p):
    """Into the frame of the rigid transform M"""
    q = (p[0] - M[0][3], p[1] - M[1][3], p[2] - M[2][3])
    return inv_dir(M, q)


def inv_dir(M, d):
    return (M[0][0]*d[0] + M[1][0]*d[1] + M[2][0]*d[2],
            M[0][1]*d[0] + M[1][1]*d[1] + M[2][1]*d[2],
            M[0][2]*d[0] + M[1][2]*d[1] + M[2][2]*d[2])
