"""Mathematical specification functions (terms)."""
import term as tm
from term import T, ZERO, ONE, const, sqrt, sin, cos, absv, PI, diff, var, fn
from unit import unit, contract, flat
from symex import lt, le, gt, ge, eq, ne, And, Or, Cond
from ir import Ptr, DOUBLE, PTR, UNDEF, NULL


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = s + x * y
    return s


def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vscale(k, a): return [T(k) * x for x in a]
def vneg(a): return [-x for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mm(a, b):
    return [[dot(r, [b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for r in a]


def mv(a, v): return [dot(r, v) for r in a]
def mt(a): return [list(c) for c in zip(*a)]
def madd(a, b): return [vadd(x, y) for x, y in zip(a, b)]
def msub(a, b): return [vsub(x, y) for x, y in zip(a, b)]
def mscale(k, a): return [vscale(k, r) for r in a]
def eye(n): return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
def zeros(r, c): return [[ZERO] * c for _ in range(r)]


def colmajor(m):
    return [m[i][j] for j in range(len(m[0])) for i in range(len(m))]


def qmul(a, b):
    """Hamilton product of (x,y,z,w)"""
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw,
            aw * bw - ax * bx - ay * by - az * bz]


def qconj(q): return [-q[0], -q[1], -q[2], q[3]]
def norm2(v): return dot(v, v)
def norm(v): return sqrt(dot(v, v))


def rotmat(q):
    """rotation matrix of the quaternion (x,y,z,w): v -> vector part of q v q* (for |q|=1)"""
    x, y, z, w = q
    return [[ONE - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), ONE - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), ONE - 2 * (x * x + y * y)]]


def rotv(q, v):
    """vector part of q (v,0) q*"""
    return qmul(qmul(q, list(v) + [ZERO]), qconj(q))[:3]


def jac(f, xs):
    """matrix of partial derivatives"""
    return [[diff(t, x) for x in xs] for t in f]


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def skew(v):
    x, y, z = v
    return [[ZERO, -z, y], [z, ZERO, -x], [-y, x, ZERO]]


@contract('boost_quaternion_abs', r'^double boost::math::abs<double>\(boost::math::quaternion<double> const&\)', ['rot_normalize'])
def _(ex, a, rt):
    return norm(ex.rd(a[0][1], 4))
