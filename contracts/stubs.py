"""Contracts of called functions: reading and writing the repository's matrix and vector types in symbolic memory."""
from spec import *
from ir import Ptr
import lapack


def at(p, o): return Ptr(p.o, p.off + o)


def rd_mat(ex, p, r, c):
    """Math::Matrix< double, r, c > (column-major, behind three sizes)"""
    v = ex.rd(at(p, 24), r * c)
    return [[v[j * r + i] for j in range(c)] for i in range(r)]


def wr_mat(ex, p, M):
    r, c = len(M), len(M[0])
    for o, k in ((0, r), (8, c), (16, r * c)):
        ex.store(at(p, o), k, ('i', 64))
    ex.wr(at(p, 24), [M[i][j] for j in range(c) for i in range(r)])


def rd_vecs(ex, p, n):
    """std::vector of Math::Vector< double, n >"""
    b, e = ex.load(p, ('ptr',)), ex.load(at(p, 8), ('ptr',))
    s = 8 + 8 * n
    return [ex.rd(at(b, 8 + k), n) for k in range(0, e.off - b.off, s)]


def det3(m): return dot(m[0], cross(m[1], m[2]))


def det_stub(u):
    """Math::determinant by its contract (proved in P13)"""
    def h(ex, a, rt, name):
        p = a[0][1]
        if 'matrix_range' in name:
            q = ex.load(p, ('ptr',))
            r0, rn, c0, cn = [ex.load(at(p, 8 + 8 * i), ('i', 64)) for i in range(4)]
            rows = 3
            v = lambda i, j: ex.rd(at(q, 24 + 8 * ((c0 + j) * rows + r0 + i)), 1)[0]
        else:
            rn, cn = [ex.load(at(p, 8 * i), ('i', 64)) for i in range(2)]
            m = rd_mat(ex, p, rn, cn)
            v = lambda i, j: m[i][j]
        if (rn, cn) == (2, 2):
            return v(0, 0) * v(1, 1) - v(0, 1) * v(1, 0)
        if (rn, cn) == (3, 3):
            return det3([[v(i, j) for j in range(3)] for i in range(3)])
        from symex import Unsupported
        raise Unsupported('determinant of this size')
    u.stubs[r'Math::determinant<'] = h


def quat_stub(u, qs, e):
    """the quaternion of a rotation matrix by its contract (proved in P02): e q for the matrix of q, e = +-1"""
    def h(ex, a, rt, name):
        d, s = a[0][1], a[1][1]
        v = ex.rd(ex.load(at(s, 32), ('ptr',)), 9)
        M = [[v[j * 3 + i] for j in range(3)] for i in range(3)]
        for q in qs:
            R = rotmat(q)
            if all(not u.ctx.poly(M[i][j] - R[i][j]) for i in range(3) for j in range(3)):
                break
        else:
            q = qs[0]
            R = rotmat(q)
        for i in range(3):
            for j in range(3):
                lapack.require(ex, 'matrix of the rotation [%d][%d]' % (i, j), M[i][j], R[i][j])
        ex.wr(d, [e * q[3], e * q[0], e * q[1], e * q[2]])
    u.stubs[r'Math::Quaternion::Quaternion\(.*Matrix<double, ?0ul, ?0ul'] = h
