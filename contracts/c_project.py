"""Projective geometry: homographies, projection and fundamental matrices and reconstructed points agree with the exact data they come from."""
import math
import random
import z3
from spec import *
import lapack
from c_align import sampled_inputs, oracle, rq, rv, qrot, far, qfar, chunks, same_q
CPP = 'project.cpp'
B = lambda e: Cond('bv', e)


def sign(u, name):
    e = u.real(name, sampler=lambda r: r.choice([-1.0, 1.0]))
    u.ctx.poly(e)
    u.ctx.add_relation(e * e, ONE)
    return e


def null_ghost(u, h, e, rows=None):
    """the last right singular vector is the unit null vector e h/|h| (LAPACK), provided A h = 0 (obligation)"""
    c = e / norm(h)

    def ghost(ex, A):
        for i, r in enumerate(A):
            lapack.require(ex, 'the true solution fulfils equation %d' % i, dot(r, h), ZERO)
        n = len(h)
        f = [x for q in A for x in q]
        return dict(vt=[[fn('svdv:%d:%d:%d:%d' % (len(A), n, i, j), *f) for j in range(n)] for i in range(n - 1)] + [[c * x for x in h]])
    return ghost, c


def prop(u, name, o, t, tol=None):
    """o is a multiple of t"""
    n = len(o)
    k = n - 1
    for i in range(n):
        for j in range(i):
            if j == 0 or i == k:
                u.eq('%s [%d][%d]' % (name, i, j), o[i] * t[j], o[j] * t[i], tol=tol)

    def nz(env, inp, out, io):
        return None if sum(x * x for x in out[:n]) > 1e-12 else 'the result vanishes'
    u.oracles.append(('not zero', nz))


def scale(u, n, k):
    m = u.vec(n + 'm', k, near=(-1, 1))
    s = [u.real('%ss%d' % (n, i), near=(0.5, 2), positive=True) for i in range(k)]
    return m, s


def norm_stub(u, ms):
    """the normalisation of a point set (recognised by its first point): any shift, any positive scale; its own contract is proved in P10"""
    from ir import Ptr

    def h(ex, a, rt, name):
        x = ex.rd(Ptr(a[0][1].o, a[0][1].off + 8), 1)[0]
        for x0, m, s in ms:
            if x is x0 or not u.ctx.poly(x - x0):
                ex.wr(Ptr(a[2][1].o, a[2][1].off + 8), m)
                ex.wr(Ptr(a[3][1].o, a[3][1].off + 8), s)
                return
        from symex import Unsupported
        raise Unsupported('normalisation of unknown points')
    u.stubs[r'Geometry::estimateNormalizationParameters<'] = h


def unnorm(p, m, s): return [m[i] + s[i] * p[i] for i in range(len(p))]


def hom(u, n):
    H = [u.vec('h%d_' % i, 3, near=(-1, 1)) for i in range(3)]
    m, s = scale(u, 'f', 2)
    m2, s2 = scale(u, 't', 2)
    p = [u.vec('p%d_' % i, 2, near=(-1.5, 1.5)) for i in range(n)]
    q = []
    for x in p:
        y = mv(H, x + [ONE])
        u.clear_of_zero(y[2] * y[2], 0.01)
        q.append([y[0] / y[2], y[1] / y[2]])
    P, Q = [unnorm(x, m, s) for x in p], [unnorm(x, m2, s2) for x in q]
    norm_stub(u, [(P[0][0], m, s), (Q[0][0], m2, s2)])
    h = flat(H)
    u.clear_of_zero(norm2(h), 0.01)
    u.ghost_svd, c = null_ghost(u, h, sign(u, 'e'))
    u.inputs(P, Q)
    # the homography between the given points
    N2 = [[s2[0], ZERO, m2[0]], [ZERO, s2[1], m2[1]], [ZERO, ZERO, ONE]]
    N1 = [[ONE / s[0], ZERO, -m[0] / s[0]], [ZERO, ONE / s[1], -m[1] / s[1]], [ZERO, ZERO, ONE]]
    # general position: no three points on a line (for the native runs)
    for i in range(n):
        for j in range(i):
            for k in range(j):
                d = cross2(vsub(p[i], p[k]), vsub(p[j], p[k]))
                u.clear_of_zero(d * d, 0.02)
    u.clear_of_zero(det3(H) * det3(H), 0.01)
    return flat(mm(mm(N2, H), N1))


def cross2(a, b): return a[0] * b[1] - a[1] * b[0]


def det3(m): return dot(m[0], cross(m[1], m[2]))


for n in (4, 5):
    @unit('pj_hom%d' % n, CPP, cost=4)
    def _(u, n=n):
        t = hom(u, n)
        prop(u, 'true homography', u.outs(9), t, tol=1e-5)


@unit('pj_homf', CPP, sampled='single precision')
def _(u):
    u.float_ok = True
    t = hom(u, 5)
    prop(u, 'true homography', u.outs(9), t, tol=3e-2)


# ------------------------------------------------------------------ a square
CORNERS = [(-1, 1), (-1, -1), (1, -1), (1, 1)]


def square(u, tol):
    m = u.vec('m', 2, near=(-2, 2))
    c = [u.vec('c%d_' % i, 2, near=(-2, 2)) for i in range(3)]
    c.append([-(c[0][k] + c[1][k] + c[2][k]) for k in range(2)])
    for i in range(4):
        for j in range(i):
            for k in range(j):
                d = cross2(vsub(c[i], c[k]), vsub(c[j], c[k]))
                u.clear_of_zero(d * d, 0.3)
    # with centred corners the third row is orthogonal to one equation per coordinate
    r = [[c[0][k] - c[1][k] - c[2][k] + c[3][k], -c[0][k] - c[1][k] + c[2][k] + c[3][k], -2 * (c[0][k] + c[2][k])] for k in range(2)]
    v = cross(*r)
    u.clear_of_zero(norm2(v), 0.01)
    u.ghost_svd, _ = null_ghost(u, v, sign(u, 'e'))
    u.inputs([vadd(m, x) for x in c])
    o = u.outs(9)
    H = [o[0:3], o[3:6], o[6:9]]
    for i, (x, y) in enumerate(CORNERS):
        w = mv(H, [T(x) / 2, T(y) / 2, ONE])
        for k in range(2):
            u.eq('corner %d is hit [%d]' % (i, k), w[k], w[2] * (m[k] + c[i][k]), tol=tol)

    def nz(env, inp, out, io):
        import numpy as np
        return None if abs(np.linalg.det(np.array(out[:9]).reshape(3, 3))) > 1e-9 else 'the homography is singular'
    u.oracles.append(('regular', nz))


@unit('pj_square', CPP, cost=3)
def _(u):
    square(u, None)


@unit('pj_squaref', CPP, sampled='single precision')
def _(u):
    u.float_ok = True
    square(u, 1e-3)


# ------------------------------------------------------------------ projection matrices
for n in (6, 7):
    @unit('pj_dlt%d' % n, CPP, cost=6)
    def _(u, n=n):
        P = [u.vec('P%d_' % i, 4, near=(-1, 1)) for i in range(3)]
        m, s = scale(u, 'f', 3)
        m2, s2 = scale(u, 't', 2)
        p = [u.vec('p%d_' % i, 3, near=(-1.5, 1.5)) for i in range(n)]
        q = []
        for x in p:
            y = mv(P, x + [ONE])
            u.clear_of_zero(y[2] * y[2], 0.01)
            q.append([y[0] / y[2], y[1] / y[2]])
        X, Y = [unnorm(x, m, s) for x in p], [unnorm(x, m2, s2) for x in q]
        norm_stub(u, [(X[0][0], m, s), (Y[0][0], m2, s2)])
        u.ghost_svd, _ = null_ghost(u, flat(P), sign(u, 'e'))
        u.inputs(X, Y)
        N2 = [[s2[0], ZERO, m2[0]], [ZERO, s2[1], m2[1]], [ZERO, ZERO, ONE]]
        N1 = [[ONE / s[i] if i == j else -m[i] / s[i] if j == 3 else ZERO for j in range(4)] for i in range(3)] + [[ZERO] * 3 + [ONE]]
        t = mm(mm(N2, P), N1)
        u.clear_of_zero(norm2(t[2][:3]), 0.01); u.clear_of_zero(norm2(flat(P)), 0.01)
        u.clear_of_zero(det3([r[:3] for r in P]) * det3([r[:3] for r in P]), 0.01)
        o = u.outs(12)
        prop(u, 'true projection', o, flat(t), tol=2e-3)
        u.eq('third row has unit length', norm2(o[8:11]), ONE)
        d = dot(t[2], X[0] + [ONE])
        u.holds('the first point has positive depth', ge(dot(o[8:12], X[0] + [ONE]), ZERO), when=[gt(d * d, ZERO)])


def det_stub(u, n=3):
    """Math::determinant by its contract (proved in P13)"""
    from ir import Ptr

    def h(ex, a, rt, name):
        p = a[0][1]
        v = ex.rd(Ptr(p.o, p.off + 24), 9)
        return det3([v[0:3], v[3:6], v[6:9]])
    u.stubs[r'Math::determinant<.*Matrix<double, ?3ul, ?3ul>'] = h


def decomp(u, det, flip, tol=None):
    det_stub(u)
    f = u.vec('f', 6, near=(-2, 2)); q = u.quat('q'); p = u.vec('p', 3, near=(-2, 2))
    R = [[f[0], f[1], f[2]], [ZERO, f[3], f[4]], [ZERO, ZERO, f[5]]]
    Q = mscale(det, rotmat(q))
    for i in (0, 3, 5):
        u.clear_of_zero(f[i] * f[i], 0.04)
    u.clear_of_zero(p[2], 0.01)
    u.ghost_rq = lambda ex, A: (R, Q)
    A = mm(R, Q)
    P = [[flip * x for x in A[i] + [p[i]]] for i in range(3)]
    u.inputs(P)
    o = u.outs(21)
    k, r, t = [o[0:3], o[3:6], o[6:9]], [o[9:12], o[12:15], o[15:18]], o[18:21]
    u.eqv('upper triangular, lower right element -1', [k[1][0], k[2][0], k[2][1], k[2][2]], [ZERO, ZERO, ZERO, -ONE], tol=tol)
    u.holds('positive focal length', gt(k[0][0], ZERO))
    u.eqv('orthogonal', flat(mm(r, mt(r))), flat(eye(3)), tol=tol)
    u.eq('right-handed', det3(r), ONE, tol=tol)
    lam = flip * norm(A[2])
    u.eqv('K R', [lam * x for x in flat(mm(k, r))], [x for w in P for x in w[:3]], tol=tol)
    u.eqv('K t', [lam * x for x in mv(k, t)], [w[3] for w in P], tol=tol)


for det in (1, -1):
    for flip in (1, -1):
        @unit('pj_decomp_%s%s' % ('pm'[det < 0], 'pm'[flip < 0]), CPP, 'vc_pj_decomp', cost=5)
        def _(u, det=det, flip=flip):
            decomp(u, det, flip, 1e-7)


@unit('pj_decompf', CPP, sampled='single precision')
def _(u):
    u.float_ok = True
    decomp(u, 1, 1, 1e-2)


# ------------------------------------------------------------------ OpenGL
def gl(u, cols, tol=None):
    l, b = u.real('l', near=(-2, 0)), u.real('b', near=(-2, 0))
    w, h = u.real('w', near=(1, 4), positive=True), u.real('h', near=(1, 4), positive=True)
    n, d = u.real('n', near=(0.1, 1), positive=True), u.real('d', near=(1, 5), positive=True)
    M = [u.vec('m%d_' % i, cols, near=(-2, 2)) for i in range(3)]
    u.clear_of_zero(norm2(M[2][:3]), 0.01)
    r, t, f = l + w, b + h, n + d
    u.inputs(l, r, b, t, n, f, M)
    o = u.outs(16)
    G = [o[4 * i:4 * i + 4] for i in range(4)]
    M = [x + [ZERO] * (4 - cols) for x in M]
    for c in range(4):
        # a point with image (x, y) = (M0 X / M2 X, M1 X / M2 X) is shown at 2 (x - l) / (r - l) - 1
        u.eq('horizontal [%d]' % c, w * (G[0][c] + G[3][c]), 2 * (M[0][c] - l * M[2][c]), tol=tol)
        u.eq('vertical [%d]' % c, h * (G[1][c] + G[3][c]), 2 * (M[1][c] - b * M[2][c]), tol=tol)
        u.eq('depth divides [%d]' % c, G[3][c], M[2][c], tol=tol)
        k = norm(M[2][:3]) if c == 3 else ZERO
        # depth n shows at -1, depth f at +1
        u.eq('depth [%d]' % c, d * G[2][c], (f + n) * M[2][c] - 2 * f * n * k, tol=tol)


for c in (3, 4):
    @unit('pj_gl3%d' % c, CPP)
    def _(u, c=c):
        gl(u, c)

    @unit('pj_gl3%df' % c, CPP)
    def _(u, c=c):
        u.float_ok = True
        gl(u, c, 1e-4)


@unit('pj_offaxis', CPP, cost=3)
def _(u):
    q = u.quat('q'); ll = u.vec('c', 3)
    sw, sh = u.real('w', near=(1, 4), positive=True), u.real('h', near=(1, 4), positive=True)
    a, b, e = u.real('a', near=(-1, 1)), u.real('b', near=(-1, 1)), u.real('e', near=(0.5, 4), positive=True)
    n, d = u.real('n', near=(0.1, 1), positive=True), u.real('d', near=(1, 5), positive=True)
    X, Y, Z = mt(rotmat(q))
    lin = lambda x, y, z: [ll[i] + x * X[i] + y * Y[i] + z * Z[i] for i in range(3)]
    eye_ = lin(a, b, e)
    u.inputs(eye_, ll, lin(ZERO, sh, ZERO), lin(sw, ZERO, ZERO), n, n + d, sw, sh)
    o = u.outs(16)
    G = [o[4 * i:4 * i + 4] for i in range(4)]
    for nm, (x, y), (gx, gy) in (('lower left', (ZERO, ZERO), (-1, -1)), ('upper left', (ZERO, sh), (-1, 1)), ('lower right', (sw, ZERO), (1, -1)), ('upper right', (sw, sh), (1, 1))):
        c = mv(G, lin(x, y, ZERO) + [ONE])
        u.eqv('%s corner of the screen' % nm, c[:2], [gx * c[3], gy * c[3]])
        u.eq('%s corner divides by its distance' % nm, c[3], e)
    for nm, dist, g in (('near', n, -1), ('far', n + d, 1)):
        c = mv(G, lin(a, b, e - dist) + [ONE])
        u.eq('%s plane' % nm, c[2], g * c[3])
        u.eq('%s plane divides by its distance' % nm, c[3], dist)


@unit('pj_origin', CPP)
def _(u):
    u.float_ok = True
    f = u.vec('f', 6, near=(-2, 2))
    og, h = u.int('o', lo=0, hi=1, sampler=lambda r: r.randint(0, 1)), u.int('h', lo=1, hi=4000, sampler=lambda r: r.randint(1, 2000))
    u.inputs([[f[0], f[1], f[2]], [ZERO, f[3], f[4]], [ZERO, ZERO, f[5]]]); u.iinputs(og, h)
    o = u.outs(18)
    H = u.int2real(z3.simplify(z3.Extract(31, 0, h) - 1), True)
    for g, tol in ((o[:9], None), (o[9:], 1e-3)):
        k = [f[0], f[1], f[2], ZERO, f[3], f[4], ZERO, ZERO, f[5]]
        u.eqv('bottom-up image: unchanged', g, k, when=[B(og != 0)], tol=tol)
        # y -> height - 1 - y, x stays
        k = k[:4] + [-f[3], f[5] * H - f[4]] + k[6:]
        u.eqv('top-down image: mirrored', g, k, when=[B(og == 0)], tol=tol)


# ------------------------------------------------------------------ fundamental matrices
def fund_norm(u, ms):
    """the isotropic normalisation of a point set, recognised by its first point: any shift m, any positive scale s"""
    from ir import Ptr

    def h(ex, a, rt, name):
        pts = ex.load(a[3][1], ('ptr',))
        x = ex.rd(Ptr(pts.o, pts.off + 8), 1)[0]
        for x0, m, s in ms:
            if x is x0 or not u.ctx.poly(x - x0):
                ex.wr(Ptr(a[0][1].o, a[0][1].off + 8), m)
                ex.wr(a[1][1], [s])
                M = [[s, ZERO, -s * m[0]], [ZERO, s, -s * m[1]], [ZERO, ZERO, ONE]]
                ex.wr(Ptr(a[2][1].o, a[2][1].off + 24), [M[i][j] for j in range(3) for i in range(3)])
                return
        from symex import Unsupported
        raise Unsupported('normalisation of unknown points')
    u.stubs[r'Algorithm::normalize<double>'] = h


def fund(u, n, step=1):
    """x' F x = 0 for all given pairs, for any F of rank 2 (third row a combination of the others)"""
    F = [u.vec('f%d_' % i, 3, near=(-1, 1)) for i in range(2)]
    al, be = u.real('al', near=(-1, 1)), u.real('be', near=(-1, 1))
    F.append([al * F[0][k] + be * F[1][k] for k in range(3)])
    u.clear_of_zero(norm2(cross(F[0], F[1])), 0.05)
    m1, m2 = u.vec('m', 2, near=(-1, 1)), u.vec('k', 2, near=(-1, 1))
    s1, s2 = u.real('s', near=(0.5, 2), positive=True), u.real('r', near=(0.5, 2), positive=True)
    X, Y = [], []
    for i in range(n):
        x = u.vec('x%d_' % i, 2, near=(-1.5, 1.5)); t = u.real('t%d' % i, near=(-1.5, 1.5))
        l = mv(F, x + [ONE])
        if i % step == 0:
            u.clear_of_zero(l[1] * l[1], 0.05)
            y = [t, -(l[0] * t + l[2]) / l[1]]
        else:
            y = [t, u.real('w%d' % i, near=(-1.5, 1.5))]       # not used
        X.append([m1[k] + x[k] / s1 for k in range(2)]); Y.append([m2[k] + y[k] / s2 for k in range(2)])
    fund_norm(u, [(X[0][0], m1, s1), (Y[0][0], m2, s2)])
    e = sign(u, 'e')
    f = flat(F)
    nf = norm(f)

    def ghost(ex, A):
        if len(A[0]) == 9:
            for i, r in enumerate(A):
                lapack.require(ex, 'the true matrix fulfils equation %d' % i, dot(r, f), ZERO)
            g = [x for q in A for x in q]
            return dict(vt=[[fn('svdv:%d:9:%d:%d' % (len(A), i, j), *g) for j in range(9)] for i in range(8)] + [[e * x / nf for x in f]])
        g = [x for q in A for x in q]
        U, V = ([[fn('svd%s:3:3:%d:%d' % (c, i, j), *g) for j in range(3)] for i in range(3)] for c in 'uv')
        S = [fn('svds:3:3:%d' % i, *g) for i in range(3)]
        for i in range(3):
            for j in range(3):
                lapack.require(ex, 'matrix of rank 2 [%d][%d]' % (i, j), A[i][j] * nf, e * F[i][j])
                # a matrix of rank 2 is rebuilt from its two leading singular triples
                for x in (U[i][0], S[0], V[0][j], U[i][1], S[1], V[1][j]):
                    u.ctx.poly(x)
                u.ctx.add_relation(U[i][0] * S[0] * V[0][j], e * F[i][j] / nf - U[i][1] * S[1] * V[1][j])
        return dict(u=U, s=S, vt=V)
    u.ghost_svd = ghost
    u.inputs(X, Y)
    o = u.outs(9)
    N = lambda m, s: [[s, ZERO, -s * m[0]], [ZERO, s, -s * m[1]], [ZERO, ZERO, ONE]]
    t = mm(mm(mt(N(m2, s2)), F), N(m1, s1))
    return o, flat(t)


for n in (8, 9):
    @unit('pj_fund%d' % n, CPP, cost=4)
    def _(u, n=n):
        o, t = fund(u, n)
        prop(u, 'true fundamental matrix', o, t, tol=2e-3)


@unit('pj_fund16', CPP, cost=6)
def _(u):
    o, t = fund(u, 16, 2)
    prop(u, 'true fundamental matrix', o, t, tol=2e-3)


for nm in ('few', 'uneq', 'step'):
    @unit('pj_fund_' + nm, CPP)
    def _(u):
        u.inputs(u.vec('x', 32)); u.outs(9); u.throw_if = Cond("bv", z3.BoolVal(True))


def cond_k(u, n):
    """camera matrix: upper triangular, regular"""
    k = u.vec(n, 6, near=(-1, 1))
    for i in (0, 3, 5):
        u.clear_of_zero(k[i] * k[i], 0.1)
    return [[k[0], k[1], k[2]], [ZERO, k[3], k[4]], [ZERO, ZERO, k[5]]]


def triinv(k):
    a, b, c, d, e, f = k[0][0], k[0][1], k[0][2], k[1][1], k[1][2], k[2][2]
    return [[ONE / a, -b / (a * d), (b * e - c * d) / (a * d * f)], [ZERO, ONE / d, -e / (d * f)], [ZERO, ZERO, ONE / f]]


@unit('pj_fpose', CPP, cost=5)
def _(u):
    t1, q1, t2, q2 = u.vec('s', 3), u.quat('q'), u.vec('t', 3), u.quat('r')
    K1, K2 = cond_k(u, 'k'), cond_k(u, 'l')
    X = u.vec('X', 3, near=(-2, 2)); lam = u.vec('lam', 3)
    R1, R2 = rotmat(q1), rotmat(q2)
    C = [-x for x in mv(mt(R1), t1)]
    G = mm(mt(R1), triinv(K1)) + [[ZERO] * 3]
    C4 = C + [ONE]
    G = [[G[i][j] + C4[i] * lam[j] for j in range(3)] for i in range(4)]

    def h(ex, a, rt, name):
        from ir import Ptr
        d, s = a[0][1], a[1][1]
        v = ex.rd(Ptr(s.o, s.off + 24), 12)
        E = [[v[j * 3 + i] for j in range(4)] for i in range(3)]
        EG = mm(E, G)
        for i in range(3):
            for j in range(3):
                lapack.require(ex, 'right inverse of the projection [%d][%d]' % (i, j), EG[i][j], ONE if i == j else ZERO)
        for o, k in ((0, 4), (8, 3), (16, 12)):
            ex.store(Ptr(d.o, d.off + o), k, ('i', 64))
        ex.wr(Ptr(d.o, d.off + 24), [G[i][j] for j in range(3) for i in range(4)])
    u.stubs[r'Math::pseudoInvert_matrix<double, ?3ul, ?4ul>'] = h
    I = [mt(R1)[i] + [C[i]] for i in range(3)] + [[ZERO] * 3 + [ONE]]

    def inv(ex, a, rt, name):
        from ir import Ptr
        d, s = a[0][1], a[1][1]
        v = ex.rd(Ptr(s.o, s.off + 24), 16)
        P = mm([[v[j * 4 + i] for j in range(4)] for i in range(4)], I)
        for i in range(4):
            for j in range(4):
                lapack.require(ex, 'inverse of the first camera pose [%d][%d]' % (i, j), P[i][j], ONE if i == j else ZERO)
        for o, k in ((0, 4), (8, 4), (16, 16)):
            ex.store(Ptr(d.o, d.off + o), k, ('i', 64))
        ex.wr(Ptr(d.o, d.off + 24), [I[i][j] for j in range(4) for i in range(4)])
    u.stubs[r'Math::invert_matrix<.*Matrix<double, ?4ul, ?4ul>'] = inv
    u.inputs(t1, q1, t2, q2, K1, K2)
    o = u.outs(9)
    F = [o[0:3], o[3:6], o[6:9]]
    x1, x2 = mv(K1, vadd(mv(R1, X), t1)), mv(K2, vadd(mv(R2, X), t2))
    u.eq('every world point projects to a corresponding pair', dot(x2, mv(F, x1)), ZERO, tol=1e-6)
    e1 = mv(K1, vadd(mv(R1, [-x for x in mv(mt(R2), t2)]), t1))
    e2 = mv(K2, vadd(mv(R2, C), t2))
    u.clear_of_zero(norm2(e1), 0.01); u.clear_of_zero(norm2(e2), 0.01)
    u.eqv('epipole of the first image', mv(F, e1), [ZERO] * 3, tol=1e-6)
    u.eqv('epipole of the second image', mv(mt(F), e2), [ZERO] * 3, tol=1e-6)

    def nz(env, inp, out, io):
        return None if sum(x * x for x in out[:9]) > 1e-12 else 'the result vanishes'
    u.oracles.append(('not zero', nz))


def np_cam(rng, K=None):
    """random camera in front of points around the origin: K, R, t with z < 0 for points within the unit ball"""
    import numpy as np
    f = rng.uniform(0.8, 2)
    K = np.array([[f, rng.uniform(-.1, .1), rng.uniform(-.5, .5)], [0, f * rng.uniform(.8, 1.2), rng.uniform(-.5, .5)], [0, 0, -1.0]])
    q = rq(rng)
    R = np.array(num_rot(q))
    t = np.array([rng.uniform(-.5, .5), rng.uniform(-.5, .5), -rng.uniform(3, 5)])
    return K, R, t, q


def num_rot(q):
    c = [qrot(q, e) for e in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
    return [[c[j][i] for j in range(3)] for i in range(3)]


def skew(t):
    import numpy as np
    return np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])


@unit('pj_posef', CPP, sampled='two views of a point in front of both cameras')
def _(u):
    def gen(rng):
        import numpy as np
        while True:
            K1, K2 = np_cam(rng)[0], np_cam(rng)[0]
            q = rq(rng); R = np.array(num_rot(q)); t = np.array(rv(rng, 1))
            X = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), -rng.uniform(1, 4)])
            Y = R @ X + t
            if np.linalg.norm(t) < 0.3 or Y[2] > -0.5 or np.linalg.norm(np.cross(R @ X, t)) < 0.3:
                continue
            F = np.linalg.inv(K2).T @ skew(t) @ R @ np.linalg.inv(K1) * rng.choice([-3, -1, 0.5, 1, 2])
            a, b = K1 @ X, K2 @ Y
            return list(F.flatten()) + [a[0] / a[2], a[1] / a[2], b[0] / b[2], b[1] / b[2]] + list(K1.flatten()) + list(K2.flatten()), (q, list(t / np.linalg.norm(t)))
    sampled_inputs(u, 31, gen); u.outs(7); u.nsamp = 300

    def f(inp, t, out, io):
        d = max(far(out[:3], t[1]), qfar(out[3:7], t[0]))
        return None if d < 1e-5 else 'the pose %r differs from the true one %r' % (out[:7], t)
    oracle(u, 'true relative pose', f)


# ------------------------------------------------------------------ points from several views
def views(u, n):
    X = u.vec('X', 3, near=(-2, 2))
    P, x = [], []
    for i in range(n):
        p = [u.vec('P%d%d_' % (i, k), 4, near=(-1, 1)) for k in range(3)]
        y = mv(p, X + [ONE])
        u.clear_of_zero(y[2] * y[2], 0.01)
        P.append(p); x.append([y[0] / y[2], y[1] / y[2]])
    u.ghost_svd, _ = null_ghost(u, X + [ONE], sign(u, 'e'))
    # the rays meet in one point only: distinct centres (native runs only need to stay clear of degeneracy)
    return X, P, x


@unit('pj_pt2', CPP, cost=3)
def _(u):
    X, P, x = views(u, 2)
    u.inputs(P, x)
    u.eqv('the true point', u.outs(3), X, tol=1e-4)


@unit('pj_pt2f', CPP, sampled='two views in single precision')
def _(u):
    def gen(rng):
        import numpy as np
        while True:
            X = np.array(rv(rng, 1)); v, w, c = [], [], []
            for i in range(2):
                K, R, t, q = np_cam(rng)
                P = K @ np.hstack([R, t.reshape(3, 1)]); y = P @ np.append(X, 1)
                v += list(P.flatten()); w += [y[0] / y[2], y[1] / y[2]]; d = R.T @ t + X; c.append(d / np.linalg.norm(d))
            if np.linalg.norm(np.cross(*c)) > 0.3:
                return v + w, list(X)
    sampled_inputs(u, 28, gen); u.float_ok = True; u.outs(3); u.nsamp = 200
    oracle(u, 'the true point', lambda i, X, o, io: None if far(o, X) < 1e-3 else 'point %r, true %r' % (o, X))


@unit('pj_fundf', CPP, sampled='twelve points in single precision')
def _(u):
    def gen(rng):
        import numpy as np
        while True:
            c = [np_cam(rng) for _ in range(2)]
            X = [rv(rng, 1) for _ in range(12)]
            x = [[(K @ (R @ np.array(p) + t)) for p in X] for K, R, t, q in c]
            x = [[list(y[:2] / y[2]) for y in z] for z in x]
            R = c[1][1] @ c[0][1].T; t = c[1][2] - R @ c[0][2]
            if np.linalg.norm(t) > 1:
                return [v for z in x for y in z for v in y], x
    sampled_inputs(u, 48, gen); u.float_ok = True; u.outs(9); u.nsamp = 200

    def f(inp, x, out, io):
        import numpy as np
        F = np.array(out[:9]).reshape(3, 3)
        s = np.linalg.svd(F)[1]
        if not s[0] > 0 or not s[2] < 1e-4 * s[0]:
            return 'singular values %r' % s
        d = []
        for a, b in zip(*x):
            a, b = np.append(a, 1), np.append(b, 1)
            d.append(abs(b @ F @ a) / (np.linalg.norm((F @ a)[:2]) + 1e-9 * s[0]))
        return None if max(d) < 2e-2 else 'a true correspondence is %g away from its epipolar line' % max(d)
    oracle(u, 'epipolar lines', f)


for nm, n, tol in (('pj_pt2n', 2, 1e-4), ('pj_pt3', 3, 1e-5)):
    @unit(nm, CPP, cost=3)
    def _(u, n=n, tol=tol):
        X, P, x = views(u, n)
        u.inputs([[P[i], x[i]] for i in range(n)])
        u.eqv('the true point', u.outs(3), X, tol=tol)


@unit('pj_pt3f', CPP, sampled='single precision')
def _(u):
    u.float_ok = True
    X, P, x = views(u, 3)
    u.inputs([[P[i], x[i]] for i in range(3)])
    u.eqv('the true point', u.outs(3), X, tol=5e-2)


@unit('pj_pt3r', CPP, cost=3)
def _(u):
    X, P, x = views(u, 3)
    u.inputs([[P[i], x[i]] for i in range(3)])
    u.eqv('the true point', u.outs(4)[:3], X, tol=1e-5)


for nm in ('few', 'uneq', 'few_f', 'uneq_f', 'few_r', 'uneq_r'):
    @unit('pj_pt_' + nm, CPP)
    def _(u):
        u.inputs(u.vec('x', 42)); u.outs(3); u.throw_if = Cond("bv", z3.BoolVal(True))


@unit('pj_pt3o', CPP, sampled='three views, with refinement')
def _(u):
    def gen(rng):
        import numpy as np
        X = np.array(rv(rng, 1)); noise = rng.choice([0, 0, 0.01])
        v = []
        for i in range(3):
            K, R, t, q = np_cam(rng)
            P = K @ np.hstack([R, t.reshape(3, 1)]); y = P @ np.append(X, 1)
            v += list(P.flatten()) + [y[0] / y[2] + rng.gauss(0, 1) * noise, y[1] / y[2] + rng.gauss(0, 1) * noise]
        return v, (list(X), noise)
    sampled_inputs(u, 42, gen); u.outs(7); u.nsamp = 200

    def f(inp, t, out, io):
        import numpy as np
        if far(out[:3], out[3:6]) > 1e-12:
            return 'the two functions disagree'

        def err(X):
            s = 0
            for i in range(3):
                P = np.array(inp[14 * i:14 * i + 12]).reshape(3, 4); y = P @ np.append(X, 1)
                s += (y[0] / y[2] - inp[14 * i + 12]) ** 2 + (y[1] / y[2] - inp[14 * i + 13]) ** 2
            return s
        if t[1] == 0:
            return None if far(out[:3], t[0]) < 1e-5 and abs(out[6]) < 1e-8 else 'point %r, true %r, residual %g' % (out[:3], t[0], out[6])
        e = err(out[:3])
        for d in range(3):
            for s in (-1e-3, 1e-3):
                y = list(out[:3]); y[d] += s
                if err(y) < e * (1 - 1e-6):
                    return 'the reprojection error is not minimal: %g, nearby %g' % (e, err(y))
        return None if abs(out[6] - e) < 1e-3 * e + 1e-12 else 'residual %g, reprojection error %g' % (out[6], e)
    oracle(u, 'least reprojection error', f)


@unit('pj_dist', CPP)
def _(u):
    F = u.mat('f', 3, 3); a, b = u.vec('a', 2), u.vec('b', 2)
    l = mv(F, a + [ONE]); n = l[0] * l[0] + l[1] * l[1]
    u.clear_of_zero(n, 0.01)
    u.inputs(F, a, b)
    o = u.outs(2)
    for i in range(2):
        u.eq('squared distance from the epipolar line [%d]' % i, o[i] * n, dot(l, b + [ONE]) * dot(l, b + [ONE]))


@unit('pj_distf', CPP, sampled='single precision')
def _(u):
    u.float_ok = True
    F = u.mat('f', 3, 3); a, b = u.vec('a', 2), u.vec('b', 2)
    l = mv(F, a + [ONE]); n = l[0] * l[0] + l[1] * l[1]
    u.clear_of_zero(n, 0.01)
    u.inputs(F, a, b)
    o = u.outs(2)
    for i in range(2):
        u.eq('squared distance from the epipolar line [%d]' % i, o[i] * n, dot(l, b + [ONE]) * dot(l, b + [ONE]), tol=1e-4)


def recon(name, tol, fl):
    @unit(name, CPP, sampled='four points in two views, second view in any order')
    def _(u):
        def gen(rng):
            import numpy as np
            while True:
                c = [np_cam(rng) for _ in range(2)]
                Ps = [K @ np.hstack([R, t.reshape(3, 1)]) for K, R, t, q in c]
                X = [rv(rng, 1) for _ in range(4)]
                x = [[(P @ np.append(y, 1))[:2] / (P @ np.append(y, 1))[2] for y in X] for P in Ps]
                R1, t1, R2, t2 = c[0][1], c[0][2], c[1][1], c[1][2]
                R = R2 @ R1.T; t = t2 - R @ t1
                F = np.linalg.inv(c[1][0]).T @ skew(t) @ R @ np.linalg.inv(c[0][0])
                D = np.array([[abs(np.append(b, 1) @ F @ np.append(a, 1)) / np.linalg.norm((F @ np.append(a, 1))[:2]) for b in x[1]] for a in x[0]])
                if min(D[i][j] for i in range(4) for j in range(4) if i != j) < 0.02 or (fl and np.linalg.norm(np.cross(R1.T @ t1, R2.T @ t2)) < 2) or np.linalg.norm(t) < 1:
                    continue
                perm = list(range(4)); rng.shuffle(perm)
                return [v for y in x[0] for v in y] + [v for k in perm for v in x[1][k]] + list(Ps[0].flatten()) + list(Ps[1].flatten()) + list(F.flatten()), X
        sampled_inputs(u, 49, gen); u.float_ok = fl; u.outs(12); u.iouts(1); u.nsamp = 200

        def f(inp, X, out, io):
            if io[0] != 4:
                return '%d points' % io[0]
            for i in range(4):
                if far(out[3 * i:3 * i + 3], X[i]) > tol:
                    return 'point %d is %r, true %r' % (i, out[3 * i:3 * i + 3], X[i])
        oracle(u, 'true points', f)


recon('pj_recon', 1e-5, False); recon('pj_reconf', 5e-3, True)

