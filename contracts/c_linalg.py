"""Vector and matrix algebra: products, norms, determinants, inverses."""
import itertools
from spec import *
import lapack
CPP = 'linalg.cpp'


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = ZERO
    for j in range(len(m)):
        t = m[0][j] * det([x[:j] + x[j + 1:] for x in m[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


def vecunit(name, n, bounded=None):
    @unit(name, CPP, bounded=bounded)
    def _(u):
        a, b = u.vec('a', n), u.vec('b', n)
        u.requires(gt(norm2(a), ZERO))
        u.inputs(a, b)
        o = u.outs(6 + n)
        u.eq('inner product', o[0], dot(a, b))
        s = ZERO
        for x in a:
            s = s + absv(x)
        u.eq('sum of magnitudes', o[1], s)
        u.eq('length', o[2], norm(a))
        u.eq('squared length', o[3], norm2(a))
        u.eq('distance', o[4], norm(vsub(a, b)))
        u.eq('squared distance', o[5], norm2(vsub(a, b)))
        u.eqv('unit vector of the same direction', o[6:], [x / norm(a) for x in a])


for n in (1, 2, 3, 4, 7):
    vecunit('la_vec_%d' % n, n)
for n in (1, 2, 5):
    vecunit('la_dyn_%d' % n, n, 'vectors of run-time size: lengths 1, 2 and 5')


@unit('la_range', CPP, bounded='three vectors')
def _(u):
    a = [u.vec('a%d' % i, 3) for i in range(3)]; b = [u.vec('b%d' % i, 3) for i in range(3)]
    for x, y in zip(a, b):
        u.requires(gt(norm2(x), ZERO))
    u.inputs(a, b)
    o = u.outs(21)
    u.eqv('lengths', o[:3], [norm(x) for x in a])
    u.eqv('distances', o[3:6], [norm(vsub(x, y)) for x, y in zip(a, b)])
    u.eqv('squared lengths', o[6:9], [norm2(x) for x in a])
    u.eqv('squared distances', o[9:12], [norm2(vsub(x, y)) for x, y in zip(a, b)])
    u.eqv('unit vectors', o[12:], [c / norm(x) for x in a for c in x])


@unit('la_cross', CPP)
def _(u):
    a, b = u.vec('a', 3), u.vec('b', 3); u.inputs(a, b)
    u.eqv('cross product', u.outs(3), cross(a, b))


for A, B in ((2, 2), (2, 3), (4, 2), (1, 3)):
    def mk(A=A, B=B):
        @unit('la_outer_%d%d' % (A, B), CPP)
        def _(u):
            a, b = u.vec('a', A), u.vec('b', B); u.inputs(a, b)
            e = [x * y for x in a for y in b]
            u.eqv('outer product', u.outs(2 * A * B), e + e)
    mk()

for R, C in ((2, 2), (2, 3), (3, 4), (4, 2), (3, 1)):
    def mk(R=R, C=C):
        @unit('la_mv_%d%d' % (R, C), CPP)
        def _(u):
            m, v, r = u.mat('m', R, C), u.vec('v', C), u.vec('r', R); u.inputs(m, v, r)
            u.eqv('matrix times vector', u.outs(2 * R), mv(m, v) + mv(m, v))
    mk()

for R, K, C in ((2, 2, 2), (3, 3, 3), (4, 4, 4), (2, 3, 4), (3, 2, 1), (1, 4, 3)):
    def mk(R=R, K=K, C=C):
        @unit('la_mm_%d%d%d' % (R, K, C), CPP)
        def _(u):
            a, b, r = u.mat('a', R, K), u.mat('b', K, C), u.mat('r', R, C); u.inputs(a, b, r)
            u.eqv('matrix times matrix', u.outs(2 * R * C), flat(mm(a, b)) * 2)
    mk()


@unit('la_outer_range', CPP, bounded='two pairs')
def _(u):
    a, b = [u.vec('a%d' % i, 2) for i in range(2)], [u.vec('b%d' % i, 3) for i in range(2)]; u.inputs(a, b)
    u.eqv('one product per pair', u.outs(13), [x * y for i in range(2) for x in a[i] for y in b[i]] + [T(2)])


@unit('la_mv_range', CPP, bounded='two pairs')
def _(u):
    a, b = [u.mat('a%d' % i, 2, 3) for i in range(2)], [u.vec('b%d' % i, 3) for i in range(2)]; u.inputs(a[0], a[1], b)
    u.eqv('one product per pair', u.outs(5), mv(a[0], b[0]) + mv(a[1], b[1]) + [T(2)])


@unit('la_mm_range', CPP, bounded='two pairs')
def _(u):
    a, b = [u.mat('a%d' % i, 2, 2) for i in range(2)], [u.mat('b%d' % i, 2, 2) for i in range(2)]; u.inputs(a[0], a[1], b[0], b[1])
    u.eqv('one product per pair', u.outs(9), flat(mm(a[0], b[0])) + flat(mm(a[1], b[1])) + [T(2)])


for n in (2, 3):
    def mk(n=n):
        @unit('la_det_%d' % n, CPP)
        def _(u):
            m = u.mat('m', n, n); u.inputs(m)
            u.eq('determinant', u.outs(1)[0], det(m))

        @unit('la_inv_%d' % n, CPP)
        def _(u):
            m = u.mat('m', n, n); u.requires(gt(absv(det(m)), ZERO)); u.inputs(m)
            o = u.outs(n * n); i = [o[n * k:n * k + n] for k in range(n)]
            u.eqv('inverse', flat(mm(m, i)), flat(eye(n)))
    mk()

for n in (1, 2, 3):
    def mk(n=n):
        @unit('la_ludet_%d' % n, CPP, cost=n)
        def _(u):
            m = u.mat('m', n, n); u.requires(gt(absv(det(m)), T(1) / 1000)); u.inputs(m)
            u.exact_lu = True
            u.eq('determinant', u.outs(1)[0], det(m))
        if n == 1:
            return

        @unit('la_luinv_%d' % n, CPP)
        def _(u):
            m = u.mat('m', n, n); u.requires(gt(absv(det(m)), T(1) / 1000)); u.inputs(m)
            o = u.outs(n * n); i = [o[n * k:n * k + n] for k in range(n)]
            u.eqv('inverse', flat(mm(m, i)), flat(eye(n)))
    mk()


def plu(u, n, piv):
    """every matrix is P L U with unit lower triangular L and row exchanges piv; |L| <= 1 with partial pivoting"""
    L = [[u.real('l%d%d' % (i, j), -1, 1, near=(-1, 1)) if j < i else T(1) if i == j else ZERO for j in range(n)] for i in range(n)]
    U = [[u.real('u%d%d' % (i, j), near=(0.5, 2) if i == j else (-2, 2)) if j >= i else ZERO for j in range(n)] for i in range(n)]
    Q = [list(r) for r in mm(L, U)]
    for k in reversed(range(n)):
        Q[k], Q[piv[k]] = Q[piv[k]], Q[k]
    u.ghost_lu = (L, U, piv)
    u.hint(lambda r: {'u%d%d' % (2 * (r.randint(0, n - 1),)): 0.0})           # singular
    u.inputs(Q)
    return Q


for pv in itertools.product(range(4), range(1, 4), range(2, 4)):
    def mk(pv=pv + (3,)):
        nm = '%d%d%d' % pv[:3]

        @unit('la_det_4_' + nm, CPP, 'vc_la_det_4')
        def _(u):
            m = plu(u, 4, pv)
            u.eq('determinant', u.outs(1)[0], det(m))

        @unit('la_ludet_4_' + nm, CPP, 'vc_la_ludet_4')
        def _(u):
            m = plu(u, 4, pv)
            u.eq('determinant', u.outs(1)[0], det(m))
    mk()

for nm in ('la_inv_4', 'la_luinv_4'):
    def mk(nm=nm):
        @unit(nm, CPP, limit=120)
        def _(u):
            m = u.mat('m', 4, 4); u.requires(gt(absv(det(m)), T(1) / 100)); u.inputs(m)
            u.exact_inv = True
            o = u.outs(16); i = [o[4 * k:4 * k + 4] for k in range(4)]
            u.eqv('inverse', flat(mm(m, i)), flat(eye(4)), tol=1e-7)
    mk()


def rot2(u, n):
    a, b = u.unitvec(n, 2)
    return [[a, b], [-b, a]]


def pinv(name, R, C, rank=None):
    k = min(R, C) if rank is None else rank

    @unit(name, CPP, entry='vc_la_pinv_%d%d' % (R, C), cost=3)
    def _(u):
        U = rotmat(u.quat('q')) if R == 3 else rot2(u, 'a')
        V = rotmat(u.quat('p')) if C == 3 else rot2(u, 'b')
        s = [u.real('s%d' % i, near=(2.5 - i, 3 - i), positive=True) if i < k else ZERO for i in range(min(R, C))]
        u.requires(*[gt(x, ZERO) for x in s[:k]])
        u.requires(*[ge(x, y) for x, y in zip(s, s[1:k])])

        def scales(r):
            f = 10.0 ** r.uniform(-9, 3)
            return {'s%d' % i: f * r.uniform(2.5 - i, 3 - i) for i in range(k)}
        u.group(['s%d' % i for i in range(k)], scales)
        S = [[s[i] if i == j else ZERO for j in range(C)] for i in range(R)]
        P = [[1 / s[i] if i == j and i < k else ZERO for j in range(R)] for i in range(C)]
        A = mm(mm(U, S), mt(V))

        def ghost(ex, M):
            for i in range(R):
                for j in range(C):
                    lapack.require(ex, 'decomposed matrix[%d][%d]' % (i, j), M[i][j], A[i][j])
            return dict(u=U, s=s, vt=mt(V))
        u.ghost_svd = ghost
        u.inputs(A)
        u.eqv('Moore-Penrose inverse', u.outs(R * C), flat(mm(mm(V, P), mt(U))), tol=1e-6)


pinv('la_pinv_32', 3, 2)
pinv('la_pinv_23', 2, 3)
pinv('la_pinv_33', 3, 3)


@unit('la_ctor', CPP)
def _(u):
    a = u.vec('a', 6); u.inputs(a)
    z = [ZERO]
    e = a[:2] + a[:3] + a[:4] + a[:5] + a + a + z * 3 + z * 2 + flat(eye(3)) + z * 6 + flat(eye(2)) + z * 6 + [a[0]] * 6
    u.eqv('elements', u.outs(len(e)), e)


def lex(a, b):
    c = lt(a[-1], b[-1])
    for x, y in list(zip(a, b))[-2::-1]:
        c = Or(lt(x, y), And(eq(x, y), c))
    return c


@unit('la_cmp', CPP)
def _(u):
    a, b = u.vec('a', 3), u.vec('b', 3); z = u.real('z'); u.inputs(a, b, z)

    def same_prefix(rng):
        v = [float(rng.randint(-2, 2)) for _ in range(3)]; k = rng.randint(0, 3)
        w = v[:k] + [float(rng.randint(-2, 2)) for _ in range(3 - k)]
        e = {'a%d' % i: v[i] for i in range(3)}
        e.update({'b%d' % i: w[i] for i in range(3)}); e['z'] = w[0]
        return e
    for _ in range(40):
        u.hint(same_prefix)
    o = u.iouts(4)
    same = And(*[eq(x, y) for x, y in zip(a, b)])
    for i, c in ((0, lex(a, b)), (1, lex(b, a)), (2, same), (3, And(eq(a[0], b[0]), eq(a[1], b[1]), eq(a[2], b[2]), eq(b[0], z)))):
        u.holds('answer %d true' % i, Cond('bv', o[i] == 1), when=[c])
        u.holds('answer %d false' % i, Cond('bv', o[i] == 0), when=[c.neg()])


@unit('la_hand', CPP)
def _(u):
    m = u.mat('m', 4, 4); u.inputs(m)
    s = [ONE, ONE, -ONE, ONE]
    u.eqv('conjugated by the mirror', u.outs(16), [s[i] * m[i][j] * s[j] for i in range(4) for j in range(4)])


@unit('la_content', CPP)
def _(u):
    m = u.vec('m', 6); u.inputs(m)
    c = colmajor([m[:3], m[3:]])
    u.eqv('stored by columns', u.outs(18), c + c + m[:3] * 2)
    o = u.iouts(4)
    for i, n in enumerate((2, 3, 3, 6)):
        u.holds('size %d' % i, Cond('bv', o[i] == n))


@unit('la_cast', CPP)
def _(u):
    u.float_ok = True
    m = u.vec('m', 6); u.inputs(m)
    u.eqv('elements', u.outs(9), m + m[:3], tol=1e-5)
