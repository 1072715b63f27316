"""Trusted contracts of BLAS and LAPACK.  BLAS routines are their defining formulas.  Factorisations are represented by
uninterpreted functions of the matrix entries ('name:dims:indices'), evaluated with mpmath when a numeric value is needed.
A unit may supply a ghost witness (unit.ghost_svd, ghost_lsq, ghost_eig): the contract then is the *characterisation* of the
result (e.g. "the last right singular vector spans the null space"), and the characterising equations become obligations."""
import mpmath
from fractions import Fraction

import term as tm
from term import ZERO, ONE, T
from ir import UNDEF, Ptr, DOUBLE, FLOAT
from symex import Unsupported, gt, eq, UndefUse, And, ge
from externs import TABLE

I32 = ('i', 32)
I8 = ('i', 8)


def la(*names):
    def d(f):
        for n in names:
            def mk(pre, f=f):
                ty, sz = (DOUBLE, 8) if pre == 'd' else (FLOAT, 4)

                def h(ex, a, rt, name):
                    return f(Mem(ex, ty, sz), *[x[1] for x in a])
                return h
            TABLE['@d%s_' % n] = mk('d')
            TABLE['@s%s_' % n] = mk('s')
        return f
    return d


class Mem:
    def __init__(self, ex, ty, sz):
        self.ex, self.ty, self.sz = ex, ty, sz

    def i(self, p):
        v = self.ex.load(p, I32)
        if not isinstance(v, int):
            raise Unsupported('symbolic LAPACK dimension')
        return v - (1 << 32) if v >> 31 else v

    def c(self, p):
        return chr(self.ex.load(p, I8)).upper()

    def s(self, p):
        return self.ex.load(p, self.ty)

    def get(self, p, k):
        v = self.ex.load(Ptr(p.o, p.off + k * self.sz), self.ty)
        if v is UNDEF:
            raise UndefUse('BLAS/LAPACK operand is not initialised')
        return v

    def put(self, p, k, v):
        self.ex.store(Ptr(p.o, p.off + k * self.sz), v, self.ty)

    def seti(self, p, v):
        self.ex.store(p, v & 0xffffffff, I32)

    def mat(self, p, m, n, ld):
        return [[self.get(p, j * ld + i) for j in range(n)] for i in range(m)]

    def wmat(self, p, M, ld):
        for i, r in enumerate(M):
            for j, v in enumerate(r):
                self.put(p, j * ld + i, v)

    def tri(self, p, n, ld, uplo):
        """symmetric matrix from one triangle"""
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                M[i][j] = M[j][i] = self.get(p, j * ld + i) if uplo == 'U' else self.get(p, i * ld + j)
        return M


def mul(a, b):
    out = []
    for r in a:
        o = []
        for j in range(len(b[0])):
            s = ZERO
            for k in range(len(b)):
                s = s + r[k] * b[k][j]
            o.append(s)
        out.append(o)
    return out


def tr(a): return [list(x) for x in zip(*a)]


def acc(mem, cp, ldc, alpha, P, beta, only=None):
    for i, r in enumerate(P):
        for j, v in enumerate(r):
            if only and not only(i, j):
                continue
            v = alpha * v
            if beta is not ZERO:
                v = v + beta * mem.get(cp, j * ldc + i)
            mem.put(cp, j * ldc + i, v)


@la('gemm')
def gemm(m, ta, tb, M, N, K, alpha, a, lda, b, ldb, beta, c, ldc, *_):
    ta, tb, M, N, K = m.c(ta), m.c(tb), m.i(M), m.i(N), m.i(K)
    A = m.mat(a, M, K, m.i(lda)) if ta == 'N' else tr(m.mat(a, K, M, m.i(lda)))
    B = m.mat(b, K, N, m.i(ldb)) if tb == 'N' else tr(m.mat(b, N, K, m.i(ldb)))
    acc(m, c, m.i(ldc), m.s(alpha), mul(A, B), m.s(beta))


@la('symm')
def symm(m, side, uplo, M, N, alpha, a, lda, b, ldb, beta, c, ldc, *_):
    M, N = m.i(M), m.i(N)
    B = m.mat(b, M, N, m.i(ldb))
    if m.c(side) == 'L':
        P = mul(m.tri(a, M, m.i(lda), m.c(uplo)), B)
    else:
        P = mul(B, m.tri(a, N, m.i(lda), m.c(uplo)))
    acc(m, c, m.i(ldc), m.s(alpha), P, m.s(beta))


@la('syrk')
def syrk(m, uplo, trans, N, K, alpha, a, lda, beta, c, ldc, *_):
    N, K = m.i(N), m.i(K)
    A = m.mat(a, N, K, m.i(lda)) if m.c(trans) == 'N' else tr(m.mat(a, K, N, m.i(lda)))
    up = m.c(uplo) == 'U'
    acc(m, c, m.i(ldc), m.s(alpha), mul(A, tr(A)), m.s(beta), lambda i, j: (i <= j) if up else (i >= j))


@la('gemv')
def gemv(m, trans, M, N, alpha, a, lda, x, incx, beta, y, incy, *_):
    M, N = m.i(M), m.i(N)
    A = m.mat(a, M, N, m.i(lda))
    if m.c(trans) != 'N':
        A = tr(A)
    ix, iy = m.i(incx), m.i(incy)
    X = [[m.get(x, k * ix)] for k in range(len(A[0]))]
    for i, r in enumerate(mul(A, X)):
        v = m.s(alpha) * r[0]
        if m.s(beta) is not ZERO:
            v = v + m.s(beta) * m.get(y, i * iy)
        m.put(y, i * iy, v)


# ------------------------------------------------------------------ inverses
def upper(M):
    return [M[i][j] for i in range(len(M)) for j in range(i, len(M))]


def is_sym(ctx, M):
    try:
        return all(M[i][j] is M[j][i] or not ctx.poly(M[i][j] - M[j][i]) for i in range(len(M)) for j in range(i))
    except Exception:
        return False


def syminv(M):
    n = len(M)
    if n == 1:
        return [[ONE / M[0][0]]]
    if n == 2:
        d = M[0][0] * M[1][1] - M[0][1] * M[0][1]
        return [[M[1][1] / d, -M[0][1] / d], [-M[0][1] / d, M[0][0] / d]]
    if all(M[i][j] is ZERO for i in range(n) for j in range(n) if i != j):
        return [[ONE / M[i][i] if i == j else ZERO for j in range(n)] for i in range(n)]
    u = upper(M)
    R = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            R[i][j] = R[j][i] = tm.fn('syminv:%d:%d:%d' % (n, i, j), *u)
    return R


def geninv(ctx, M):
    n = len(M)
    if is_sym(ctx, M):
        return syminv(M)
    if n == 2:
        d = M[0][0] * M[1][1] - M[0][1] * M[1][0]
        return [[M[1][1] / d, -M[0][1] / d], [-M[1][0] / d, M[0][0] / d]]
    if n == 3:
        def c(i, j):
            r = [k for k in range(3) if k != j]
            s = [k for k in range(3) if k != i]
            v = M[r[0]][s[0]] * M[r[1]][s[1]] - M[r[0]][s[1]] * M[r[1]][s[0]]
            return v if (i + j) % 2 == 0 else -v
        d = M[0][0] * c(0, 0) + M[0][1] * c(1, 0) + M[0][2] * c(2, 0)
        return [[c(i, j) / d for j in range(3)] for i in range(3)]
    f = [x for r in M for x in r]
    return [[tm.fn('inv:%d:%d:%d' % (n, i, j), *f) for j in range(n)] for i in range(n)]


def leibniz(M):
    if len(M) == 1:
        return M[0][0]
    return sum(((-1) ** j * M[0][j] * leibniz([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M))), ZERO)


def cofinv(M):
    n, d = len(M), leibniz(M)
    minor = lambda i, j: leibniz([r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i])
    return [[(-1) ** (i + j) * minor(j, i) / d for j in range(n)] for i in range(n)]


def remember(m, kind, M, W):
    """ghost: a factorisation of M was stored as the opaque entries W"""
    m.ex.__dict__.setdefault('factors', {})[tuple(x.id for r in W for x in r if x is not None)] = (kind, M)


def recall(m, kind, ids):
    r = m.ex.__dict__.get('factors', {}).get(ids)
    if r is None or r[0] != kind:
        raise Unsupported('LAPACK: operand is not a stored %s factorisation' % kind)
    return r[1]


def consts(m, M):
    """entries that the preconditions make constant (|q| = 1) as constants, if asked for"""
    u = m.ex.unit
    if not getattr(u, 'const_factors', False):
        return M

    def f(t):
        p = u.ctx.poly(t)
        if not p:
            return ZERO
        if len(p) == 1 and 0 in p:
            return tm.const(p[0])
        return t
    return [[f(t) for t in r] for r in M]


@la('potrf')
def potrf(m, uplo, N, a, lda, info, *_):
    n, ld, up = m.i(N), m.i(lda), m.c(uplo)
    M = consts(m, m.tri(a, n, ld, up))
    u = upper(M)
    if n == 1 or all(M[i][j] is ZERO for i in range(n) for j in range(n) if i != j):
        spd = And(*[gt(M[i][i], ZERO) for i in range(n)])
    else:
        spd = gt(tm.fn('spd:%d' % n, *u), ZERO)
    pd = getattr(m.ex.unit, 'assume_spd', False)
    if not pd and not m.ex.decide(spd):
        m.seti(info, 1)
        W = [[tm.fn('junk:%d:%d:%d' % (n, i, j), *u) for j in range(n)] for i in range(n)]
    else:
        m.seti(info, 0)
        W = [[tm.fn('chol:%d:%d:%d' % (n, i, j), *u) for j in range(n)] for i in range(n)]
    k = []
    for i in range(n):
        for j in range(i, n):
            m.put(a, (j * ld + i) if up == 'U' else (i * ld + j), W[i][j])
            k.append(W[i][j].id)
    m.ex.__dict__.setdefault('factors', {})[tuple(k)] = ('chol' + up, M)


def chol_of(m, uplo, n, a, ld):
    k = []
    for i in range(n):
        for j in range(i, n):
            k.append(m.get(a, (j * ld + i) if uplo == 'U' else (i * ld + j)).id)
    return recall(m, 'chol' + uplo, tuple(k))


@la('potri')
def potri(m, uplo, N, a, lda, info, *_):
    n, ld, up = m.i(N), m.i(lda), m.c(uplo)
    R = syminv(chol_of(m, up, n, a, ld))
    for i in range(n):
        for j in range(i, n):
            m.put(a, (j * ld + i) if up == 'U' else (i * ld + j), R[i][j])
    m.seti(info, 0)


@la('getrf')
def getrf(m, M_, N, a, lda, ipiv, info, *_):
    r, n, ld = m.i(M_), m.i(N), m.i(lda)
    if r != n:
        raise Unsupported('getrf of a non-square matrix')
    M = m.mat(a, n, n, ld)
    f = [x for q in M for x in q]
    g = getattr(m.ex.unit, 'ghost_lu', None)
    if g:
        # the factors as the specification names them: M = P L U with unit lower L, row exchanges in order
        L, U, piv = g
        Q = mul([[U[0][0] * 0 + (1 if i == j else L[i][j] if j < i else 0) for j in range(n)] for i in range(n)], [[U[i][j] if j >= i else U[0][0] * 0 for j in range(n)] for i in range(n)])
        for k in reversed(range(n)):
            Q[k], Q[piv[k]] = Q[piv[k]], Q[k]
        for i in range(n):
            for j in range(n):
                require(m.ex, 'factors of the matrix', M[i][j], Q[i][j])
        W = [[L[i][j] if j < i else U[i][j] for j in range(n)] for i in range(n)]
        m.wmat(a, W, ld)
        remember(m, 'lu', M, W)
        for i in range(n):
            m.seti(Ptr(ipiv.o, ipiv.off + 4 * i), piv[i] + 1)
        m.seti(info, 0)
        return
    if getattr(m.ex.unit, 'exact_lu', False):
        # partial pivoting as LAPACK documents it: the row with the largest magnitude comes first
        W = [list(q) for q in M]
        for k in range(n):
            p = n - 1
            for c in range(k, n - 1):
                if all(m.ex.decide(ge(W[c][k] * W[c][k], W[x][k] * W[x][k])) for x in range(c + 1, n)):
                    p = c
                    break
            W[k], W[p] = W[p], W[k]
            m.seti(Ptr(ipiv.o, ipiv.off + 4 * k), p + 1)
            for i in range(k + 1, n):
                W[i][k] = W[i][k] / W[k][k]
                for j in range(k + 1, n):
                    W[i][j] = W[i][j] - W[i][k] * W[k][j]
        m.wmat(a, W, ld)
        remember(m, 'lu', M, W)
        m.seti(info, 0)
        return
    W = [[tm.fn('lu:%d:%d:%d' % (n, i, j), *f) for j in range(n)] for i in range(n)]
    m.wmat(a, W, ld)
    remember(m, 'lu', M, W)
    for i in range(n):
        m.seti(Ptr(ipiv.o, ipiv.off + 4 * i), i + 1)
    m.seti(info, 0)


@la('getri')
def getri(m, N, a, lda, ipiv, work, lwork, info, *_):
    n, ld = m.i(N), m.i(lda)
    if m.i(lwork) == -1:
        m.put(work, 0, T(64))
        m.seti(info, 0)
        return
    W = m.mat(a, n, n, ld)
    M = recall(m, 'lu', tuple(x.id for r in W for x in r))
    m.wmat(a, cofinv(M) if getattr(m.ex.unit, 'exact_inv', False) else geninv(m.ex.unit.ctx, M), ld)
    m.seti(info, 0)


@la('gesv')
def gesv(m, N, NRHS, a, lda, ipiv, b, ldb, info, *_):
    n, k = m.i(N), m.i(NRHS)
    M = m.mat(a, n, n, m.i(lda))
    B = m.mat(b, n, k, m.i(ldb))
    m.wmat(b, mul(geninv(m.ex.unit.ctx, M), B), m.i(ldb))
    m.seti(info, 0)


@la('posv')
def posv(m, uplo, N, NRHS, a, lda, b, ldb, info, *_):
    n, k = m.i(N), m.i(NRHS)
    M = m.tri(a, n, m.i(lda), m.c(uplo))
    B = m.mat(b, n, k, m.i(ldb))
    spd = gt(M[0][0], ZERO) if n == 1 else gt(tm.fn('spd:%d' % n, *upper(M)), ZERO)
    if getattr(m.ex.unit, 'assume_spd', False) or m.ex.decide(spd):
        m.wmat(b, mul(syminv(M), B), m.i(ldb))
        m.seti(info, 0)
    else:
        m.seti(info, 1)


# ------------------------------------------------------------------ least squares, SVD, eigenvectors
def call_ghost(m, name, *args):
    g = getattr(m.ex.unit, name, None)
    if g is None:
        return None
    k = m.ex.__dict__.setdefault('ghostcount', {})
    i = k.get(name, 0)
    k[name] = i + 1
    if isinstance(g, (list, tuple)):
        g = g[i] if i < len(g) else None
        if g is None:
            return None
    return g(m.ex, *args)


def require(ex, name, a, b):
    """obligation a == b for the ghost witness"""
    ex.asserts.append(('ghost: ' + name, eq(T(a), T(b)), len(ex.facts.conds)))


@la('gels')
def gels(m, trans, M_, N, NRHS, a, lda, b, ldb, work, lwork, info, *_):
    r, n, k = m.i(M_), m.i(N), m.i(NRHS)
    m.seti(info, 0)
    if m.i(lwork) == -1:
        m.put(work, 0, T(64))
        return
    A = m.mat(a, r, n, m.i(lda))
    if m.c(trans) != 'N':
        A = tr(A)
        r, n = n, r
    B = m.mat(b, r, k, m.i(ldb))
    X = lsq(m, A, B)
    m.wmat(b, X, m.i(ldb))


def lsq(m, A, B):
    r, n, k = len(A), len(A[0]), len(B[0])
    X = call_ghost(m, 'ghost_lsq', A, B)
    if X is not None:
        return X
    f = [x for q in A for x in q]
    return [[tm.fn('lsq:%d:%d:%d' % (r, n, i), *(f + [q[c] for q in B])) for c in range(k)] for i in range(n)]


@la('gelss')
def gelss(m, M_, N, NRHS, a, lda, b, ldb, s, rcond, rank, work, lwork, info, *_):
    r, n, k = m.i(M_), m.i(N), m.i(NRHS)
    m.seti(info, 0)
    if m.i(lwork) == -1:
        m.put(work, 0, T(64))
        return
    A = m.mat(a, r, n, m.i(lda))
    B = m.mat(b, r, k, m.i(ldb))
    m.wmat(b, lsq(m, A, B), m.i(ldb))
    m.seti(rank, min(r, n))


@la('gesvd')
def gesvd(m, jobu, jobvt, M_, N, a, lda, s, u, ldu, vt, ldvt, work, lwork, info, *_):
    r, n = m.i(M_), m.i(N)
    m.seti(info, 0)
    if m.i(lwork) == -1:
        m.put(work, 0, T(64))
        return
    ju, jv = m.c(jobu), m.c(jobvt)
    A = m.mat(a, r, n, m.i(lda))
    mn = min(r, n)
    f = [x for q in A for x in q]
    g = call_ghost(m, 'ghost_svd', A) or {}
    S = g.get('s') or [tm.fn('svds:%d:%d:%d' % (r, n, i), *f) for i in range(mn)]
    U = g.get('u') or [[tm.fn('svdu:%d:%d:%d:%d' % (r, n, i, j), *f) for j in range(r)] for i in range(r)]
    V = g.get('vt') or [[tm.fn('svdv:%d:%d:%d:%d' % (r, n, i, j), *f) for j in range(n)] for i in range(n)]
    for i in range(r):
        for j in range(n):
            m.put(a, j * m.i(lda) + i, UNDEF)
    for i, v in enumerate(S):
        m.put(s, i, v)
    if ju == 'A':
        m.wmat(u, U, m.i(ldu))
    elif ju == 'S':
        m.wmat(u, [q[:mn] for q in U], m.i(ldu))
    elif ju == 'O':
        m.wmat(a, [q[:mn] for q in U], m.i(lda))
    if jv == 'A':
        m.wmat(vt, V, m.i(ldvt))
    elif jv == 'S':
        m.wmat(vt, V[:mn], m.i(ldvt))
    elif jv == 'O':
        m.wmat(a, V[:mn], m.i(lda))


@la('syev')
def syev(m, jobz, uplo, N, a, lda, w, work, lwork, info, *_):
    n = m.i(N)
    m.seti(info, 0)
    if m.i(lwork) == -1:
        m.put(work, 0, T(64))
        return
    M = m.tri(a, n, m.i(lda), m.c(uplo))
    f = upper(M)
    g = call_ghost(m, 'ghost_eig', M) or {}
    W = g.get('w') or [tm.fn('eigw:%d:%d' % (n, i), *f) for i in range(n)]
    Z = g.get('z') or [[tm.fn('eigz:%d:%d:%d' % (n, i, j), *f) for j in range(n)] for i in range(n)]
    for i, v in enumerate(W):
        m.put(w, i, v)
    if m.c(jobz) == 'V':
        m.wmat(a, Z, m.i(lda))


@la('gerqf')
def gerqf(m, M_, N, a, lda, tau, work, lwork, info, *_):
    r, n = m.i(M_), m.i(N)
    m.seti(info, 0)
    if lwork is not None and m.i(lwork) == -1:
        m.put(work, 0, T(64))
        return
    A = m.mat(a, r, n, m.i(lda))
    g = call_ghost(m, 'ghost_rq', A)
    if r != n or g is None:
        raise Unsupported('gerqf without a witness')
    R, Q = g
    P = mul(R, Q)
    for i in range(n):
        for j in range(n):
            require(m.ex, 'R Q is the matrix [%d][%d]' % (i, j), P[i][j], A[i][j])
    f = [x for q in A for x in q]
    W = [[R[i][j] if j >= i else tm.fn('rqv:%d:%d:%d' % (n, i, j), *f) for j in range(n)] for i in range(n)]
    t = [tm.fn('rqt:%d:%d' % (n, i), *f) for i in range(n)]
    m.wmat(a, W, m.i(lda))
    for i in range(n):
        m.put(tau, i, t[i])
    m.ex.__dict__.setdefault('factors', {})[tuple(x.id for r_ in W for x in r_) + tuple(x.id for x in t)] = ('rq', Q)


@la('orgrq')
def orgrq(m, M_, N, K, a, lda, tau, work, lwork, info, *_):
    r, n = m.i(M_), m.i(N)
    m.seti(info, 0)
    if lwork is not None and m.i(lwork) == -1:
        m.put(work, 0, T(64))
        return
    W = m.mat(a, r, n, m.i(lda))
    Q = recall(m, 'rq', tuple(x.id for r_ in W for x in r_) + tuple(m.get(tau, i).id for i in range(m.i(K))))
    m.wmat(a, Q, m.i(lda))


@la('gerq2')
def gerq2(m, M_, N, a, lda, tau, work, info, *_):
    gerqf(m, M_, N, a, lda, tau, work, None, info)


@la('orgr2')
def orgr2(m, M_, N, K, a, lda, tau, work, info, *_):
    orgrq(m, M_, N, K, a, lda, tau, work, None, info)


@la('trsm')
def trsm(m, side, uplo, trans, diag, M_, N, alpha, a, lda, b, ldb, *_):
    r, n = m.i(M_), m.i(N)
    if m.c(side) != 'L' or m.c(trans) != 'N':
        raise Unsupported('trsm of this kind')
    up, unitd, al = m.c(uplo) == 'U', m.c(diag) == 'U', m.s(alpha)
    ld = m.i(lda)
    for c in range(n):
        x = [al * m.get(b, c * m.i(ldb) + i) for i in range(r)]
        for i in (reversed(range(r)) if up else range(r)):
            for j in (range(i + 1, r) if up else range(i)):
                x[i] = x[i] - m.get(a, j * ld + i) * x[j]
            if not unitd:
                x[i] = x[i] / m.get(a, i * ld + i)
        for i in range(r):
            m.put(b, c * m.i(ldb) + i, x[i])


# ------------------------------------------------------------------ numeric evaluation of the opaque functions
def _sym(MP, n, a):
    M = MP.matrix(n, n)
    k = 0
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = a[k]
            k += 1
    return M


CACHE = {}


def numeric(MP, op, a):
    if MP is None:
        MP = mpmath.mp
    p = op.split(':')
    base, d = p[0], [int(x) for x in p[1:]]
    key = (base, tuple(d[:2]), tuple(a))
    if base in ('syminv', 'spd', 'chol', 'eigw', 'eigz', 'junk'):
        n = d[0]
        key = (base, n, tuple(a))
        if key not in CACHE:
            if len(CACHE) > 2000:
                CACHE.clear()
            M = _sym(MP, n, a)
            if base == 'syminv':
                CACHE[key] = M ** -1
            elif base == 'spd':
                CACHE[key] = min(MP.eigsy(M, eigvals_only=True))
            elif base == 'eigw':
                CACHE[key] = MP.eigsy(M, eigvals_only=True)
            elif base == 'eigz':
                CACHE[key] = MP.eigsy(M)[1]
            else:
                CACHE[key] = MP.matrix(n, n)
        r = CACHE[key]
        if base == 'spd':
            return r
        if base == 'eigw':
            return r[d[1]]
        return r[d[1], d[2]]
    if base in ('inv', 'lu'):
        n = d[0]
        key = (base, n, tuple(a))
        if key not in CACHE:
            M = MP.matrix(n, n)
            for i in range(n):
                for j in range(n):
                    M[i, j] = a[i * n + j]
            CACHE[key] = M ** -1
        return CACHE[key][d[1], d[2]]
    if base == 'lsq':
        r, n = d[0], d[1]
        key = (base, r, n, tuple(a))
        if key not in CACHE:
            A = MP.matrix(r, n)
            for i in range(r):
                for j in range(n):
                    A[i, j] = a[i * n + j]
            b = MP.matrix(r, 1)
            for i in range(r):
                b[i] = a[r * n + i]
            CACHE[key] = MP.lu_solve(A.T * A, A.T * b)
        return CACHE[key][d[2]]
    if base in ('svds', 'svdu', 'svdv'):
        r, n = d[0], d[1]
        key = ('svd', r, n, tuple(a))
        if key not in CACHE:
            A = MP.matrix(max(r, n), max(r, n))
            for i in range(r):
                for j in range(n):
                    A[i, j] = a[i * n + j]
            CACHE[key] = MP.svd_r(A, full_matrices=True)
        U, S, V = CACHE[key]
        return S[d[2]] if base == 'svds' else (U if base == 'svdu' else V)[d[2], d[3]]
    raise ValueError(op)
