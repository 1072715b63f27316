"""Covariance propagation through arbitrary functions, Kalman measurement updates and backward propagation."""
from spec import *
import lapack
CPP = 'kalman.cpp'


def func(u, n, m, tag=''):
    g = u.mat('g' + tag, n, m); f = u.vec('f' + tag, n); j = u.mat('j' + tag, n, m)
    u.inputs(g, f, j)
    return (lambda x: vadd(f, mv(g, x))), j


def sandwich(j, c): return mm(mm(j, c), mt(j))


def sub(m, r, c): return [row[c[0]:c[1]] for row in m[r[0]:r[1]]]


@unit('kal_cov', CPP)
def _(u):
    x = u.vec('x', 3); c = u.sym('c', 3)
    u.inputs(x, c)
    f, j = func(u, 2, 3)
    o = u.outs(6)
    u.eqv('value', o[:2], f(x))
    u.eqv('covariance J C J^T', o[2:], flat(sandwich(j, c)))


@unit('kal_cov_inplace', CPP)
def _(u):
    x = u.vec('x', 3); c = u.sym('c', 3)
    u.inputs(x, c)
    f, j = func(u, 3, 3)
    o = u.outs(12)
    u.eqv('value', o[:3], f(x))
    u.eqv('covariance J C J^T', o[3:], flat(sandwich(j, c)))


def range_unit(name, N, ob, oe, ib, ie):
    @unit(name, CPP, bounded='state of size %d' % N)
    def _(u):
        x = u.vec('x', N); c = u.sym('c', N)
        u.inputs(x, c)
        f, j = func(u, oe - ob, ie - ib)
        o = u.outs(N + N * N)
        y = x[:ob] + f(x[ib:ie]) + x[oe:]
        J = eye(N)
        for i in range(ob, oe):
            J[i] = [ZERO] * ib + j[i - ob] + [ZERO] * (N - ie)
        u.eqv('value: only the chosen range changes', o[:N], y)
        u.eqv('covariance of the whole state', o[N:], flat(sandwich(J, c)))


range_unit('kal_range_mid', 5, 1, 3, 1, 3)
range_unit('kal_range_wide', 5, 1, 3, 1, 5)
range_unit('kal_range_first', 4, 0, 2, 0, 4)
range_unit('kal_range_last', 4, 2, 4, 0, 4)
range_unit('kal_range_other', 4, 0, 1, 2, 4)


@unit('kal_binary', CPP)
def _(u):
    x = u.vec('x', 3); c = u.sym('c', 3); y = u.vec('y', 2); d = u.sym('d', 2)
    u.inputs(x, c, y, d)
    f, j = func(u, 2, 3)
    g, k = func(u, 2, 2, 'b')
    o = u.outs(6)
    u.eqv('value', o[:2], vadd(f(x), g(y)))
    u.eqv('covariance J C J^T + K D K^T', o[2:], flat(madd(sandwich(j, c), sandwich(k, d))))


def spd_in(u, name, n):
    """symmetric matrix used as a covariance; sampled positive definite"""
    c = u.sym(name, n)

    def samp(rng):
        a = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        m = [[sum(a[i][k] * a[j][k] for k in range(n)) + (0.3 if i == j else 0) for j in range(n)] for i in range(n)]
        return {c[i][j].val: m[i][j] for i in range(n) for j in range(i, n)}
    u.group([c[i][j].val for i in range(n) for j in range(i, n)], samp)
    return c


def kalman_spec(u, o, x, c, H, z, pred, r):
    N = len(x)
    S = madd(sandwich(H, c), r)
    ci = lapack.syminv(S)
    K = mm(mm(c, mt(H)), ci)
    u.cut(S)
    u.eqv('state moves by gain times innovation', o[:N], vadd(x, mv(K, vsub(z, pred))))
    u.eqv('covariance shrinks by K S K^T', o[N:], flat(msub(c, mm(K, mm(H, c)))))


def meas_unit(name, N, M, b, e):
    @unit(name, CPP, cost=4, bounded='state of size %d, measurement of size %d' % (N, M))
    def _(u):
        x = u.vec('x', N); c = spd_in(u, 'c', N); z = u.vec('z', M); r = spd_in(u, 'r', M)
        u.inputs(x, c, z, r)
        f, j = func(u, M, e - b)
        H = [[ZERO] * b + row + [ZERO] * (N - e) for row in j]
        u.domain_optional = True
        kalman_spec(u, u.outs(N + N * N), x, c, H, z, f(x[b:e]), r)


meas_unit('kal_meas_1', 3, 1, 1, 3)
meas_unit('kal_meas_2', 4, 2, 1, 4)
meas_unit('kal_meas_3', 3, 3, 0, 3)


def id_unit(name, N, M, b):
    @unit(name, CPP, cost=3, bounded='state of size %d, measurement of size %d' % (N, M))
    def _(u):
        x = u.vec('x', N); c = spd_in(u, 'c', N); z = u.vec('z', M); r = spd_in(u, 'r', M)
        u.inputs(x, c, z, r)
        H = [[ONE if k == b + i else ZERO for k in range(N)] for i in range(M)]
        u.domain_optional = True
        kalman_spec(u, u.outs(N + N * N), x, c, H, z, x[b:b + M], r)


id_unit('kal_id_1', 3, 1, 1)
id_unit('kal_id_2', 4, 2, 1)
id_unit('kal_id_3', 4, 3, 1)


def svd_parts(u):
    """a 3x2 matrix U S V^T with orthonormal U, V and 0 < 1e-6 s0 <= s1 <= s0"""
    q = u.quat('q'); U = [r[:2] for r in rotmat(q)]
    a, b = u.unitvec('a', 2)
    s = [u.real('s0', near=(0.5, 3), positive=True), u.real('s1', near=(0.1, 0.5), positive=True)]
    u.requires(gt(s[1], ZERO), ge(s[1], s[0] * T(0.000001)), ge(s[0], s[1]))
    Vt = [[a, b], [-b, a]]
    S = [[s[0], ZERO], [ZERO, s[1]]]
    A = mm(mm(U, S), Vt)

    def ghost(ex, M):
        for i in range(3):
            for j in range(2):
                lapack.require(ex, 'decomposed matrix[%d][%d]' % (i, j), M[i][j], A[i][j])
        return dict(s=s, vt=Vt)
    u.ghost_svd = ghost
    inv = mm(mm(mt(Vt), [[1 / (s[0] * s[0]), ZERO], [ZERO, 1 / (s[1] * s[1])]]), Vt)
    return A, inv


@unit('kal_back_id', CPP, cost=3)
def _(u):
    A, inv = svd_parts(u)
    v = u.real('v', near=(0.1, 3), positive=True)
    u.requires(gt(v, ZERO))
    u.inputs(A, v)
    u.eqv('covariance s (J^T J)^-1', u.outs(4), flat(mscale(v, inv)))


@unit('kal_back_diag', CPP, cost=3)
def _(u):
    A, inv = svd_parts(u)
    d = [u.real('d%d' % i, near=(0.1, 3), positive=True) for i in range(3)]
    for x in d:
        u.requires(gt(x, ZERO))
    u.inputs([[d[i] * x for x in A[i]] for i in range(3)], [x * x for x in d])
    u.eqv('covariance (J^T D^-1 J)^-1', u.outs(4), flat(inv))


@unit('kal_back', CPP, cost=3)
def _(u):
    A, inv = svd_parts(u)
    t = [u.real('t0', near=(0.1, 0.5), positive=True), u.real('t1', near=(0.5, 1), positive=True), u.real('t2', near=(1, 3), positive=True)]
    u.requires(gt(t[0], ZERO), ge(t[1], t[0]), ge(t[2], t[1]), ge(t[0], t[2] * T(0.0001)))
    Q = rotmat(u.quat('p'))
    D = [[t[i] if i == j else ZERO for j in range(3)] for i in range(3)]
    C = mm(mm(Q, mm(D, D)), mt(Q))
    J = mm(mm(Q, D), A)
    u.inputs(J, C)

    def ghost(ex, M):
        for i in range(3):
            for j in range(3):
                lapack.require(ex, 'input covariance[%d][%d]' % (i, j), M[i][j], C[i][j])
        return dict(w=[x * x for x in t], z=Q)
    u.ghost_eig = ghost
    u.eqv('covariance (J^T C^-1 J)^-1', u.outs(4), flat(inv))


def indef(name, entry, N, M, b, e):
    """the Cholesky factorisation fails: the general inverse takes over"""
    @unit(name, CPP, entry, sampled='innovation covariance regular, but not positive definite')
    def _(u):
        import numpy as np
        from c_align import sampled_inputs, oracle
        ident = '_id_' in name
        def gen(rng):
            R = lambda n, m: np.array([[rng.uniform(-1, 1) for _ in range(m)] for _ in range(n)])
            while True:
                a = R(N, N); C = (a + a.T) / 2 * rng.choice([1, 2]); a = R(M, M); r = (a + a.T) / 2
                x, z, G, f, j = R(N, 1), R(M, 1), R(M, e - b), R(M, 1), R(M, e - b)
                H = np.zeros((M, N))
                H[:, b:e] = np.eye(M) if ident else j
                S = H @ C @ H.T + r
                w = np.linalg.eigvalsh(S)
                if w[0] < -0.1 and abs(w).min() > 0.1:
                    break
            K = C @ H.T @ np.linalg.inv(S)
            p = H @ x if ident else f + G @ x[b:e]
            v = [x, C, z, r] + ([] if ident else [G, f, j])
            return [float(t) for m in v for t in m.flatten()], list((x + K @ (z - p)).flatten()) + list((C - K @ H @ C).flatten())
        sampled_inputs(u, N + N * N + M + M * M + (0 if ident else 2 * M * (e - b) + M), gen); u.outs(N + N * N); u.nsamp = 100

        def f(inp, tr, o, io):
            d = max(abs(p - q) for p, q in zip(o, tr))
            return None if d < 1e-8 * (1 + max(map(abs, tr))) else 'the update differs from K = C H^T S^-1 by %g' % d
        oracle(u, 'optimal gain', f)


indef('kal_meas_2_indef', 'vc_kal_meas_2', 4, 2, 1, 4); indef('kal_meas_3_indef', 'vc_kal_meas_3', 3, 3, 0, 3); indef('kal_id_2_indef', 'vc_kal_id_2', 4, 2, 1, 3); indef('kal_id_3_indef', 'vc_kal_id_3', 4, 3, 1, 4)
