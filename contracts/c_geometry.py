"""Point transformation, projection and normalisation; conics and quadrics."""
from spec import *
import lapack, stubs
CPP = 'geometry.cpp'
HALF = T(1) / 2


def hom(x, n, planar=False):
    """homogeneous point of size n from x (a 2D point under a 4-column matrix lies in the plane z = 0)"""
    x = list(x)
    if len(x) == n:
        return x
    while len(x) < n - 1:
        x.append(ZERO)
    return x + [ONE]


def trans(r, c, n):
    @unit('pt_trans_%d%d%d' % (r, c, n), CPP, bounded='two points per call')
    def _(u):
        m = u.mat('m', r, c); p = [u.vec('p%d' % i, n) for i in range(2)]
        u.inputs(m, p)
        o = u.outs(2 * r + 1)
        for i in range(2):
            u.eqv('point %d is the matrix times the homogeneous point' % i, o[r * i:r * i + r], mv(m, hom(p[i], c)))
        u.eq('one result per point', o[2 * r], T(2))


for a in ((2, 3, 2), (2, 3, 3), (3, 3, 2), (3, 3, 3), (3, 4, 2), (3, 4, 3), (3, 4, 4), (4, 4, 2), (4, 4, 3), (4, 4, 4)):
    trans(*a)


def proj(r, c, n):
    @unit('pt_proj_%d%d%d' % (r, c, n), CPP, bounded='two points per call')
    def _(u):
        m = u.mat('m', r, c); p = [u.vec('p%d' % i, n) for i in range(2)]
        u.inputs(m, p)
        o = u.outs(5)
        for i in range(2):
            h = mv(m, hom(p[i], c))
            u.requires(ne(h[2], ZERO))
            u.eqv('point %d is the dehomogenised matrix product' % i, o[2 * i:2 * i + 2], [h[0] / h[2], h[1] / h[2]])
        u.eq('one result per point', o[4], T(2))


for a in ((3, 3, 2), (3, 4, 2), (3, 4, 3), (3, 4, 4)):
    proj(*a)


def norm_unit(n):
    @unit('pt_norm_%d' % n, CPP, bounded='three points')
    def _(u):
        p = [u.vec('p%d' % i, n) for i in range(3)]
        u.inputs(p)
        o = u.outs(2 * n)
        for k in range(n):
            mean = (p[0][k] + p[1][k] + p[2][k]) / 3
            dev = [x[k] - mean for x in p]
            u.eq('shift is the mean[%d]' % k, o[k], mean)
            u.eq('scale is the standard deviation[%d]' % k, o[n + k] * o[n + k], norm2(dev) / 3)
            u.holds('scale is not negative[%d]' % k, ge(o[n + k], ZERO))

    @unit('pt_normmat_%d' % n, CPP)
    def _(u):
        sh = u.vec('sh', n); sc = u.vec('sc', n)
        u.inputs(sh, sc)
        for x in sc:
            u.requires(ne(x, ZERO))
        o = u.outs(2 * (n + 1) ** 2)
        m = [o[(n + 1) * i:(n + 1) * (i + 1)] for i in range(2 * (n + 1))]
        a, b = m[:n + 1], m[n + 1:]
        x = u.vec('x', n)
        y = mv(a, x + [ONE])
        u.eqv('normalised point', y, [(x[i] - sh[i]) / sc[i] for i in range(n)] + [ONE])
        u.eqv('inverse undoes the normalisation', mv(b, y), x + [ONE])


norm_unit(2); norm_unit(3)


# ---------------------------------------------------------------- conics

def cmat(c):
    a, b, cc, d, e, f = c
    return [[a, b * HALF, d * HALF], [b * HALF, cc, e * HALF], [d * HALF, e * HALF, f]]


def form(c, x):
    h = list(x) + [ONE]
    return dot(h, mv(cmat(c), h))


@unit('con_matrix', CPP)
def _(u):
    c = u.vec('c', 6); u.inputs(c)
    o = u.outs(15)
    u.eqv('symmetric matrix of the form', o[:9], flat(cmat(c)))
    u.eqv('round trip', o[9:], c)


@unit('con_frommatrix', CPP)
def _(u):
    m = u.mat('m', 3, 3); u.inputs(m)
    x = u.vec('x', 2); h = x + [ONE]
    u.eq('same quadratic form', form(u.outs(6), x), dot(h, mv(m, h)))


@unit('con_inverse', CPP)
def _(u):
    c = u.vec('c', 6); u.inputs(c)
    u.requires(ne(det3(cmat(c)), ZERO))
    u.eqv('product of the matrices is the identity', flat(mm(cmat(c), cmat(u.outs(6)))), flat(eye(3)), tol=1e-5)


@unit('con_det', CPP)
def _(u):
    c = u.vec('c', 6); u.inputs(c)
    u.eq('determinant of the matrix', u.outs(1)[0], det3(cmat(c)))


@unit('con_center', CPP)
def _(u):
    c = u.vec('c', 6); u.inputs(c)
    x = u.outs(2)
    u.throw_if = eq(4 * c[0] * c[2] - c[1] * c[1], ZERO)
    u.eq('gradient x', 2 * c[0] * x[0] + c[1] * x[1] + c[3], ZERO)
    u.eq('gradient y', c[1] * x[0] + 2 * c[2] * x[1] + c[4], ZERO)


@unit('con_pixel', CPP)
def _(u):
    c = u.vec('c', 6); x = u.vec('x', 2); u.inputs(c, x)
    u.eq('x^T C x', u.outs(1)[0], form(c, x))


@unit('con_scale2', CPP)
def _(u):
    c = u.vec('c', 6); s = u.vec('s', 2); u.inputs(c, s)
    u.requires(ne(s[0], ZERO), ne(s[1], ZERO))
    x = u.vec('x', 2)
    u.eq('scaled points lie on it', form(u.outs(6), [s[0] * x[0], s[1] * x[1]]), form(c, x))


@unit('con_scale1', CPP)
def _(u):
    c = u.vec('c', 6); s = u.real('s'); u.inputs(c, s)
    u.requires(ne(s, ZERO))
    x = u.vec('x', 2)
    u.eq('scaled points lie on it', form(u.outs(6), vscale(s, x)), form(c, x))


@unit('con_translate', CPP)
def _(u):
    c = u.vec('c', 6); t = u.vec('t', 2); u.inputs(c, t)
    x = u.vec('x', 2)
    u.eq('moved points lie on it', form(u.outs(6), vadd(x, t)), form(c, x))


@unit('con_flip', CPP)
def _(u):
    c = u.vec('c', 6); h = u.real('h'); u.inputs(c, h)
    x = u.vec('x', 2)
    u.eq('mirrored points lie on it', form(u.outs(6), [x[0], h - 1 - x[1]]), form(c, x))


@unit('con_class', CPP)
def _(u):
    c = u.vec('c', 6); e = u.real('e', near=(0.05, 1)); u.inputs(c, e)
    u.requires(gt(e, ZERO))
    io = u.iouts(5)
    d = 4 * c[0] * c[2] - c[1] * c[1]
    yes = lambda k: Cond('bv', io[k] != 0)
    no = lambda k: Cond('bv', io[k] == 0)
    u.holds('ellipse', yes(0), when=[gt(d, ZERO)])
    u.holds('no ellipse', no(0), when=[le(d, ZERO)])
    u.holds('hyperbola', yes(1), when=[lt(d, ZERO)])
    u.holds('no hyperbola', no(1), when=[ge(d, ZERO)])
    u.holds('parabola', yes(2), when=[lt(absv(d), e)])
    u.holds('no parabola', no(2), when=[ge(absv(d), e)])
    dm = absv(det3(cmat(c)))
    u.holds('degenerate', yes(3), when=[lt(dm, e)])
    u.holds('not degenerate', no(3), when=[ge(dm, e)])
    u.holds('circle', yes(4), when=[le(absv(c[1]), e), le(absv(c[0] - c[2]), e), gt(d, ZERO)])
    u.holds('no circle: cross term', no(4), when=[gt(absv(c[1]), e)])
    u.holds('no circle: unequal axes', no(4), when=[gt(absv(c[0] - c[2]), e)])
    u.holds('no circle: not an ellipse', no(4), when=[le(d, ZERO)])


def ellipse(u):
    """a real ellipse: positive definite quadratic part, negative value at the centre"""
    c = u.vec('c', 6)
    d = 4 * c[0] * c[2] - c[1] * c[1]
    u.requires(gt(c[0], ZERO), gt(c[2], ZERO), gt(d, ZERO), lt(det3(cmat(c)), ZERO))

    def samp(rng):
        import math
        t = rng.uniform(-3, 3); A = rng.uniform(0.3, 1); B = rng.uniform(1.2, 3); x, y = rng.uniform(-2, 2), rng.uniform(-2, 2)
        a = A * math.cos(t) ** 2 + B * math.sin(t) ** 2
        b = 2 * (A - B) * math.cos(t) * math.sin(t)
        cc = A * math.sin(t) ** 2 + B * math.cos(t) ** 2
        dd, ee = -2 * a * x - b * y, -2 * cc * y - b * x
        f = a * x * x + b * x * y + cc * y * y - rng.uniform(0.3, 2)
        return dict(zip([v.val for v in c], [a, b, cc, dd, ee, f]))
    u.group([v.val for v in c], samp)
    return c


def limits(name, sign):
    @unit('con_updown' + name, CPP, entry='vc_con_updown')
    def _(u):
        c = ellipse(u); u.inputs([sign * x for x in c])
        o = u.outs(2)
        for k, y in enumerate(o):
            b = c[1] * y + c[3]
            u.eq('horizontal line %d touches the conic' % k, b * b, 4 * c[0] * (c[2] * y * y + c[4] * y + c[5]))
        u.holds('ordered', le(o[0], o[1]))

    @unit('con_leftright' + name, CPP, entry='vc_con_leftright')
    def _(u):
        c = ellipse(u); u.inputs([sign * x for x in c])
        o = u.outs(2)
        for k, x in enumerate(o):
            b = c[1] * x + c[4]
            u.eq('vertical line %d touches the conic' % k, b * b, 4 * c[2] * (c[0] * x * x + c[3] * x + c[5]))
        u.holds('ordered', le(o[0], o[1]))


limits('', ONE)
limits('_neg', -ONE)


@unit('con_horizontal', CPP)
def _(u):
    c = u.vec('c', 6); y = u.real('y'); u.inputs(c, y)
    b = c[1] * y + c[3]
    u.requires(ne(c[0], ZERO), ge(b * b, 4 * c[0] * (c[2] * y * y + c[4] * y + c[5])))
    o = u.outs(2)
    for k in range(2):
        u.eq('point %d lies on the conic' % k, form(c, [o[k], y]), ZERO)
    u.eq('both intersections', o[0] + o[1], -b / c[0])
    u.holds('ordered', le(o[0], o[1]))


def tilted(name, k):
    """contracts of angle, axes and area for ellipses A x'^2 + (A+D) y'^2 = m about (p,q), x' along (c,s); A, D, m > 0.
    Every ellipse that is no circle has this form with c > 0 or s > 0; the cases split where the code may branch."""
    def setup(u, sign=ONE):
        A = u.real('A', near=(0.2, 3), positive=True); m = u.real('m', near=(0.2, 3), positive=True)
        D = u.real('D', near=(0.2, 3), positive=True); p, q = u.real('p'), u.real('q')
        if k == 'circle':
            D, (c, s) = ZERO, (ONE, ZERO)
        elif k == 'diagp':
            c = s = sqrt(const(2)) / 2
        elif k == 'diagn':
            c, s = sqrt(const(2)) / 2, -sqrt(const(2)) / 2
        else:
            v = u.unitvec('v', 2)
            u.ctx.pos = frozenset(set(u.ctx.pos) | {v[0].val})
            c, s = v if k == 'flat' else v[::-1]
            u.requires(gt(c if k == 'flat' else s, ZERO), gt(c * c, s * s) if k == 'flat' else gt(s * s, c * c))

            def samp(rng):
                import math
                t = rng.uniform(-0.77, 0.77)
                r = (math.cos(t), math.sin(t))
                return dict(zip([x.val for x in v], r))
            u.group([x.val for x in v], samp)
        B = A + D
        a, b, cc = A * c * c + B * s * s, 2 * (A - B) * c * s, A * s * s + B * c * c
        u.inputs([sign * x for x in (a, b, cc, -2 * a * p - b * q, -2 * cc * q - b * p, a * p * p + b * p * q + cc * q * q - m)])
        return A, B, m, c, s

    @unit('con_angle_' + k, CPP, entry='vc_con_angle')
    def _(u):
        A, B, m, c, s = setup(u)
        t = u.outs(1)[0]
        if k == 'circle':
            u.eq('angle of a circle is zero', t, ZERO)
        else:
            u.eq('cosine of the direction of the longer axis', cos(t), c)
            u.eq('sine of the direction of the longer axis', sin(t), s)

    @unit('con_axes_' + k, CPP, entry='vc_con_axes')
    def _(u):
        A, B, m, c, s = setup(u)
        o = u.outs(2)
        u.eq('longer axis', o[0], sqrt(m / A))
        u.eq('shorter axis', o[1], sqrt(m / B))

    for nm, sign in (('', ONE), ('_neg', -ONE)):
        @unit('con_area_' + k + nm, CPP, entry='vc_con_area')
        def _(u, sign=sign):
            A, B, m, c, s = setup(u, sign)
            u.eq('area', u.outs(1)[0], PI * sqrt(m / A) * sqrt(m / B))


for _k in ('flat', 'steep', 'circle', 'diagp', 'diagn'):
    tilted('con', _k)


def eccentricity(name, sign):
    @unit('con_ecc' + name, CPP, entry='vc_con_ecc')
    def _(u):
        c = ellipse(u); u.inputs([sign * x for x in c])
        e = u.outs(1)[0]
        # 1 - e^2 is the ratio of the eigenvalues, so (2-e^2)^2 / (1-e^2) = trace^2 / det
        d = c[0] * c[2] - c[1] * c[1] / 4
        tr = c[0] + c[2]
        w = ONE - e * e
        u.eq('ratio of the axes', (ONE + w) * (ONE + w) * d, tr * tr * w)
        u.holds('less than one', lt(e, ONE))
        u.holds('not negative', ge(e, ZERO))

    @unit('con_ecc_hyp' + name, CPP, entry='vc_con_ecc')
    def _(u):
        # the hyperbola A x'^2 - B y'^2 = m about (p,q), x' along (c,s)
        A = u.real('A', near=(0.2, 3), positive=True); B = u.real('B', near=(0.2, 3), positive=True)
        m = u.real('m', near=(0.2, 3), positive=True); p, q = u.real('p'), u.real('q')
        c, s = u.unitvec('v', 2)
        a, b, cc = A * c * c - B * s * s, 2 * (A + B) * c * s, A * s * s - B * c * c
        u.inputs([sign * x for x in (a, b, cc, -2 * a * p - b * q, -2 * cc * q - b * p, a * p * p + b * p * q + cc * q * q - m)])
        e = u.outs(1)[0]
        u.eq('one plus the squared ratio of the axes', e * e * B, A + B)
        u.holds('not negative', ge(e, ZERO))


eccentricity('', ONE)
eccentricity('_neg', -ONE)


def dualquad(q):
    a, b, c, f, g, h, p, qq, r, d = q
    return [[a, f, g, p], [f, b, h, qq], [g, h, c, r], [p, qq, r, d]]


def project_dual(P, Q): return mm(mm(P, Q), mt(P))


@unit('con_quadric', CPP, cost=3)
def _(u):
    P = u.mat('P', 3, 4); q = u.vec('q', 10); u.inputs(P, q)
    D = project_dual(P, dualquad(q))
    u.requires(ne(det3(D), ZERO))
    u.cut(D)
    u.eqv('point conic of the projected dual quadric', flat(mm(cmat(u.outs(6)), D)), flat(eye(3)), tol=1e-4)


@unit('con_ell2quad', CPP)
def _(u):
    e = u.vec('e', 6); u.inputs(e)
    s, t = e[:3], e[3:]
    # x = t + S u with |u| = 1; a plane (n, k) is tangent iff |S n|^2 = (n.t + k)^2
    n = u.vec('n', 3); k = u.real('k')
    Q = dualquad(u.outs(10))
    pl = n + [k]
    h = dot(n, t) + k
    u.eq('tangent planes of the ellipsoid', dot(pl, mv(Q, pl)), norm2([s[i] * n[i] for i in range(3)]) - h * h)


@unit('con_ellipsoid', CPP, cost=3)
def _(u):
    P = u.mat('P', 3, 4); e = u.vec('e', 6); u.inputs(P, e)
    s, t = e[:3], e[3:]
    S = [[s[i] * s[i] if i == j else ZERO for j in range(3)] for i in range(3)]
    Q = [[S[i][j] - t[i] * t[j] for j in range(3)] + [-t[i]] for i in range(3)] + [[-t[0], -t[1], -t[2], -ONE]]
    D = project_dual(P, Q)
    u.requires(ne(det3(D), ZERO))
    u.cut(D)
    u.eqv('point conic of the projected ellipsoid', flat(mm(cmat(u.outs(6)), D)), flat(eye(3)), tol=1e-4)


def conic_information(c, ps):
    """sum of xi xi^T / (variance of the residual of xi), xi = (x2, 2xy, y2, 2x, 2y, 1); image noise of variance 1e-4"""
    X, Y = var('cov_x'), var('cov_y')
    xi = [X * X, 2 * X * Y, Y * Y, 2 * X, 2 * Y, ONE]
    D = jac(xi, [X, Y])
    n2 = norm2(c)
    M = [[ZERO] * 6 for _ in range(6)]
    ds = []
    for p in ps:
        s = {X.id: p[0], Y.id: p[1]}
        x = [tm.subst(t, s) for t in xi]
        g = [dot(c, [tm.subst(r[k], s) for r in D]) for k in range(2)]
        v = T(0.0001) * norm2(g) / n2
        ds.append(norm2(g))
        M = [[M[i][j] + x[i] * x[j] / v for j in range(6)] for i in range(6)]
    return M, ds


@unit('con_cov2', CPP, cost=4, bounded='2 points')
def _(u):
    c = u.vec('c', 6); ps = [u.vec('p', 2), u.vec('q', 2)]
    G = [[u.ghost('g%d%d' % (i, j)) for j in range(6)] for i in range(6)]
    M, ds = conic_information(c, ps)
    u.clear_of_zero(norm2(c), 0.01)
    for d in ds:
        u.clear_of_zero(d, 0.01)

    def h(ex, a, rt, name):
        A = stubs.rd_mat(ex, a[1][1], 6, 6)
        for i in range(6):
            for j in range(6):
                lapack.require(ex, 'information of the points [%d][%d]' % (i, j), A[i][j], M[i][j])
        stubs.wr_mat(ex, a[0][1], G)
    u.stubs[r'Math::pseudoInvert_matrix<double, ?6ul, ?6ul>'] = h
    u.inputs(c, ps)
    u.eqv('covariance is the inverse of the information', u.outs(36), flat(G))


@unit('con_cov8', CPP, cost=2, sampled='8 points off the conic')
def _(u):
    import numpy as np
    from c_align import sampled_inputs, oracle

    def gen(r):
        return [r.uniform(-1, 1) for _ in range(5)] + [r.choice([-1, 1]) * r.uniform(.5, 1)] + [r.uniform(-2, 2) for _ in range(16)], None
    sampled_inputs(u, 22, gen)
    u.outs(36)

    def f(inp, truth, out, iout):
        c = np.array(inp[:6]); M = np.zeros((6, 6))
        for i in range(8):
            x, y = inp[6 + 2 * i:8 + 2 * i]
            xi = np.array([x * x, 2 * x * y, y * y, 2 * x, 2 * y, 1])
            g = np.array([[2 * x, 2 * y, 0, 2, 0, 0], [0, 2 * x, 2 * y, 0, 2, 0]]).dot(c)
            M += np.outer(xi, xi) * c.dot(c) / (1e-4 * g.dot(g))
        k = np.linalg.cond(M)
        if k > 1e8:
            return None
        e = abs(np.array(out).reshape(6, 6).dot(M) - np.eye(6)).max()
        return None if e < 1e-14 * k + 1e-6 else 'covariance times information differs from 1 by %g' % e
    oracle(u, 'covariance of the conic', f)
