"""Averages, Gaussian estimates, correlation, Mahalanobis distance, densities."""
from spec import *
import z3
CPP = 'stats.cpp'
INV = 'stats_inv.cpp'
B = lambda e: Cond('bv', e)


def mean(vs):
    r = vs[0]
    for v in vs[1:]:
        r = vadd(r, v)
    return [x / len(vs) for x in r]


def outer(a, b):
    return [[x * y for y in b] for x in a]


for nm in ('double', 'scalar'):
    def mk(nm=nm):
        @unit('sta_avg_' + nm, CPP, bounded='three values')
        def _(u):
            x = u.vec('x', 3); u.inputs(x)
            u.eq('arithmetic mean', u.outs(1)[0], (x[0] + x[1] + x[2]) / 3)
    mk()


@unit('sta_avg_vec', CPP, bounded='three values')
def _(u):
    x = [u.vec('x%d' % i, 3) for i in range(3)]; u.inputs(x)
    u.eqv('arithmetic mean', u.outs(3), mean(x))


def aligned(u, q, sg):
    """q with the sign that makes w not negative; sg: a variable +-1 describing it"""
    return [sg * c for c in q]


def signs(u, qs):
    s = []
    for i, q in enumerate(qs):
        # forks the specification: s = 1 if w >= 0 else -1
        s.append(q[3])
    return s


def avg_cases(qs):
    """(guards, sign pattern) for all hemisphere combinations"""
    import itertools
    for pat in itertools.product((1, -1), repeat=len(qs)):
        yield [ge(q[3], ZERO) if p > 0 else lt(q[3], ZERO) for q, p in zip(qs, pat)], pat


@unit('sta_avg_quat', CPP, bounded='two values', cost=3)
def _(u):
    qs = [u.quat('a'), u.quat('b')]; u.inputs(qs)
    o = u.outs(4)
    for g, pat in avg_cases(qs):
        m = mean([vscale(p, q) for p, q in zip(pat, qs)])
        u.requires(Or(*([c.neg() for c in g] + [lt(ZERO, norm2(m))])))
        u.eqv('normalised sum of the hemisphere-aligned quaternions %s' % (pat,), o, [c / norm(m) for c in m], when=g)


@unit('sta_avg_pose', CPP, bounded='two values', cost=3)
def _(u):
    qs = [u.quat('a'), u.quat('b')]; ts = [u.vec('s', 3), u.vec('t', 3)]
    u.inputs(qs[0], ts[0], qs[1], ts[1])
    o = u.outs(7)
    for g, pat in avg_cases(qs):
        m = mean([vscale(p, q) for p, q in zip(pat, qs)])
        u.requires(Or(*([c.neg() for c in g] + [lt(ZERO, norm2(m))])))
        u.eqv('normalised sum of the hemisphere-aligned quaternions %s' % (pat,), o[:4], [c / norm(m) for c in m], when=g)
    u.eqv('mean translation', o[4:], mean(ts))


@unit('sta_avg_errvec', CPP, bounded='three values')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(3)]; u.inputs(x)
    o = u.outs(6); m = mean(x)
    u.eqv('arithmetic mean', o[:2], m)
    c = zeros(2, 2)
    for v in x:
        c = madd(c, outer(vsub(v, m), vsub(v, m)))
    u.eqv('sample covariance', o[2:], [e / 3 for e in flat(c)])


def errpose_cov(ts, qs, q0):
    """sample covariance of (t - mean, vector part of q0* q)"""
    tm_ = mean(ts)
    c = zeros(6, 6)
    for t, q in zip(ts, qs):
        d = vsub(t, tm_) + qmul(qconj(q0), q)[:3]
        c = madd(c, outer(d, d))
    return [e / len(ts) for e in flat(c)]


@unit('sta_avg_errpose', CPP, bounded='two values', cost=6, limit=300)
def _(u):
    qs = [u.quat('a'), u.quat('b')]; ts = [u.vec('s', 3), u.vec('t', 3)]
    u.inputs(qs[0], ts[0], qs[1], ts[1])
    # one hemisphere; the sign alignment is the contract of the pose average
    u.requires(ge(qs[0][3], ZERO), ge(qs[1][3], ZERO))
    m = mean(qs)
    u.requires(lt(ZERO, norm2(m)))
    o = u.outs(43)
    q0 = [c / norm(m) for c in m]
    u.eqv('mean rotation', o[:4], q0)
    u.eqv('mean translation', o[4:7], mean(ts))
    u.eqv('covariance of the translation and of the small rotation behind the mean', o[7:], errpose_cov(ts, qs, q0))


# ---------------------------------------------------------------- one step from an arbitrary state
@unit('stai_init', INV, optional=True)
def _(u):
    n = 1 + 3 + 4 + 7 + 3 + 7 + 9 + 49
    u.eqv('empty sums', u.outs(n), [ZERO] * n)
    u.holds('no value counted', B(u.iouts(1)[0] == 0))


def step(u, nst):
    n = u.int('n', lo=1, hi=10 ** 9, sampler=lambda r: r.randint(1, 9))
    s = u.vec('s', nst)
    u.iinputs(n)
    u.holds('one more value', B(u.iouts(1)[0] == n + 1))
    nr = u.int2real(n, False)
    u.requires(ge(nr, ONE))
    return nr, s


@unit('stai_double', INV, optional=True)
def _(u):
    n, s = step(u, 1); x = u.real('x'); u.inputs(s, x)
    u.eqv('sum', u.outs(2)[:1], [s[0] + x]); u.eq('mean', u.out[1], s[0] / n)


@unit('stai_vec', INV, optional=True)
def _(u):
    n, s = step(u, 3); x = u.vec('x', 3); u.inputs(s, x)
    o = u.outs(6)
    u.eqv('sum', o[:3], vadd(s, x)); u.eqv('mean', o[3:], [c / n for c in s])


@unit('stai_quat', INV, optional=True)
def _(u):
    n, s = step(u, 4); q = u.quat('q'); u.inputs(s, q)
    u.requires(lt(ZERO, norm2(s)))
    o = u.outs(8)
    u.eqv('sum', o[:4], vadd(s, q), when=[ge(q[3], ZERO)])
    u.eqv('sum with the sign aligned', o[:4], vsub(s, q), when=[lt(q[3], ZERO)])
    m = [c / n for c in s]
    u.eqv('normalised mean', o[4:], [c / norm(m) for c in m])


@unit('stai_pose', INV, optional=True)
def _(u):
    n, s = step(u, 7); q = u.quat('q'); t = u.vec('t', 3); u.inputs(s, q, t)
    u.requires(lt(ZERO, norm2(s[3:])))
    o = u.outs(14)
    u.eqv('sum', o[:7], vadd(s, t + q), when=[ge(q[3], ZERO)])
    u.eqv('sum with the sign aligned', o[:7], vadd(s, t + vneg(q)), when=[lt(q[3], ZERO)])
    m = [c / n for c in s]
    u.eqv('mean', o[7:], m[:3] + [c / norm(m[3:]) for c in m[3:]])


@unit('stai_errvec', INV, optional=True)
def _(u):
    n, s = step(u, 2); c = u.mat('c', 2, 2); x = u.vec('x', 2); u.inputs(s, c, x)
    o = u.outs(12)
    u.eqv('sum', o[:2], vadd(s, x)); u.eqv('sum of squares', o[2:6], flat(madd(c, outer(x, x))))
    m = [e / n for e in s]
    u.eqv('mean', o[6:8], m); u.eqv('covariance', o[8:], flat(msub(mscale(1 / n, c), outer(m, m))))


@unit('stai_errpose', INV, optional=True, cost=5, limit=300)
def _(u):
    n, s = step(u, 7); c = u.sym('c', 7); q = u.quat('q'); t = u.vec('t', 3); u.inputs(s, c, q, t)
    u.requires(lt(ZERO, norm2(s[3:])))
    o = u.outs(99)
    for g, sg in ((ge(q[3], ZERO), 1), (lt(q[3], ZERO), -1)):
        v = t + vscale(sg, q)
        u.eqv('sum %d' % sg, o[:7], vadd(s, v), when=[g])
        u.eqv('sum of squares %d' % sg, o[7:56], flat(madd(c, outer(v, v))), when=[g])
    m = [e / n for e in s[:3]]
    mq = [e / n for e in s[3:]]
    q0 = [e / norm(mq) for e in mq]
    u.eqv('mean', o[56:63], m + q0)
    # covariance of (t, q0* q): J (c/n - mean mean') J'
    full = m + q0
    cv = msub(mscale(1 / n, c), outer(full, full))
    basis = [[ONE if i == j else ZERO for i in range(4)] for j in range(4)]
    l = mt([qmul(qconj(q0), b) for b in basis])
    j = [[ONE if i == k else ZERO for k in range(7)] for i in range(3)] + [[ZERO] * 3 + l[i] for i in range(3)]
    u.eqv('covariance of the translation and of the small rotation behind the mean', o[63:], flat(mm(mm(j, cv), mt(j))))


# ---------------------------------------------------------------- Gaussians
def gauss_out(u, x, w):
    """w: weights"""
    o = u.outs(8); io = u.iouts(1)
    m = [dot(w, [v[k] for v in x]) for k in range(2)]
    c = zeros(2, 2)
    for v, a in zip(x, w):
        c = madd(c, mscale(a, outer(vsub(v, m), vsub(v, m))))
    u.eqv('mean', o[:2], m)
    u.eqv('covariance', o[2:6], flat(c))
    u.eq('variance is the trace', o[6], c[0][0] + c[1][1])
    u.eq('standard deviation squared', o[7] * o[7], c[0][0] + c[1][1])
    u.holds('standard deviation is not negative', ge(o[7], ZERO))
    u.holds('success', B(io[0] == 1))


@unit('sta_gauss', CPP, bounded='three values')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(3)]; u.inputs(x)
    gauss_out(u, x, [T(1) / 3] * 3)


@unit('sta_gauss_weighted', CPP, bounded='three values')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(3)]; w = u.vec('w', 3, positive=True); u.inputs(x, w)
    gauss_out(u, x, w)


@unit('sta_gauss_index', CPP, bounded='four values, two selected')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(4)]; u.inputs(x)
    gauss_out(u, [x[1], x[3]], [T(1) / 2] * 2)


@unit('sta_gauss_empty', CPP)
def _(u):
    io = u.iouts(2)
    u.holds('no values, no estimate', B(z3.And(io[0] == 0, io[1] == 0)))


# ---------------------------------------------------------------- correlation
def corr(a, b):
    n = len(a)
    ma, mb = sum(a, ZERO) / n, sum(b, ZERO) / n
    da, db = [x - ma for x in a], [x - mb for x in b]
    return dot(da, db), dot(da, da), dot(db, db)


def corr_ob(u, o, a, b, tag=''):
    c, va, vb = corr(a, b)
    u.requires(lt(ZERO, va), lt(ZERO, vb))
    u.eq('covariance over standard deviations' + tag, o * sqrt(va * vb), c)


@unit('sta_corr', CPP, bounded='three values')
def _(u):
    a = u.vec('a', 3); b = u.vec('b', 3); u.inputs(a, b)
    corr_ob(u, u.outs(1)[0], a, b)


@unit('sta_corr_alg', CPP, bounded='three values')
def _(u):
    a = u.vec('a', 3); b = u.vec('b', 3); u.inputs(a, b)
    o = u.outs(3)
    corr_ob(u, o[0], a, b)
    u.eq('empty series correlate', o[1], ONE)
    u.eq('empty series correlate (iterators)', o[2], ONE)


@unit('sta_corr_short', CPP, bounded='two and four values')
def _(u):
    a = u.vec('a', 2); b = u.vec('b', 4); u.inputs(a, b)
    o = u.outs(2)
    corr_ob(u, o[0], a, b[:2], ' over the common length')
    u.eq('symmetric', o[1], o[0])


# ---------------------------------------------------------------- Mahalanobis, density
def spd(u, name, n, **kw):
    """covariance A A' for a lower triangular A with positive diagonal"""
    a = [[u.real('%s%d%d' % (name, i, j), **(dict(positive=True) if i == j else {}), **kw) if j <= i else ZERO for j in range(n)] for i in range(n)]
    return a, mm(a, mt(a))


def maha(u, n):
    @unit('sta_maha%d' % n, CPP, cost=2)
    def _(u):
        m = u.vec('m', n); a, c = spd(u, 'l', n)
        y = u.vec('y', n)
        # x - mean = A y, so the distance is |y|
        x = vadd(m, mv(a, y))
        u.inputs(m, c, x)
        o = u.outs(1)[0]
        u.eq('distance in standard deviations', o * o, norm2(y), tol=1e-6)
        u.holds('not negative', ge(o, ZERO))


maha(None, 2); maha(None, 3)


@unit('sta_pdf2', CPP, cost=2)
def _(u):
    m = u.vec('m', 2); a, c = spd(u, 'l', 2); y = u.vec('y', 2, near=(-2, 2))
    k = u.vec('k', 2); b, d = spd(u, 'h', 2)
    x = vadd(m, mv(a, y))
    da, db = a[0][0] * a[1][1], b[0][0] * b[1][1]
    u.requires(gt(da * da, T(1) / 10 ** 9), gt(db * db, T(1) / 10 ** 9))
    u.inputs(m, c, x, k, d)
    o = u.outs(3)
    u.eq('falls off with half the squared distance', o[0], o[1] * fn('exp', -norm2(y) / 2), tol=1e-6)
    u.eq('peak inverse to the root of the determinant', o[1] * da, o[2] * db)
    u.holds('positive', gt(o[1], ZERO))


@unit('sta_weighted', CPP)
def _(u):
    g = u.vec('g', 6); w = u.vec('w', 2); u.inputs(g, w)
    o = u.outs(5); io = u.iouts(4)
    for nm, i, c in (('less', 0, lt(w[0], w[1])), ('greater', 1, gt(w[0], w[1])), ('equal', 2, eq(w[0], w[1])), ('different', 3, ne(w[0], w[1]))):
        u.holds(nm, B(io[i] == 1), when=[c])
        u.holds('not ' + nm, B(io[i] == 0), when=[c.neg()])
    u.eqv('weights and distribution kept', o, [w[0], ZERO, ZERO, g[0], g[5]])


@unit('sta_loglike', CPP, cost=3, bounded='two distributions, two values')
def _(u):
    gs = []
    for i in range(2):
        m = u.vec('m%d' % i, 2, near=(-1, 1)); a, c = spd(u, 'l%d' % i, 2, near=(0.3, 1.5)); w = u.real('w%d' % i, positive=True)
        u.requires(gt(a[0][0] * a[1][1] * a[0][0] * a[1][1], T(1) / 10 ** 9))
        gs.append((m, c, w))
    x = [u.vec('x%d' % i, 2, near=(-1, 1)) for i in range(2)]
    u.inputs(gs[0][0], gs[0][1], gs[0][2], gs[1][0], gs[1][1], gs[1][2], x)
    o = u.outs(5)
    s = ZERO
    for j in range(2):
        s = s + fn('log', gs[0][2] * o[1 + j] + gs[1][2] * o[3 + j])
    u.eq('mean log of the weighted densities', o[0], s / 2, tol=1e-6)
