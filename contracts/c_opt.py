"""Optimisers: each step solves the damped normal equations, the result is never worse than the start."""
from spec import *
import lapack
import z3
from lapack import syminv
CPP = 'opt.cpp'


def msr(v): return [[x] for x in v]


def step(J, r, lam):
    n = len(J[0])
    A = mm(mt(J), J)
    for i in range(n):
        A[i][i] = A[i][i] + lam
    return flat(mm(syminv(A), msr(mv(mt(J), r))))


def square_lsq(ex, A, B):
    """least squares of a square regular system is its solution"""
    return lapack.mul(lapack.geninv(ex.unit.ctx, A), B)


def evals(u, n, M, N):
    ys, js = [], []
    inp = []
    for k in range(n):
        ys.append(u.vec('y%d_' % k, M)); js.append(u.mat('j%d_' % k, M, N))
        inp += [ys[-1], js[-1]]
    return ys, js, inp


def lm_unit(name, entry=None):
    @unit(name, CPP, cost=6, bounded='two iterations, two parameters, two measurements; arbitrary function values and derivatives')
    def _(u):
        u.assume_spd = True
        u.ghost_lsq = square_lsq
        p, m = u.vec('p', 2), u.vec('m', 2)
        ys, js, inp = evals(u, 3, 2, 2)
        u.inputs(p, m, *inp)
        o = u.outs(10)
        a = [o[0:2], o[2:4], o[4:6]]
        r = [vsub(m, y) for y in ys]
        e = [norm2(x) for x in r]
        lam = ONE
        acc1 = lt(e[1], e[0])
        u.eqv('first evaluation at the start', a[0], p)
        u.eqv('damped step', a[1], vadd(p, step(js[0], r[0], lam)))
        u.eqv('next damped step after an improvement', a[2], vadd(a[1], step(js[1], r[1], lam / 10)), when=[acc1])
        u.eqv('stronger damping after a failure', a[2], vadd(p, step(js[0], r[0], lam * 10)), when=[acc1.neg()])
        best1 = [(acc1, a[1], e[1]), (acc1.neg(), p, e[0])]
        for c, q, x in best1:
            better = lt(e[2], x)
            u.eqv('better step is kept', o[6:8], a[2], when=[c, better])
            u.eq('its residual is returned', o[8], e[2], when=[c, better])
            u.eqv('worse step is dropped', o[6:8], q, when=[c, better.neg()])
            u.eq('the best residual is returned', o[8], x, when=[c, better.neg()])
        u.holds('never worse than the start', le(o[8], e[0]))
        u.eq('evaluations', o[9], T(3))


lm_unit('opt_lm_chol')
lm_unit('opt_lm_qr')
lm_unit('opt_lm_svd')


@unit('opt_lm_step', CPP, cost=4, bounded='three iterations, one parameter; arbitrary function, damping and damping factor')
def _(u):
    u.assume_spd = True
    p, m = u.vec('p', 1), u.vec('m', 2)
    ys, js, inp = evals(u, 3, 2, 1)
    size = u.real('size', near=(0.1, 3), positive=True); fac = u.real('fac', near=(2, 12), positive=True)
    u.requires(gt(size, ZERO), gt(fac, ONE), lt(size, T(10 ** 50)), lt(fac, T(10 ** 50)))
    # the fourth evaluation repeats given numbers through the damping parameters (only residuals matter there)
    y3, j3 = [size, fac], [[u.real('k0')], [u.real('k1')]]
    u.inputs(p, m, *(inp + [y3, j3]))
    o = u.outs(7)
    a = o[:4]
    r = [vsub(m, y) for y in ys + [y3]]
    e = [norm2(x) for x in r]
    u.eq('start', a[0], p[0])
    u.eq('first step', a[1], p[0] + step(js[0], r[0], size)[0])
    c1 = lt(e[1], e[0])
    for b1, base, J, R, E, l1 in ((c1, a[1], js[1], r[1], e[1], size / fac), (c1.neg(), a[0], js[0], r[0], e[0], size * fac)):
        u.eq('second step', a[2], base + step(J, R, l1)[0], when=[b1])
        c2 = lt(e[2], E)
        for b2, base2, J2, R2, E2, l2 in ((c2, a[2], js[2], r[2], e[2], l1 / fac), (c2.neg(), base, J, R, E, l1 * fac)):
            u.eq('third step', a[3], base2 + step(J2, R2, l2)[0], when=[b1, b2])
            c3 = lt(e[3], E2)
            u.eq('kept', o[4], a[3], when=[b1, b2, c3])
            u.eq('dropped', o[4], base2, when=[b1, b2, c3.neg()])
            u.eq('residual', o[5], e[3], when=[b1, b2, c3])
            u.eq('old residual', o[5], E2, when=[b1, b2, c3.neg()])
    u.eq('evaluations', o[6], T(4))


@unit('opt_lm_weights', CPP, cost=6, bounded='two iterations, two parameters, two measurements')
def _(u):
    u.assume_spd = True
    p, m = u.vec('p', 2), u.vec('m', 2)
    ys, js, inp = evals(u, 3, 2, 2)
    sh = u.real('sh')
    sw = [[u.real('w%d%d' % (k, i), near=(0.1, 2), positive=True) for i in range(2)] for k in range(3)]
    u.requires(*[gt(x, ZERO) for q in sw for x in q])
    u.inputs(p, m, *(inp + [sh, [[x * x for x in q] for q in sw]]))
    o = u.outs(16)
    a = [o[0:2], o[2:4], o[4:6]]
    r = [[w * x for w, x in zip(q, vsub(m, y))] for q, y in zip(sw, ys)]
    js = [[[w * x for x in row] for w, row in zip(q, J)] for q, J in zip(sw, js)]
    e = [norm2(x) for x in r]
    acc = lt(e[1], e[0])
    for k, y in enumerate(ys):
        u.eqv('weights of evaluation %d belong to its residuals' % k, o[10 + 2 * k:12 + 2 * k], vsub(m, y))
    u.eqv('weighted step, then normalised', a[1], [x + sh for x in vadd(p, step(js[0], r[0], ONE))])
    u.eqv('weighted step after an improvement', a[2], [x + sh for x in vadd(a[1], step(js[1], r[1], ONE / 10))], when=[acc])
    u.eqv('weighted step after a failure', a[2], [x + sh for x in vadd(p, step(js[0], r[0], T(10)))], when=[acc.neg()])
    for c, q, x in ((acc, a[1], e[1]), (acc.neg(), p, e[0])):
        better = lt(e[2], x)
        u.eqv('better step is kept', o[6:8], a[2], when=[c, better])
        u.eqv('worse step is dropped', o[6:8], q, when=[c, better.neg()])
        u.eq('weighted residual', o[8], e[2], when=[c, better])
        u.eq('old weighted residual', o[8], x, when=[c, better.neg()])


@unit('opt_lm_nan', CPP, sampled='a step into a region where the function is not a number')
def _(u):
    p, m = u.vec('p', 2), u.vec('m', 2)
    ys, js, inp = evals(u, 3, 2, 2)
    u.inputs(p, m, *inp)
    u.outs(10)

    def chk(env, inp, out, io):
        e0 = sum((inp[2 + i] - inp[4 + i]) ** 2 for i in range(2))
        if not out[8] <= e0 * (1 + 1e-12):
            return 'residual %r after starting with %g' % (out[8], e0)
        if any(v != v for v in out[6:8]):
            return 'parameters became NaN'
    u.oracles.append(('never worse than the start', chk))


@unit('opt_term', CPP)
def _(u):
    n, k = u.int('n'), u.int('k')
    pr, a, b = u.real('pr', near=(-0.2, 1)), u.real('a'), u.real('b')
    u.inputs(pr, a, b); u.iinputs(n, k)
    o = u.iouts(1)
    done = Or(And(Cond('bv', n != 0), Cond('bv', z3.UGE(k, n))), And(ne(pr, ZERO), lt(absv(a - b), pr * b)))
    u.holds('stops', Cond('bv', o[0] == 1), when=[done])
    u.holds('continues', Cond('bv', o[0] == 0), when=[done.neg()])


@unit('opt_disc', CPP)
def _(u):
    x = u.vec('x', 2); c = u.mat('c', 2, 5); h = u.real('h', near=(0.001, 0.1), positive=True)
    u.requires(gt(h, ZERO))
    u.inputs(x, c, h)
    o = u.outs(13)
    u.eqv('value', o[:2], [k[0] + k[1] * x[0] + k[2] * x[1] + k[3] * x[0] * x[0] + k[4] * x[1] * x[1] for k in c])
    u.eqv('value alone', o[10:12], o[:2])
    u.eq('number of values', o[12], T(2))
    for i, k in enumerate(c):
        for j in range(2):
            for zero in (0, 1):
                e = h if zero else x[j] * h
                g = k[1 + j] + k[3 + j] * (2 * x[j] + e)
                w = [eq(x[j], ZERO) if zero else ne(x[j], ZERO)]
                u.eq('difference quotient', o[2 + 2 * i + j], g, when=w, tol=1e-6)
                u.eq('difference quotient alone', o[6 + 2 * i + j], g, when=w, tol=1e-6)


@unit('opt_tukey', CPP, bounded='two measurements of two rows')
def _(u):
    e = u.vec('e', 4, near=(-2, 2)); c = u.real('c', positive=True, near=(.3, 3))
    u.inputs(e, c)
    o = u.outs(4); io = u.iouts(1)
    u.holds('weights are in use', Cond('bv', io[0] == 0))
    for k in range(2):
        s = e[2 * k] * e[2 * k] + e[2 * k + 1] * e[2 * k + 1]
        u.clear_of_zero(s, 1e-6)
        c2 = c * c
        w = o[2 * k]
        u.eq('rows of a measurement have the same weight %d' % k, o[2 * k + 1], w)
        u.eq('outliers have the limit weight %d' % k, w * w * c2, T(6), when=[gt(s, c2)])
        u.eq('inliers are weighted by the root of the loss %d' % k, w * w * c2 * (1 - (1 - s / c2) ** 3), T(6), when=[le(s, c2)])
        u.holds('weight is not negative %d' % k, ge(w, ZERO))
