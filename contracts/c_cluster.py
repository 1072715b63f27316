"""k-means, start point selection, expectation maximisation."""
import math
import z3
from spec import *
CPP = 'cluster.cpp'
B = lambda e: Cond('bv', e)


def d2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def pairs(v, n, o=0):
    return [(v[o + 2 * i], v[o + 2 * i + 1]) for i in range(n)]


@unit('clu_kmeans_1', CPP, bounded='three points, one mean')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(3)]; m = u.vec('m', 2); u.inputs(x, m)
    o = u.outs(3); io = u.iouts(3)
    mu = [(x[0][k] + x[1][k] + x[2][k]) / 3 for k in range(2)]
    u.eqv('mean of all points', o[1:], mu)
    d = norm2(vsub(mu, m))
    u.eq('last movement: none after a large one', o[0], ZERO, when=[ge(d, T(1.01e-4))])
    u.eq('last movement: the only one if small', o[0], d, when=[lt(d, T(0.99e-4))])
    u.holds('all points belong to it', B(z3.And(io[0] == 0, io[1] == 0, io[2] == 0)))


def nearest(env, inp, out, io, n, k, oc):
    p = pairs(inp, n); c = pairs(out, k, oc)
    if any(v != v for q in c for v in q):
        return 'a mean is not a number'
    for i in range(n):
        j = io[i]
        if not 0 <= j < k:
            return 'point %d has cluster %d' % (i, j)
        b = min(d2(p[i], q) for q in c)
        if d2(p[i], c[j]) > b + 1e-9 * (1 + b):
            return 'point %d is assigned to mean %d, another one is nearer' % (i, j)
    return None


def lloyd(p, m):
    k = len(m)
    tie = False

    def asg(m):
        nonlocal tie
        r = []
        for q in p:
            ds = sorted((d2(q, c), j) for j, c in enumerate(m))
            if k > 1 and ds[1][0] - ds[0][0] < 1e-9 * (1 + ds[0][0]):
                tie = True
            r.append(ds[0][1])
        return r
    ix = asg(m)
    for _ in range(100):
        nm = []
        for j in range(k):
            s = [q for q, i in zip(p, ix) if i == j]
            nm.append((sum(a for a, _ in s) / len(s), sum(b for _, b in s) / len(s)) if s else m[j])
        e = sum(d2(a, b) for a, b in zip(m, nm)) / k
        m = nm
        ix = asg(m)
        if abs(e - 1e-4) < 1e-9:
            tie = True
        if e < 1e-4:
            break
    return m, ix, e, tie


def km(n, k):
    def f(env, inp, out, io):
        w = nearest(env, inp, out, io, n, k, 1)
        if w:
            return w
        m, ix, e, tie = lloyd(pairs(inp, n), pairs(inp, k, 2 * n))
        if tie:
            return None
        if list(io[:n]) != ix or any(math.sqrt(d2(a, b)) > 1e-6 * (1 + abs(b[0]) + abs(b[1])) for a, b in zip(pairs(out, k, 1), m)):
            return 'means %s, alternating assignment and averaging ends at %s' % (pairs(out, k, 1), m)
        if abs(out[0] - e) > 1e-6:
            return 'movement %g, expected %g' % (out[0], e)
    return f


@unit('clu_kmeans_12', CPP, sampled='12 points, 3 means, against Lloyd iterations')
def _(u):
    g = lambda r: r.gauss(0, 1) + r.choice([-4, 0, 4])
    x = [u.vec('x%d' % i, 2, sampler=g) for i in range(12)]; m = [u.vec('m%d' % i, 2, sampler=g) for i in range(3)]; u.inputs(x, m)
    u.outs(7); u.iouts(12)
    u.oracles.append(('clusters', km(12, 3)))


@unit('clu_kmeans_fine', CPP, entry='vc_clu_kmeans_12', sampled='12 points close together (the search stops before it settles), 3 means, against Lloyd iterations')
def _(u):
    g = lambda r: r.uniform(0, 0.1)
    x = [u.vec('x%d' % i, 2, sampler=g) for i in range(12)]; m = [u.vec('m%d' % i, 2, sampler=g) for i in range(3)]; u.inputs(x, m)
    u.outs(7); u.iouts(12)
    u.nsamp = 200
    u.oracles.append(('clusters', km(12, 3)))


@unit('clu_kmeans_32', CPP, sampled='3 points, 2 means, against Lloyd iterations')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(3)]; m = [u.vec('m%d' % i, 2) for i in range(2)]; u.inputs(x, m)
    u.outs(5); u.iouts(3)
    u.oracles.append(('clusters', km(3, 2)))


def from_points(p, c):
    """the means are where alternating assignment and averaging ends that starts with some of the points"""
    import itertools
    d = sorted(set(p))
    k = len(c)
    if math.comb(len(d), k) > 250:
        return None
    for st in itertools.combinations(d, k):
        m, ix, e, tie = lloyd(p, list(st))
        if tie or all(math.sqrt(d2(a, b)) <= 1e-6 * (1 + abs(b[0]) + abs(b[1])) for a, b in zip(sorted(c), sorted(m))):
            return None
    return 'means %s are not reached from any %d of the points' % (c, k)


@unit('clu_kmeans_auto', CPP, sampled='12 points, 3 clusters')
def _(u):
    g = lambda r: r.gauss(0, 1) + r.choice([-4, 0, 4])
    x = [u.vec('x%d' % i, 2, sampler=g) for i in range(12)]; u.inputs(x)
    u.outs(6); u.iouts(14)

    def f(env, inp, out, io):
        if io[0] != 3 or io[1] != 12:
            return '%d means and %d indices' % (io[0], io[1])
        return nearest(env, inp, out, io[2:], 12, 3, 0) or from_points(pairs(inp, 12), pairs(out, 3))
    u.oracles.append(('clusters', f))


@unit('clu_select', CPP, sampled='3 of 6 points')
def _(u):
    # small integers: equal points occur
    x = [u.vec('x%d' % i, 2, sampler=lambda r: float(r.choice([0, 0, 1]))) for i in range(6)]; u.inputs(x)
    u.outs(6); u.iouts(2)

    def f(env, inp, out, io):
        p = set(pairs(inp, 6))
        k = min(3, len(p))
        if io[0] != k or io[1] != k:
            return '%d (%d) points chosen, %d distinct ones asked' % (io[0], io[1], k)
        c = pairs(out, k)
        if len(set(c)) != k or not set(c) <= p:
            return 'chosen %s from %s' % (c, sorted(p))
    u.oracles.append(('distinct input points are chosen', f))


@unit('clu_greedy', CPP, bounded='three of four points')
def _(u):
    x = [u.vec('x%d' % i, 2) for i in range(4)]; u.inputs(x)
    u.eqv('the first points', u.outs(6), flat(x[:3])); u.holds('as many as asked', B(u.iouts(1)[0] == 3))


# ---------------------------------------------------------------- expectation maximisation
def pdf(q, g):
    det = g[2] * g[5] - g[3] * g[4]
    a, b = q[0] - g[0], q[1] - g[1]
    m = (g[5] * a * a - (g[3] + g[4]) * a * b + g[2] * b * b) / det
    return math.exp(-m / 2) / math.sqrt(abs(det)) / (2 * math.pi)


def loglik(p, gs):
    return sum(math.log(sum(g[6] * pdf(q, g) for g in gs)) for q in p) / len(p)


def emstep(p, gs):
    r = [[g[6] * pdf(q, g) for q in p] for g in gs]
    s = [sum(x) for x in zip(*r)]
    out = []
    for x in r:
        w = [a / b for a, b in zip(x, s)]
        t = sum(w)
        m = [sum(a * q[k] for a, q in zip(w, p)) / t for k in range(2)]
        c = [sum(a * (q[i] - m[i]) * (q[j] - m[j]) for a, q in zip(w, p)) / t for i in range(2) for j in range(2)]
        out.append(m + c + [t / len(p)])
    return out


def emcheck(p, g0, g1, out, mindet):
    """g1 is one of the iterates starting with g0, one of the last"""
    g = g0
    K = len(g0)
    sc = 1 + max(abs(v) for q in p for v in q)
    near = None
    for i in range(100):
        try:
            g = emstep(p, g)
        except (ZeroDivisionError, ValueError, OverflowError):
            return None        # a component without points
        if any(q[2] * q[5] - q[3] * q[4] < mindet or q[6] < 1e-3 for q in g):
            return None        # degenerate
        d = max(abs(a - b) / (sc * sc if 2 <= j < 6 else sc) for q, h in zip(g, g1) for j, (a, b) in enumerate(zip(q, h)))
        if d < 1e-7:
            near = i
            break
    if near is None:
        return 'the result is not reached by alternating expectation and maximisation'
    if abs(sum(q[6] for q in g1) - 1) > 1e-9:
        return 'weights sum to %g' % sum(q[6] for q in g1)
    if abs(out[0] - out[1]) > 1e-9 * (1 + abs(out[1])):
        return 'returned likelihood %g, likelihood of the result %g' % (out[0], out[1])
    a, b, n = loglik(p, g0), loglik(p, g1), loglik(p, emstep(p, g1))
    # the density is normalised only up to a constant factor
    if min(abs(out[1] - b - c) for c in (0, .5 * math.log(2 * math.pi))) > 1e-5 * (1 + abs(b)):
        return 'likelihood %g, expected %g' % (out[1], b)
    if b < a - 1e-9:
        return 'the likelihood went down from %g to %g' % (a, b)
    if near < 99 and n - b > 1e-4 * (1 + abs(b)):
        return 'another step still improves the likelihood from %g to %g' % (b, n)


@unit('clu_em', CPP, sampled='10 points, 2 Gaussians')
def _(u):
    def samp(r):
        e = {}
        for i in range(10):
            s = -3 if i < 5 else 3
            e['x%d0' % i], e['x%d1' % i] = r.gauss(s, 1), r.gauss(0, 1)
        for k in range(2):
            e['m%d0' % k], e['m%d1' % k] = r.gauss(-2 if k == 0 else 2, 1), r.gauss(0, 1)
        return e
    x = [['x%d%d' % (i, j) for j in range(2)] for i in range(10)]
    m = [['m%d%d' % (i, j) for j in range(2)] for i in range(2)]
    u.group(sum(x, []) + sum(m, []), samp)
    w = u.real('w', 0, 1, near=(0.2, 0.8))
    c = [u.real('c%d' % i, near=(0.5, 3)) for i in range(2)]
    ins = [[var(n) for n in v] for v in x]
    gs = [[var(n) for n in m[0]] + [c[0], ZERO, ZERO, c[0], w], [var(n) for n in m[1]] + [c[1], ZERO, ZERO, c[1], ONE - w]]
    u.inputs(ins, gs[0], gs[1])
    u.outs(16); u.nsamp = 150

    def f(env, inp, out, io):
        p = pairs(inp, 10)
        g0 = [inp[20 + 7 * k:27 + 7 * k] for k in range(2)]
        g1 = [out[2 + 7 * k:9 + 7 * k] for k in range(2)]
        return emcheck(p, g0, g1, out, 1e-3)
    u.oracles.append(('expectation maximisation', f))


# ---------------------------------------------------------------- sizes and kinds of input
def anyset(u, means):
    names = ['x%d' % i for i in range(50)]

    def gen(r):
        k = r.randint(1, 5)
        n = r.randint(k + 1, 20)
        st, o, sc = r.randint(0, 3), r.choice([0.0, 0.0, 1000.0, -50.0]), 10.0 ** r.randint(-1, 3)
        el = lambda: o + (r.gauss(0, sc), float(r.randint(0, 3)), r.choice([-4, 0, 4]) + r.gauss(0, .5), r.uniform(0, .2))[st]
        env = {v: 0.0 for v in names}
        p = [el() for _ in range(2 * n)]
        if r.random() < .3:
            p[2:4] = p[:2]
        m = [el() for _ in range(2 * k)]
        if r.random() < .3:
            m[-1] += 1e5                    # a mean nobody is close to
        env.update(('x%d' % i, v) for i, v in enumerate(p + (m if means else [])))
        env.update(n=n, k=k)
        return env
    iv = [u.int(v, lo=1, hi=20, sampler=lambda r: 1) for v in ('n', 'k')]
    vs = [u.real(v) for v in names]
    u.group(names + ['n', 'k'], gen)
    u.inputs(vs); u.iinputs(iv)
    u.outs(11); u.iouts(22)
    u.nsamp = 300


@unit('clu_kmeans_any', CPP, sampled='2 to 20 points of several kinds, 1 to 5 means, against Lloyd iterations')
def _(u):
    anyset(u, True)
    u.oracles.append(('clusters', lambda env, inp, out, io: km(int(env['n']), int(env['k']))(env, inp, out, io)))


@unit('clu_auto_any', CPP, sampled='2 to 20 points of several kinds, 1 to 5 clusters')
def _(u):
    anyset(u, False)

    def f(env, inp, out, io):
        n, k = int(env['n']), int(env['k'])
        p = pairs(inp, n)
        want = min(k, len(set(p)))
        if io[20] != want or io[21] != n:
            return '%d means and %d indices for %d clusters of %d points' % (io[20], io[21], want, n)
        return nearest(env, inp, out, io, n, want, 0) or from_points(p, pairs(out, want))
    u.oracles.append(('clusters', f))


@unit('clu_em_any', CPP, sampled='10 to 24 points, 1 to 3 Gaussians with arbitrary covariances and weights')
def _(u):
    names = ['x%d' % i for i in range(69)]

    def gen(r):
        K, n, o = r.randint(1, 3), r.randint(10, 24), r.choice([0.0, 0.0, 20.0])
        cs = [(o + r.gauss(0, 4), r.gauss(0, 4)) for _ in range(K)]
        v = []
        for i in range(n):
            c = cs[i % K]
            v += [c[0] + r.gauss(0, 1), c[1] + r.gauss(0, .5)]
        w = [r.uniform(.2, 1) for _ in cs]
        for c, a in zip(cs, w):
            s, t, h = r.uniform(.5, 3), r.uniform(.5, 3), r.uniform(-.6, .6)
            v += [c[0] + r.gauss(0, .5), c[1] + r.gauss(0, .5), s * s, s * t * h, s * t * h, t * t, a / sum(w)]
        env = {x: 0.0 for x in names}
        env.update(('x%d' % i, x) for i, x in enumerate(v))
        env.update(n=n, K=K)
        return env
    iv = [u.int(v, lo=1, hi=24, sampler=lambda r: 1) for v in ('n', 'K')]
    vs = [u.real(v) for v in names]
    u.group(names + ['n', 'K'], gen)
    u.inputs(vs); u.iinputs(iv)
    u.outs(23)
    u.nsamp = 150

    def f(env, inp, out, io):
        n, K = int(env['n']), int(env['K'])
        p = pairs(inp, n)
        g0 = [inp[2 * n + 7 * k:2 * n + 7 * k + 7] for k in range(K)]
        g1 = [out[2 + 7 * k:9 + 7 * k] for k in range(K)]
        return emcheck(p, g0, g1, out, 1e-3)
    u.oracles.append(('expectation maximisation', f))
