"""Assignment (Munkres)."""
import itertools
import z3
from spec import *
CPP = 'assign.cpp'
B = lambda e: Cond('bv', e)


def asg(u, r, c):
    m = u.mat('m', r, c, sampler=lambda g: float(g.randint(-3, 6)) if g.random() < .5 else g.gauss(0, 3))
    u.inputs(m)
    n = max(r, c)
    io = u.iouts(2 + 2 * n)
    perms = list(itertools.permutations(range(n)))

    def cost(p):
        return sum((m[i][p[i]] for i in range(r) if p[i] < c), ZERO)
    u.holds('every row has exactly one column', B(z3.And(io[0] == n, z3.Or(*[z3.And(*[io[2 + i] == p[i] for i in range(n)]) for p in perms]))))
    u.holds('the column list is the inverse of the row list', B(z3.And(io[1] == n, *[z3.Implies(io[2 + i] == j, io[2 + n + j] == i) for i in range(n) for j in range(n)])))
    seen = set()
    for p in perms:
        for q in perms:
            key = (tuple(x if x < c else -1 for x in p[:r]), tuple(x if x < c else -1 for x in q[:r]))
            if key in seen or key[0] == key[1]:
                continue
            seen.add(key)
            g = B(z3.And(*[io[2 + i] == p[i] if p[i] < c else z3.UGE(io[2 + i], c) for i in range(r)]))
            u.holds('no cheaper assignment', le(cost(p), cost(q)), when=[g])


for nm, r, c, lim in (('22', 2, 2, 100), ('23', 2, 3, 300), ('32', 3, 2, 300), ('33', 3, 3, 700)):
    def mk(nm=nm, r=r, c=c, lim=lim):
        @unit('asg_' + nm, CPP, bounded='%dx%d matrices' % (r, c), cost=10 * r * c, limit=lim,
              **({} if r == c == 2 else dict(quick_sampled='%dx%d cost matrices; all of them in the thorough tier' % (r, c))))
        def _(u):
            u.max_paths = 200000
            asg(u, r, c)
    mk()


@unit('asg_reuse', CPP, bounded='2x2 matrices')
def _(u):
    asg(u, 2, 2)


def brute(r, c):
    n = max(r, c)
    perms = list(itertools.permutations(range(n)))

    def f(env, inp, out, io):
        a, b = io[2:2 + n], io[2 + n:2 + 2 * n]
        if io[0] != n or io[1] != n or sorted(a) != list(range(n)):
            return 'not a permutation: %s' % a
        if any(b[a[i]] != i for i in range(n)):
            return 'row and column lists differ'
        cost = lambda p: sum(inp[i * c + p[i]] for i in range(r) if p[i] < c)
        best = min(perms, key=cost)
        return 'assignment %s costs %g, %s costs %g' % (a, cost(a), list(best), cost(best)) if cost(a) > cost(best) + 1e-9 else None
    return f


for nm, r, c in (('44', 4, 4), ('55', 5, 5), ('25', 2, 5), ('42', 4, 2)):
    def mk(nm=nm, r=r, c=c):
        @unit('asg_' + nm, CPP, sampled='random %dx%d cost matrices against all permutations' % (r, c))
        def _(u):
            g = lambda g: float(g.randint(-3, 6)) if g.random() < .6 else g.gauss(0, 3)
            m = u.mat('m', r, c, sampler=g); u.inputs(m); u.iouts(2 + 2 * max(r, c))
            u.oracles.append(('cheapest assignment', brute(r, c)))
    mk()


@unit('asg_any', CPP, sampled='cost matrices of 1x1 to 9x9 of several kinds (ties, products, scales, equal rows), also as second problem of one solver')
def _(u):
    names = ['m%d' % i for i in range(162)]

    def fill(r, rows, cols):
        st = r.randint(0, 6)
        sc = 10.0 ** r.randint(-6, 6)
        base = [r.gauss(0, 3) for _ in range(cols)]

        def el(i, j):
            return (r.gauss(0, 3), float(r.randint(-2, 3)), (i + 1) * (j + 1) * 0.5, sc * r.random(), base[j] + (r.random() < .2), -abs(r.gauss(0, 3)),
                    float(i == j) if r.random() < .9 else 2.0)[st]
        return [el(i, j) for i in range(rows) for j in range(cols)]

    def gen(r):
        env = {n: 0.0 for n in names}
        for p in range(2):
            a, b = r.choice([(r.randint(1, 9), r.randint(1, 9)), (r.randint(2, 6),) * 2])
            if p == 0 and r.random() < .5:
                a = b = 0
            env['r%d' % p], env['c%d' % p] = a, b
            env.update(('m%d' % (81 * p + i), v) for i, v in enumerate(fill(r, a, b)))
        return env
    iv = [u.int(n, lo=0, hi=9, sampler=lambda r: 1) for n in ('r0', 'c0', 'r1', 'c1')]
    vs = [u.real(n) for n in names]
    u.group(names + ['r0', 'c0', 'r1', 'c1'], gen)
    u.inputs(vs); u.iinputs(iv)
    u.outs(1); u.iouts(20)
    u.nsamp = 300

    def f(env, inp, out, io):
        import numpy
        from scipy.optimize import linear_sum_assignment
        r, c = int(env['r1']), int(env['c1'])
        n = max(r, c)
        m = [[inp[81 + c * i + j] for j in range(c)] for i in range(r)]
        a, b = list(io[2:2 + n]), list(io[11:11 + n])
        if io[0] != n or io[1] != n or sorted(a) != list(range(n)):
            return 'not a permutation: %s' % a
        if any(b[a[i]] != i for i in range(n)):
            return 'row and column lists differ'
        m = numpy.array(m)
        x, y = linear_sum_assignment(m)
        s, o = sum(m[i, a[i]] for i in range(r) if a[i] < c), m[x, y].sum()
        if s > o + 1e-9 * abs(m).max():
            return '%dx%d: assignment %s costs %g, the cheapest %g' % (r, c, a, s, o)
    u.oracles.append(('cheapest assignment', f))
