"""RANSAC: the result is estimated from exactly the data that agree with a hypothesis drawn from the data."""
import math
import z3
from spec import *
CPP = 'ransac.cpp'
B = lambda e: Cond('bv', e)


def ran(u, runs, n, st, mn, lst=False, draw=False):
    small = lambda r: r.randint(0, 3)
    t = u.int('t', lo=-4, hi=4, sampler=lambda r: 2)
    per = st if lst else n - 1
    # the numbers only enter modulo 2..n: residues modulo 12 cover every sequence of random numbers
    rs = [u.int('r%d' % i, lo=0, hi=11) if draw else z3.BitVecVal(7 * i % 5, 64) for i in range(per * runs)]
    ok = [u.int('ok%d' % i, lo=0, hi=1, sampler=lambda r: int(r.random() < .8)) for i in range(runs)]
    D = [[z3.BitVecVal((i * 5 + k) % 3, 64) if draw else u.int('d%d_%d' % (k, i), lo=-4, hi=4, sampler=small) for i in range(n)] for k in range(runs)]
    if draw:
        t = z3.BitVecVal(1, 64)
        ok = [z3.BitVecVal(1, 64)] * runs
    x = [u.int('minruns', lo=0, hi=3, sampler=small)] if lst else []
    u.iinputs(t, rs, ok, [z3.BitVecVal(1, 64)], D, x)
    no = 3 + 5 * (runs + 1) + (n if lst else 0)
    o = u.iouts(no)
    u.nsamp = 400
    b2 = lambda e: z3.If(e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    inl = [[d < t for d in r] for r in D]
    cnt = [sum([b2(e) for e in r], z3.BitVecVal(0, 64)) for r in inl]
    good = [z3.And(ok[k] != 0, cnt[k] >= mn) for k in range(runs)]
    Z = z3.BitVecVal(0, 64)
    # which hypothesis wins and after how many runs the search ends
    if not lst:
        win, ret, ran_ = z3.BitVecVal(-1, 64), Z, z3.BitVecVal(runs, 64)
        for k in reversed(range(runs)):
            win, ret, ran_ = z3.If(good[k], z3.BitVecVal(k, 64), win), z3.If(good[k], cnt[k], ret), z3.If(good[k], z3.BitVecVal(k + 1, 64), ran_)
    else:
        # two runs: the second one happens unless the first run succeeded and was enough
        stop0 = z3.And(good[0], x[0] <= 1)
        both = z3.And(good[0], good[1])
        first = z3.Or(stop0, z3.And(good[0], z3.Not(z3.And(good[1], cnt[1] > cnt[0]))))
        win = z3.If(first, Z, z3.If(good[1], z3.BitVecVal(1, 64), z3.BitVecVal(-1, 64)))
        ret = z3.If(first, cnt[0], z3.If(good[1], cnt[1], Z))
        ran_ = z3.If(stop0, z3.BitVecVal(1, 64), z3.BitVecVal(2, 64))
    if lst:
        # the final estimate may fail as well: then its exception reaches the caller
        u.throw_if = B(z3.And(win >= 0, z3.Or(*[z3.And(ran_ == k, ok[k] == 0) for k in range(runs)])))
    u.holds('number of agreeing data, or zero', B(o[0] == ret))
    u.holds('hypotheses tried, plus the final estimate', B(o[1] == ran_ + b2(win >= 0)))
    u.holds('the result is the final estimate; without one it is untouched', B(o[2] == z3.If(win >= 0, o[1] - 1, z3.BitVecVal(-7, 64))))
    for k in range(runs):
        l = o[3 + 5 * k:8 + 5 * k]
        g = [B(ran_ > k)]
        u.holds('hypothesis from as many data as asked for', B(l[0] == st), when=g)
        u.holds('drawn from the data', B(z3.And(*[z3.And(v >= 0, v < n) for v in l[1:1 + st]])), when=g)
        if not lst:
            u.holds('drawn without repetition', B(z3.Distinct(*l[1:1 + st])), when=g)
    for f in range(1, runs + 1):
        l = o[3 + 5 * f:8 + 5 * f]
        for k in range(runs):
            g = [B(z3.And(win == k, ran_ == f))]
            u.holds('final estimate from as many data as agree', B(l[0] == cnt[k]), when=g)
            for i in range(n):
                u.holds('final estimate uses exactly the agreeing data', B(z3.Or(*[v == i for v in l[1:1 + min(4, n)]]) == inl[k][i]), when=g)
    if lst:
        for k in range(runs):
            for i in range(n):
                u.holds('reported agreeing data', B((o[18 + i] != 0) == inl[k][i]), when=[B(win == k)])


for nm, a in (('ran_one', (2, 3, 2, 2)), ('ran_pair', (2, 3, 2, 2)), ('ran_one4', (1, 4, 2, 3)), ('ran_list', (2, 3, 2, 2, True))):
    def mk(nm=nm, a=a):
        @unit(nm, CPP, cost=10, limit=300, bounded='%d runs on %d data, sets of %d, %d required; every distance and failure' % a[:4])
        def _(u):
            u.max_paths = 20000
            ran(u, *a)

        @unit(nm + '_draw', CPP, entry='vc_' + nm, cost=10, limit=300, bounded='%d runs on %d data, sets of %d; every sequence of random numbers' % a[:3])
        def _(u):
            u.max_paths = 20000
            ran(u, *a, draw=True)
    mk()


@unit('ran_param', CPP, sampled='generated outlier ratios and success probabilities')
def _(u):
    th = u.real('th'); po = u.real('po', 0.01, 0.9); ps = u.real('ps', 0.5, 0.999)
    n, m, k = u.int('n', lo=1, hi=8), u.int('m', lo=8, hi=200), u.int('k', lo=1, hi=50)
    u.inputs(th, po, ps); u.iinputs(n, m, k)
    u.outs(2); u.iouts(6)

    def chk(env, inp, out, io):
        th, po, ps = inp
        n, m, k = env['n'], env['m'], env['k']
        if out != [th, th]:
            return 'threshold %r' % out
        if io[0] != n or io[3:6] != [n, m, k]:
            return 'stored numbers %r' % io
        if abs(io[1] - (1 - po) * m) > 1.0001:
            return '%d required inliers of %d with %g outliers' % (io[1], m, po)
        # the chance of at least one clean set within the runs reaches the wanted probability
        clean = (1 - po) ** n
        if 1 - (1 - clean) ** io[2] < ps - 1e-9:
            return '%d runs of sets of %d with %g outliers succeed with probability below %g' % (io[2], n, po, ps)
        if io[2] > 2 + math.log(1 - ps) / math.log(1 - clean):
            return '%d runs are more than needed' % io[2]
    u.oracles.append(('parameters', chk))
