"""Clocks, time stamps, measurements and clock synchronisation."""
import math
import time
from fractions import Fraction
import z3
from spec import *
CPP = 'times.cpp'
B = lambda e: Cond('bv', e)
sec = lambda u, n: u.int(n, lo=0, hi=1 << 33, sampler=lambda r: r.randint(10 ** 9, 2 * 10 ** 9))
usec = lambda u, n: u.int(n, lo=0, hi=999999)


@unit('tim_now', CPP)
def _(u):
    s, m = sec(u, 's'), usec(u, 'm')
    u.iinputs(s, m)
    o = u.iouts(1)
    u.holds('nanoseconds since 1970', B(o[0] == s * 1000000000 + m * 1000))


@unit('tim_counter', CPP)
def _(u):
    s, m = sec(u, 's'), usec(u, 'm')
    u.iinputs(s, m)
    r, o = u.outs(1), u.iouts(1)
    u.holds('ticks of the clock', B(o[0] == s * 1000000 + m))
    u.eq('ticks per second', r[0], const(1000000))


@unit('tim_sleep', CPP)
def _(u):
    ms, ns = u.int('ms', lo=0, hi=(1 << 32) - 1, sampler=lambda r: r.randint(0, 5000)), u.int('ns', lo=0, hi=(1 << 32) - 1, sampler=lambda r: r.randint(0, 2 * 10 ** 9))
    u.iinputs(ms, ns)
    o = u.iouts(2)
    tot, G = ms * 1000000 + ns, z3.BitVecVal(10 ** 9, 64)
    u.holds('asks the system for exactly the wanted time', B(z3.And(o[0] == z3.UDiv(tot, G), o[1] == z3.URem(tot, G))))
    u.holds('in a form the system accepts', B(z3.And(o[0] >= 0, o[1] >= 0, o[1] < 1000000000)))


@unit('tim_block', CPP)
def _(u):
    s = [u.int('s%d' % i, lo=0, hi=1 << 30, sampler=lambda r, i=i: 1000 + i * 10 + r.randint(0, 3)) for i in range(4)]
    m = [usec(u, 'm%d' % i) for i in range(4)]
    t = [a * 1000000 + b for a, b in zip(s, m)]
    u.requires(B(z3.And(t[0] <= t[1], t[2] <= t[3])))
    u.iinputs([x for p in zip(s, m) for x in p])
    o, io = u.outs(2), u.iouts(2)
    tot = u.int2real(z3.simplify(t[1] - t[0] + t[3] - t[2]), False)
    u.eq('total time in milliseconds', o[0], tot / 1000)
    u.eq('average time in milliseconds', o[1], tot / 2000)
    u.holds('number of runs', B(z3.And(io[0] == 2, io[1] == 1)))


@unit('tim_block_new', CPP)
def _(u):
    s, m = sec(u, 's'), usec(u, 'm')
    t = u.int('t', lo=0, hi=1 << 50, sampler=lambda r: r.randint(0, 10 ** 7))
    u.iinputs(s, m, t)
    o, io = u.outs(4), u.iouts(7)
    tot = u.int2real(t, False)
    for k in (0, 3):
        u.holds('a new timer has not run', B(z3.And(io[k] == 0, io[k + 1] == 0, io[k + 2] == s * 1000000 + m)))
    u.eqv('and spent no time', o[:2], [ZERO, ZERO])
    u.holds('counts runs', B(io[6] == 1))
    u.eqv('one run: total and average', o[2:], [tot / 1000, tot / 1000])


@unit('tim_meas', CPP)
def _(u):
    x = u.vec('x', 3); u.inputs(x)
    t, t2 = u.int('t', bits=64, sampler=lambda r: r.choice([0, r.randint(1, 1 << 62)])), u.int('t2', bits=64)
    u.iinputs(t, t2)
    o, io = u.outs(9), u.iouts(15)
    u.eqv('a measurement owns a copy of its value, a clone another one', o, [x[0], x[1], x[2], x[1], x[0], x[1], x[0], x[2], x[0]])
    want = [t, 0, t, 0, 0, t, t, t, t2]
    for i, w in enumerate(want):
        u.holds('time stamp %d' % i, B(io[i] == w))
    u.holds('a measurement is invalid exactly at time zero', B((io[9] == 1) == (t == 0)))
    u.holds('an empty one is invalid', B(io[10] == 1))
    u.holds('copies share, clones do not', B(io[11] == 1))
    u.holds('invalidated', B(z3.And(io[12] == 1, io[13] == 0)))
    u.holds('time can be set', B(io[14] == t2))


def freq(u, n):
    return u.real(n, 1e-3, 1e10, near=(1, 1000))


@unit('tim_sync_first', CPP)
def _(u):
    a, b, n = freq(u, 'fn'), freq(u, 'fl'), u.real('n')
    u.inputs(a, b, n)
    t = u.int('t', lo=0, hi=1 << 62, sampler=lambda r: r.randint(1, 1 << 61)); u.iinputs(t)
    o = u.iouts(3)
    u.holds('the first event has its local time', B(z3.And(o[0] == 0, o[1] == t, o[2] == 1)))


@unit('tim_sync_now', CPP)
def _(u):
    a, b, n = freq(u, 'fn'), freq(u, 'fl'), u.real('n')
    u.inputs(a, b, n)
    s, m = sec(u, 's'), usec(u, 'm')
    u.iinputs(s, m)
    o = u.iouts(1)
    u.holds('without a local time the clock is asked', B(o[0] == s * 1000000000 + m * 1000))


STEP = 'times_step.cpp'


@unit('tim_freq', STEP, optional=True)
def _(u):
    a, b = freq(u, 'fn'), freq(u, 'fl')
    u.inputs(a, b)
    o = u.outs(9)
    g = b / a
    u.eq('rate between the clocks', o[0], g)
    u.eqv('start uncertainty: one second, rate ten times as large', o[1:4], [b * b, ZERO, 100 * g * g])
    u.eq('start deviation: a millisecond', o[4], b * b / 10 ** 6)
    u.eqv('noise in units of the clocks', o[6:9], [b * b / 10 ** 6, g * g / 10 ** 8, b * b * 9 / 10 ** 4])


def step(u, dn, budget, events):
    last, g = u.real('last'), u.real('g', near=(0.5, 2))
    p1, p2, p3 = u.real('p1', positive=True), u.real('p2', near=(-0.3, 0.3)), u.real('p3', positive=True)
    ql, qg, R, av = [u.real(n, positive=True) for n in ('ql', 'qg', 'R', 'av')]
    u.requires(lt(p2 * p2, p1 * p3))
    big = lambda r: r.randint(10 ** 6, 10 ** 6 + 20)
    E, t = u.int('E', lo=0, hi=1 << 50, sampler=big), u.int('t', lo=0, hi=1 << 50, sampler=big)
    u.inputs(last + dn, last, g, p1, p2, p3, ql, qg, R, av)
    u.iinputs(t, E, budget, events)
    o, io = u.outs(6), u.iouts(4)
    u.eq('the native time is kept', o[5], last + dn)
    u.holds('one more event; the estimate is returned', B(z3.And(io[3] == events + 1, io[0] == io[1])))
    return last, g, p1 + 2 * dn * p2 + dn * dn * p3 + ql, p2 + dn * p3, p3 + qg, R, av, E, t, o, io


@unit('tim_step_update', STEP, entry='vc_tim_step', optional=True, limit=120)
def _(u):
    # no native time passes: the correction alone
    budget = u.int('bud', lo=-100, hi=40, sampler=lambda r: r.randint(-3, 40))
    last, g, p1, p2, p3, R, av, E, t, o, io = step(u, ZERO, budget, z3.BitVecVal(60, 64))
    d = u.int2real(z3.simplify(t - E), True)
    inl = lt(d * d, 9 * av)
    for nm, c in (('inlier', [inl]), ('no budget', [B(budget < 0)])):
        u.eq('rate corrected by the gain (%s)' % nm, o[0], g + p2 / (R + p1) * d, when=c)
        u.eq('uncertainty of the time (%s)' % nm, o[1], R * p1 / (R + p1), when=c)
        u.eq('shared uncertainty (%s)' % nm, o[2], R * p2 / (R + p1), when=c)
        u.eq('uncertainty of the rate (%s)' % nm, o[3], p3 - p2 * p2 / (R + p1), when=c)
        u.eq('mean deviation (%s)' % nm, o[4], av + (d * d - av) / 100, when=c)
        u.holds('budget grows (%s)' % nm, B(io[2] == z3.If(budget + 1 > 40, z3.BitVecVal(40, 64), budget + 1)), when=c)
        est = u.int2real(z3.simplify(io[1] - E), True)
        u.holds('time corrected by the gain, within one unit (%s)' % nm, lt(est - p1 / (R + p1) * d, ONE), when=c)
        u.holds('time corrected by the gain, within one unit below (%s)' % nm, lt(p1 / (R + p1) * d - est, ONE), when=c)
    out = [inl.neg(), B(budget >= 0)]
    u.holds('an outlier changes nothing but the budget', B(z3.And(io[1] == E, io[2] == budget - 2)), when=out)
    u.eq('an outlier leaves the rate', o[0], g, when=out)
    u.eq('an outlier leaves the deviation', o[4], av, when=out)


@unit('tim_step_outlier', STEP, entry='vc_tim_step', optional=True, limit=120)
def _(u):
    # native time passes, the local time is far off: the prediction alone
    dn = u.real('dn', near=(-2, 2))
    last, g, p1, p2, p3, R, av, E, t, o, io = step(u, dn, z3.BitVecVal(40, 64), z3.BitVecVal(60, 64))
    u.eq('rate', o[0], g, when=[B(io[2] == 38)])
    u.eqv('uncertainty grows with the time passed', o[1:4], [p1, p2, p3], when=[B(io[2] == 38)])
    est = u.int2real(z3.simplify(io[1] - E), True)
    u.holds('moves by the native time, within one unit', lt(est - dn * g, ONE), when=[B(io[2] == 38)])
    u.holds('moves by the native time, within one unit below', lt(dn * g - est, ONE), when=[B(io[2] == 38)])


def kf(fn, fl, nat, loc):
    """the two-state filter (local time, rate) in exact arithmetic, except for whole local units"""
    g = fl / fn
    ql, qg, R = (1e-3 * fl) ** 2, (1e-4 * g) ** 2, (3e-2 * fl) ** 2
    P = [[fl ** 2, 0.0], [0.0, (10 * g) ** 2]]
    av, bud, res, last, est = (1e-3 * fl) ** 2, -100, [], None, None
    margin = True
    for k, (n, l) in enumerate(zip(nat, loc)):
        if k == 0:
            last, est = n, l
        d = n - last
        est += int(d * g)
        P = [[P[0][0] + 2 * d * P[0][1] + d * d * P[1][1] + ql, P[0][1] + d * P[1][1]], [P[0][1] + d * P[1][1], P[1][1] + qg]]
        e = l - est
        if abs(e * e - 9 * av) < 1e-3 * av:
            margin = False
        if e * e < 9 * av or bud < 0:
            K = [P[0][0] / (P[0][0] + R), P[0][1] / (P[0][0] + R)]
            g += K[1] * e
            est += int(K[0] * e)
            P = [[(1 - K[0]) * P[0][0], (1 - K[0]) * P[0][1]], [(1 - K[0]) * P[0][1], P[1][1] - K[1] * P[0][1]]]
            if k > 50:
                av += (e * e - av) * 0.01
            bud = min(40, bud + 1)
        else:
            bud -= 2
        last = n
        res.append(est)
    return res, margin


def hist(u, N, with_freq):
    """native times with a drifting rate, local times with jitter and outliers"""
    nf = 2 if with_freq else 0
    names = ['n%d' % i for i in range(N)]

    def gen(r):
        fn = r.choice([1.0, 1000.0, 1e6])
        rate = 1e9 / fn * r.uniform(0.999, 1.001)
        off = r.randint(10 ** 15, 10 ** 16)
        env, n = {}, 2e9 if not with_freq else r.uniform(0, 1000) * fn
        for i in range(N):
            env['n%d' % i] = float(round(n))
            j = r.gauss(0, 3e6) if with_freq else 0
            if with_freq and r.random() < .1:
                j += r.uniform(0, 1e9)
            env['l%d' % i] = int(off + round(n) * rate + j) if with_freq else off + int(round(n))
            n += fn * r.uniform(0.01, 0.2)
        if with_freq:
            env.update(fn=fn, fl=1e9)
        return env
    ns = [u.real(n, sampler=lambda r: 0.0) for n in names]
    f = [u.real('fn', sampler=lambda r: 1.0), u.real('fl', sampler=lambda r: 1e9)] if with_freq else []
    ls = [u.int('l%d' % i, lo=0, hi=1 << 62, sampler=lambda r: 0) for i in range(N)]
    u.group(names + ['l%d' % i for i in range(N)] + (['fn', 'fl'] if with_freq else []), gen)
    u.inputs(f + ns)
    u.iinputs([z3.BitVecVal(N, 64)] + ls)
    u.outs(1)
    u.iouts(N + 1)
    u.nsamp = 40


@unit('tim_sync_hist', CPP, sampled='histories of 160 events with drifting clocks, jitter and outliers')
def _(u):
    N = 160
    hist(u, N, True)

    def chk(env, inp, out, io):
        ref, margin = kf(inp[0], inp[1], [env['n%d' % i] for i in range(N)], [env['l%d' % i] for i in range(N)])
        if not margin:
            return None
        for i in range(N):
            if abs(io[i] - ref[i]) > 1000:
                return 'event %d: local time %d, the filter gives %d' % (i, io[i], ref[i])
    u.oracles.append(('Kalman filter of time and rate', chk))


@unit('tim_sync_fine', CPP, entry='vc_tim_sync_hist', sampled='histories of 12 events at dates of today whose local times deviate by nanoseconds')
def _(u):
    N = 12
    names = ['n%d' % i for i in range(N)] + ['l%d' % i for i in range(N)] + ['fn']

    def gen(r):
        fn = r.choice([1e3, 1e6, 1e9])
        l0 = r.randint(10 ** 18, 18 * 10 ** 17)
        env, n = dict(fn=fn), 0
        for i in range(N):
            env['n%d' % i], env['l%d' % i] = float(n), l0 + int(n * 1e9 / fn) + (r.randint(-400, 400) if i else 0)
            n += r.choice([0, 0, 1, 2, 5])
        return env
    ns = [u.real('n%d' % i, sampler=lambda r: 0.0) for i in range(N)]
    fn = u.real('fn', sampler=lambda r: 1.0)
    ls = [u.int('l%d' % i, lo=0, hi=1 << 62, sampler=lambda r: 0) for i in range(N)]
    u.group(names, gen)
    u.inputs([fn, T(10 ** 9)] + ns)
    u.iinputs([z3.BitVecVal(N, 64)] + ls)
    u.outs(1)
    u.iouts(N + 1)

    def chk(env, inp, out, io):
        ref, margin = kf(inp[0], inp[1], [env['n%d' % i] for i in range(N)], [env['l%d' % i] for i in range(N)])
        for i in range(N):
            if abs(io[i] - ref[i]) > 2 * i:
                return 'event %d: local time %d, the filter gives %d' % (i, io[i], ref[i])
    u.oracles.append(('Kalman filter of time and rate, to the nanosecond', chk))


@unit('tim_ls_hist', 'times_ls.cpp', sampled='histories of 140 events of exact clocks', optional=True)
def _(u):
    N = 140
    hist(u, N, False)

    def chk(env, inp, out, io):
        if len(set(env['n%d' % i] for i in range(N))) < N:
            return None    # a clock that stands still cannot be related to another one
        if io[N] != N:
            return 'event count %d' % io[N]
        for i in range(N):
            e = env['l%d' % i]
            if abs(io[i] - e) > (0 if i <= 10 else 1000):
                return 'event %d of exact clocks: local time %d instead of %d' % (i, io[i], e)
    u.oracles.append(('exact clocks are followed exactly', chk))


LS = 'times_ls.cpp'


@unit('tim_ls_init', LS, optional=True)
def _(u):
    n = u.real('n', lo=1e9, near=(1e9, 2e9))
    u.requires(lt(const(10 ** 9), n))
    t = u.int('t', lo=0, hi=1 << 62, sampler=lambda r: r.randint(1, 1 << 61))
    u.inputs(n); u.iinputs(t)
    o, io = u.outs(10), u.iouts(7)
    u.holds('the first event has its local time', B(z3.And(io[0] == t, io[4] == t, io[6] == 1)))
    u.eqv('nothing seen yet', o[:4], [ZERO] * 4)
    u.eq('start deviation: a millisecond', o[4], const(10 ** 12))
    u.eqv('the first event is the mean', o[5:9], [n, n * n, ZERO, ZERO])


def ls_step(ev):
    @unit('tim_ls_step_%d' % ev, LS, entry='vc_tim_ls_step', optional=True, limit=120)
    def _(u):
        u.z3_ms = 15000
        U = lambda a, b: (lambda r: r.uniform(a, b))
        dn, a, ln = u.real('dn', sampler=U(-1e8, 1e8)), u.real('a', sampler=U(1.2e9, 2e9)), u.real('ln', sampler=U(5e15, 4e16))
        v, l = u.real('v', positive=True, sampler=U(1e16, 4e16)), u.real('l', positive=True, sampler=U(5e8, 2e9))
        av = u.real('av', positive=True, sampler=lambda r: 10 ** r.uniform(14, 19))
        n = a + dn
        u.requires(lt(const(10 ** 9), n))
        F, d = u.int('F', lo=0, hi=1 << 60, sampler=lambda r: r.randint(10 ** 6, 10 ** 9)), u.int('d', lo=0, hi=1 << 50, sampler=lambda r: r.randint(0, 2 * 10 ** 9))
        bud = u.int('bud', lo=-100, hi=40, sampler=lambda r: r.randint(-3, 40))
        a2 = a * a + v                                  # the variance of the native times is positive
        # the line through what was seen: l + ln / v (n - a), ln the covariance
        e = l + ln / v * dn
        u.inputs(n, a, a2, l, ln + a * l, av)
        u.iinputs([z3.simplify(F + d), F, bud, z3.BitVecVal(ev, 64)])
        o, io = u.outs(5), u.iouts(4)
        L = u.int2real(d, False)
        u.requires(lt(ZERO, e), lt(e, const(1 << 50)))
        u.holds('one more event, the origin stays', B(z3.And(io[3] == ev + 1, io[1] == F)))
        r = u.int2real(z3.simplify(io[0] - F), True)
        if ev <= 10:
            u.holds('the first events have their local time', B(io[0] == F + d))
            upd, w = [[]], const(Fraction(1, ev + 1))
        else:
            u.holds('local time on the line, within one unit', lt(r - e, ONE))
            u.holds('local time on the line, within one unit below', lt(e - r, ONE))
            D = (e - L) * (e - L)
            if ev < 100:
                upd, w = [[]], const(Fraction(1, ev + 1))
            else:
                upd, w = [[lt(D, 9 * av)], [B(bud < 0)]], const(Fraction(1, 1000))
                out = [lt(9 * av, D), B(bud >= 0)]
                u.eqv('an outlier changes nothing', o, [a, a2, l, ln + a * l, av], when=out)
                u.holds('but the budget', B(io[2] == bud - 2), when=out)
        for i, c in enumerate(upd):
            mean = lambda m, x: m + (x - m) * w
            u.eqv('means move by the weight (%d)' % i, o[:4], [mean(a, n), mean(a2, n * n), mean(l, L), mean(ln + a * l, L * n)], when=c)
            u.eq('mean deviation (%d)' % i, o[4], av if ev <= 10 else av + (D - av) / 100, when=c)
            u.holds('budget grows (%d)' % i, B(io[2] == z3.If(bud + 1 > 40, z3.BitVecVal(40, 64), bud + 1)), when=c)


for ev in (1, 10, 11, 99, 100, 5000):
    ls_step(ev)


@unit('tim_str', CPP, sampled='generated time stamps; the C library formats the date')
def _(u):
    t = u.int('t', lo=0, hi=1 << 62, sampler=lambda r: r.randint(0, 4 * 10 ** 18)); u.iinputs(t)
    u.outs(1); u.iouts(82)
    u.nsamp = 100

    def chk(env, inp, out, io):
        t = env['t']
        a = ''.join(map(chr, io[2:2 + io[0]])); b = ''.join(map(chr, io[42:42 + io[1]]))
        lt_ = time.localtime(t // 10 ** 9)
        wa = '%02d:%02d:%02d.%06d' % (lt_.tm_hour, lt_.tm_min, lt_.tm_sec, t // 1000 % 10 ** 6)
        wb = time.asctime(time.gmtime(t // 10 ** 9)) + ' UTC'
        if (a, b) != (wa, wb):
            return 'time stamp %d is printed as %r and %r instead of %r and %r' % (t, a, b, wa, wb)
    u.oracles.append(('printed time', chk))
