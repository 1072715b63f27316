"""Camera intrinsics and lens distortion."""
from spec import *
import z3
CPP = 'lens.cpp'
UNKNOWN, O22, O32, O62, FISH = range(5)
RAD = {UNKNOWN: 0, O22: 2, O32: 3, O62: 6, FISH: 4}
TAN = {UNKNOWN: 0, O22: 2, O32: 2, O62: 2, FISH: 0}
B = lambda e: Cond('bv', e)


def ctor(name, nr, typ, tan=True):
    @unit('lens_' + name, CPP)
    def _(u):
        m = u.mat('m', 3, 3); r = u.vec('r', nr); g = u.vec('g', 2)
        w = u.int('w', lo=0, hi=100000); h = u.int('h', lo=0, hi=100000)
        u.inputs(m, r + [ZERO] * (6 - nr), g)
        u.iinputs(w, h)
        o = u.outs(17); io = u.iouts(6)
        u.eqv('matrix', o[:9], flat(m))
        u.eqv('radial parameters, the unused ones zero', o[9:15], r + [ZERO] * (6 - nr))
        u.eqv('tangential parameters', o[15:], g if tan else [ZERO, ZERO])
        u.holds('type', B(io[0] == typ))
        u.holds('size', B(z3.And(io[1] == w, io[2] == h)))
        u.holds('number of radial parameters in use', B(z3.And(io[3] == nr, io[4] == nr)))
        u.holds('number of tangential parameters', B(io[5] == TAN[typ]))


ctor('ctor2', 2, O22); ctor('ctor3', 3, O32); ctor('ctor4', 4, FISH, False); ctor('ctor6', 6, O62); ctor('assign', 6, O62)


@unit('lens_ctor_default', CPP)
def _(u):
    o = u.outs(17); io = u.iouts(6)
    u.eqv('identity matrix, no distortion', o, flat(eye(3)) + [ZERO] * 8)
    u.holds('unknown type, no size, no radial parameters', B(z3.And(*[x == 0 for x in io])))


@unit('lens_ctor_size', CPP)
def _(u):
    m = u.mat('m', 3, 3); r = u.vec('r', 6); g = u.vec('g', 2)
    w = u.int('w', lo=0, hi=100000); h = u.int('h', lo=0, hi=100000); n = u.int('n', lo=0, hi=6)
    u.inputs(m, r, g); u.iinputs(w, h, n)
    o = u.outs(17); io = u.iouts(6)
    u.eqv('all parameters kept', o, flat(m) + r + g)
    u.holds('size', B(z3.And(io[1] == w, io[2] == h)))
    u.holds('number of radial parameters', B(io[3] == n))
    for k, t in ((2, O22), (3, O32), (4, FISH), (6, O62)):
        u.holds('type follows from %d radial parameters' % k, B(z3.And(io[0] == t, io[4] == k, io[5] == TAN[t])), when=[B(n == k)])


@unit('lens_flip', CPP)
def _(u):
    m = u.mat('m', 3, 3); r = u.vec('r', 6); g = u.vec('g', 2)
    w = u.int('w', lo=0, hi=100000); h = u.int('h', lo=0, hi=100000)
    u.inputs(m, r, g); u.iinputs(w, h)
    o = u.outs(17); io = u.iouts(6)
    u.eqv('third column negated, rest kept', o, flat([[a, b, -c] for a, b, c in m]) + r + g)
    u.holds('type, size and numbers of parameters kept', B(z3.And(io[0] == O62, io[1] == w, io[2] == h, io[3] == 6, io[4] == 6, io[5] == TAN[O62])))


@unit('lens_angle', CPP)
def _(u):
    m = [[u.real('fx', positive=True), u.real('m01'), u.real('m02')], [u.real('m10'), u.real('fy', positive=True), u.real('m12')], u.vec('m2', 3)]
    r = u.vec('r', 6); g = u.vec('g', 2)
    w = u.int('w', lo=0, hi=100000); h = u.int('h', lo=0, hi=100000)
    u.inputs(m, r, g); u.iinputs(w, h)
    o = u.outs(3)
    W, H = u.int2real(w, False), u.int2real(h, False)
    for i, (d, f) in enumerate(((W, m[0][0]), (H, m[1][1]))):
        u.eq('full opening angle in degrees %d' % i, o[i], 360 / PI * fn('atanp', d, 2 * f))
    u.eq('diagonal', o[2], 360 / PI * fn('atan', sqrt(u.int2real(w * w + h * h, False) / (4 * (m[0][0] * m[0][0] + m[1][1] * m[1][1])))))


# ---------------------------------------------------------------- distortion
def camera(u, mild=False):
    """upper triangular intrinsics with K22 = +-1, as the functions document"""
    s = u.real('s'); u.requires(eq(s * s, ONE)); u.ctx.add_relation(s * s, ONE)
    u.group(['s'], lambda r: {'s': r.choice([-1.0, 1.0])})
    f = (200, 900) if mild else None
    k = [[u.real('fx', near=f), u.real('sk', near=(-1, 1)), u.real('cx', near=(100, 600) if mild else None)],
         [ZERO, u.real('fy', near=f), u.real('cy', near=(100, 600) if mild else None)], [ZERO, ZERO, s]]
    u.requires(ne(k[0][0], ZERO), ne(k[1][1], ZERO))
    return k


def unproj(k, p):
    """inverse of proj for K22 = +-1: K (x, y, 1) dehomogenised"""
    y = (p[1] - k[1][2] * k[2][2]) / k[1][1]
    return [(p[0] - k[0][1] * y - k[0][2] * k[2][2]) / k[0][0], y]


def proj(k, p):
    return [k[0][0] * p[0] + k[0][1] * p[1] + k[0][2] * k[2][2], k[1][1] * p[1] + k[1][2] * k[2][2]]


def dist6(k, g, p, u=None):
    x, y = p
    r2 = x * x + y * y
    lo = 1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2
    if u:
        u.requires(ne(lo, ZERO))
    s = (1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2) / lo
    return [x * s + 2 * g[0] * x * y + g[1] * (r2 + 2 * x * x), y * s + 2 * g[1] * x * y + g[0] * (r2 + 2 * y * y)]


def dist4(d, p):
    x, y = p
    r2 = x * x + y * y
    s = 1 + d[0] * r2 + d[1] * r2 * r2
    return [x * s + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x), y * s + 2 * d[3] * x * y + d[2] * (r2 + 2 * y * y)]


def points(u, k, n, mild=False):
    """image points given through their normalised coordinates"""
    c = [u.vec('n%d' % i, 2, near=(-0.4, 0.4) if mild else (-1, 1)) for i in range(n)]
    return c, [proj(k, x) for x in c]


for nm, np_ in (('lens_distort', 1), ('lens_distort_inplace', 1), ('lens_distort_list', 2)):
    def mk(nm=nm, np_=np_):
        @unit(nm, CPP, cost=3, **(dict(bounded='two points') if np_ == 2 else {}))
        def _(u):
            k = camera(u); r = u.vec('r', 6); g = u.vec('g', 2)
            c, p = points(u, k, np_)
            u.inputs(k, r, g, p)
            o = u.outs(2 * np_)
            for i in range(np_):
                u.eqv('image of the distorted direction %d' % i, o[2 * i:2 * i + 2], proj(k, dist6(r, g, c[i], u)))
    mk()


@unit('lens_distort_raw', CPP, bounded='two points')
def _(u):
    r = u.vec('r', 6); g = u.vec('g', 2); p = [u.vec('p', 2), u.vec('q', 2)]
    u.inputs(r, g, p)
    u.eqv('distorted points', u.outs(4), flat([dist6(r, g, x, u) for x in p]))


@unit('lens_old_project', CPP)
def _(u):
    k = camera(u); d = u.vec('d', 4); p = u.vec('p', 3)
    u.requires(ne(p[2], ZERO))
    u.inputs(k, d, p)
    u.eqv('camera matrix times distorted direction', u.outs(2), [x / k[2][2] for x in mv(k, dist4(d, [p[0] / p[2], p[1] / p[2]]) + [ONE])[:2]])


@unit('lens_old_distort', CPP)
def _(u):
    k = camera(u); d = u.vec('d', 4); (c,), (p,) = points(u, k, 1)
    u.inputs(k, d, p)
    u.eqv('image of the distorted direction', u.outs(2), proj(k, dist4(d, c)))


# ---------------------------------------------------------------- inverse: the optimiser is represented by its contract (P15: never worse)
def lm_stub(u, f, used):
    def h(ex, a, rt, n):
        params, meas = [Ptr(x[1].o, x[1].off + 8) for x in a[1:3]]      # ublas bounded_vector: size, elements
        p0, m = ex.rd(params, 2), ex.rd(meas, 2)
        i = len(ex.log_lm) if hasattr(ex, 'log_lm') else 0
        ex.log_lm = getattr(ex, 'log_lm', []) + [1]
        x = used[i]
        e0, e1 = norm2(vsub(f(p0), m)), norm2(vsub(f(x), m))
        ex.facts.add(le(e1, e0))
        ex.wr(params, x)
        ex.lmargs = (p0, m)
        return e1
    u.stubs[r'levenbergMarquardt<'] = h


def undist(nm, np_, old=False):
    @unit(nm, CPP, cost=3, **(dict(bounded='two points') if np_ == 2 else {}))
    def _(u):
        k = camera(u, True)
        if old:
            d = u.vec('d', 4, near=(-.05, .05)); f = lambda p: dist4(d, p)
        else:
            r = u.vec('r', 6, near=(-.05, .05)); g = u.vec('g', 2, near=(-.01, .01)); f = lambda p: dist6(r, g, p)
        c, p = points(u, k, np_, True)
        u.inputs(*((k, d, p) if old else (k, r, g, p)))
        o = u.outs(2 * np_)
        xs = [[var('lm%d%d' % (i, j)) for j in range(2)] for i in range(np_)]
        lm_stub(u, f, xs)
        for i in range(np_):
            y = unproj(k, o[2 * i:2 * i + 2])
            dist6(r, g, c[i], u) if not old else 0
            u.holds('distorting the result is no farther from the input than distorting the input %d' % i,
                    le(norm2(vsub(f(y), c[i])), norm2(vsub(f(c[i]), c[i]))))


undist('lens_undistort', 1); undist('lens_undistort_list', 2); undist('lens_old_undistort', 1, True)


@unit('lens_roundtrip', CPP, sampled='mild distortion |k|<=0.05, |p|<=0.01, field of view up to 45 degrees')
def _(u):
    k = camera(u, True)
    r = u.vec('r', 6, near=(-.05, .05)); g = u.vec('g', 2, near=(-.01, .01))
    c, p = points(u, k, 1, True)
    u.inputs(k, r, g, p)
    u.eqv('distorting the undistorted point returns the point', u.outs(2), p[0], tol=1e-4)


@unit('lens_old_roundtrip', CPP, sampled='mild distortion |k|<=0.05, |p|<=0.01, field of view up to 45 degrees')
def _(u):
    k = camera(u, True); d = u.vec('d', 4, near=(-.05, .05))
    c, p = points(u, k, 1, True)
    u.inputs(k, d, p)
    u.eqv('distorting the undistorted point returns the point', u.outs(2), p[0], tol=1e-4)


# ---------------------------------------------------------------- single precision: proved over the reals, compiled code within single precision
for nm, np_ in (('lens_distort_f', 1), ('lens_distort_list_f', 2)):
    def mk(nm=nm, np_=np_):
        @unit(nm, CPP, cost=3, **(dict(bounded='two points') if np_ == 2 else {}))
        def _(u):
            u.float_ok = True
            k = camera(u, True); r = u.vec('r', 6, near=(-.5, .5)); g = u.vec('g', 2, near=(-.1, .1))
            c, p = points(u, k, np_, True)
            u.inputs(k, r, g, p)
            o = u.outs(2 * np_)
            for i in range(np_):
                u.eqv('image of the distorted direction %d' % i, o[2 * i:2 * i + 2], proj(k, dist6(r, g, c[i], u)), tol=1e-4)
    mk()


@unit('lens_old_project_f', CPP)
def _(u):
    u.float_ok = True
    k = camera(u, True); d = u.vec('d', 4, near=(-.5, .5)); p = [u.real('p0', near=(-1, 1)), u.real('p1', near=(-1, 1)), u.real('p2', near=(1, 3))]
    u.requires(ne(p[2], ZERO))
    u.inputs(k, d, p)
    u.eqv('camera matrix times distorted direction', u.outs(2), [x / k[2][2] for x in mv(k, dist4(d, [p[0] / p[2], p[1] / p[2]]) + [ONE])[:2]], tol=1e-4)


@unit('lens_old_distort_f', CPP)
def _(u):
    u.float_ok = True
    k = camera(u, True); d = u.vec('d', 4, near=(-.5, .5)); (c,), (p,) = points(u, k, 1, True)
    u.inputs(k, d, p)
    u.eqv('image of the distorted direction', u.outs(2), proj(k, dist4(d, c)), tol=1e-4)


for nm, np_, old in (('lens_undistort_f', 1, False), ('lens_undistort_list_f', 2, False), ('lens_old_undistort_f', 1, True)):
    def mk(nm=nm, np_=np_, old=old):
        @unit(nm, CPP, sampled='single precision, mild distortion |k|<=0.05, |p|<=0.01, field of view up to 45 degrees')
        def _(u):
            k = camera(u, True)
            c = [u.vec('n%d' % i, 2, near=(-0.4, 0.4)) for i in range(np_)]
            if old:
                d = u.vec('d', 4, near=(-.05, .05)); a = [dist4(d, x) for x in c]
            else:
                r = u.vec('r', 6, near=(-.05, .05)); g = u.vec('g', 2, near=(-.01, .01)); a = [dist6(r, g, x) for x in c]
            p = [proj(k, x) for x in a]
            u.inputs(*((k, d, p) if old else (k, r, g, p)))
            u.eqv('the point whose distortion was given', u.outs(2 * np_), flat([proj(k, x) for x in c]), tol=1e-3)
    mk()
