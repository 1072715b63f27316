"""Analytic Jacobians of the optimisation / measurement functions are the derivatives of the functions."""
from spec import *
CPP = 'function.cpp'


def fj(u, name, ins, f, xs, extra=()):
    """outputs: value then row-major jacobian"""
    n, m = len(f), len(xs)
    o = u.outs(n + n * m)
    u.eqv('value', o[:n], f)
    u.eqv('jacobian is the derivative', o[n:], flat(jac(f, xs)))


@unit('jac_quatrot', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(q, v)
    fj(u, '', None, rotv(q, v), q)


@unit('jac_quatvec', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(q, v)
    f = rotv(q, v)
    o = u.outs(3 + 12 + 9)
    u.eqv('value', o[:3], f)
    u.eqv('jacobian by the rotation', o[3:15], flat(jac(f, q)))
    u.eqv('jacobian by the vector', o[15:], flat(jac(f, v)))


def errrot(q, v):
    e = [var('e%d' % i) for i in range(3)]
    s = {x.id: ZERO for x in e}
    return [[tm.subst(t, s) for t in r] for r in jac(rotv(qmul(q, e + [ONE]), v), e)]


@unit('jac_quatroterr', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(q, v)
    u.eqv('derivative by a small rotation applied first', u.outs(9), flat(errrot(q, v)))


@unit('jac_dehom', CPP)
def _(u):
    v = u.vec('v', 3)
    u.requires(ne(v[2], ZERO))
    u.inputs(v)
    fj(u, '', None, [v[0] / v[2], v[1] / v[2]], v)


@unit('jac_intrinsics', CPP)
def _(u):
    k = u.vec('k', 5); p = u.vec('p', 2)
    u.inputs(k, p)
    fj(u, '', None, [-(k[0] * p[0] + k[1] * p[1] + k[2]), -(k[3] * p[1] + k[4])], k)


def raddist(p, d):
    x, y = p
    r2 = x * x + y * y
    s = 1 + d[0] * r2 + d[1] * r2 * r2
    return [x * s + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x), y * s + 2 * d[3] * x * y + d[2] * (r2 + 2 * y * y)]


@unit('jac_raddist_p', CPP)
def _(u):
    p = u.vec('p', 2); d = u.vec('d', 4)
    u.inputs(p, d)
    fj(u, '', None, raddist(p, d), p)


@unit('jac_raddist_d', CPP)
def _(u):
    p = u.vec('p', 2); d = u.vec('d', 4)
    u.inputs(p, d)
    fj(u, '', None, raddist(p, d), d)


@unit('jac_normalize', CPP)
def _(u):
    v = u.vec('v', 4)
    u.requires(gt(norm2(v), ZERO))
    u.inputs(v)
    n = norm(v)
    fj(u, '', None, [x / n for x in v], v)


@unit('jac_linear', CPP)
def _(u):
    a = u.mat('a', 2, 3); v = u.vec('v', 3)
    u.inputs(a, v)
    fj(u, '', None, mv(a, v), v)


def rodrigues(w, v):
    """rotation of v by the rotation vector w"""
    n = norm(w)
    c, s = cos(n), sin(n)
    k = [x / n for x in w]
    return vadd(vadd(vscale(c, v), vscale(s, cross(k, v))), vscale((1 - c) * dot(k, v), k))


@unit('jac_lie', CPP, cost=10)
def _(u):
    w = u.vec('w', 3); v = u.vec('v', 3)
    u.inputs(w, v)
    far = [ge(norm2(w), T(0.000001))]
    f = rodrigues(w, v)
    o = u.outs(12)
    n = norm(w)
    u.ctx.declare_base(n / 2)
    u.eqv('value', o[:3], f, when=far)
    u.eqv('jacobian is the derivative', o[3:], flat(jac(f, w)), when=far)
    near = [le(norm2(w), ZERO)]
    u.eqv('value without rotation', o[:3], v, when=near)
    u.eqv('jacobian without rotation', o[3:], flat(mscale(-1, skew(v))), when=near)
    u.hint(lambda r: dict(w0=0.0, w1=0.0, w2=0.0))


@unit('jac_poseproj', CPP, cost=8, bounded='2 points')
def _(u):
    t = u.vec('t', 3); q = u.quat('q'); k = u.mat('k', 3, 3); ps = [u.vec('a', 3), u.vec('b', 3)]
    u.inputs(t, q, k, ps)
    f = []
    for p in ps:
        w = vadd(rotv(q, p), t)
        c = mv(k, w)
        u.cut(c, w)
        u.requires(ne(c[2], ZERO))
        f += [c[0] / c[2], c[1] / c[2]]
    fj(u, '', None, f, t + q)


@unit('jac_poseproj_err', CPP, cost=8, bounded='2 points')
def _(u):
    t = u.vec('t', 3); q = u.quat('q'); k = u.mat('k', 3, 3); ps = [u.vec('a', 3), u.vec('b', 3)]
    u.inputs(t, q, k, ps)
    j = []
    cs = [var('c%d' % i) for i in range(3)]
    for p in ps:
        w = vadd(rotv(q, p), t)
        c = mv(k, w)
        u.cut(c, w)
        u.requires(ne(c[2], ZERO))
        d = [[tm.subst(x, {cs[i].id: c[i] for i in range(3)}) for x in r] for r in jac([cs[0] / cs[2], cs[1] / cs[2]], cs)]
        j += [a + b for a, b in zip(mm(d, k), mm(mm(d, k), errrot(q, p)))]
    u.eqv('derivative by translation and small rotation', u.outs(24), flat(j))


@unit('jac_camproj_err', CPP, cost=8, bounded='2 cameras, 2 points, 3 visibilities')
def _(u):
    t = u.vec('t', 3); q = u.quat('q'); ks = [u.mat('k', 3, 4), u.mat('l', 3, 4)]; ps = [u.vec('a', 3), u.vec('b', 3)]
    u.inputs(t, q, ks, ps)
    j = []
    cs = [var('c%d' % i) for i in range(3)]
    for pi, ki in ((0, 0), (1, 1), (0, 1)):
        p = ps[pi]; k3 = [r[:3] for r in ks[ki]]; k4 = [r[3] for r in ks[ki]]
        w = vadd(rotv(q, p), t)
        c = vadd(mv(k3, w), k4)
        u.cut(c, w)
        u.requires(ne(c[2], ZERO))
        d = [[tm.subst(x, {cs[i].id: c[i] for i in range(3)}) for x in r] for r in jac([cs[0] / cs[2], cs[1] / cs[2]], cs)]
        j += [a + b for a, b in zip(mm(d, k3), mm(mm(d, k3), errrot(q, p)))]
    u.eqv('derivative by translation and small rotation', u.outs(36), flat(j))


@unit('jac_camproj', CPP, cost=12, bounded='2 cameras, 2 points, 2 visibilities')
def _(u):
    t = u.vec('t', 3); q = u.quat('q')
    cam = [(u.quat('g'), u.vec('gt', 3)), (u.quat('h'), u.vec('ht', 3))]
    ks = [[[u.real(n + '00'), u.real(n + '01'), u.real(n + '02')], [ZERO, u.real(n + '11'), u.real(n + '12')], [ZERO, ZERO, u.real(n + '22')]] for n in 'kl']
    ds = [u.vec('d', 4), u.vec('e', 4)]
    ps = [u.vec('a', 3), u.vec('b', 3)]
    u.inputs(t, q, cam[0][0], cam[0][1], cam[1][0], cam[1][1], ks, ds, ps)
    f = []; js = []
    x = [var('x%d' % i) for i in range(3)]
    for pi, ki in ((0, 0), (1, 1)):
        k = ks[ki]
        w = vadd(rotv(q, ps[pi]), t)
        c = vadd(rotv(cam[ki][0], w), cam[ki][1])
        u.cut(c, w, rotmat(cam[ki][0]), jac(rotv(q, ps[pi]), q))
        u.requires(ne(c[2], ZERO))
        d = raddist([x[0] / x[2], x[1] / x[2]], ds[ki])
        pr = [k[2][2] * (k[0][0] * d[0] + k[0][1] * d[1] + k[0][2]), k[2][2] * (k[1][1] * d[1] + k[1][2])]
        s = {x[i].id: c[i] for i in range(3)}
        f += [tm.subst(y, s) for y in pr]
        jp = [[tm.subst(y, s) for y in r] for r in jac(pr, x)]
        jt = mm(jp, rotmat(cam[ki][0]))
        jq = mm(jt, jac(rotv(q, ps[pi]), q))
        js += [a + b for a, b in zip(jt, jq)]
    o = u.outs(4 + 28)
    u.eqv('value', o[:4], f)
    u.eqv('jacobian is the derivative', o[4:], flat(js))


@unit('jac_pointmulti', CPP, cost=4, bounded='2 cameras')
def _(u):
    x = u.vec('x', 3); ks = [u.mat('k', 3, 4), u.mat('l', 3, 4)]
    u.inputs(x, ks)
    f = []
    for k in ks:
        c = mv(k, x + [ONE])
        u.requires(ne(c[2], ZERO))
        f += [c[0] / c[2], c[1] / c[2]]
    fj(u, '', None, f, x)


@unit('jac_3d3d', CPP, cost=4, bounded='2 points')
def _(u):
    # any non-zero quaternion stands for the rotation it has after normalisation
    t = u.vec('t', 3); q = u.vec('q', 4); ps = [u.vec('a', 3), u.vec('b', 3)]
    u.clear_of_zero(norm2(q), 0.0001)
    u.inputs(t, q, ps)
    f = []
    for p in ps:
        f += vadd([x / norm2(q) for x in rotv(q, p)], t)
    fj(u, '', None, f, t + q)


@unit('jac_tooltip', CPP, cost=4, bounded='2 poses')
def _(u):
    pw = u.vec('w', 3); pm = u.vec('m', 3)
    poses = [(u.quat('g'), u.vec('gt', 3)), (u.quat('h'), u.vec('ht', 3))]
    u.inputs(pw, pm, poses[0][0], poses[0][1], poses[1][0], poses[1][1])
    f = []
    for q, t in poses:
        d = vsub(pw, vadd(mv(rotmat(q), pm), t))
        u.cut(d)
        u.requires(gt(norm2(d), ZERO))
        f.append(norm(d))
    fj(u, '', None, f, pw + pm)


@unit('jac_undistort', CPP, cost=4)
def _(u):
    p = u.vec('p', 2); k = u.vec('k', 6); g = u.vec('g', 2)
    u.inputs(p, k, g)
    x, y = p
    r2 = x * x + y * y
    lo = 1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2
    u.requires(ne(lo, ZERO))
    s = (1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2) / lo
    fj(u, '', None, [x * s + 2 * g[0] * x * y + g[1] * (r2 + 2 * x * x), y * s + 2 * g[1] * x * y + g[0] * (r2 + 2 * y * y)], p)


@unit('jac_rothec', CPP)
def _(u):
    a = u.quat('a'); b = u.quat('b'); x = u.vec('x', 4)
    u.inputs(a, b, x)
    fj(u, '', None, vsub(qmul(a, x), qmul(x, b)), x)


@unit('jac_rothec_combine', CPP)
def _(u):
    a = u.vec('a', 4); b = u.vec('b', 4); x = u.quat('x')
    u.inputs(a, b, x)
    f = vsub(qmul(a, x), qmul(x, b))
    o = u.outs(32)
    u.eqv('derivative by the first rotation', o[:16], flat(jac(f, a)))
    u.eqv('derivative by the second rotation', o[16:], flat(jac(f, b)))


@unit('jac_ppnorm', CPP)
def _(u):
    t = u.vec('t', 3); q = u.vec('q', 4)
    u.clear_of_zero(norm2(q), 0.01)
    u.inputs(t, q)
    n = norm(q)
    o = u.outs(7)
    u.eqv('normalised rotation', o[3:], [x / n for x in q])
    u.eqv('translation scaled like the rotated points', o[:3], [x / norm2(q) for x in t])


@unit('jac_camproj_art', CPP, cost=8, bounded='2 cameras, 2 points, 3 visibilities')
def _(u):
    """dehomogenize( P * ( E_r * R * ( p - c_g ) + R * c_g + t + e_t ) ) by e_t and the angles of E_r; R by its own contract (conv_explog)"""
    t = u.vec('t', 3); r = u.vec('r', 3); ks = [u.mat('k', 3, 4), u.mat('l', 3, 4)]; ps = [u.vec('a', 3), u.vec('b', 3)]; g = u.vec('g', 3)
    u.inputs(t, r, ks, ps, g)
    j = []
    cs = [var('c%d' % i) for i in range(3)]
    n = norm(r)
    u.clear_of_zero(norm2(r) - T(1e-24), 1e-6)
    s = sin(n / 2) / n
    q = [s * x for x in r] + [cos(n / 2)]
    u.ctx.declare_base(n / 2)
    e = [var('e%d' % i) for i in range(3)]
    for pi, ki in ((0, 0), (1, 1), (0, 1)):
        p = ps[pi]; k3 = [x[:3] for x in ks[ki]]; k4 = [x[3] for x in ks[ki]]
        R = rotmat(q)
        d = mv(R, vsub(p, g))
        w = vadd(vadd(d, mv(R, g)), t)
        c = vadd(mv(k3, w), k4)
        u.cut(c, w, d)
        u.requires(ne(c[2], ZERO))
        dc = [[tm.subst(x, {cs[i].id: c[i] for i in range(3)}) for x in rr] for rr in jac([cs[0] / cs[2], cs[1] / cs[2]], cs)]
        jr = jac(cross(e, d), e)
        j += [a + b for a, b in zip(mm(dc, k3), mm(mm(dc, k3), jr))]
    u.eqv('derivative by translation and small rotation about the center', u.outs(36), flat(j))
