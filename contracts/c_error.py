"""First-order error propagation of poses with covariance, and conversion of its representations."""
from spec import *
CPP = 'error.cpp'


def pose(u, n):
    return u.quat(n + 'q'), u.vec(n + 't', 3)


def at0(m, es):
    s = {e.id: ZERO for e in es}
    return [[tm.subst(t, s) for t in r] for r in m]


class E:
    """symbolic error of a pose: translation error and small rotation (e,1)"""
    def __init__(self, n):
        self.t = [var(n + '_et%d' % i) for i in range(3)]
        self.r = [var(n + '_er%d' % i) for i in range(3)]
        self.all = self.t + self.r


def noisy(q, t, e):
    """x -> q e_r x e_r* q* + t + e_t"""
    return qmul(q, e.r + [ONE]), vadd(t, e.t)


def pmul(a, b):
    return qmul(a[0], b[0]), vadd(a[1], rotv(a[0], b[1]))


def pinv(a):
    """inverse; exact to first order in the error since |(e,1)| = 1 + O(e^2)"""
    qi = qconj(a[0])
    return qi, vneg(rotv(qi, a[1]))


def residual(noisy_p, p):
    """error of a noisy pose relative to the nominal one (first order)"""
    return vsub(noisy_p[1], p[1]) + qmul(qconj(p[0]), noisy_p[0])[:3]


def cov(js):
    s = None
    for j, c in js:
        k = mm(mm(j, c), mt(j))
        s = k if s is None else madd(s, k)
    return s


def J(f, es):
    return at0(jac(f, es), es)


def check(u, p, c, n0=0):
    o = u.outs(43)
    u.eqv('rotation', o[:4], p[0])
    u.eqv('translation', o[4:7], p[1])
    u.eqv('covariance is the first-order propagation of the input error', o[7:], flat(c))


@unit('err_invert', CPP, cost=10)
def _(u):
    q, t = pose(u, 'a'); c = u.mat('c', 6, 6)
    u.inputs(q, t, c)
    e = E('a')
    p = pinv((q, t))
    j = J(residual(pinv(noisy(q, t, e)), p), e.all)
    check(u, p, cov([(j, c)]))


def _mul(u, ea, eb):
    qa, ta = pose(u, 'a')
    ca = u.mat('c', 6, 6) if ea else None
    qb, tb = pose(u, 'b')
    cb = u.mat('d', 6, 6) if eb else None
    u.inputs(*[x for x in (qa, ta, ca, qb, tb, cb) if x is not None])
    A, B = E('a'), E('b')
    p = pmul((qa, ta), (qb, tb))
    js = []
    if ea:
        js.append((J(residual(pmul(noisy(qa, ta, A), (qb, tb)), p), A.all), ca))
    if eb:
        js.append((J(residual(pmul((qa, ta), noisy(qb, tb, B)), p), B.all), cb))
    check(u, p, cov(js))


@unit('err_mul', CPP, cost=20)
def _(u): _mul(u, True, True)


@unit('err_mul_right', CPP, cost=10)
def _(u): _mul(u, True, False)


@unit('err_mul_left', CPP, cost=10)
def _(u): _mul(u, False, True)


def _point(u, eb):
    q, t = pose(u, 'a'); c = u.mat('c', 6, 6); x = u.vec('x', 3)
    u.inputs(q, t, c, x)
    e = E('a')
    qn, tn = noisy(q, t, e)
    js = [(J(vadd(rotv(qn, x), tn), e.all), c)]
    if eb:
        d = u.mat('d', 3, 3)
        u.inputs(d)
        js.append((rotmat(q), d))
    o = u.outs(12)
    u.eqv('point', o[:3], vadd(rotv(q, x), t))
    u.eqv('covariance is the first-order propagation of the input error', o[3:], flat(cov(js)))


@unit('err_point', CPP, cost=5)
def _(u): _point(u, False)


@unit('err_errpoint', CPP, cost=5)
def _(u): _point(u, True)


@unit('err_invmul', CPP, cost=30)
def _(u):
    qa, ta = pose(u, 'a'); ca = u.mat('c', 6, 6)
    qb, tb = pose(u, 'b'); cb = u.mat('d', 6, 6)
    u.inputs(qa, ta, ca, qb, tb, cb)
    A, B = E('a'), E('b')
    p = pmul(pinv((qa, ta)), (qb, tb))
    ja = J(residual(pmul(pinv(noisy(qa, ta, A)), (qb, tb)), p), A.all)
    jb = J(residual(pmul(pinv((qa, ta)), noisy(qb, tb, B)), p), B.all)
    check(u, p, cov([(ja, ca), (jb, cb)]))


# ------------------------------------------------------------------ P05
def Lq(q):
    e = [var('le%d' % i) for i in range(4)]
    return jac(qmul(q, e), e)


@unit('errconv_to', CPP, cost=5)
def _(u):
    q, t = pose(u, 'a'); c = u.sym('c', 6)
    u.inputs(q, t, c)
    o = u.outs(56)
    u.eqv('value', o[:7], t + q)
    ext = [list(r) + [ZERO] for r in c] + [[ZERO] * 6 + [c[3][3] + c[4][4] + c[5][5]]]
    j = [[ONE if i == k and i < 3 else ZERO for k in range(7)] for i in range(7)]
    l = Lq(q)
    for i in range(4):
        for k in range(4):
            j[3 + i][3 + k] = l[i][k]
    u.eqv('additive covariance is the propagated multiplicative one', o[7:], flat(mm(mm(j, ext), mt(j))))


@unit('errconv_from', CPP, cost=5)
def _(u):
    q, t = pose(u, 'a'); c = u.sym('c', 7)
    u.inputs(t, q, c)
    o = u.outs(43)
    u.eqv('rotation', o[:4], q)
    u.eqv('translation', o[4:7], t)
    j = [[ONE if i == k and i < 3 else ZERO for k in range(7)] for i in range(7)]
    l = Lq(qconj(q))
    for i in range(4):
        for k in range(4):
            j[3 + i][3 + k] = l[i][k]
    r = mm(mm(j, c), mt(j))
    u.eqv('multiplicative covariance is the propagated additive one', o[7:], flat([x[:6] for x in r[:6]]))


@unit('errconv_roundtrip', CPP, cost=5)
def _(u):
    q, t = pose(u, 'a'); c = u.sym('c', 6)
    u.inputs(q, t, c)
    o = u.outs(43)
    u.eqv('rotation', o[:4], q)
    u.eqv('translation', o[4:7], t)
    u.eqv('covariance', o[7:], flat(c))


@unit('errconv_rms', CPP)
def _(u):
    c = u.mat('c', 3, 3)
    u.requires(ge(c[0][0], ZERO), ge(c[1][1], ZERO), ge(c[2][2], ZERO))
    u.inputs(c)
    o = u.outs(1)
    u.eq('root of the trace', o[0], sqrt(c[0][0] + c[1][1] + c[2][2]))


@unit('errconv_print', CPP, sampled='printed numbers of generated covariances')
def _(u):
    import math
    q, t = pose(u, 'a'); c = [[None] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i + 1):
            c[i][j] = c[j][i] = u.real('c%d_%d' % (i, j), *((0, 0.3) if i == j else (-1, 1)))
    u.inputs(q, t, c)
    u.outs(3)

    def chk(env, inp, out, io):
        m = inp[7:]
        d = [m[7 * i] for i in range(6)]
        p, r = math.sqrt(sum(d[:3])), 2 * math.asin(math.sqrt(sum(d[3:])))
        for what, a, b in (('position', out[0], p), ('orientation', out[1], r), ('orientation in degrees', out[2], r * 180 / math.pi)):
            if not abs(a - b) <= 1e-4 * (abs(b) + 1e-3):
                return 'printed %s error %g, the covariance says %g' % (what, a, b)
    u.oracles.append(('printed errors', chk))


@unit('err_interp', CPP, cost=5)
def _(u):
    qa, ta = pose(u, 'a'); ca = u.mat('c', 6, 6)
    qb, tb = pose(u, 'b'); cb = u.mat('d', 6, 6)
    t = u.real('t', 0, 1)
    u.inputs(qa, ta, ca, qb, tb, cb, t)
    o = u.outs(43)
    u.domain_optional = True
    u.eqv('translation', o[4:7], [(1 - t) * x + t * y for x, y in zip(ta, tb)])

    def rot(env, inp, out, iout):
        import numpy as np
        from scipy.spatial.transform import Rotation as R
        a, b = R.from_quat(inp[:4]), R.from_quat(inp[43:47])
        if np.linalg.norm((a.inv() * b).as_rotvec()) > 3.1:
            return None         # both ways round are equally long
        want = a * R.from_rotvec(inp[86] * (a.inv() * b).as_rotvec())
        x = [float(v) for v in out[:4]]
        d = (want.inv() * R.from_quat(x)).magnitude()
        return None if d < 1e-6 and abs(np.linalg.norm(x) - 1) < 1e-6 else 'the rotation is %g rad from the one on the shorter way' % d
    u.oracles.append(('rotation on the shorter way', rot))
    u.eqv('covariance of the weighted sum of independent poses', o[7:], flat(madd(mscale((1 - t) * (1 - t), ca), mscale(t * t, cb))))
