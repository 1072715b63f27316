"""Motion models of the trackers: time updates, rotation velocities and their linearisation."""
from spec import *
CPP = 'tracking.cpp'


def qexp(w):
    """unit quaternion of the rotation vector w (|w| > 0)"""
    n = norm(w)
    return [x / n * sin(n / 2) for x in w] + [cos(n / 2)]


@unit('trk_rv_ctor', CPP)
def _(u):
    a = u.quat('a'); d = u.quat('d'); dt = u.real('dt')
    u.requires(ne(dt, ZERO))
    u.inputs(a, qmul(a, d), dt)
    o = u.outs(3)
    n = norm(d[:3])
    for nm, s, w in (('same side', 1, gt(d[3], ZERO)), ('opposite sign', -1, lt(d[3], ZERO))):
        u.eqv('velocity times interval is the rotation vector from a to b, %s' % nm, vscale(n * dt, o),
              [2 * fn('acos', d[3] * s) * s * x for x in d[:3]], when=[w, ge(norm2(d[:3]), T(1e-16))])


@unit('trk_rv_integrate', CPP)
def _(u):
    v = u.vec('v', 3); dt = u.real('dt')
    u.inputs(v, dt)
    o = u.outs(4)
    w = vscale(dt, v)
    u.eqv('rotation by velocity times interval', o, qexp(w), when=[ge(norm2(w), T(1e-16))])
    u.eq('unit norm', norm2(o), ONE)


@unit('trk_rv_axis', CPP)
def _(u):
    v = u.vec('v', 3)
    u.inputs(v)
    o = u.outs(4)
    u.eq('angular velocity', o[0], norm(v))
    u.eqv('axis times angular velocity', vscale(o[0], o[1:]), v)
    u.eq('unit axis', norm2(o[1:]), ONE, when=[gt(norm2(v), ZERO)])
    u.eqv('zero velocity', o[1:], [ZERO] * 3, when=[eq(norm2(v), ZERO)])
    u.hint(lambda r: dict(v0=0.0, v1=0.0, v2=0.0))


def rvi(v, dt):
    n = norm(v)
    return [x / n * sin(n * dt / 2) for x in v] + [cos(n * dt / 2)]


def rvi_jac(v, dt):
    """linearisation for small rotations: derivative of (v dt/2, 1 - |v|^2 dt^2 / 8)"""
    return [[dt / 2 if i == j else ZERO for j in range(3)] for i in range(3)] + [[-(dt * dt) / 4 * x for x in v]]


@unit('trk_rvi', CPP)
def _(u):
    v = u.vec('v', 3); dt = u.real('dt')
    u.inputs(v, dt)
    o = u.outs(16)
    w = [ge(norm2(v), T(1e-8)), ge(dt * dt, T(1e-8))]
    u.eqv('rotation by velocity times interval', o[:4], rvi(v, dt), when=w)
    u.eq('unit norm', norm2(o[:4]), ONE, when=w)
    u.eqv('linearised derivative', o[4:], flat(rvi_jac(v, dt)))


def qtu(q, v, dt):
    """value and derivative at zero velocity"""
    val = qmul(q, qexp(vscale(dt, v)))
    e = [var('e%d' % i) for i in range(3)]
    J = jac(qmul(q, [x * dt / 2 for x in e] + [ONE]), e)
    return val, [r + s for r, s in zip(eye(4), J)]


@unit('trk_quat', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3); dt = u.real('dt')
    u.inputs(q, v, dt)
    o = u.outs(4 + 28)
    val, J = qtu(q, v, dt)
    u.eqv('rotated by the integrated velocity', o[:4], val, when=[ge(norm2(vscale(dt, v)), T(1e-16))])
    u.eq('unit norm', norm2(o[:4]), ONE)
    u.eqv('derivative at rest', o[4:], flat(J))


def taylor(ds, dt):
    """value and coefficients of sum ds[i] dt^i / i!"""
    c = [ONE]
    for i in range(1, len(ds)):
        c.append(c[-1] * dt / i)
    n = len(ds[0])
    return [dot(c, [d[k] for d in ds]) for k in range(n)], c


@unit('trk_linear', CPP)
def _(u):
    ds = [u.vec('x%d' % i, 2) for i in range(3)]; dt = u.real('dt')
    u.inputs(ds, dt)
    o = u.outs(2 + 12)
    val, c = taylor(ds, dt)
    u.eqv('value', o[:2], val)
    u.eqv('derivative', o[2:], flat([[c[j] if k == i else ZERO for j in range(3) for k in range(2)] for i in range(2)]))


def pose_unit(P, R):
    @unit('trk_pose_%d_%s' % (P, 'm' if R < 0 else R), CPP, cost=3)
    def _(u):
        ds = [u.vec('p%d_' % i, 3) for i in range(P + 1)]
        q = u.quat('q') if R >= 0 else []
        v = u.vec('v', 3) if R >= 1 else []
        dt = u.real('dt')
        u.inputs(ds, q, v, dt)
        n = 3 + 3 * P + (4 + 3 * R if R >= 0 else 0)
        o = u.outs(n + n * n)
        val = []
        J = zeros(n, n)
        for i in range(P + 1):
            x, c = taylor(ds[i:], dt)
            val += x
            for k in range(3):
                for j, cc in enumerate(c):
                    J[3 * i + k][3 * (i + j) + k] = cc
        b = 3 * (P + 1)
        when = []
        if R == 0:
            val += q
            for k in range(4):
                J[b + k][b + k] = ONE
        if R == 1:
            x, qj = qtu(q, v, dt)
            val += x + v
            for k in range(4):
                J[b + k][b:] = qj[k]
            for k in range(3):
                J[b + 4 + k][b + 4 + k] = ONE
            when = [ge(norm2(vscale(dt, v)), T(1e-16))]
        u.eqv('position derivatives', o[:b], val[:b])
        if R >= 0:
            u.eqv('rotation', o[b:b + 4], val[b:b + 4], when=when)
            u.eqv('rotation velocity is constant', o[b + 4:n], val[b + 4:])
        u.eqv('derivative', o[n:], flat(J))


for a, b in ((0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1), (2, 0), (2, 1)):
    pose_unit(a, b)


def inside_unit(P):
    @unit('trk_inside_%d' % P, CPP, cost=6)
    def _(u):
        p = u.vec('p', 3); pv = u.vec('pv', 3) if P else []
        q = u.quat('q'); v = u.vec('v', 3); dt = u.real('dt')
        u.inputs(p, pv, q, v, dt)
        n = 10 + 3 * P
        b = 3 + 3 * P
        o = u.outs(n + n * n)
        w = rotv(q, v)              # angular velocity seen from outside
        when = [ge(norm2(v), T(1e-8)), ge(dt * dt, T(1e-8))]
        ex = rvi(w, dt)
        n2 = norm2(v)
        u.cut(w, jac(rotv(q, v), q), rotmat(q))
        np = rotv(ex, p)
        if P:
            np = vadd(np, vscale(dt, pv))
        u.eqv('position moves with the rotation', o[:3], np, when=when)
        if P:
            u.eqv('velocity turns with the rotation', o[3:6], rotv(ex, pv), when=when)
        x, qj = qtu(q, v, dt)
        u.eqv('rotation', o[b:b + 4], x, when=when)
        u.eqv('rotation velocity is constant', o[b + 4:n], v)
        r = [var('r%d' % i) for i in range(4)]
        sub = {r[i].id: ex[i] for i in range(4)}
        J = zeros(n, n)

        def block(row, pp):
            jq = [[tm.subst(t, sub) for t in rr] for rr in jac(rotv(r, pp), r)]
            jv = [[tm.subst(t, sub) for t in rr] for rr in jac(rotv(r, pp), pp)]
            acc = mm(jq, rvi_jac(w, dt))
            jb = mm(acc, jac(rotv(q, v), q))
            jc = mm(acc, jac(rotv(q, v), v))
            for k in range(3):
                J[row + k][row:row + 3] = jv[k]
                J[row + k][b:b + 4] = jb[k]
                J[row + k][b + 4:b + 7] = jc[k]
        block(0, p)
        if P:
            for k in range(3):
                J[k][3 + k] = dt
            block(3, pv)
        for k in range(4):
            J[b + k][b:] = qj[k]
        for k in range(3):
            J[b + 4 + k][b + 4 + k] = ONE
        u.eqv('derivative (rotations linearised for small angles)', o[n:], flat(J), when=when)


inside_unit(0)
inside_unit(1)


@unit('trk_invvel', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(q, v)
    o = u.outs(3 + 21)
    f = rotv(q, vneg(v))
    u.eqv('velocity of the inverse rotation', o[:3], f)
    u.eqv('derivative', o[3:], flat(jac(f, q + v)))


def model_unit(P, R):
    @unit('trk_model_%d_%s' % (P, 'm' if R < 0 else R), CPP, cost=2)
    def _(u):
        pn = u.vec('p', 3); rn = u.vec('r', 3); dt = u.real('dt')
        n = 3 + 3 * P + (4 + 3 * R if R >= 0 else 0)
        c = u.mat('c', n, n)
        u.inputs(pn, rn, dt, c)
        o = u.outs(n * n)
        d = [x for i in range(P + 1) for x in [pn[i]] * 3]
        for i in range(R + 1):
            d += [rn[i]] * (4 if i == 0 else 3)
        e = [[c[i][j] + (absv(dt) * d[i] * d[i] if i == j else ZERO) for j in range(n)] for i in range(n)]
        u.eqv('noise is added to its own state entries', o, flat(e))


for a, b in ((0, 0), (1, 1), (2, -1), (1, 2)):
    model_unit(a, b)


def stamps(u):
    t0 = u.int('t0', lo=1, hi=2 ** 62, sampler=lambda r: r.randint(10 ** 18, 10 ** 18 + 10 ** 9))
    t1 = u.int('t1', lo=1, hi=2 ** 62, sampler=lambda r: r.randint(10 ** 18, 10 ** 18 + 10 ** 9))
    u.iinputs(t0, t1)
    return t0, t1


@unit('trk_rokf_first', CPP, cost=5)
def _(u):
    q = u.quat('q'); u.inputs(q)
    t0, t1 = stamps(u)
    o = u.outs(11); io = u.iouts(1)
    u.eqv('first measurement is the state', o[4:8], q)
    u.eqv('no velocity yet', o[8:11], [ZERO] * 3)
    u.eqv('prediction without velocity', o[:4], q)
    u.holds('prediction carries the requested time', Cond('bv', io[0] == t1))


@unit('trk_rokf_vel', CPP, cost=5)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3); u.inputs(q, v)
    t0, t1 = stamps(u)
    o = u.outs(11); io = u.iouts(1)
    dt = u.int2real(t1 - t0, True) * T(1e-9)
    u.eqv('velocity is weighted by its variance', o[8:11], vscale(1 / T(1.00001), v))
    w = vscale(dt / T(1.00001), v)
    u.eqv('rotation unchanged by a velocity', o[4:8], q)
    u.eqv('prediction turns by the velocity since the last measurement', o[:4], qmul(q, qexp(w)), when=[ge(norm2(w), T(1e-16))])
    u.eq('unit norm', norm2(o[:4]), ONE)
    u.holds('prediction carries the requested time', Cond('bv', io[0] == t1))
