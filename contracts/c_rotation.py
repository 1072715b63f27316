"""Rotations, conversions, rigid poses and interpolation."""
from spec import *
CPP = 'rotation.cpp'


def Rx(a): return [[ONE, ZERO, ZERO], [ZERO, cos(a), -sin(a)], [ZERO, sin(a), cos(a)]]
def Ry(a): return [[cos(a), ZERO, sin(a)], [ZERO, ONE, ZERO], [-sin(a), ZERO, cos(a)]]
def Rz(a): return [[cos(a), -sin(a), ZERO], [sin(a), cos(a), ZERO], [ZERO, ZERO, ONE]]


# ------------------------------------------------------------------ P01
@unit('rot_vector', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(q, v)
    o = u.outs(3)
    u.eqv('rotated vector equals q v q*', o, rotv(q, v))
    u.eq('length is preserved', norm2(o), norm2(v))


@unit('rot_compose', CPP)
def _(u):
    p = u.quat('p'); q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(p, q, v)
    o = u.outs(7)
    u.eqv('composed rotation applies the right factor first', o[:3], rotv(p, rotv(q, v)))
    u.eqv('product', o[3:], qmul(p, q))
    u.eq('product has unit norm', norm2(o[3:]), ONE)


@unit('rot_inverse', CPP)
def _(u):
    q = u.quat('q'); v = u.vec('v', 3)
    u.inputs(q, v)
    o = u.outs(11)
    u.eqv('inverse is the conjugate', o[:4], qconj(q))
    u.eqv('inverse undoes the rotation', o[4:7], v)
    u.eqv('in-place inverse', o[7:], qconj(q))


@unit('rot_normalize', CPP)
def _(u):
    q = u.vec('q', 4)
    u.clear_of_zero(norm2(q), 0.0001)
    u.inputs(q)
    o = u.outs(4)
    u.eq('unit norm', norm2(o), ONE)
    n = norm(q)
    u.eqv('direction kept', vscale(n, o), q)


@unit('rot_angle', CPP)
def _(u):
    q = u.quat('q')
    u.inputs(q)
    o = u.outs(1)
    u.eq('angle of the shorter way round', o[0], 2 * fn('acos', q[3]), when=[gt(q[3], ZERO)])
    u.eq('angle of the shorter way round (negative scalar part)', o[0], 2 * fn('acos', -q[3]), when=[le(q[3], ZERO)])


@unit('rot_identity', CPP)
def _(u):
    u.eqv('identity', u.outs(4), [0, 0, 0, 1])


@unit('rot_negate_if_closer', CPP)
def _(u):
    a = u.vec('a', 4); r = u.vec('r', 4)
    u.inputs(a, r)
    o = u.outs(4)
    u.holds('result is plus or minus the input',
            Or(And(*[eq(x, y) for x, y in zip(o, a)]), And(*[eq(x, -y) for x, y in zip(o, a)])))
    u.holds('result is at least as close to the reference', ge(dot(o, r), ZERO))


# ------------------------------------------------------------------ P02
@unit('conv_to_matrix', CPP)
def _(u):
    q = u.quat('q')
    u.inputs(q)
    o = u.outs(9)
    m = [o[0:3], o[3:6], o[6:9]]
    e = [rotv(q, c) for c in eye(3)]
    u.eqv('matrix columns are the rotated unit vectors', flat(m), flat(mt(e)))
    u.eqv('orthonormal', flat(mm(m, mt(m))), flat(eye(3)))
    u.eq('determinant', det3(m), ONE)


@unit('conv_from_matrix', CPP, cost=5)
def _(u):
    q = u.quat('q')
    u.inputs(flat(rotmat(q)))
    o = u.outs(4)
    u.eqv('same rotation', flat(rotmat(o)), flat(rotmat(q)), tol=1e-6)
    u.eq('unit norm', norm2(o), ONE)
    u.mindiv = T(0.0001)


@unit('conv_axis_angle_ctor', CPP)
def _(u):
    a = u.vec('a', 3); g = u.real('g')
    u.clear_of_zero(norm2(a), 0.0001)
    u.inputs(a, g)
    o = u.outs(4)
    n = norm(a)
    u.eqv('vector part', o[:3], [x / n * sin(g / 2) for x in a])
    u.eq('scalar part', o[3], cos(g / 2))
    u.eq('unit norm', norm2(o), ONE)


@unit('conv_to_axis_angle', CPP)
def _(u):
    q = u.quat('q')
    u.inputs(q)
    o = u.outs(4)
    w = [le(q[3] * q[3], T(0.9999))]
    u.eqv('sin(angle/2) axis is the vector part', vscale(sqrt(1 - q[3] * q[3]), o[:3]), q[:3], when=w)
    u.eq('angle', o[3], 2 * fn('acos', q[3]))
    u.eq('axis has unit length', norm2(o[:3]), ONE, when=w)
    u.holds('axis length never exceeds one', le(norm2(o[:3]), ONE))


@unit('conv_exp', CPP)
def _(u):
    v = u.vec('v', 3)
    u.inputs(v)
    o = u.outs(4)
    n = norm(v)
    w = [ge(norm2(v), T(1e-16))]
    u.eqv('vector part', o[:3], [x / n * sin(n / 2) for x in v], when=w)
    u.eq('scalar part', o[3], cos(n / 2), when=w)
    u.eq('unit norm', norm2(o), ONE)


@unit('conv_log', CPP)
def _(u):
    q = u.quat('q')
    u.inputs(q)
    o = u.outs(3)
    n = norm(q[:3])
    for nm, s, w in (('positive', 1, gt(q[3], ZERO)), ('negative', -1, lt(q[3], ZERO))):
        ang = 2 * fn('acos', q[3] * s)
        u.eqv('logarithm, %s scalar part' % nm, vscale(n, o), [ang * s * x for x in q[:3]], when=[w, ge(norm2(q[:3]), T(1e-16))])
    u.eqv('half turn', vscale(n, o), [2 * fn('acos', ZERO) * x for x in q[:3]], when=[eq(q[3], ZERO)])
    u.hint(lambda r: {'qw': 0.0, 'qx': 0.6, 'qy': 0.0, 'qz': -0.8})


@unit('conv_euler_ctor', CPP)
def _(u):
    a = u.vec('a', 3)
    u.inputs(a)
    for t in a:
        u.ctx.declare_base(t / 2)
    o = u.outs(4)
    u.eqv('rotation', flat(rotmat(o)), flat(mm(Ry(a[1]), mm(Rz(a[0]), Rx(a[2])))))
    u.eq('unit norm', norm2(o), ONE)


@unit('conv_euler_default', CPP, cost=5)
def _(u):
    q = u.quat('q')
    u.inputs(q)
    o = u.outs(3)
    m = rotmat(q)
    w = [le(m[2][0] * m[2][0], T(0.9999))]
    # trigonometric values of the results, one Euler matrix entry at a time
    R = mm(Rz(o[2]), mm(Ry(o[1]), Rx(o[0])))
    u.eqv('angles describe the rotation', flat(R), flat(m), when=w)


SEQ = {0: (0, 1, 2), 1: (1, 2, 0), 2: (2, 0, 1), 3: (2, 1, 0), 4: (0, 2, 1), 5: (1, 0, 2)}
AX = [Rx, Ry, Rz]


def euler_seq(k):
    @unit('conv_euler_seq%d' % k, CPP, entry='vc_conv_euler_seq', cost=4)
    def _(u):
        q = u.quat('q')
        u.inputs(q)
        u.iinputs(k)
        o = u.outs(3)
        a, b, c = SEQ[k]
        m = rotmat(q)
        R = mm(AX[c](o[2]), mm(AX[b](o[1]), AX[a](o[0])))
        sb = -m[c][a] if k < 3 else m[c][a]
        u.eqv('angles describe the rotation', flat(R), flat(m), when=[le(sb, T(0.99)), le(-sb, T(0.99))])


for _k in range(6):
    euler_seq(_k)


def euler_pole(k, sg):
    @unit('conv_euler_pole%d%s' % (k, 'p' if sg > 0 else 'n'), CPP, entry='vc_conv_euler_seq')
    def _(u):
        # exactly at the pole: the rotation is (half-angle form) q_b(sg*90 deg) * q_a(t)
        t = u.real('t', near=(-3, 3))
        a, b, c = SEQ[k]
        h = sqrt(const(2)) / 2
        qa, qb = [ZERO] * 3 + [cos(t / 2)], [ZERO] * 3 + [h]
        qa[a] = sin(t / 2)
        qb[b] = h * sg
        q = qmul(qb, qa)
        u.ctx.declare_base(t / 2)
        u.inputs(q)
        u.iinputs(k)
        o = u.outs(3)
        R = mm(AX[c](o[2]), mm(AX[b](o[1]), AX[a](o[0])))
        u.eqv('angles describe the rotation', flat(R), flat(rotmat(q)))


for _k in range(6):
    euler_pole(_k, 1)
    euler_pole(_k, -1)


@unit('conv_quat_vector', CPP)
def _(u):
    q = u.vec('q', 4)
    u.inputs(q)
    o = u.outs(8)
    u.eqv('order is x y z w', o[:4], q)
    u.eqv('round trip', o[4:], q)


# ------------------------------------------------------------------ P03
def pose_apply(q, t, v): return vadd(rotv(q, v), t)


@unit('pose_point', CPP)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3); v = u.vec('v', 3)
    u.inputs(q, t, v)
    u.eqv('transformed point', u.outs(3), pose_apply(q, t, v))


@unit('pose_compose', CPP)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3); p = u.quat('p'); s = u.vec('s', 3); v = u.vec('v', 3)
    u.inputs(q, t, p, s, v)
    o = u.outs(10)
    u.eqv('rotation', o[:4], qmul(q, p))
    u.eqv('translation', o[4:7], pose_apply(q, t, s))
    u.eqv('acts as the composition', o[7:], pose_apply(q, t, pose_apply(p, s, v)))


@unit('pose_invert', CPP)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3); v = u.vec('v', 3)
    u.inputs(q, t, v)
    o = u.outs(13)
    u.eqv('rotation', o[:4], qconj(q))
    u.eqv('translation', o[4:7], vneg(rotv(qconj(q), t)))
    u.eqv('left inverse', o[7:10], v)
    u.eqv('right inverse', o[10:], v)


@unit('pose_from_matrix', CPP, cost=5)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3)
    m = rotmat(q)
    u.inputs([m[i] + [t[i]] for i in range(3)])
    o = u.outs(7)
    u.eqv('same rotation', flat(rotmat(o[:4])), flat(m), tol=1e-6)
    u.eqv('translation', o[4:], t)


@unit('pose_vector', CPP)
def _(u):
    q = u.vec('q', 4); t = u.vec('t', 3)
    u.inputs(q, t)
    o = u.outs(14)
    u.eqv('order is translation, rotation', o[:7], t + q)
    u.eqv('round trip', o[7:], q + t)


@unit('pose_scale', CPP)
def _(u):
    q = u.vec('q', 4); t = u.vec('t', 3); k = u.real('k')
    u.inputs(q, t, k)
    u.eqv('only the translation is scaled', u.outs(7), q + vscale(k, t))


@unit('pose_default', CPP)
def _(u):
    u.eqv('identity', u.outs(7), [0, 0, 0, 1, 0, 0, 0])


@unit('pose_equal', CPP)
def _(u):
    a = u.vec('a', 7); b = u.vec('b', 7)
    u.inputs(a, b)
    import z3
    o = u.iouts(2)
    same = And(*[eq(x, y) for x, y in zip(a, b)])
    u.holds('equal poses compare equal', Or(same.neg(), Cond('bv', o[0] == 1)))
    u.holds('different poses compare different', Or(same, Cond('bv', o[0] == 0)))
    u.holds('inequality is the negation', Cond('bv', o[0] + o[1] == 1))
    u.hint(lambda r: (lambda x: {k + str(i): x[i] for k in 'ab' for i in range(7)})([r.gauss(0, 1) for _ in range(7)]))
    for j in range(7):
        def h(r, j=j):
            x = [r.gauss(0, 1) for _ in range(7)]
            e = {k + str(i): x[i] for k in 'ab' for i in range(7)}
            e['b%d' % j] += 1.0
            return e
        u.hint(h)


@unit('pose_to_matrix', CPP)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3)
    u.inputs(q, t)
    m = rotmat(q)
    u.eqv('matrix', u.outs(12), [m[i] + [t[i]] for i in range(3)])


@unit('pose_to_matrix44', CPP)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3)
    u.inputs(q, t)
    m = rotmat(q)
    u.eqv('matrix', u.outs(16), [m[i] + [t[i]] for i in range(3)] + [0, 0, 0, 1])


@unit('pose_parts_matrix', CPP)
def _(u):
    q = u.quat('q'); t = u.vec('t', 3)
    u.inputs(q, t)
    m = rotmat(q)
    r = [m[i] + [t[i]] for i in range(3)]
    u.eqv('matrix', u.outs(28), r + [0, 0, 0, 1] + r)


# ------------------------------------------------------------------ P06
def cosine(u, a, b, name='D'):
    d = u.define(name, dot(a, b), a[3] * b[3])
    u.lemma('dot <= 1', le(d, ONE), [(0.5, x - y) for x, y in zip(a, b)])
    u.lemma('dot >= -1', le(-d, ONE), [(0.5, x + y) for x, y in zip(a, b)])
    return d


@unit('interp_slerp', CPP, cost=9)
def _(u):
    a = u.quat('a'); b = u.quat('b'); t = u.real('t', 0, 1)
    u.inputs(a, b, t)
    o = u.outs(4)
    d = cosine(u, a, b)
    for s in (1, -1):
        om = fn('acos', d * s)
        u.ctx.declare_base(om)
        u.ctx.declare_base(t * om)
    u.eq('unit norm', norm2(o), ONE)
    for s, nm in ((1, 'same side'), (-1, 'opposite side')):
        ds = d * s
        om = fn('acos', ds)
        w = [gt(ds, ZERO), le(ds, T(0.999))]
        e = [(sin((1 - t) * om) * s * x + sin(t * om) * y) / sin(om) for x, y in zip(a, b)]
        u.eqv('constant-speed shortest arc, ' + nm, o, e, when=w)


def slerp_end(k):
    @unit('interp_slerp_end%d' % k, CPP, entry='vc_interp_slerp', cost=3)
    def _(u):
        a = u.quat('a'); b = u.quat('b')
        u.inputs(a, b, const(k))
        o = u.outs(4)
        e = b if k else a
        cosine(u, a, b)
        u.eqv('endpoint rotation', flat(rotmat(o)), flat(rotmat(e)))

        def h(r):
            q = [r.gauss(0, 1) for _ in range(4)]
            p = [x + r.gauss(0, 1e-3) for x in q]
            nq, np = sum(x * x for x in q) ** .5, sum(x * x for x in p) ** .5
            sg = r.choice([1, -1])
            d = {'a' + c: x / nq for c, x in zip('xyzw', q)}
            d.update({'b' + c: sg * x / np for c, x in zip('xyzw', p)})
            return d
        u.hint(h)


slerp_end(0)
slerp_end(1)


@unit('interp_vector', CPP)
def _(u):
    a = u.vec('a', 3); b = u.vec('b', 3); t = u.real('t')
    u.inputs(a, b, t)
    u.eqv('linear', u.outs(3), vadd(vscale(1 - t, a), vscale(t, b)))


@unit('interp_pose', CPP, cost=9)
def _(u):
    a = u.quat('a'); r = u.vec('r', 3); b = u.quat('b'); s = u.vec('s', 3); t = u.real('t', 0, 1)
    u.inputs(a, r, b, s, t)
    o = u.outs(7)
    d = cosine(u, a, b)
    for sg in (1, -1):
        om = fn('acos', d * sg)
        u.ctx.declare_base(om)
        u.ctx.declare_base(t * om)
    u.eqv('translation is interpolated linearly', o[4:], vadd(vscale(1 - t, r), vscale(t, s)))
    u.eq('rotation has unit norm', norm2(o[:4]), ONE)
    om = fn('acos', d)
    u.eqv('rotation follows the arc', o[:4], [(sin((1 - t) * om) * x + sin(t * om) * y) / sin(om) for x, y in zip(a, b)],
          when=[gt(d, ZERO), le(d, T(0.999))])


def arc(u, d, t):
    for s in (1, -1):
        om = fn('acos', d * s)
        u.ctx.declare_base(om)
        u.ctx.declare_base(t * om)


@unit('interp_quat', CPP, cost=4)
def _(u):
    a = u.quat('a'); b = u.quat('b'); t = u.real('t', 0, 1)
    u.inputs(a, b, t)
    arc(u, cosine(u, a, b), t)
    o = u.outs(8)
    u.eqv('rotations are interpolated by slerp', o[:4], o[4:])


@unit('interp_poses', CPP, cost=6, bounded='lists of two poses')
def _(u):
    import z3
    x = [(u.quat(n), u.vec('t' + n, 3)) for n in 'abcd']; t = u.real('t', 0, 1)
    u.inputs(*[v for p in x for v in p], t)
    for k in range(2):
        arc(u, cosine(u, x[k][0], x[2 + k][0], 'D%d' % k), t)
    o = u.outs(28); io = u.iouts(1)
    u.holds('as many poses as given', Cond('bv', io[0] == 2))
    u.eqv('every pose of the list is interpolated with its partner', o[:14], o[14:])
