"""RotationCast: every conversion describes the same rotation."""
from spec import *
CPP = 'rotcast.cpp'


def axmat(a, s, c):
    """rotation matrix of a unit axis and the sine and cosine of the angle"""
    k = [[ZERO, -a[2], a[1]], [a[2], ZERO, -a[0]], [-a[1], a[0], ZERO]]
    r = mscale(c, eye(3))
    r = madd(r, mscale(s, k))
    return madd(r, mscale(1 - c, [[x * y for y in a] for x in a]))


def aaquat(a, g):
    """quaternion of axis and angle"""
    return [x * sin(g / 2) for x in a] + [cos(g / 2)]


def rotvec(u, name='v'):
    """rotation vector = angle times unit axis"""
    a = u.unitvec('a'); g = u.real('g', T(1) / 1000, 6, near=(0.01, 3.1), positive=True)
    return a, g, [g * x for x in a]


@unit('conv_cast_mq', CPP, cost=5)
def _(u):
    q = u.quat('q'); u.inputs(flat(rotmat(q)))
    o = u.outs(4)
    u.eqv('same rotation', flat(rotmat(o)), flat(rotmat(q)), tol=1e-6)
    u.eq('unit norm', norm2(o), ONE)


@unit('conv_cast_aq', CPP)
def _(u):
    a = u.unitvec('a'); g = u.real('g'); u.inputs(a, g)
    u.eqv('half angle', u.outs(4), aaquat(a, g))


@unit('conv_cast_vq', CPP)
def _(u):
    a, g, v = rotvec(u); u.inputs(v)
    u.eqv('half angle about the direction', u.outs(4), aaquat(a, g), tol=1e-7)


@unit('conv_cast_v0', CPP, entry='vc_conv_cast_vq')
def _(u):
    u.inputs([ZERO] * 3)
    u.eqv('no rotation', u.outs(4), [ZERO, ZERO, ZERO, ONE])


@unit('conv_cast_qq', CPP)
def _(u):
    q = u.quat('q'); u.inputs(q)
    u.eqv('unchanged', u.outs(11), q + q + q[:3])


def aacheck(u, o, q):
    """o = axis and angle describe the rotation of the quaternion q (identity: the zero vector)"""
    u.eqv('same rotation', flat(axmat(o[:3], sin(o[3]), cos(o[3]))), flat(rotmat(q)), tol=1e-6)


def aanum(src):
    import math

    def f(env, inp, out, io):
        q = [env['q' + c] for c in 'xyzw']
        if any(v != v for v in out):
            return 'the result is not a number for the rotation %s' % q
        a, g = (out[:3], out[3]) if len(out) == 4 else (None, None)
        if a is None:
            g = math.sqrt(sum(c * c for c in out))
            a = [c / g for c in out] if g > 1e-12 else [0, 0, 0]
        n = math.sqrt(sum(c * c for c in a))
        if abs(g) > 1e-5 and abs(n - 1) > 1e-6:
            return 'axis of length %g' % n
        r = [c * math.sin(g / 2) for c in a] + [math.cos(g / 2)]
        e = min(max(abs(x - s * y) for x, y in zip(r, q)) for s in (1, -1))
        if e > 1e-6:
            return 'axis %s angle %g is not the rotation %s' % (a, g, q)
    return f


for nm, mat, vec in (('qa', 0, 0), ('ma', 1, 0), ('qv', 0, 1), ('mv', 1, 1)):
    def mk(nm=nm, mat=mat, vec=vec):
        # general rotations: proof; identity, half turns and their neighbourhoods: native runs
        @unit('conv_cast_' + nm, CPP, cost=4)
        def _(u):
            q = u.quat('q', special=False)
            n2 = norm2(q[:3])
            u.ctx.pos = frozenset(set(u.ctx.pos) | {'qw'})
            u.requires(gt(q[3], T(1) / 100), gt(n2, T(1) / 10000))
            if mat:
                u.requires(*[gt(x * x, T(1) / 10000) for x in q[:3]])  # zero components: the _all unit
            u.inputs(flat(rotmat(q)) if mat else q)
            o = u.outs(3 if vec else 4)
            n = norm(q[:3])
            ang = 2 * fn('atan2', n, q[3])
            if vec and mat:
                # the length of the result is the subject of the _all unit
                u.eqv('along the axis', cross(o, q[:3]), [ZERO] * 3, tol=1e-6)
            elif vec:
                u.eqv('angle times axis', o, [ang * x / n for x in q[:3]], tol=1e-6)
            else:
                u.eqv('axis', o[:3], [x / n for x in q[:3]], tol=1e-6)
                u.eq('sine of half the angle', sin(o[3] / 2), n, tol=1e-6)
                u.eq('cosine of half the angle', cos(o[3] / 2), q[3], tol=1e-6)

        @unit('conv_cast_%s_all' % nm, CPP, entry='vc_conv_cast_' + nm, sampled='rotations including the identity, half turns and their neighbourhoods')
        def _(u):
            q = u.quat('q'); u.inputs(flat(rotmat(q)) if mat else q)
            u.outs(3 if vec else 4)
            u.oracles.append(('same rotation', aanum(nm)))
    mk()


@unit('conv_cast_va', CPP)
def _(u):
    a, g, v = rotvec(u); u.inputs(v)
    u.eqv('axis and angle', u.outs(4), a + [g], tol=1e-6)


@unit('conv_cast_av', CPP)
def _(u):
    a = u.unitvec('a'); g = u.real('g'); k = u.real('k', positive=True)
    u.requires(gt(k, T(1) / 10 ** 6))
    u.inputs([k * x for x in a], g)
    u.eqv('angle times unit axis', u.outs(3), [g * x for x in a], tol=1e-6)


@unit('conv_cast_qm', CPP)
def _(u):
    q = u.quat('q'); u.inputs(q); u.eqv('rotation matrix', u.outs(9), flat(rotmat(q)))


@unit('conv_cast_am', CPP)
def _(u):
    a = u.unitvec('a'); g = u.real('g'); u.inputs(a, g)
    u.eqv('Rodrigues matrix', u.outs(9), flat(axmat(a, sin(g), cos(g))))


@unit('conv_cast_vm', CPP)
def _(u):
    a, g, v = rotvec(u); u.inputs(v)
    u.eqv('Rodrigues matrix', u.outs(9), flat(axmat(a, sin(g), cos(g))), tol=1e-6)


def m4(m):
    return [r + [ZERO] for r in m] + [[ZERO, ZERO, ZERO, ONE]]


@unit('conv_cast_qm4', CPP)
def _(u):
    q = u.quat('q'); u.inputs(q); u.eqv('homogeneous rotation matrix', u.outs(16), flat(m4(rotmat(q))))


@unit('conv_cast_am4', CPP)
def _(u):
    a = u.unitvec('a'); g = u.real('g'); u.inputs(a, g)
    u.eqv('homogeneous Rodrigues matrix', u.outs(16), flat(m4(axmat(a, sin(g), cos(g)))))
