"""Camera networks: bundle adjustment, the pose of a target seen by several cameras, and the composition of functions with their derivatives."""
import math
import random
import z3
from spec import *
import lapack
from stubs import *
from c_align import sampled_inputs, oracle, rq, rv, qrot, qfar, far, chunks, nums, rh
from c_function import rodrigues
CPP = 'network.cpp'
X = Cond


# ------------------------------------------------------------------ bundle adjustment
def camera_point(c, p):
    """point p in the frame of camera c = (qx qy qz qw tx ty tz), times |q|^2"""
    n = dot(c[:4], c[:4])
    return vadd(mv(rh(c[:4]), p), c[4:]), n


@unit('net_ba_jac', 'network_jac.cpp', cost=6, bounded='2 cameras, 2 points', optional=True)
def _(u):
    c = [u.quat('q%d_' % i) + u.vec('t%d_' % i, 3) for i in range(2)]
    p = [u.vec('p%d_' % i, 3) for i in range(2)]
    u.inputs(c, p)
    f = []
    for i in range(2):
        for x in p:
            y = vadd(mv(rh(c[i][:4]), x), c[i][4:])
            u.requires(ne(y[2], ZERO))
            f += [y[0] / y[2], y[1] / y[2]]
    xs = flat(c) + flat(p)
    o = u.outs(8 + 160)
    u.eqv('value', o[:8], f)
    u.eqv('jacobian is the derivative', o[8:], flat(jac(f, xs)))


def dyn(ex, p, flt=False):
    """Math::Vector< T >: size, data -> (pointer, size, element size, element type)"""
    from symex import DOUBLE
    n = ex.load(at(p, 8), ('i', 64))
    return ex.load(at(p, 16), ('ptr',)), n, 4 if flt else 8, ('float',) if flt else DOUBLE


def rd_dyn(ex, p, flt=False):
    return ex.rd(*dyn(ex, p, flt))


def wr_dyn(ex, p, v, flt=False):
    d, n, size, ty = dyn(ex, p, flt)
    ex.wr(d, v, size, ty)


def ba_unit(name, nc, np_, tol=None):
    @unit(name, CPP, cost=4)
    def _(u):
        """whatever the optimiser returns (P15: nothing worse than the start), the poses and points project like its parameters"""
        if tol:
            u.float_ok = True
        t = [u.vec('t%d_' % i, 3, near=(5, 7)) for i in range(nc)]; q = [u.quat('q%d_' % i) for i in range(nc)]
        p = [u.vec('p%d_' % i, 3, near=(-1, 1)) for i in range(np_)]
        u.throw_may = True      # the optimisation may fail for arbitrary observations
        m = [[u.vec('m%d%d_' % (i, j), 2, near=(-1, 1)) for j in range(np_)] for i in range(nc)]
        u.inputs([t[i] + q[i] for i in range(nc)], p, m)
        o = u.outs(7 * nc + 3 * np_)
        xs = [[u.ghost('x%d_%d' % (i, k)) for k in range(7)] for i in range(nc)]
        xp = [[u.ghost('y%d_%d' % (i, k)) for k in range(3)] for i in range(np_)]

        u.res = u.ghost('res')
        for x in xs:
            u.clear_of_zero(dot(x[:4], x[:4]), 0.01)

        def h(ex, a, rt, n):
            par, meas = a[1][1], a[2][1]
            v, w = rd_dyn(ex, par, tol), rd_dyn(ex, meas, tol)
            start = flat([q[i] + t[i] for i in range(nc)]) + flat(p)
            obs = flat(flat(m))
            if len(v) != len(start) or len(w) != len(obs):
                from symex import Unsupported
                raise Unsupported('optimisation of %d parameters for %d measurements' % (len(v), len(w)))
            for i in range(len(v)):
                lapack.require(ex, 'start of the optimisation [%d]' % i, v[i], start[i])
            for i in range(len(w)):
                lapack.require(ex, 'measurement [%d]' % i, w[i], obs[i])
            wr_dyn(ex, par, flat(xs) + flat(xp), tol)
            return u.res
        u.stubs[r'levenbergMarquardt<'] = h
        for i in range(nc):
            oq, ot = o[7 * i + 3:7 * i + 7], o[7 * i:7 * i + 3]
            u.eq('unit quaternion %d' % i, dot(oq, oq), ONE)
            for j in range(np_):
                op = o[7 * nc + 3 * j:7 * nc + 3 * j + 3]
                n = dot(xs[i][:4], xs[i][:4])
                y = vadd(mv(rh(oq), op), ot)
                u.eqv('camera %d sees point %d where the parameters put it' % (i, j), vscale(n, y),
                      vadd(mv(rh(xs[i][:4]), xp[j]), xs[i][4:]))
    return _


ba_unit('net_ba', 2, 3); ba_unit('net_ba1', 1, 2); ba_unit('net_baf', 2, 3, 1e-4)


# ------------------------------------------------------------------ composition
def nf(name, n, m, f, extra=lambda u: [], pre=None):
    @unit(name, CPP, cost=3)
    def _(u):
        x = u.vec('x', m); e = extra(u)
        u.inputs(x, e)
        if pre:
            u.requires(*pre(x, e))
        y = f(x, e)
        o = u.outs(2 * n * (1 + m))
        J = flat(jac(y, x))
        u.eqv('value', o[:n], y)
        u.eqv('jacobian is the derivative', o[n:n * (1 + m)], J)
        o = o[n * (1 + m):]
        u.eqv('value alone', o[:n], y)
        u.eqv('jacobian alone', o[n:], J)
        u.holds('size', X('bv', u.iouts(1)[0] == n))


m33 = lambda u: u.mat('m', 3, 3)
nf('net_add', 3, 6, lambda x, e: vadd(x[:3], x[3:]))
nf('net_sub', 3, 6, lambda x, e: vsub(x[3:], x[:3]))
nf('net_subfix', 3, 3, lambda x, e: vsub(e, x), lambda u: u.vec('v', 3))
nf('net_subcopy', 3, 3, lambda x, e: vsub(x, e), lambda u: u.vec('v', 3))
nf('net_lin', 2, 3, lambda x, e: mv(e, x), lambda u: u.mat('m', 2, 3))
nf('net_dehom', 2, 3, lambda x, e: [x[0] / x[2], x[1] / x[2]], pre=lambda x, e: [ne(x[2], ZERO)])
nf('net_norm', 1, 3, lambda x, e: [norm(x)], pre=lambda x, e: [gt(norm2(x), T(0.01))])


def chain(x, e):
    y = mv(e, vadd(x[:3], x[3:]))
    return [y[0] / y[2], y[1] / y[2]]


nf('net_chain', 2, 6, chain, m33, lambda x, e: [ne(mv(e, vadd(x[:3], x[3:]))[2], ZERO)])
nf('net_dist', 1, 6, lambda x, e: [norm(vsub(mv(e, x[:3]), x[3:]))], m33, lambda x, e: [gt(norm2(vsub(mv(e, x[:3]), x[3:])), T(0.01))])


@unit('net_lie', CPP, cost=10)
def _(u):
    w = u.vec('w', 3); v = u.vec('v', 3)
    u.inputs(w, v)
    o = u.outs(3 + 18 + 3 + 18)
    far_ = [ge(norm2(w), T(0.000001))]
    f = rodrigues(w, v)
    u.ctx.declare_base(norm(w) / 2)
    J = flat(jac(f, w + v))
    near = [le(norm2(w), ZERO)]
    S = mscale(-1, skew(v))
    J0 = [x for i in range(3) for x in S[i] + [ONE if i == k else ZERO for k in range(3)]]
    for k, nm in ((0, ''), (21, ' alone')):
        u.eqv('value' + nm, o[k:k + 3], f, when=far_)
        u.eqv('jacobian is the derivative' + nm, o[k + 3:k + 21], J, when=far_)
        u.eqv('value without rotation' + nm, o[k:k + 3], v, when=near)
        u.eqv('jacobian without rotation' + nm, o[k + 3:k + 21], J0, when=near)
    u.holds('size', X('bv', u.iouts(1)[0] == 3))
    u.hint(lambda r: dict(w0=0.0, w1=0.0, w2=0.0))


# ------------------------------------------------------------------ several cameras
@unit('net_obj', CPP, cost=10, bounded='2 cameras, 2 points, 3 observations')
def _(u):
    t = u.vec('t', 3); w = u.vec('w', 3); p = [u.vec('p%d_' % i, 3) for i in range(2)]
    cam = [(u.mat('R%d_' % i, 3, 3), u.vec('T%d_' % i, 3), u.mat('K%d_' % i, 3, 3)) for i in range(2)]
    u.inputs(t, w, p, cam)
    u.requires(ge(norm2(w), T(0.000001)))
    u.ctx.declare_base(norm(w) / 2)
    f = []
    for i, c in ((0, 0), (1, 0), (1, 1)):
        R, T_, K = cam[c]
        r = rodrigues(w, p[i])
        y = vadd(mv(R, vadd(r, t)), T_)
        z = mv(K, y)
        u.cut(z, y, r)
        u.requires(ne(z[2], ZERO))
        f += [z[0] / z[2], z[1] / z[2]]
    o = u.outs(6 + 36)
    u.eqv('value', o[:6], f)
    u.eqv('jacobian is the derivative', o[6:], flat(jac(f, t + w)))
    u.holds('size', X('bv', u.iouts(1)[0] == 6))


VIS = {'a': [[0, 1, 3], [1, 2, 3]], 'b': [[0, 2], [0, 1, 2, 3]], 'c': [[0, 1, 2, 3], [3, 1]]}


def mc_inputs(u, vis, near=None):
    p = [u.vec('p%d_' % i, 3) for i in range(4)]
    qs = [u.quat('qc%d_' % i) for i in range(2)]; ts = [u.vec('tc%d_' % i, 3) for i in range(2)]
    K = [u.mat('K%d_' % i, 3, 3) for i in range(2)]
    m = [[u.vec('m%d%d_' % (i, j), 2) for j in range(4)] for i in range(2)]
    u.inputs(p)
    for i in range(2):
        u.inputs(ts[i], qs[i], K[i], m[i], [T(2 - i) if j in vis[i] else ZERO for j in range(4)])
    return p, qs, ts, K, m


def mc_stubs(u, vis, m, q0, t0):
    """the optimiser by its contract; logarithm and exponential of rotations by theirs (P02)"""
    w0 = [u.ghost('w%d' % i) for i in range(3)]
    x = [u.ghost('x%d' % i) for i in range(6)]
    qr = [u.ghost('qr%d' % i) for i in range(4)]
    res = u.ghost('res')

    def log(ex, a, rt, name):
        v = ex.rd(a[1][1], 4)
        for i, k in enumerate((3, 0, 1, 2)):
            lapack.require(ex, 'logarithm of the initial rotation [%d]' % i, v[i], q0[k])
        ex.store(a[0][1], 3, ('i', 64))
        ex.wr(at(a[0][1], 8), w0)

    def exp(ex, a, rt, name):
        v = ex.rd(at(a[1][1], 8), 3)
        for i in range(3):
            lapack.require(ex, 'rotation of the optimised parameters [%d]' % i, v[i], x[3 + i])
        ex.wr(a[0][1], [qr[3]] + qr[:3])

    def lm(ex, a, rt, name):
        par, meas = a[1][1], a[2][1]
        v, w = ex.rd(at(par, 8), 6), rd_dyn(ex, meas)
        obs = flat([m[i][j] for i in range(2) for j in sorted(vis[i])])
        if len(w) != len(obs):
            lapack.require(ex, 'one measurement per visible coordinate', T(len(w)), T(len(obs)))
            obs = obs + [ZERO] * len(w)
        for i in range(6):
            lapack.require(ex, 'start of the optimisation [%d]' % i, v[i], (t0 + w0)[i])
        for i in range(len(w)):
            lapack.require(ex, 'measurement [%d]' % i, w[i], obs[i])
        ex.wr(at(par, 8), x)
        return res
    u.stubs[r'Math::Quaternion::toLogarithm\('] = log
    u.stubs[r'Math::Quaternion::fromLogarithm\('] = exp
    u.stubs[r'levenbergMarquardt<'] = lm
    return x, qr, res


def mc_result(u, x, qr, res):
    o = u.outs(44)
    u.eqv('optimised pose', o[:7], x[:3] + qr)
    u.eqv('the residual on the diagonal of the covariance', o[7:43], [res if i == j else ZERO for i in range(6) for j in range(6)])
    u.eq('residual', o[43], res)


def failed(u):
    o = u.outs(44)
    u.eq('reported as failed', o[43], -ONE)


for k in 'abc':
    @unit('net_mc_%s' % k, CPP, 'vc_net_mc', cost=3, bounded='2 cameras, 4 points')
    def _(u, vis=VIS[k]):
        p, qs, ts, K, m = mc_inputs(u, vis)
        t0 = u.vec('t', 3); q0 = u.quat('q')
        u.inputs(t0, q0)
        mc_result(u, *mc_stubs(u, vis, m, q0, t0))

    @unit('net_mc_start_%s' % k, CPP, 'vc_net_mc0', cost=3, bounded='2 cameras, 4 points')
    def _(u, vis=VIS[k], k=k):
        """without an initial pose: the pose from the camera with most observations, expressed in world coordinates"""
        p, qs, ts, K, m = mc_inputs(u, vis)
        qp = [u.ghost('qp%d' % i) for i in range(4)]; tp = [u.ghost('tp%d' % i) for i in range(3)]
        c = 1 if k == 'b' else 0

        def h(ex, a, rt, name):
            d = a[0][1]
            p2, p3, kk = rd_vecs(ex, a[1][1], 2), rd_vecs(ex, a[2][1], 3), rd_mat(ex, a[3][1], 3, 3)
            for got, want, nm in ((p2, [m[c][j] for j in sorted(vis[c])], 'image points'), (p3, [p[j] for j in sorted(vis[c])], 'points')):
                lapack.require(ex, 'number of %s' % nm, T(len(got)), T(len(want)))
                for g, w in zip(flat(got), flat(want)):
                    lapack.require(ex, nm, g, w)
            for g, w in zip(flat(kk), flat(K[c])):
                lapack.require(ex, 'camera matrix', g, w)
            ex.wr(d, [qp[3]] + qp[:3])
            ex.store(at(d, 32), 3, ('i', 64))
            ex.wr(at(d, 40), tp)
            wr_mat(ex, at(d, 64), [[ZERO] * 6 for _ in range(6)])
        if max(len(v) for v in vis) < 4:
            return failed(u)
        u.stubs[r'PoseEstimation2D3D::computePose\('] = h
        u.throw_may = True      # arbitrary image points need not have a homography
        qi = qconj(qs[c])
        mc_result(u, *mc_stubs(u, vis, m, qmul(qi, qp), mv(rotmat(qi), vsub(tp, ts[c]))))


@unit('net_mc_few', CPP, 'vc_net_mc3', bounded='2 cameras, 4 points')
def _(u):
    """one camera has fewer than three observations"""
    mc_inputs(u, VIS['b'])
    t0 = u.vec('t', 3); q0 = u.quat('q')
    u.inputs(t0, q0)
    failed(u)


@unit('net_sizes', CPP, sampled='up to three points and cameras')
def _(u):
    d = [3, 2, 2, 2, 2, 3, 3]
    n = [u.int('n%d' % i, 64, 1 if i in (1, 2, 3, 4) else 0, 3, sampler=lambda r, i=i: d[i] if r.random() < 0.85 else r.randint(1 if i in (1, 2, 3, 4) else 0, 3)) for i in range(7)]
    u.inputs([u.real('x%d' % i, near=(-1, 1)) for i in range(30)], [ZERO] * 6 + [ONE])
    u.iinputs(n)
    u.throw_if = X('bv', z3.Or(z3.ULT(n[0], 3), n[1] != n[2], n[1] != n[3], n[1] != n[4], n[5] != n[0], n[6] != n[0]))
    u.eq('too few observations', u.outs(1)[0], -ONE)


# ------------------------------------------------------------------ sampled: the whole computation on generated networks
def npose(t, q): return [list(t), list(q)]


def nproj(c, x):
    y = [a + b for a, b in zip(qrot(c[1], x), c[0])]
    return [y[0] / y[2], y[1] / y[2]]


def small(rng, a):
    q = [rng.uniform(-a, a) for _ in range(3)] + [1.0]
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


def nqm(a, b):
    x, y, z, w = a
    X_, Y, Z, W = b
    return [w * X_ + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X_, w * Z + x * Y - y * X_ + z * W, w * W - x * X_ - y * Y - z * Z]


def ba_gen(nc, np_, pert, noise):
    def g(rng):
        P = [rv(rng, 2.0) for _ in range(np_)]
        C = [npose([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(6, 8)], small(rng, 0.3)) for _ in range(nc)]
        obs = [[[v + rng.uniform(-noise, noise) for v in nproj(c, p)] for p in P] for c in C]
        P2 = [[v + rng.uniform(-pert, pert) for v in p] for p in P]
        C2 = [npose([v + rng.uniform(-pert, pert) for v in c[0]], [s * v for v in nqm(c[1], small(rng, pert))]) for c in C for s in (rng.choice((1, -1)),)]
        return [x for c in C2 for x in c[0] + c[1]] + [x for p in P2 for x in p] + [x for o in obs for p in o for x in p], None
    return g


def ba_err(C, P, obs):
    s = 0.0
    for c, o in zip(C, obs):
        for p, m in zip(P, o):
            s += sum((a - b) ** 2 for a, b in zip(nproj(c, p), m))
    return math.sqrt(s / sum(len(o) for o in obs))


def ba_split(v, nc, np_):
    C = [npose(v[7 * i:7 * i + 3], v[7 * i + 3:7 * i + 7]) for i in range(nc)]
    P = chunks(v[7 * nc:7 * nc + 3 * np_], 3)
    return C, P


def ba_sampled(name, entry, nc, np_, times, pert, noise, factor, what, tol=1e-9):
    @unit(name, CPP, entry, sampled=what)
    def _(u):
        u.nsamp = 60
        u.outs(7 * nc + 3 * np_)
        sampled_inputs(u, 7 * nc + 3 * np_ + 2 * nc * np_, ba_gen(nc, np_, pert, noise))
        u.iinputs([nc, np_, times])

        def ok(inp, truth, out, iout):
            C0, P0 = ba_split(inp, nc, np_)
            C1, P1 = ba_split(out, nc, np_)
            obs = [chunks(inp[7 * nc + 3 * np_ + 2 * np_ * i:][:2 * np_], 2) for i in range(nc)]
            a, b = ba_err(C0, P0, obs), ba_err(C1, P1, obs)
            if b > factor * a + noise + tol:
                return 'the error of the observations goes from %g to %g' % (a, b)
            for c in C1:
                if abs(sum(x * x for x in c[1]) - 1) > 1e-9:
                    return 'quaternion %s is not of unit length' % c[1]
            return None
        oracle(u, 'observations are reproduced', ok)


for nc, np_ in ((1, 6), (2, 8), (3, 12), (4, 5)):
    ba_sampled('net_ba_%d' % nc, 'vc_net_ba_n', nc, np_, 1, 0.05, 0.0, 0.3, 'exact observations, start 5%% off, %d cameras' % nc)
ba_sampled('net_ba_again', 'vc_net_ba_n', 3, 12, 12, 0.05, 0.0, 0.02, 'exact observations, repeated')
ba_sampled('net_ba_noisy', 'vc_net_ba_n', 3, 10, 1, 0.05, 0.002, 0.3, 'noisy observations')
ba_sampled('net_ba_exact', 'vc_net_ba_n', 2, 6, 1, 0.0, 0.0, 0.0, 'start at the solution', 1e-12)
ba_sampled('net_ba_float', 'vc_net_ba_nf', 3, 12, 1, 0.05, 0.0, 0.4, 'single precision', 1e-4)


KM = [[500.0, 1.5, -320.0], [0.0, 510.0, -240.0], [0.0, 0.0, -1.0]]


def mc_gen(nc, np_, init, seen, planar, bundles=1):
    """seen(rng, camera, point) -> is the point visible"""
    def g(rng):
        Ts = [npose(rv(rng, 1.0), small(rng, 0.5)) for _ in range(bundles)]
        P = [[rng.uniform(-2, 2), rng.uniform(-2, 2), 0.0 if planar else rng.uniform(-2, 2)] for _ in range(np_)]
        if planar:
            base = [[-2, -2], [2, -2], [2, 2], [-2, 2]]
            for i in range(np_):
                b = base[i % 4]
                P[i] = [b[0] * rng.uniform(0.6, 1), b[1] * rng.uniform(0.6, 1), 0.0]
        v = [x for p in P for x in p]
        cs = []
        for i in range(nc):
            c = npose([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-11, -9)], small(rng, 0.2))
            K = [[x * (1 + 0.1 * i) if r < 2 and k < 2 else x for k, x in enumerate(row)] for r, row in enumerate(KM)]
            obs, w = [], []
            for j, p in enumerate(P):
                T_ = Ts[j * bundles // np_]
                y = [a + b for a, b in zip(qrot(T_[1], p), T_[0])]
                y = [a + b for a, b in zip(qrot(c[1], y), c[0])]
                z = [sum(K[r][k] * y[k] for k in range(3)) for r in range(3)]
                s = seen(i, j)
                obs += [z[0] / z[2], z[1] / z[2]] if s else [rng.uniform(-500, 500), rng.uniform(-500, 500)]
                w.append(1.0 if s else 0.0)
            v += c[0] + c[1] + [x for r in K for x in r] + obs + w
        if init:
            v += [x + rng.uniform(-0.05, 0.05) for x in Ts[0][0]] + nqm(Ts[0][1], small(rng, 0.03))
        return v, Ts
    return g


def same(o, T_):
    if far(o[:3], T_[0]) > 1e-6 or qfar(o[3:7], T_[1]) > 1e-6:
        return 'pose %s, true pose %s' % (o[:7], T_[0] + T_[1])
    if any(abs(x) > 1e-6 for x in o[7:44]):
        return 'residual or covariance of exact data: %s' % o[7:44]
    return None


def mc_sampled(name, nc, np_, minc, init, seen, planar, ok):
    @unit(name, CPP, 'vc_net_mc_n', sampled='%d cameras, %d points, exact observations' % (nc, np_))
    def _(u):
        u.nsamp = 60
        n = 3 * np_ + nc * (16 + 3 * np_) + (7 if init else 0)
        u.outs(44)
        sampled_inputs(u, n, mc_gen(nc, np_, init, seen, planar))
        u.iinputs([nc, np_, minc, int(init)])

        def f(inp, truth, out, iout):
            if not ok:
                return None if out[43] == -1 else 'success reported with too few observations'
            return same(out, truth[0])
        oracle(u, 'true pose', f)


mc_sampled('net_pose_1', 1, 6, 4, False, lambda i, j: True, True, True)
mc_sampled('net_pose_2', 2, 6, 4, False, lambda i, j: i == 1 or j != 2, True, True)
mc_sampled('net_pose_3', 3, 8, 3, False, lambda i, j: (i + j) % 3 != 0, True, True)
mc_sampled('net_pose_init', 3, 7, 2, True, lambda i, j: (i + j) % 2 == 0, False, True)
mc_sampled('net_pose_init1', 1, 5, 0, True, lambda i, j: j != 1, False, True)
mc_sampled('net_pose_few', 2, 6, 4, True, lambda i, j: i == 0 or j < 3, False, False)
mc_sampled('net_pose_few4', 2, 5, 3, False, lambda i, j: j < 3, True, False)


@unit('net_bundles', CPP, sampled='two bundles of four points')
def _(u):
    u.nsamp = 60
    u.outs(90); u.iouts(2)
    sampled_inputs(u, 24 + 2 * (16 + 24), mc_gen(2, 8, False, lambda i, j: True, True, 2))

    def f(inp, truth, out, iout):
        if list(iout[:2]) != [2, 2]:
            return 'number of poses and weights %s' % iout[:2]
        return same(out[:44], truth[0]) or same(out[44:88], truth[1])
    oracle(u, 'true poses', f)
