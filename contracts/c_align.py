"""Rigid alignment of point sets and tool tip calibration: exact data give the true transformation, other data the least-squares one."""
import math
import random
from spec import *
import lapack
from lapack import syminv
CPP = 'align.cpp'
X = Cond


def mean(ps):
    n = len(ps)
    return [sum((p[i] for p in ps[1:]), ps[0][i]) / n for i in range(3)]


def centered(ps):
    c = mean(ps)
    return [vsub(p, c) for p in ps]


def same_q(u, name, o, q, tol=None):
    """o = q or o = -q, both unit"""
    for i in range(4):
        for j in range(i, 4):
            u.eq('%s[%d][%d]' % (name, i, j), o[i] * o[j], q[i] * q[j], tol=tol)


def same_rot(u, name, o, q, tol=None):
    u.eqv(name, flat(rotmat(o)), flat(rotmat(q)), tol=tol)


def rh(x):
    """homogeneous rotation matrix of (x,y,z,w), scaled by |x|^2"""
    a, b, c, w = x
    return [[w * w + a * a - b * b - c * c, 2 * (a * b - w * c), 2 * (a * c + w * b)],
            [2 * (a * b + w * c), w * w - a * a + b * b - c * c, 2 * (b * c - w * a)],
            [2 * (a * c - w * b), 2 * (b * c + w * a), w * w - a * a - b * b + c * c]]


def exact(u, n):
    """a = R b + t"""
    q = u.quat('q'); t = u.vec('t', 3)
    b = [u.vec('b%d_' % i, 3, near=(-2, 2)) for i in range(n)]
    a = [vadd(mv(rotmat(q), p), t) for p in b]
    d = centered(b)
    # the points are not collinear, otherwise the rotation is not determined
    u.clear_of_zero(norm2(cross(d[0], d[1])) + (norm2(cross(d[1], d[2])) if n > 3 else ZERO), 0.02)
    w = sum((norm2(x) for x in d[1:]), norm2(d[0]))
    xs = [var('tx%d' % i) for i in range(4)]

    def ghost(ex, N):
        z = [q[3], q[0], q[1], q[2]]
        Nz = mv(N, z)
        for i in range(4):
            lapack.require(ex, 'the true rotation is an eigenvector [%d]' % i, Nz[i], w * z[i])
        x = [xs[3]] + xs[:3]
        p = qmul(qconj(q), xs)
        sos = ZERO
        for y in d:
            sos = sos + 2 * norm2(cross(p[:3], y))
        lapack.require(ex, 'its eigenvalue is the largest (sum of squares)', w * norm2(x) - dot(x, mv(N, x)), sos)
        Z = [[fn('eigz:4:%d:%d' % (i, j), *lapack.upper(N)) for j in range(3)] + [z[i]] for i in range(4)]
        W = [fn('eigw:4:%d' % i, *lapack.upper(N)) for i in range(3)] + [w]
        return dict(w=W, z=Z)
    u.ghost_eig = ghost
    u.inputs(a, b)
    return q, t, w


def done(u):
    u.holds('success is reported', X('bv', u.iouts(1)[0] == 1))


def pose_unit(name, n, flag=True):
    @unit(name, CPP, cost=4)
    def _(u):
        q, t, w = exact(u, n)
        o = u.outs(7)
        same_q(u, 'true rotation', o[3:], q)
        u.eqv('true translation', o[:3], t)
        if flag:
            done(u)


pose_unit('al_pose3', 3); pose_unit('al_pose4', 4); pose_unit('al_abs', 3, False); pose_unit('al_functors', 3, False)


@unit('al_posef', CPP, sampled='single precision')
def _(u):
    u.float_ok = True
    q, t, w = exact(u, 4)
    o = u.outs(7)
    same_q(u, 'true rotation', o[3:], q, tol=2e-2)
    u.eqv('true translation', o[:3], t, tol=5e-2)
    done(u)


@unit('al_rotq', CPP, cost=3)
def _(u):
    q, t, w = exact(u, 3)
    same_q(u, 'true rotation', u.outs(4), q); done(u)


@unit('al_rotm', CPP, cost=3)
def _(u):
    q, t, w = exact(u, 3)
    u.eqv('true rotation', u.outs(9), flat(rotmat(q))); done(u)


def horn(a, b):
    """the symmetric matrix of the quadratic form x -> sum a.R(x)b (x = w,x,y,z)"""
    x = [var('tx%d' % i) for i in range(4)]
    f = ZERO
    for p, r in zip(a, b):
        f = f + dot(p, mv(rh(x), r))
    o = [x[3], x[0], x[1], x[2]]
    return [[tm.diff(tm.diff(f, o[i]), o[j]) / 2 for j in range(4)] for i in range(4)]


@unit('al_noisy', CPP, 'vc_al_pose3', cost=5)
def _(u):
    """arbitrary points: the rotation belongs to the largest eigenvalue of x -> sum a.R(x)b, hence minimises sum |a - R b - t|^2"""
    u.domain_optional = True
    a = [u.vec('a%d_' % i, 3, near=(-2, 2)) for i in range(3)]; b = [u.vec('b%d_' % i, 3, near=(-2, 2)) for i in range(3)]
    u.inputs(a, b)
    N = horn(centered(a), centered(b))
    f = lapack.upper(N)
    z = [fn('eigz:4:%d:3' % i, *f) for i in (1, 2, 3, 0)]
    u.requires(gt(fn('eigw:4:3', *f) - fn('eigw:4:2', *f), T(0.05)))
    for x in z:
        u.ctx.poly(x)
    u.ctx.add_relation(z[3] * z[3], ONE - z[0] * z[0] - z[1] * z[1] - z[2] * z[2])      # LAPACK: eigenvectors have unit length
    o = u.outs(7)
    pos = gt(fn('eigw:4:3', *f), ZERO)
    for i in range(4):
        for j in range(i, 4):
            u.eq('largest eigenvector [%d][%d]' % (i, j), o[3 + i] * o[3 + j], z[i] * z[j], when=[pos])
    u.eqv('centroids correspond', vadd(rotv(o[3:], mean(b)), o[:3]), mean(a), when=[pos])
    i = u.iouts(1)
    u.holds('success iff the largest eigenvalue is positive', X('bv', i[0] == 1), when=[pos])
    u.holds('failure otherwise', X('bv', i[0] == 0), when=[pos.neg()])


for nm, tol in (('al_scale', None), ('al_scalef', 1e-4)):
    @unit(nm, CPP)
    def _(u, tol=tol):
        if tol:
            u.float_ok = True
        s = u.real('s', near=(0.2, 4), positive=True)
        q = u.quat('q'); t = u.vec('t', 3)
        b = [u.vec('b%d_' % i, 3, near=(-2, 2)) for i in range(3)]
        d = centered(b)
        w = sum((norm2(x) for x in d[1:]), norm2(d[0]))
        u.clear_of_zero(w, 0.01)
        a = [vadd(vscale(s, mv(rotmat(q), p)), t) for p in b]
        u.inputs(a, b)
        o = u.outs(1)[0]
        u.eq('true scale', o * o, s * s, tol=tol)
        u.holds('positive', ge(o, ZERO))


@unit('al_evaluate', CPP)
def _(u):
    t = u.vec('t', 3); q = u.quat('q'); a = u.vec('a', 3); b = u.vec('b', 3)
    u.inputs(t, q, a, b)
    e = norm(vsub(a, vadd(mv(rotmat(q), b), t)))
    u.eqv('distance of the transformed point', u.outs(3), [e] * 3)


@unit('al_residual', CPP)
def _(u):
    t = u.vec('t', 3); q = u.quat('q'); a = [u.vec('a%d_' % i, 3) for i in range(2)]; b = [u.vec('b%d_' % i, 3) for i in range(2)]
    u.inputs(t, q, a, b)
    e = [norm(vsub(x, vadd(mv(rotmat(q), y), t))) for x, y in zip(a, b)]
    u.eq('mean distance per coordinate', u.outs(1)[0], (e[0] + e[1]) / 6)


# ------------------------------------------------------------------ numbers for the sampled units
def qrot(q, v):
    x, y, z, w = q
    tx, ty, tz = 2 * (y * v[2] - z * v[1]), 2 * (z * v[0] - x * v[2]), 2 * (x * v[1] - y * v[0])
    return [v[0] + w * tx + y * tz - z * ty, v[1] + w * ty + z * tx - x * tz, v[2] + w * tz + x * ty - y * tx]


def rq(rng):
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 0.1:
            return [x / n for x in q]


def rv(rng, s=2.0, n=3): return [rng.uniform(-s, s) for _ in range(n)]


def nums(u, name, n):
    """n plain numbers as inputs, filled by a group sampler"""
    return [u.real('%s%d' % (name, i)) for i in range(n)]


def sampled_inputs(u, n, gen):
    """inputs x0.. from gen(rng) -> (list of inputs, truth); the truth is kept aside"""
    xs = nums(u, 'x', n)
    u.truth = {}

    def samp(rng):
        v, t = gen(rng)
        assert len(v) == n
        u.truth[tuple(v)] = t
        return {'x%d' % i: y for i, y in enumerate(v)}
    u.group(['x%d' % i for i in range(n)], samp)
    u.inputs(xs)


def oracle(u, name, f):
    """f(inputs, truth, out, iout); inputs not made by the generator are skipped"""
    def g(env, inp, out, iout):
        k = tuple(inp)
        return f(inp, u.truth[k], out, iout) if k in u.truth else None
    u.oracles.append((name, g))


def far(a, b): return max(abs(x - y) for x, y in zip(a, b))


def qfar(a, b): return min(far(a, b), far(a, [-x for x in b]))


def kabsch_cost(a, b):
    """smallest sum of squared distances over all rigid motions (independent oracle: SVD)"""
    import numpy as np
    A = np.array(a); B = np.array(b)
    A = A - A.mean(0); B = B - B.mean(0)
    U, S, Vt = np.linalg.svd(B.T @ A)
    S[-1] *= np.sign(np.linalg.det(U @ Vt))
    return float((A ** 2).sum() + (B ** 2).sum() - 2 * S.sum())


def chunks(v, n): return [v[i:i + n] for i in range(0, len(v), n)]


def cost(a, b, q, t):
    return sum(sum((x - y - z) ** 2 for x, y, z in zip(p, qrot(q, r), t)) for p, r in zip(a, b))


@unit('al_least', CPP, 'vc_al_pose4', sampled='noisy points against an independent SVD solution')
def _(u):
    def gen(rng):
        q, t = rq(rng), rv(rng); s = rng.choice([0.01, 0.1, 1.0])
        b = [rv(rng) for _ in range(4)]
        a = [[x + y + rng.gauss(0, s) for x, y in zip(qrot(q, p), t)] for p in b]
        return flat(a) + flat(b), (a, b)
    sampled_inputs(u, 24, gen); u.outs(7); u.iouts(1); u.nsamp = 200

    def f(inp, tr, o, io):
        if abs(math.sqrt(sum(x * x for x in o[3:])) - 1) > 1e-9:
            return 'the rotation is not a unit quaternion'
        if io[0] != 1:
            return 'failure is reported'
        c = cost(tr[0], tr[1], o[3:], o[:3]); k = kabsch_cost(*tr)
        return None if c <= k + 1e-7 * (1 + k) else 'the squared distances sum to %r, the smallest possible sum is %r' % (c, k)
    oracle(u, 'least squares', f)


for nm, fl in (('al_ransac', False), ('al_ransacf', True)):
    @unit(nm, CPP, sampled='twelve points, four of them wrong')
    def _(u, fl=fl):
        u.float_ok = fl

        def gen(rng):
            q, t = rq(rng), rv(rng)
            b = [rv(rng) for _ in range(12)]
            a = [[x + y for x, y in zip(qrot(q, p), t)] for p in b]
            for i in rng.sample(range(12), 4):
                a[i] = rv(rng, 5)
            return flat(a) + flat(b), t + q
        sampled_inputs(u, 72, gen); u.outs(7); u.iouts(1); u.nsamp = 60
        oracle(u, 'inliers determine the pose', lambda i, tr, o, io: None if io[0] == 1 and far(o[:3], tr[:3]) < (2e-3 if fl else 1e-6) and qfar(o[3:], tr[3:]) < (2e-3 if fl else 1e-6) else 'pose %r instead of %r' % (o, tr))


for nm, fl in (('al_opt', False), ('al_optf', True)):
    @unit(nm, CPP, sampled='exact and noisy points, optimised pose')
    def _(u, fl=fl):
        u.float_ok = fl

        def gen(rng):
            q, t = rq(rng), rv(rng); s = rng.choice([0, 0.05])
            b = [rv(rng) for _ in range(6)]
            a = [[x + y + rng.gauss(0, s) for x, y in zip(qrot(q, p), t)] for p in b]
            st = [x + rng.gauss(0, 0.1) for x in q]
            n = math.sqrt(sum(x * x for x in st))
            return flat(a) + flat(b) + [x + rng.gauss(0, 0.2) for x in t] + [x / n for x in st], (a, b)
        sampled_inputs(u, 43, gen); u.outs(7); u.iouts(1); u.nsamp = 60

        def f(inp, tr, o, io):
            c = cost(tr[0], tr[1], o[3:], o[:3]); k = kabsch_cost(*tr)
            return None if io[0] == 1 and c <= k + (1e-4 if fl else 1e-6) * (1 + k) else 'the squared distances sum to %r, the smallest possible sum is %r' % (c, k)
        oracle(u, 'least squares', f)


@unit('al_cov', CPP, sampled='covariance s (J^T J)^-1 of generated alignments')
def _(u):
    def gen(rng):
        q, t = rq(rng), rv(rng); s = 0.05
        b = [rv(rng) for _ in range(4)]
        a = [[x + y + rng.gauss(0, s) for x, y in zip(qrot(q, p), t)] for p in b]
        return t + q + flat(a) + flat(b), (t, q, a, b)
    sampled_inputs(u, 31, gen); u.outs(36); u.iouts(1); u.nsamp = 60

    def f(inp, tr, o, io):
        import numpy as np
        t, q, a, b = tr
        e = sum(math.sqrt(cost([x], [y], q, t)) for x, y in zip(a, b)) / 12
        J = []
        for p in b:
            R = np.array([qrot(q, v) for v in np.eye(3)]).T
            # x' = q e_r x e_r* q*, e_r = 1 + small vector part: derivative by the vector part of the error quaternion
            S = 2 * np.array([[0, p[2], -p[1]], [-p[2], 0, p[0]], [p[1], -p[0], 0]])
            J.append(np.hstack([np.eye(3), R @ S]))
        J = np.vstack(J)
        C = e * np.linalg.inv(J.T @ J)
        d = np.abs(C - np.array(o).reshape(6, 6)).max()
        return None if io[0] == 1 and d < 1e-6 * (1 + np.abs(C).max()) else 'covariance differs by %g' % d
    oracle(u, 'propagated covariance', f)


# ------------------------------------------------------------------ tool tip
def tip_exact(u, n):
    pw, pm = u.vec('pw', 3), u.vec('pm', 3)
    qs = [u.quat('q%d_' % i) for i in range(n)]
    ts = [vsub(pw, mv(rotmat(q), pm)) for q in qs]
    # the relative rotations have different axes
    r = [qmul(qconj(qs[0]), q)[:3] for q in qs[1:]]
    u.clear_of_zero(norm2(cross(r[0], r[1])), 0.01)

    def ghost(ex, A, B):
        s = pm + pw
        for i in range(len(A)):
            lapack.require(ex, 'row %d is solved by the true tip' % i, dot(A[i], s), B[i][0])
        return [[x] for x in s] + [[fn('lsqrest:%d' % i, *flat(A))] for i in range(len(A) - 6)]
    u.ghost_lsq = ghost
    u.inputs(*[x for t, q in zip(ts, qs) for x in (t, q)])
    return pw, pm


for nm, n, tol in (('tip_lsq3', 3, None), ('tip_lsq4', 4, None), ('tip_lsqf', 4, 5e-2), ('tip_calib', 3, None)):
    @unit(nm, CPP, **(dict(sampled='single precision') if tol else {}))
    def _(u, nm=nm, n=n, tol=tol):
        if tol:
            u.float_ok = True
        pw, pm = tip_exact(u, n)
        o = u.outs(6)
        u.eqv('tip in the world', o[:3], pw, tol=tol)
        u.eqv('tip in the tool', o[3:], pm, tol=tol)
        if nm != 'tip_calib':
            done(u)


@unit('tip_evaluate', CPP)
def _(u):
    w, m = u.vec('w', 3), u.vec('m', 3); t = u.vec('t', 3); q = u.quat('q'); s = u.real('s')
    u.inputs(w, m, t, q, s)
    e = norm(vsub(w, vadd(mv(rotmat(q), m), t)))
    u.eqv('distance of the tip', u.outs(3), [e, e, s + e])


for nm, fl in (('tip_error', False), ('tip_errorf', True)):
    @unit(nm, CPP)
    def _(u, fl=fl):
        u.float_ok = fl
        w, m = u.vec('w', 3), u.vec('m', 3)
        ps = [(u.vec('t%d_' % i, 3), u.quat('q%d_' % i)) for i in range(3)]
        u.inputs(w, m, *[x for p in ps for x in p])
        e = [norm(vsub(w, vadd(mv(rotmat(q), m), t))) for t, q in ps]
        mu = (e[0] + e[1] + e[2]) / 3
        u.eq('mean distance', u.outs(2)[0], mu, tol=1e-4 if fl else None)
        u.eq('standard deviation', u.out[1], sqrt(sum(((x - mu) * (x - mu) for x in e[1:]), (e[0] - mu) * (e[0] - mu)) / 2), tol=1e-3 if fl else None)


def tips(rng, n, wrong=0, noise=0.0):
    pw, pm = rv(rng), rv(rng)
    out = []
    bad = set(rng.sample(range(n), wrong))
    for i in range(n):
        q = rq(rng)
        t = [x - y + rng.gauss(0, noise) for x, y in zip(pw, qrot(q, pm))] if i not in bad else rv(rng, 5)
        out += t + q
    return out, pw + pm


for nm, fl in (('tip_ransac', False), ('tip_ransacf', True)):
    @unit(nm, CPP, sampled='twelve poses, four of them wrong')
    def _(u, fl=fl):
        u.float_ok = fl
        sampled_inputs(u, 84, lambda rng: tips(rng, 12, 4)); u.outs(6); u.iouts(1); u.nsamp = 60
        oracle(u, 'inliers determine the tip', lambda i, tr, o, io: None if io[0] == 1 and far(o, tr) < (1e-2 if fl else 1e-6) else 'tip %r instead of %r' % (o, tr))


for nm, fl in (('tip_opt', False), ('tip_optf', True)):
    @unit(nm, CPP, sampled='ten poses, start near the solution')
    def _(u, fl=fl):
        u.float_ok = fl

        def gen(rng):
            k = rng.randrange(4)
            v, t = tips(rng, 10, 0, 0.01 if k > 1 else 0)
            return v + [x + (rng.gauss(0, 0.1) if k else 0) for x in t], (v, t)
        sampled_inputs(u, 76, gen); u.outs(6); u.iouts(1); u.nsamp = 60

        def f(inp, tr, o, io):
            import numpy as np
            if io[0] != 1:
                return 'failure is reported'
            A, y = [], []
            for i in range(10):
                t, q = tr[0][7 * i:7 * i + 3], tr[0][7 * i + 3:7 * i + 7]
                A.append(np.hstack([np.eye(3), -np.array([qrot(q, v) for v in np.eye(3)]).T])); y += t
            A, y = np.vstack(A), np.array(y)
            best = np.linalg.lstsq(A, y, rcond=None)[0]
            c, k = (float(((A @ np.array(x) - y) ** 2).sum()) for x in (o, best))
            return None if c <= k + (1e-2 if fl else 1e-6) * (k + 1e-4) else 'the squared distances sum to %r, the smallest possible sum is %r' % (c, k)
        oracle(u, 'least squares tip', f)



# ------------------------------------------------------------------ single precision, well conditioned
@unit('al_posef_good', CPP, 'vc_al_posef', sampled='single precision, points well spread')
def _(u):
    def gen(rng):
        while True:
            q, t = rq(rng), rv(rng, 2)
            b = [rv(rng) for _ in range(4)]
            import numpy as np
            m = np.array(b) - np.mean(b, axis=0)
            if np.linalg.svd(m)[1][1] > 0.7:
                break
        return flat([[x + y for x, y in zip(qrot(q, p), t)] for p in b]) + flat(b), (t, q)
    sampled_inputs(u, 24, gen); u.outs(7); u.iouts(1); u.nsamp = 150
    oracle(u, 'true pose', lambda i, tr, o, io: None if io[0] == 1 and far(o[:3], tr[0]) < 1e-4 and qfar(o[3:], tr[1]) < 1e-4 else 'pose %r instead of %r' % (o, tr))


@unit('al_rotqf', CPP, sampled='single precision, points well spread')
@unit('al_rotmf', CPP, sampled='single precision, points well spread')
def _(u):
    def gen(rng):
        import numpy as np
        while True:
            q = rq(rng); b = [rv(rng) for _ in range(4)]
            if np.linalg.svd(np.array(b))[1][1] > 0.7:
                break
        return flat([qrot(q, p) for p in b]) + flat(b), q
    m = u.name == 'al_rotmf'
    sampled_inputs(u, 24, gen); u.outs(9 if m else 4); u.iouts(1); u.nsamp = 150; u.float_ok = True

    def f(i, q, o, io):
        d = far(o, [x for c in zip(*[qrot(q, e) for e in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]) for x in c]) if m else qfar(o, q)
        return None if io[0] == 1 and d < 1e-4 else 'rotation %r instead of %r' % (o, q)
    oracle(u, 'true rotation', f)


@unit('tip_lsqf_good', CPP, 'vc_tip_lsqf', sampled='single precision, rotations well spread')
def _(u):
    def gen(rng):
        import numpy as np
        while True:
            v, t = tips(rng, 4)
            A = np.vstack([np.hstack([np.eye(3), -np.array([qrot(v[7 * i + 3:7 * i + 7], e) for e in np.eye(3)]).T]) for i in range(4)])
            if np.linalg.svd(A)[1][-1] > 0.5:
                return v, t
    sampled_inputs(u, 28, gen); u.outs(6); u.iouts(1); u.nsamp = 150
    oracle(u, 'true tip', lambda i, tr, o, io: None if io[0] == 1 and far(o, tr) < 1e-4 else 'tip %r instead of %r' % (o, tr))


# ------------------------------------------------------------------ other units of length
def al_sized(name, entry, n, arr):
    @unit(name, CPP, entry, sampled='points micrometres to kilometres apart')
    def _(u):
        def gen(rng):
            import numpy as np
            while True:
                b = [rv(rng) for _ in range(n)]
                if np.linalg.svd(np.array(b) - np.mean(b, axis=0))[1][1] > 0.7:
                    break
            w = 10.0 ** rng.randint(-6, 3)
            q, t = rq(rng), [x * w for x in rv(rng)]
            b = [[x * w for x in p] for p in b]
            a = [[x + y for x, y in zip(qrot(q, p), t)] for p in b]
            return flat(arr(a, b)), (t, q, w)
        sampled_inputs(u, 6 * n, gen); u.outs(7); u.iouts(1); u.nsamp = 100
        oracle(u, 'true pose', lambda i, tr, o, io: None if (name == 'al_size_abs' or io[0] == 1) and far(o[:3], tr[0]) < 1e-6 * tr[2] and qfar(o[3:], tr[1]) < 1e-6 else 'pose %r instead of %r' % (o, tr))


al_sized('al_size3', 'vc_al_pose3', 3, lambda a, b: a + b); al_sized('al_size4', 'vc_al_pose4', 4, lambda a, b: a + b); al_sized('al_size_abs', 'vc_al_abs', 3, lambda a, b: a + b)


@unit('tip_size', CPP, 'vc_tip_lsq4', sampled='tips and poses micrometres to kilometres apart')
def _(u):
    def gen(rng):
        import numpy as np
        while True:
            v, t = tips(rng, 4)
            A = np.vstack([np.hstack([np.eye(3), -np.array([qrot(v[7 * i + 3:7 * i + 7], e) for e in np.eye(3)]).T]) for i in range(4)])
            if np.linalg.svd(A)[1][-1] > 0.3:
                break
        w = 10.0 ** rng.randint(-6, 3)
        return [x * w if i % 7 < 3 else x for i, x in enumerate(v)], ([x * w for x in t], w)
    sampled_inputs(u, 28, gen); u.outs(6); u.iouts(1); u.nsamp = 100
    oracle(u, 'true tip', lambda i, tr, o, io: None if io[0] == 1 and far(o, tr[0]) < 1e-7 * tr[1] else 'tip %r instead of %r' % (o, tr))
