"""Camera pose from image points of known 3D points: exact images give back the pose, the residual and the covariance belong to it."""
import math
import random
import z3
from spec import *
import lapack
from stubs import *
from c_align import sampled_inputs, oracle, rq, rv, qrot, far, qfar, chunks, same_q
from c_project import sign, cond_k, triinv, num_rot, np_cam
CPP = 'pose2d3d.cpp'


def ortho2(u, d):
    """orthogonal 2x2 matrix of determinant d"""
    a, b = u.unitvec('g', 2)
    return [[a, b], [-d * b, d * a]]


def svd32(u, q, dv, du, ln):
    """singular value decomposition of ln [r1 r2]: the right factor is any orthogonal matrix, the third left vector either normal"""
    R = rotmat(q)
    W = ortho2(u, dv)

    def ghost(ex, A):
        if len(A) != 3 or len(A[0]) != 2:
            return None
        for i in range(3):
            for j in range(2):
                lapack.require(ex, 'scaled rotation columns [%d][%d]' % (i, j), A[i][j], ln * R[i][j])
        U = [[R[i][0] * W[k][0] + R[i][1] * W[k][1] for k in range(2)] + [du * R[i][2]] for i in range(3)]
        return dict(u=U, s=[ln, ln], vt=W)
    return ghost


def kmat(u):
    """camera matrix: upper triangular, last element -1"""
    k = u.vec('k', 5, near=(-1, 1))
    for i in (0, 3):
        u.clear_of_zero(k[i] * k[i], 0.1)
    return [[k[0], k[1], k[2]], [ZERO, k[3], k[4]], [ZERO, ZERO, -ONE]]


def same_pose(u, o, t, q, tol=None):
    u.eqv('true translation', o[:3], t, tol=tol)
    same_q(u, 'true rotation', o[3:7], q, tol=tol)


for dv in (1, -1):
    for du in (1, -1):
        for e in (1, -1):
            @unit('pp_hom_%s%s%s' % ('pm'[dv < 0], 'pm'[du < 0], 'pm'[e < 0]), CPP, 'vc_pp_hom', cost=3)
            def _(u, dv=dv, du=du, e=e):
                q = u.quat('q'); t = u.vec('t', 2) + [-u.real('d', near=(0.5, 3), positive=True)]
                ln = u.real('ln', near=(0.2, 3), positive=True)
                K = kmat(u)
                R = rotmat(q)
                H = mm(K, [[R[i][0], R[i][1], t[i]] for i in range(3)])
                u.inputs(mscale(e * ln, H), triinv(K))
                det_stub(u); quat_stub(u, [q], sign(u, 'e'))
                u.ghost_svd = svd32(u, q, dv, du, ln)
                same_pose(u, u.outs(7), t, q, tol=1e-6)


@unit('pp_homf', CPP, sampled='single precision')
def _(u):
    def gen(rng):
        import numpy as np
        K = np_cam(rng)[0]; q = rq(rng); t = [rng.uniform(-2, 2), rng.uniform(-2, 2), -rng.uniform(0.5, 4)]
        R = np.array(num_rot(q))
        H = K @ np.column_stack([R[:, 0], R[:, 1], t]) * rng.uniform(0.3, 3) * rng.choice([-1, 1])
        return list(H.flatten()) + list(np.linalg.inv(K).flatten()), (q, t)
    sampled_inputs(u, 18, gen); u.outs(7); u.nsamp = 200
    oracle(u, 'true pose', lambda inp, t, out, io: None if max(far(out[:3], t[1]), qfar(out[3:7], t[0])) < 1e-3 else 'pose %r, true %r' % (out[:7], t))


# ------------------------------------------------------------------ the whole estimation
def dlt_stub(u, H, lam, n, known=None):
    """homographyDLT by its contract (proved in P21): points related by H give a multiple of H.
    known: plane coordinates and their images by H (by definition)"""
    def h(ex, a, rt, name):
        d = a[0][1]
        f, t = rd_vecs(ex, a[1][1], 2), rd_vecs(ex, a[2][1], 2)
        if len(f) != len(t) or len(f) != n:
            from symex import Unsupported
            raise Unsupported('homography of %d and %d points' % (len(f), len(t)))
        for i in range(n):
            if known and all(not u.ctx.poly(a - b) for a, b in zip(f[i], known[i][0])):
                for k in range(2):
                    lapack.require(ex, 'plane coordinate %d[%d]' % (i, k), f[i][k], known[i][0][k])
                    lapack.require(ex, 'image %d[%d]' % (i, k), t[i][k], known[i][1][k])
                continue
            y = mv(H, f[i] + [ONE])
            for k in range(2):
                lapack.require(ex, 'the points correspond by the homography %d[%d]' % (i, k), t[i][k] * y[2], y[k])
        wr_mat(ex, d, mscale(lam, H))
    u.stubs[r'Algorithm::homographyDLT\('] = h


def inv_stub(u, K):
    """Math::invert_matrix by its contract (proved in P13)"""
    I = triinv(K)

    def h(ex, a, rt, name):
        P = mm(rd_mat(ex, a[1][1], 3, 3), I)
        for i in range(3):
            for j in range(3):
                lapack.require(ex, 'inverse of the camera matrix [%d][%d]' % (i, j), P[i][j], ONE if i == j else ZERO)
        wr_mat(ex, a[0][1], I)
    u.stubs[r'Math::invert_matrix<.*Matrix<double, ?3ul, ?3ul>'] = h


def cov_stub(u):
    """the covariance: any symmetric matrix (its own unit: pp_err)"""
    C = [[var('cov%d%d' % (min(i, j), max(i, j))) for j in range(6)] for i in range(6)]

    def h(ex, a, rt, name):
        wr_mat(ex, a[0][1], C)
    u.stubs[r'singleCameraPoseError\('] = h


def project(u, K, R, t, X):
    y = vadd(mv(R, X), t)
    u.clear_of_zero(-y[2], 0.1)
    z = mv(K, y)
    return [z[0] / z[2], z[1] / z[2]]


def setup(u, e, dv, du, nrm):
    q = u.quat('q'); t = u.vec('t', 2, near=(-1, 1)) + [-u.real('d', near=(2.5, 5), positive=True)]
    ln = u.real('ln', near=(0.2, 3), positive=True)
    K = kmat(u)
    det_stub(u); inv_stub(u, K); cov_stub(u); quat_stub(u, [q], sign(u, 'e'))
    return q, t, ln, K


def general(u, ps):
    """no three of the first four points on a line (native runs)"""
    for i in range(4):
        for j in range(i):
            for k in range(j):
                d = cross(vsub(ps[i], ps[k]), vsub(ps[j], ps[k])) if len(ps[0]) == 3 else [(ps[i][0] - ps[k][0]) * (ps[j][1] - ps[k][1]) - (ps[i][1] - ps[k][1]) * (ps[j][0] - ps[k][0])]
                u.clear_of_zero(norm2(d), 0.1)


def plane_pose(u, n, e, dv, du):
    """all points in the plane z = c"""
    q, t, ln, K = setup(u, e, dv, du, 1)
    R = rotmat(q)
    c = u.real('c', near=(-1, 1))
    X = [u.vec('X%d_' % i, 2, near=(-1.5, 1.5)) for i in range(n)]
    general(u, X)
    X3 = [x + [c] for x in X]
    x2 = [project(u, K, R, t, x) for x in X3]
    tc = [t[i] + c * R[i][2] for i in range(3)]
    u.clear_of_zero(-tc[2], 0.1)
    dlt_stub(u, mm(K, [[R[i][0], R[i][1], tc[i]] for i in range(3)]), e * ln, n)
    u.ghost_svd = svd32(u, q, dv, du, ln)
    u.inputs(x2, X3, K)
    o = u.outs(44)
    same_pose(u, o, t, q, tol=1e-5)
    u.eq('no residual', o[7], ZERO, tol=1e-6)


for n in (4, 5):
    for e in (1, -1):
        @unit('pp_plane%d_%s' % (n, 'pm'[e < 0]), CPP, 'vc_pp_pose%d' % n, cost=4)
        def _(u, n=n, e=e):
            plane_pose(u, n, e, 1, 1)


@unit('pp_tilted', CPP, 'vc_pp_pose4', cost=6)
def _(u):
    """four points in any other plane: p0 = o, p1 on its x axis, p2 above it"""
    q, t, ln, K = setup(u, 1, 1, 1, 1)
    w = u.quat('w'); org = u.vec('o', 3, near=(-1, 1))
    a1, f = u.real('a1', near=(0.5, 1.5), positive=True), u.real('f', near=(0.5, 1.5), positive=True)
    # angle at p0, wide enough (cosine below 0.8)
    cs, sn = u.real('cs'), u.real('sn', positive=True)
    u.ctx.poly(cs); u.ctx.poly(sn)
    u.ctx.add_relation(cs * cs, ONE - sn * sn)

    def angle(r):
        a = r.uniform(0.7, 2.5)
        return dict(cs=math.cos(a), sn=math.sin(a))
    u.group(['cs', 'sn'], angle)
    u.requires(gt(T(0.8), cs))
    a2, b2 = f * cs, f * sn
    a3, b3 = u.vec('p', 2, near=(-1.5, 1.5))
    X = [[ZERO, ZERO], [a1, ZERO], [a2, b2], [a3, b3]]
    general(u, X)
    W = rotmat(w)
    u.clear_of_zero(W[2][0] * W[2][0], 0.01)
    X3 = [vadd(org, mv(W, x + [ZERO])) for x in X]
    u.requires(eq(X3[1][2], X3[0][2]).neg())
    # camera from plane: q, t; camera from world: q w*, t - R W' o
    RW = rotmat(q)
    x2 = [project(u, K, RW, t, x + [ZERO]) for x in X]
    r, tp = q, t
    q = qmul(r, qconj(w))
    R = mm(RW, mt(W))
    t = vsub(tp, mv(RW, mv(mt(W), org)))
    u.clear_of_zero(-t[2], 0.1)
    dlt_stub(u, mm(K, [[RW[i][0], RW[i][1], tp[i]] for i in range(3)]), ln, 4, list(zip(X, x2)))
    u.stubs[r'PoseEstimation2D3D::reprojectionError\('] = lambda ex, a, rt, name: ZERO
    W2 = ortho2(u, 1)

    def ghost(ex, A):
        if len(A[0]) != 2:
            return None
        for i in range(3):
            for j in range(2):
                lapack.require(ex, 'scaled rotation columns [%d][%d]' % (i, j), A[i][j], ln * RW[i][j])
        U = [[RW[i][0] * W2[k][0] + RW[i][1] * W2[k][1] for k in range(2)] + [RW[i][2]] for i in range(3)]
        return dict(u=U, s=[ln, ln], vt=W2)
    u.ghost_svd = ghost
    quat_stub(u, [r, qconj(w)], sign(u, 'e'))
    u.inputs(x2, X3, K)
    same_pose(u, u.outs(44), t, q, tol=1e-5)
    u.oracles.append(('no residual', lambda env, inp, out, io: None if abs(out[7]) < 1e-6 else 'residual %g' % out[7]))


def pdlt_stub(u, P, lam, n):
    """projectionDLT by its contract (proved in P21): images by P give a multiple of P"""
    def h(ex, a, rt, name):
        f, t = rd_vecs(ex, a[1][1], 3), rd_vecs(ex, a[2][1], 2)
        if len(f) != len(t) or len(f) != n:
            from symex import Unsupported
            raise Unsupported('projection of %d and %d points' % (len(f), len(t)))
        for i in range(n):
            y = mv(P, f[i] + [ONE])
            for k in range(2):
                lapack.require(ex, 'the points correspond by the projection %d[%d]' % (i, k), t[i][k] * y[2], y[k])
        wr_mat(ex, a[0][1], mscale(lam, P))
    u.stubs[r'Algorithm::projectionDLT\('] = h
    u.stubs[r'Algorithm::decomposeProjection\('] = lambda ex, a, rt, name: None      # only traced


for e in (1, -1):
    @unit('pp_spatial_%s' % 'pm'[e < 0], CPP, 'vc_pp_pose6n', cost=6)
    def _(u, e=e):
        """points not in a plane, camera matrix with third row (0, 0, -1)"""
        q, t, ln, K = setup(u, 1, 1, 1, 1)
        R = rotmat(q)
        X = [u.vec('X%d_' % i, 3, near=(-1.5, 1.5)) for i in range(6)]
        general(u, X)
        # far from a plane, for the native runs
        for i in (3, 4, 5):
            d = dot(vsub(X[i], X[0]), cross(vsub(X[1], X[0]), vsub(X[2], X[0])))
            u.clear_of_zero(d * d, 0.05)
        x2 = [project(u, K, R, t, x) for x in X]
        pdlt_stub(u, mm(K, [[R[i][0], R[i][1], R[i][2], t[i]] for i in range(3)]), T(e), 6)
        g = u.quat('g'); G = rotmat(g)

        def ghost(ex, A):
            if len(A[0]) != 3:
                return None
            for i in range(3):
                for j in range(3):
                    lapack.require(ex, 'rotation [%d][%d]' % (i, j), A[i][j], R[i][j])
            return dict(u=G, s=[ONE] * 3, vt=mm(mt(G), R))
        u.ghost_svd = ghost
        u.inputs(x2, X, K)
        o = u.outs(44)
        same_pose(u, o, t, q, tol=1e-4)
        u.eq('no residual', o[7], ZERO, tol=1e-5)


@unit('pp_pose3', CPP)
def _(u):
    u.inputs(u.vec('x', 24)); u.outs(44); u.throw_if = Cond('bv', z3.BoolVal(True))


# ------------------------------------------------------------------ refinement, covariance and the iterative estimation: compared with independent computations
def spread(rng, n, kind):
    """n points: 'z' in a plane z = c, 'tilt' the first four in some plane, 'space' anywhere"""
    import numpy as np
    while True:
        if kind == 'space':
            X = np.array([rv(rng, 1) for _ in range(n)])
            s = np.linalg.svd(X - X.mean(0))[1]
            if s[2] < 0.35:
                continue
        elif kind == 'rows':
            # a plane tilted about the x axis, holding several points of exactly the first one's height, in any order
            g = math.tan(rng.uniform(.3, 1.2)) * rng.choice([-1, 1]); o = rv(rng, .5)
            y = [0.0] * (n - 3) + [rng.uniform(-1, 1) for _ in range(3)]
            P = [[rng.uniform(-1, 1) + o[0], v + o[1], g * v + o[2]] for v in y]
            rng.shuffle(P)
            X = np.array(P)
            if X[1][2] == X[0][2] == X[2][2] == X[3][2]:
                continue
            a, b = X[1] - X[0], X[2] - X[0]
            if abs(a @ b) > 0.75 * np.linalg.norm(a) * np.linalg.norm(b):
                continue
            m = min(np.linalg.norm(np.cross(X[i] - X[k], X[j] - X[k])) for i in range(4) for j in range(i) for k in range(j))
            if m < 0.25:
                continue
        else:
            P = np.array([rv(rng, 1, 2) + [0.0] for _ in range(n)])
            W = np.eye(3) if kind == 'z' else np.array(num_rot(rq(rng)))
            o = np.array([0, 0, rng.uniform(-.5, .5)]) if kind == 'z' else np.array(rv(rng, .5))
            X = P @ W.T + o
            if kind == 'z':
                X[:, 2] = o[2]
            elif kind == 'tilt4':
                X[4:] = [rv(rng, 1) for _ in range(n - 4)]
            a, b = X[1] - X[0], X[2] - X[0]
            if kind != 'z' and (abs(a @ b) > 0.75 * np.linalg.norm(a) * np.linalg.norm(b) or abs(a[2]) < 0.02):
                continue
            m = min(np.linalg.norm(np.cross(X[i] - X[k], X[j] - X[k])) for i in range(4) for j in range(i) for k in range(j))
            if m < 0.25:
                continue
        return X


def images(K, R, t, X):
    Y = (X @ R.T + t) @ K.T
    return Y[:, :2] / Y[:, 2:]


def num_err(K, R, t, X, x): return float(((images(K, R, t, X) - x) ** 2).sum())


def num_cov(f, m, x0):
    """m (J'J)^-1 for x' = q e_r x e_r* q* + t + e_t; numeric derivative"""
    import numpy as np
    J = []
    for i in range(6):
        e = np.zeros(6); e[i] = 1e-6
        J.append((f(e) - f(-e)) / 2e-6)
    J = np.array(J).T
    return m * np.linalg.inv(J.T @ J), np.linalg.cond(J.T @ J)


def err_model(q, t, X):
    import numpy as np
    R = np.array(num_rot(q))

    def f(e):
        r = e[3:]; w = math.sqrt(max(0, 1 - float(r @ r)))
        return (X @ np.array(num_rot([r[0], r[1], r[2], w])).T) @ R.T + t + e[:3]
    return f


def cov_matches(C, K, q, t, X, m, rel=1e-3):
    import numpy as np
    g = err_model(q, np.array(t), X)

    def f(e):
        Y = g(e) @ K.T
        return (Y[:, :2] / Y[:, 2:]).flatten()
    T_, cnd = num_cov(f, m, None)
    if cnd > 1e7:
        return None
    C = np.array(C).reshape(6, 6)
    d = abs(C - T_).max()
    return None if d <= rel * abs(T_).max() + 1e-30 else 'covariance differs by %g (largest entry %g)' % (d, abs(T_).max())


def estimate(name, entry, n, kind, opt, noise):
    @unit(name, CPP, entry, sampled='generated cameras and points')
    def _(u):
        def gen(rng):
            K, R, t, q = np_cam(rng)
            X = spread(rng, n, kind)
            s = rng.choice(noise)
            x = images(K, R, t, X)
            x = x + __import__('numpy').array([[rng.gauss(0, s) for _ in range(2)] for _ in range(n)])
            return list(x.flatten()) + list(X.flatten()) + list(K.flatten()), (K, R, list(t), q, X, x, s)
        sampled_inputs(u, 5 * n + 9, gen); u.outs(44); u.nsamp = 120

        def f(inp, T_, out, io):
            import numpy as np
            K, R, t, q, X, x, s = T_
            o = out[:7]
            if abs(sum(v * v for v in o[3:]) - 1) > 1e-9:
                return 'the rotation has length %g' % math.sqrt(sum(v * v for v in o[3:]))
            r = num_err(K, np.array(num_rot(o[3:])), np.array(o[:3]), X, x)
            if s == 0 and max(far(o[:3], t), qfar(o[3:], q)) > 1e-4:
                return 'pose %r, true %r' % (o, list(t) + q)
            fits = s and out[7] < 4 * s       # otherwise another local minimum (few noisy points are ambiguous)
            if fits and n > 4 and max(far(o[:3], t), qfar(o[3:], q)) > 500 * s:
                return 'pose %r, true %r, noise %g' % (o, list(t) + q, s)
            if abs(out[7] - math.sqrt(r / (2 * n))) > 1e-6 + 0.02 * out[7]:
                return 'residual %g, root mean square of the image errors %g' % (out[7], math.sqrt(r / (2 * n)))
            if opt and fits:
                # no nearby pose is better
                for i in range(6):
                    for h in (1e-2 * s, -1e-2 * s):
                        d = np.zeros(6); d[i] = h
                        Y = err_model(o[3:], np.array(o[:3]), X)(d) @ K.T
                        if ((Y[:, :2] / Y[:, 2:] - x) ** 2).sum() < r * (1 - 1e-3):
                            return 'a nearby pose is better'
            if fits:
                return cov_matches(out[8:44], K, o[3:], o[:3], X, r, 0.03)
        oracle(u, 'pose, residual and covariance', f)


estimate('pp_est4z', 'vc_pp_pose4o', 4, 'z', True, [0, 1e-5, 1e-4])
estimate('pp_est4t', 'vc_pp_pose4o', 4, 'tilt', True, [0, 1e-5])
estimate('pp_est6z', 'vc_pp_pose6o', 6, 'z', True, [0, 1e-5, 1e-4])
estimate('pp_est6t', 'vc_pp_pose6', 6, 'tilt4', False, [0])
estimate('pp_est8r', 'vc_pp_pose8', 8, 'rows', False, [0])
estimate('pp_est8s', 'vc_pp_pose8no', 8, 'space', True, [0, 1e-5, 1e-4])


@unit('pp_short', CPP, sampled='generated cameras and points')
def _(u):
    n = 6
    k, m = u.int('k', lo=0, hi=1, sampler=lambda r: r.randint(0, 1)), u.int('m', lo=0, hi=1, sampler=lambda r: r.randint(0, 1))

    def gen(rng):
        K, R, t, q = np_cam(rng)
        X = spread(rng, n, 'z')
        return list(images(K, R, t, X).flatten()) + list(X.flatten()) + list(K.flatten()), (list(t), q)
    sampled_inputs(u, 39, gen); u.iinputs(k, m); u.outs(43); u.nsamp = 100
    oracle(u, 'true pose', lambda inp, t, out, io: None if max(far(out[:3], t[0]), qfar(out[3:7], t[1])) < 1e-4 else 'pose %r, true %r' % (out[:7], t))


def refine(name, tol, fl):
    @unit(name, CPP, sampled='disturbed start poses')
    def _(u):
        u.float_ok = fl
        it = u.int('it', lo=1, hi=200, sampler=lambda r: 100)

        def gen(rng):
            import numpy as np
            K, R, t, q = np_cam(rng)
            X = spread(rng, 6, 'space')
            d = rng.choice([0, 0.01, 0.1])
            p = [a + rng.gauss(0, d) for a in q]; l = math.sqrt(sum(a * a for a in p))
            s = [a + rng.gauss(0, d) for a in t] + [a / l for a in p]
            return s + list(images(K, R, t, X).flatten()) + list(X.flatten()) + list(K.flatten()), (K, R, list(t), q, X)
        sampled_inputs(u, 46, gen); u.iinputs(it); u.outs(8); u.nsamp = 120

        def f(inp, T_, out, io):
            import numpy as np
            K, R, t, q, X = T_
            o = out[:7]
            if max(far(o[:3], t), qfar(o[3:], q)) > tol:
                return 'pose %r, true %r' % (o, list(t) + q)
            if abs(sum(v * v for v in o[3:]) - 1) > (1e-5 if fl else 1e-9):
                return 'rotation not of unit length'
            r = num_err(K, np.array(num_rot(o[3:])), np.array(o[:3]), X, images(K, R, np.array(t), X))
            return None if abs(r - out[7]) < tol * 0.01 else 'residual %g, summed squared image errors %g' % (out[7], r)
        oracle(u, 'true pose', f)


refine('pp_opt', 1e-4, False); refine('pp_optf', 2e-2, True)


def coverr(name, rel, fl):
    @unit(name, CPP, sampled='generated cameras and points')
    def _(u):
        u.float_ok = fl

        def gen(rng):
            K, R, t, q = np_cam(rng)
            X = spread(rng, 5, 'space'); m = rng.uniform(0.01, 2)
            return list(t) + q + list(X.flatten()) + list(K.flatten()) + [m], (K, q, t, X, m)
        sampled_inputs(u, 32, gen); u.outs(36); u.nsamp = 120
        oracle(u, 'm (J^T J)^-1', lambda inp, t, out, io: cov_matches(out[:36], *t, rel))


coverr('pp_err', 1e-4, False); coverr('pp_errf', 0.2, True)


for nm, fl in (('pp_merr', False), ('pp_merrf', True)):
    @unit(nm, CPP, sampled='generated cameras, points and observations')
    def _(u, fl=fl):
        u.float_ok = fl
        import numpy as np
        ks = [u.int('o%d' % i, lo=0, hi=4 if i % 2 == 0 else 1, sampler=lambda r, i=i: r.randint(0, 4 if i % 2 == 0 else 1)) for i in range(16)]

        def gen(rng):
            X = spread(rng, 5, 'space'); m = rng.uniform(0.01, 2); q = rq(rng); t = rv(rng, 0.3)
            P = []
            for _ in range(2):
                K, R, c, _q = np_cam(rng)
                P.append(K @ np.column_stack([R, c]))
            return t + q + list(X.flatten()) + list(P[0].flatten()) + list(P[1].flatten()) + [m], (X, q, t, P, m)
        sampled_inputs(u, 47, gen); u.iinputs(ks); u.outs(36); u.nsamp = 150

        def f(env, inp, out, io):
            T_ = u.truth.get(tuple(inp))
            if T_ is None:
                return None
            X, q, t, P, m = T_
            obs = [(int(env['o%d' % (2 * i)]), int(env['o%d' % (2 * i + 1)])) for i in range(8)]
            g = err_model(q, np.array(t), X)

            def h(e):
                Y = g(e); r = []
                for i, c in obs:
                    y = P[c] @ np.append(Y[i], 1)
                    r += [y[0] / y[2], y[1] / y[2]]
                return np.array(r)
            J = []
            for i in range(6):
                e = np.zeros(6); e[i] = 1e-6
                J.append((h(e) - h(-e)) / 2e-6)
            J = np.array(J).T; A = J.T @ J
            if np.linalg.cond(A) > (1e3 if fl else 1e7):
                return None
            C = m * np.linalg.inv(A); d = abs(C - np.array(out[:36]).reshape(6, 6)).max()
            return None if d < (1e-2 if fl else 1e-3) * abs(C).max() else 'covariance differs by %g (largest entry %g)' % (d, abs(C).max())
        u.oracles.append(('m (J^T J)^-1', f))


def lhm(name, fl):
    @unit(name, 'pose2d3d_lhm.cpp', sampled='normalised images of eight points in front of the camera')
    def _(u):
        import numpy as np
        u.float_ok = fl
        it = u.int('it', lo=1, hi=100000, sampler=lambda r: r.choice([1, 2, 5, 200, 2000]))

        def gen(rng):
            q, t = rq(rng), [rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(3, 6)]
            X = spread(rng, 8, 'space'); R = np.array(num_rot(q)); Y = X @ R.T + t
            s = rng.choice([0, 0, 1e-3]); x = Y[:, :2] / Y[:, 2:] + np.array([[rng.gauss(0, s) for _ in range(2)] for _ in range(8)])
            o = np.array(rv(rng, 2)) * rng.choice([0, 1])          # the origin need not be the centroid
            return list(x.flatten()) + list((X + o).flatten()) + [rng.choice([1e-9, 1e-5] if fl else [1e-16, 1e-12, 1e-6])], (q, list(np.array(t) - R @ o), X + o, x, s)
        sampled_inputs(u, 41, gen); u.iinputs(it); u.outs(8); u.iouts(2); u.nsamp = 200

        def f(env, inp, out, io):
            T_ = u.truth.get(tuple(inp))
            if T_ is None:
                return None
            q, t, X, x, s = T_
            if not io[0]:
                return None if list(out[:7]) == [7, 8, 9, 0, 0, 0, 1] else 'a failed estimation changed the pose'
            if not io[1] < int(env['it']):
                return 'success with %d of %d iterations' % (io[1], int(env['it']))
            if abs(sum(v * v for v in out[3:7]) - 1) > 1e-6:
                return 'rotation not of unit length'
            Y = X @ np.array(num_rot(out[3:7])).T + np.array(out[:3])
            h = np.column_stack([x, np.ones(8)])
            e = sum(float(((y - v * (y @ v) / (v @ v)) ** 2).sum()) for y, v in zip(Y, h))
            if abs(e - out[7]) > (1e-4 if fl else 1e-9) * (1 + e):
                return 'reported error %g, object space error of the pose %g' % (out[7], e)
            if s == 0 and int(env['it']) == 2000 and inp[40] < 1e-15 and max(far(out[:3], t), qfar(out[3:7], q)) > 1e-3 and e < 1e-3:
                return 'pose %r, true %r' % (list(out[:7]), list(t) + q)
        u.oracles.append(('error belongs to the pose', f))


lhm('pp_lhm', False); lhm('pp_lhmf', True)


# ------------------------------------------------------------------ other units of length
def sized(name, entry, n, kind):
    @unit(name, CPP, entry, sampled='images in pixels, points in millimetres to kilometres')
    def _(u):
        def gen(rng):
            import numpy as np
            K, R, t, q = np_cam(rng)
            K = np.diag([p := rng.choice([1.0, 100.0, 1000.0]), p, 1.0]) @ K
            X = spread(rng, n, kind); w = 10.0 ** rng.randint(-3, 3)
            X, t = X * w, t * w
            return list(images(K, R, t, X).flatten()) + list(X.flatten()) + list(K.flatten()), (list(t), q, w)
        sampled_inputs(u, 5 * n + 9, gen); u.outs(44); u.nsamp = 120
        oracle(u, 'true pose', lambda inp, t, out, io: None if max(far(out[:3], t[0]) / t[2], qfar(out[3:7], t[1])) < 1e-4 else 'pose %r, true %r' % (out[:7], t))


sized('pp_size4z', 'vc_pp_pose4o', 4, 'z'); sized('pp_size4t', 'vc_pp_pose4o', 4, 'tilt'); sized('pp_size6z', 'vc_pp_pose6o', 6, 'z'); sized('pp_size8s', 'vc_pp_pose8no', 8, 'space')
