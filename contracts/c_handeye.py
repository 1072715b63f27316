"""Hand-eye calibration: exact motions give the true transformation; relative poses, their selection and the recursive filters."""
import math
import z3
from spec import *
import lapack
from stubs import *
from lapack import syminv
from c_align import sampled_inputs, oracle, far, qfar, rq, rv, qrot, same_q, chunks
from c_kalman import spd_in, kalman_spec
from c_project import sign
CPP = 'handeye.cpp'
B = lambda e: Cond('bv', e)


# ------------------------------------------------------------------ poses (t, q) of terms
def pm(a, b): return vadd(a[0], rotv(a[1], b[0])), qmul(a[1], b[1])


def pinv(a):
    c = qconj(a[1])
    return vneg(rotv(c, a[0])), c


def hom4(p):
    R = rotmat(p[1])
    return [R[i] + [p[0][i]] for i in range(3)] + [[ZERO, ZERO, ZERO, ONE]]


def pin(p): return list(p[0]) + list(p[1])
def upose(u, n): return u.vec(n + 't', 3, near=(-3, 3)), u.quat(n, special=False)
IDP = ([ZERO] * 3, [ZERO, ZERO, ZERO, ONE])


def dualq(p):
    """(q, t q / 2), scalar parts first"""
    t, q = p
    d = qmul(list(t) + [ZERO], q)
    return [q[3], q[0], q[1], q[2], d[3] / 2, d[0] / 2, d[1] / 2, d[2] / 2]


# ------------------------------------------------------------------ linear method
def rigid_inv_stub(u):
    """Math::invert_matrix by its contract (proved in P13): the inverse of a rigid transformation"""
    def h(ex, a, rt, name):
        M = rd_mat(ex, a[1][1], 4, 4)
        R = [[M[j][i] for j in range(3)] for i in range(3)]
        I = [R[i] + [-dot(R[i], [M[j][3] for j in range(3)])] for i in range(3)] + [[ZERO, ZERO, ZERO, ONE]]
        P = mm(M, I)
        for i in range(4):
            for j in range(4):
                lapack.require(ex, 'inverse of a rigid transformation [%d][%d]' % (i, j), P[i][j], ONE if i == j else ZERO)
        wr_mat(ex, a[0][1], I)
    u.stubs[r'Math::invert_matrix<.*Matrix<double, ?4ul, ?4ul>'] = h


def vecpart_stub(u, known):
    """vector part of the quaternion with positive scalar part of a rotation matrix (own unit: he_quat).
    known: (quaternion, sign of its scalar part)"""
    def h(ex, a, rt, name):
        d, s = a[0][1], a[1][1]
        M = rd_mat(ex, s, 3, 3)
        for q, e in known:
            R = rotmat(q)
            if all(not u.ctx.poly(M[i][j] - R[i][j]) for i in range(3) for j in range(3)):
                break
        else:
            q, e = known[0]
            R = rotmat(q)
            for i in range(3):
                for j in range(3):
                    lapack.require(ex, 'relative rotation [%d][%d]' % (i, j), M[i][j], R[i][j])
        ex.store(d, 3, ('i', 64))
        ex.wr(at(d, 8), [e * x for x in q[:3]])
    u.stubs[r'PoseEstimation6D6D::getQuaternion<double>'] = h


def hand_eye3(u, gen=False):
    """three poses, the middle one with both poses the identity: hand_i X eye_i = X"""
    y = u.vec('y', 3, near=(-2, 2))         # any rotation but a half turn: vector part over scalar part
    n = sqrt(1 + norm2(y))
    X = u.vec('Xt', 3, near=(-3, 3)), [v / n for v in y] + [1 / n]
    h = [upose(u, 'a'), upose(u, 'c') if gen else IDP, upose(u, 'b')]
    if gen:
        W = upose(u, 'W')
    for p in (h[0], h[2]):
        u.clear_of_zero(p[1][3] * p[1][3], 0.05)
        u.clear_of_zero(norm2(p[1][:3]), 0.05)
    u.clear_of_zero(norm2(cross(h[0][1][:3], h[2][1][:3])), 0.05)
    r = qmul(qconj(h[2][1]), h[0][1])
    u.clear_of_zero(r[3] * r[3], 0.05)
    u.clear_of_zero(norm2(r[:3]), 0.05)
    if gen:
        e = [pm(pinv(X), pm(pinv(p), W)) for p in h]
    else:
        e = [pm(pinv(X), pm(pinv(h[0]), X)), IDP, pm(pinv(X), pm(pinv(h[2]), X))]
    return X, h, e, y


def tsai(name, mat, allp):
    @unit(name, CPP, cost=20, limit=200)
    def _(u):
        X, h, e, y = hand_eye3(u, True)
        if mat:
            u.inputs([flat(hom4(p)[:3]) for p in h], [flat(hom4(p)[:3]) for p in e])
        else:
            u.inputs([pin(p) for p in h], [pin(p) for p in e])
        rigid_inv_stub(u)
        known = []
        for i in range(3):
            for k in range(i + 1, 3):
                g = sign(u, 's%d%d' % (i, k))
                A = qmul(qconj(h[k][1]), h[i][1])
                known += [(A, g), (qmul(qconj(X[1]), qmul(A, X[1])), g)]
        vecpart_stub(u, known)
        state = {'n': 0}

        def ghost(ex, A, Bm):
            x = y if state['n'] % 2 == 0 else X[0]
            nm = 'rotation' if state['n'] % 2 == 0 else 'translation'
            state['n'] += 1
            for i, row in enumerate(A):
                b = Bm[i][0] if isinstance(Bm[i], list) else Bm[i]
                lapack.require(ex, 'the true %s solves equation %d' % (nm, i), dot(row, x), b)
            return [[v] for v in x] if isinstance(Bm[0], list) else x
        u.ghost_lsq = ghost
        quat_stub(u, [X[1]], sign(u, 'e'))
        o = u.outs(7)
        u.eqv('true translation', o[:3], X[0], tol=1e-6)
        same_q(u, 'true rotation', o[3:7], X[1], tol=1e-6)


for m in (0, 1):
    for a in (0, 1):
        tsai('he_tsai_%s%s' % ('m' if m else '', 'all' if a else 'next'), m, a)


def he_gen(n, mats=False, spread=1.0, kind=0):
    def gen(rng):
        X = [rv(rng, 3), rq(rng)]; W = [rv(rng, 3), rq(rng)]
        if kind == 1:
            X[0] = [0.0] * 3
        if kind == 2:
            X = [[0.0] * 3, [0.0, 0.0, 0.0, 1.0]]
        if kind == 5:
            X[1] = [0.0, 0.0, 0.0, 1.0]; W[1] = [0.0, 0.0, 0.0, 1.0]
        unit_ = 10.0 ** rng.randint(-2, 3) if kind == 7 else 1.0
        small = {5: 0, 6: 1e-4}.get(kind, 0.05)
        while True:
            h = [(rv(rng, 3), rq(rng)) for _ in range(n)]
            if kind == 3:
                h = [([0.0] * 3, q) for _, q in h]
            if kind == 4:
                s = math.sqrt(0.5)
                h = [(t, [0.0] * i + [s] + [0.0] * (2 - i) + [s]) for i, (t, _) in zip((0, 1, 2, 0, 1, 2)[:n], h)]
            if kind == 5:
                # stations that differ by exact half turns about coordinate axes
                half = [[0.0] * i + [1.0] + [0.0] * (3 - i) for i in range(3)]
                h[0] = (h[0][0], [0.0, 0.0, 0.0, 1.0])
                for i in rng.sample(range(1, n), rng.randint(1, 3)):
                    h[i] = (h[i][0], half.pop(rng.randrange(len(half))))
            if kind == 6:
                # nearly half turns
                for i in range(1, n):
                    a = rq(rng)[:3]; l = math.sqrt(sum(v * v for v in a)); c = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -1)
                    h[i] = (h[i][0], nmul(h[i - 1][1], [v / l * math.sqrt(1 - c * c) for v in a] + [c]))
            r = [nmul(nconj(h[k][1]), h[i][1]) for i in range(n) for k in range(i + 1, n)]
            if min(abs(q[3]) for q in r) < small or min(abs(X[1][3]), 1) < (0 if kind == 2 else 0.1):
                if abs(X[1][3]) < 0.1:
                    X[1] = rq(rng)
                continue
            ax = [[v / math.sqrt(1.0000001 - q[3] ** 2) for v in q[:3]] for q in r if abs(q[3]) < 0.98]
            nx = [(h[i][1], h[i + 1][1]) for i in range(n - 1)]
            ax2 = [nmul(nconj(b), a) for a, b in nx]
            ok = lambda A: any(math.sqrt(sum((p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3]) ** 2 for i in range(3))) > 0.3 for p in A for q in A)
            if ok([q[:3] for q in ax2]) and len(ax) > 1:
                break
        if kind == 7:
            # another unit of length
            X, W, h = scaled(X, unit_), scaled(W, unit_), [scaled(p, unit_) for p in h]
        e = [npm(npinv(X), npm(npinv(p), W)) for p in h]
        # the sign of a rotation's quaternion has no meaning
        e = [(t, [-v for v in q] if rng.random() < 0.3 else q) for t, q in e]
        h = [(t, [-v for v in q] if rng.random() < 0.3 else q) for t, q in h]
        if mats:
            return [v for p in h + e for v in nmat(p)], (X[0], X[1])
        return [v for p in h + e for v in list(p[0]) + list(p[1])], (X[0], X[1])
    return gen


def nmul(a, b):
    ax, ay, az, aw = a; bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz]


def scaled(p, w): return [v * w for v in p[0]], p[1]
def nconj(q): return [-q[0], -q[1], -q[2], q[3]]
def npm(a, b): return [x + y for x, y in zip(a[0], qrot(a[1], b[0]))], nmul(a[1], b[1])


def npinv(a):
    c = nconj(a[1])
    return [-x for x in qrot(c, a[0])], c


def nmat(p):
    c = [qrot(p[1], [1.0 if i == j else 0.0 for i in range(3)]) for j in range(3)]
    return [v for i in range(3) for v in (c[0][i], c[1][i], c[2][i], p[0][i])]


def close(o, t, tol): return max(far(o[:3], t[0]), qfar(o[3:7], t[1])) < tol


def he_sampled(name, entry, n, mats, tol, kind=0, both=True, flag=False):
    @unit(name, CPP, entry, sampled='%d poses, generated exact data' % n)
    def _(u):
        sampled_inputs(u, n * (24 if mats else 14), he_gen(n, mats, kind=kind)); u.outs(7); u.nsamp = 60
        if both:
            u.iinputs(u.int('all', lo=0, hi=1))
        if flag:
            u.iouts(1)
        u.float_ok = True

        def f(inp, t, out, io):
            if flag and not io[0]:
                return 'failure reported for good data, true transformation %r' % (t,)
            return None if close(out, t, tol * (1 + max(map(abs, t[0])))) else 'result %r, true transformation %r' % (out[:7], t)
        oracle(u, 'the true transformation', f)



he_sampled('he_tsai_6', None, 6, False, 1e-6)
he_sampled('he_tsai_m6', None, 6, True, 1e-6)
he_sampled('he_tsai_f6', None, 6, True, 2e-2)
for k, nm in ((1, 'notrans'), (2, 'ident'), (3, 'still'), (4, 'axes'), (5, 'half'), (6, 'nearhalf'), (7, 'size')):
    he_sampled('he_tsai_6_' + nm, 'vc_he_tsai_6', 6, False, 1e-6, kind=k)
    he_sampled('he_dual_5_' + nm, 'vc_he_dual_5', 5, False, 1e-5, kind=k, both=False, flag=True)
he_sampled('he_dual_5', None, 5, False, 1e-5, both=False, flag=True)
he_sampled('he_dual_3s', 'vc_he_dual_3', 3, False, 1e-5, both=False, flag=True)


@unit('he_tsai_default', CPP, sampled='three poses, generated exact data')
def _(u):
    g = he_gen(3); m = he_gen(3, True)

    def gen(rng):
        a, t = g(rng); b, s = m(rng)
        return a + b, (t, s)
    sampled_inputs(u, 114, gen); u.outs(14); u.nsamp = 60
    oracle(u, 'the true transformation', lambda inp, t, out, io: None if close(out, t[0], 1e-5) and close(out[7:], t[1], 1e-5) else 'results %r, true transformations %r' % (out[:14], t))


for nm in ('he_tsai_size', 'he_tsai_msize'):
    @unit(nm, CPP, bounded='up to five poses')
    def _(u):
        u.inputs(u.vec('x', 60, near=(-1, 1)))
        a = u.int('n', lo=0, hi=0 + 5); b = u.int('m', lo=0, hi=5)
        u.iinputs(a, b)
        u.requires(B(a != b))
        u.throw_if = B(z3.BoolVal(True))


@unit('he_tsai_few', CPP)
def _(u):
    u.inputs(u.vec('x', 42, near=(-1, 1)))
    u.eqv('identity without enough poses', u.outs(14), [ZERO] * 6 + [ONE] + [ZERO] * 6 + [ONE])


# ------------------------------------------------------------------ dual quaternions
def dual_case(name, pose, b_pos, d_pos, e):
    @unit(name, CPP, 'vc_he_dual_3' if pose else 'vc_he_dual_2', cost=20, limit=200)
    def _(u):
        X = upose(u, 'X')
        xd = dualq(X)
        if pose:
            h = [upose(u, 'a'), IDP, upose(u, 'b')]; W = X
            # A = ~a_j a_i of the first argument, B = b_j ~b_i of the last one, A X = X B
            g = [pm(pinv(X), pm(pinv(p), W)) for p in h]
            g[1] = IDP
            for i, k in ((0, 1), (0, 2), (1, 2)):
                d = dualq(pm(pinv(h[k]), h[i]))
                u.clear_of_zero(d[0] * d[0] + d[4] * d[4], 0.01)
            u.inputs([pin(p) for p in h], [pin((p[0], vscale(e, p[1]) if i == 1 else p[1])) for i, p in enumerate(g)])
        else:
            a = [upose(u, 'a'), upose(u, 'b')]
            g = [pm(pinv(X), pm(p, X)) for p in a]
            for p in a:
                d = dualq(p)
                u.clear_of_zero(d[0] * d[0] + d[4] * d[4], 0.01)
            u.inputs([dualq(p) for p in a], [vscale(e if i else 1, dualq(p)) for i, p in enumerate(g)])
        al = u.vec('al', 2, near=(-1, 1)); be = u.vec('be', 2, near=(-1, 1))
        D = al[0] * be[1] - al[1] * be[0]; b = al[0] * be[1] + al[1] * be[0]
        u.requires((gt if d_pos else lt)(D, ZERO)); u.requires((ge if b_pos else lt)(b, ZERO))
        s = u.vec('sv', 6, near=(0.1, 3))
        u.requires(gt(s[5], T(0.02)))
        v = [[u.real('vt%d_%d' % (i, j)) for j in range(8)] for i in range(6)]
        rows = [[al[i] * xd[j] + (be[i] * xd[j - 4] if j >= 4 else ZERO) for j in range(8)] for i in range(2)]

        def ghost(ex, A):
            for k, x in (('the true transformation', xd), ('its rotation as dual part', [ZERO] * 4 + xd[:4])):
                for i, r in enumerate(A):
                    lapack.require(ex, '%s solves equation %d' % (k, i), dot(r, x), ZERO)
            n = len(A)
            return dict(s=s + [ZERO, ZERO], u=[[ZERO] * n for _ in range(n)], vt=v + rows)
        u.ghost_svd = ghost
        o = u.outs(7)
        u.holds('success is reported', B(u.iouts(1)[0] == 1))
        u.eqv('true translation', o[:3], X[0], tol=1e-5)
        same_q(u, 'true rotation', o[3:7], X[1], tol=1e-5)


for bp in (1, 0):
    for dp in (1, 0):
        dual_case('he_dual_2_%d%d' % (bp, dp), False, bp, dp, 1)
dual_case('he_dual_2_neg', False, 1, 1, -1)
dual_case('he_dual_3', True, 1, 1, 1)
dual_case('he_dual_3_neg', True, 1, 1, -1)


# ------------------------------------------------------------------ relative poses and conversions
def rel(a, b, fwd): return pm(pinv(b), a) if fwd else pm(b, pinv(a))


for nm, fwd in (('he_rel_fwd', True), ('he_rel_bwd', False)):
    @unit(nm, CPP, cost=2)
    def _(u, fwd=fwd):
        p = [upose(u, c) for c in 'abc']; u.inputs([pin(x) for x in p])
        o = u.outs(24)
        u.holds('one motion per pair', B(u.iouts(1)[0] == 3))
        u.eqv('relative poses of all pairs in order', o, [v for i, k in ((0, 1), (0, 2), (1, 2)) for v in dualq(rel(p[k], p[i], fwd))])


@unit('he_rel_more', CPP, cost=4)
def _(u):
    p = [upose(u, c) for c in 'abcd']; u.inputs([pin(x) for x in p])
    o = u.outs(72)
    u.holds('motions are appended', B(u.iouts(1)[0] == 9))
    pr = [(i, k, True) for i in range(3) for k in range(i + 1, 3)] + [(i, k, False) for i in range(4) for k in range(i + 1, 4)]
    u.eqv('relative poses of all pairs in order', o, [v for i, k, f in pr for v in dualq(rel(p[k], p[i], f))])


@unit('he_relp', CPP)
def _(u):
    a, b = upose(u, 'a'), upose(u, 'b'); u.inputs(pin(a), pin(b))
    u.eqv('relative poses', u.outs(16), dualq(rel(a, b, True)) + dualq(rel(a, b, False)))


@unit('he_cast_8', CPP)
def _(u):
    p = upose(u, 'p'); u.inputs(pin(p)); u.eqv('dual quaternion', u.outs(8), dualq(p))


@unit('he_cast_8p', CPP)
def _(u):
    p = upose(u, 'p'); u.inputs(dualq(p)); u.eqv('pose', u.outs(7), pin(p))


@unit('he_cast_round', CPP)
def _(u):
    p = upose(u, 'p'); u.inputs(pin(p)); u.eqv('pose', u.outs(7), pin(p))


def general_rot(u, q):
    """neither the identity nor more than a half turn (identity and half turns: P02 and the native runs of he_pick)"""
    u.ctx.pos = frozenset(set(u.ctx.pos) | {q[3].val})
    u.clear_of_zero(q[3], 0.01); u.requires(gt(norm2(q[:3]), T(0.0001)))


def rotv_of(u, o, q):
    n = norm(q[:3])
    u.eqv('angle times axis', o, [2 * fn('atan2', n, q[3]) * v / n for v in q[:3]])


@unit('he_cast_6', CPP)
def _(u):
    p = upose(u, 'p'); general_rot(u, p[1]); u.inputs(pin(p)); o = u.outs(6)
    rotv_of(u, o[:3], p[1]); u.eqv('translation', o[3:], p[0])


@unit('he_cast_86', CPP)
def _(u):
    p = upose(u, 'p'); general_rot(u, p[1]); u.inputs(dualq(p)); o = u.outs(6)
    rotv_of(u, o[:3], p[1]); u.eqv('translation', o[3:], p[0])


@unit('he_cast_6p', CPP)
def _(u):
    r = u.vec('r', 3, near=(-2, 2)); t = u.vec('t', 3); u.inputs(r, t); o = u.outs(7)
    n = norm(r)
    w = [gt(norm2(r), T(1e-6))]
    u.eqv('rotation about the vector by its length', o[3:], [x / n * sin(n / 2) for x in r] + [cos(n / 2)], when=w)
    u.eqv('translation', o[:3], t)


@unit('he_cast_7', CPP)
def _(u):
    p = upose(u, 'p'); general_rot(u, p[1]); u.inputs(pin(p)); o = u.outs(7)
    n = norm(p[1][:3])
    u.eqv('axis', o[:3], [v / n for v in p[1][:3]]); u.eq('angle', o[3], 2 * fn('atan2', n, p[1][3])); u.eqv('translation', o[4:], p[0])


@unit('he_hemi', CPP)
def _(u):
    x = u.vec('x', 6, near=(-3, 3)); u.inputs(x); o = u.outs(6)
    n = norm(x[:3])
    big = gt(n, PI)
    u.requires(lt(n, 2 * PI))
    u.eqv('the same rotation the shorter way round', o[:3], vscale(1 - 2 * PI / n, x[:3]), when=[big])
    u.eqv('short rotations stay', o[:3], x[:3], when=[big.neg()])
    u.eqv('translation stays', o[3:], x[3:])


@unit('he_dist', CPP)
def _(u):
    a = u.vec('a', 6); b = u.vec('b', 6); u.inputs(a, b)
    u.eq('distance of the rotation vectors', u.outs(1)[0], norm(vsub(a[:3], b[:3])))


# ------------------------------------------------------------------ recursive filters
def qsgn(q): return ge(q[3], ZERO)


@unit('he_on_init', CPP)
def _(u):
    u.inputs(); o = u.outs(16)
    u.eqv('no rotation, hardly any information', o, [ZERO] * 3 + flat(mscale(T(1000000), eye(3))) + [ZERO, ZERO, ZERO, ONE])


@unit('he_on_result', CPP)
def _(u):
    y = u.vec('y', 3); u.inputs(y, [ZERO] * 9); o = u.outs(4)
    n = sqrt(1 + norm2(y))
    u.eqv('rotation with the estimated vector part over scalar part', o, [v / n for v in y] + [1 / n])


@unit('he_on_add', CPP, cost=8)
def _(u):
    y = u.vec('y', 3, near=(-2, 2)); c = spd_in(u, 'c', 3); q = u.quat('q', special=False); r = u.quat('r', special=False)
    u.inputs(y, c, q, r)
    u.requires(gt(q[3], ZERO)); u.requires(gt(r[3], ZERO))
    H = skew(vadd(q[:3], r[:3]))
    u.domain_optional = True
    kalman_spec(u, u.outs(12), y, c, H, vsub(r[:3], q[:3]), [ZERO] * 3 if False else mv(H, y), eye(3))


@unit('he_kf_init', CPP)
def _(u):
    u.inputs(); u.eqv('no rotation, hardly any information', u.outs(20), [ZERO] * 3 + [ONE] + flat(mscale(T(100), eye(4))))


def left(q):
    x, y, z, w = q
    return [[w, -z, y, x], [z, w, -x, y], [-y, x, w, z], [-x, -y, -z, w]]


def right(q):
    x, y, z, w = q
    return [[w, z, -y, x], [-z, w, x, y], [y, -x, w, z], [-x, -y, -z, w]]


@unit('he_kf_meas', CPP)
def _(u):
    a = u.vec('a', 4); b = u.vec('b', 4); x = u.vec('x', 4); u.inputs(a, b, x); o = u.outs(20)
    u.eqv('a x - x b', o[:4], vsub(qmul(a, x), qmul(x, b)))
    u.eqv('its derivative', o[4:], flat(msub(left(a), right(b))))
    u.holds('size', B(u.iouts(1)[0] == 4))


@unit('he_kf_comb', CPP)
def _(u):
    x = u.vec('x', 4); u.inputs(x); o = u.outs(32)
    u.eqv('derivative of a x - x b by a', o[:16], flat(right(x)))
    u.eqv('derivative of a x - x b by b', o[16:], flat(mscale(-1, left(x))))
    u.holds('size', B(u.iouts(1)[0] == 4))


def rec_gen(n, kf):
    def gen(rng):
        X = rq(rng)
        if rng.random() < 0.1:
            X = [0.0, 0.0, 0.0, 1.0]
        elif rng.random() < 0.15:
            while abs(X[3]) < 0.1:
                X = rq(rng)
        ex = rng.random() < 0.5
        ms = []
        for _ in range(n):
            while True:
                a = rq(rng)
                if abs(a[3]) > 0.05:
                    break
            b = nmul(nconj(X), nmul(a, X))
            if not ex:
                b = [v + rng.gauss(0, 0.02) for v in b]
                m = math.sqrt(sum(v * v for v in b)); b = [v / m for v in b]
            if abs(b[3]) < 0.02:
                b = a[:]
            ms.append((a, [-v for v in b] if rng.random() < 0.4 else b))
        return [v for a, b in ms for v in a + b], (X, ex, ms)
    return gen


@unit('he_on_hist', CPP, sampled='histories of 8 measurements')
def _(u):
    sampled_inputs(u, 64, rec_gen(8, False)); u.outs(32); u.nsamp = 80

    def f(inp, t, out, io):
        import numpy as np
        x = np.zeros(3); P = np.eye(3) * 1e6
        for i, (a, b) in enumerate(t[2]):
            a = np.array(a) * (-1 if a[3] < 0 else 1); b = np.array(b) * (-1 if b[3] < 0 else 1)
            v = a + b
            H = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
            K = P @ H.T @ np.linalg.inv(H @ P @ H.T + np.eye(3))
            x = x + K @ (b[:3] - a[:3] - H @ x); P = P - K @ H @ P
            q = list(np.append(x, 1) / math.sqrt(1 + x @ x))
            if far(q, out[4 * i:4 * i + 4]) > 1e-4:
                return 'after measurement %d: %r, expected %r' % (i, out[4 * i:4 * i + 4], q)
        return None
    oracle(u, 'recursive least squares', f)


@unit('he_kf_hist', CPP, sampled='histories of 8 measurements')
def _(u):
    sampled_inputs(u, 64, rec_gen(8, True)); u.outs(160); u.nsamp = 80

    def f(inp, t, out, io):
        import numpy as np
        x = np.array([0., 0, 0, 1]); P = np.eye(4) * 100
        for i, (a, b) in enumerate(t[2]):
            if a[3] * b[3] < 0:
                b = [-v for v in b]
            H = np.array(left_n(a)) - np.array(right_n(b))
            K = P @ H.T @ np.linalg.inv(H @ P @ H.T + np.eye(4) * 0.01)
            x = x - K @ H @ x; P = P - K @ H @ P
            n = np.linalg.norm(x)
            if n < 0.05:
                return None         # hardly any of the estimate is left: normalising it amplifies rounding
            J = (np.eye(4) - np.outer(x, x) / n ** 2) / n
            x = x / n; P = J @ P @ J.T + np.eye(4) * 1e-12
            w = max(far(x, out[20 * i:20 * i + 4]), far(P.flatten(), out[20 * i + 4:20 * i + 20]))
            if not w < 1e-4 * (1 + abs(P).max()):
                return 'after measurement %d: %r, expected %r' % (i, out[20 * i:20 * i + 4], list(x))
        if t[1] and qfar(out[140:144], t[0]) > 0.02:
            return 'after all exact measurements %r, true rotation %r' % (out[140:144], t[0])
        return None
    oracle(u, 'Kalman filter with a x = x b', f)


def left_n(q):
    x, y, z, w = q
    return [[w, -z, y, x], [z, w, -x, y], [-y, x, w, z], [-x, -y, -z, w]]


right_n = right


# ------------------------------------------------------------------ selection
def nd(p):
    t, q = p
    d = nmul(list(t) + [0.0], q)
    return [q[3], q[0], q[1], q[2], d[3] / 2, d[0] / 2, d[1] / 2, d[2] / 2]


def nlog(q):
    """rotation vector, at most half a turn"""
    if q[3] < 0:
        q = [-v for v in q]
    n = math.sqrt(sum(v * v for v in q[:3]))
    return [0.0] * 3 if n < 1e-9 else [2 * math.atan2(n, q[3]) * v / n for v in q[:3]]


@unit('he_pick', CPP, sampled='twelve motions, up to four clusters')
def _(u):
    def gen(rng):
        ms = [(rv(rng, 2), rq(rng)) for _ in range(12)]
        return [v for m in ms for v in nd(m)], ms
    sampled_inputs(u, 96, gen); u.iinputs(u.int('m', lo=1, hi=4)); u.outs(128); u.iouts(8); u.nsamp = 120

    def f(inp, t, out, io):
        m = io[1]
        if io[0] != 12 or not 1 <= m <= 4 or io[2] != m or io[3] != m:
            return 'sizes %r' % (io[:4],)
        P = chunks(out[:72], 6); C = chunks(out[72:72 + 6 * m], 6)
        for p, (tr, q) in zip(P, t):
            if far(p[:3], nlog(q)) > 1e-6 or far(p[3:], tr) > 1e-9:
                return 'comparison pose %r of %r' % (p, (tr, q))
        d = lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a[:3], b[:3])))
        for k in range(m):
            mem = []
            for i, p in enumerate(P):
                ds = [d(p, c) for c in C]
                if min(ds[:k] + ds[k + 1:] + [9e9]) - ds[k] > 1e-9:
                    mem.append((ds[k], i))
            if mem and not d(P[io[4 + k]], C[k]) <= min(mem)[0] + 1e-9:
                return 'cluster %d is represented by motion %d, motion %d is nearer to its centre' % (k, io[4 + k], min(mem)[1])
            s = out[96 + 8 * k:104 + 8 * k]
            if far(s, nd(t[io[4 + k]])) > 1e-12:
                return 'selected motion %r is not number %d' % (s, io[4 + k])
        return None
    oracle(u, 'each cluster is represented by its nearest member', f)


@unit('he_select', CPP, sampled='six pose pairs')
def _(u):
    g = he_gen(6)
    sampled_inputs(u, 84, g); u.iinputs(u.int('m', lo=1, hi=5)); u.outs(70); u.iouts(2); u.nsamp = 80

    def f(inp, t, out, io):
        n = io[0]
        if io[1] != n or not 1 <= n <= 5:
            return 'sizes %r' % (io[:2],)
        p = [(c[:3], c[3:]) for c in chunks(inp[:84], 7)]
        pr = [(npm(npinv(p[k]), p[i]), npm(p[6 + k], npinv(p[6 + i]))) for i in range(6) for k in range(6) if k != i]
        for c in chunks(out[:14 * n], 14):
            if not any(far(c[:3], a[0]) < 1e-6 and qfar(c[3:7], a[1]) < 1e-6 and far(c[7:10], b[0]) < 1e-6 and qfar(c[10:14], b[1]) < 1e-6 for a, b in pr):
                return 'selected motions %r are not a pair of the input' % (c,)
        return None
    oracle(u, 'selected motions belong together', f)


@unit('he_hec', CPP, sampled='generated exact data, repeated until a selection is well conditioned')
def _(u):
    g = he_gen(7)

    def gen(rng):
        v, X = g(rng)
        return v[49:] + v[:49], X
    sampled_inputs(u, 98, gen); u.iinputs(u.int('n', lo=7, hi=7), u.int('two', lo=0, hi=1)); u.outs(8); u.iouts(5); u.nsamp = 60

    def f(inp, t, out, io):
        if io[1] != 21 or io[2] != 21 or io[3] != io[4] or io[3] < 2:
            return 'sizes of the lists of relative poses %r' % (io[1:5],)
        if not io[0]:
            return 'no selection of motions is accepted in 60 tries'
        i = npinv(t)
        return None if close(out, i, 1e-4) and out[7] < 1e-3 else 'result %r, expected %r' % (out[:8], i)
    oracle(u, 'inverse of the true transformation', f)


@unit('he_hec_few', CPP, bounded='up to five poses')
def _(u):
    u.inputs(u.vec('x', 84, near=(-1, 1)))
    a = u.int('n', lo=0, hi=5); b = u.int('m', lo=0, hi=5)
    u.iinputs(a, b)
    u.requires(B(z3.Or(a != b, z3.ULT(a, 3))))
    u.holds('failure is reported', B(u.iouts(1)[0] == 0))


@unit('he_quat', 'handeye_q.cpp', cost=5, optional=True)
def _(u):
    q = u.quat('q', special=False)
    u.ctx.pos = frozenset(set(u.ctx.pos) | {'qw'})
    u.clear_of_zero(q[3], 0.02)
    u.inputs(rotmat(q)); u.mindiv = T(0.0001)
    u.eqv('vector part of the quaternion with positive scalar part', u.outs(3), q[:3], tol=1e-6)
