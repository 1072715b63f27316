"""Discharging obligations: exact polynomial normal form, then SMT (z3, cvc5); refutation by high-precision evaluation."""
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction

import mpmath
import z3

import term as tm
from term import Term, ZERO, ONE, const, W, MASK

INTVARS = {}
STATS = {'poly': 0, 'z3': 0, 'cvc5': 0, 'z3_s': 0.0, 'cvc5_s': 0.0, 'poly_s': 0.0, 'bv': 0}


class ToZ3:
    """terms -> z3 reals; side conditions collected in `side`"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.n = 0
        self.keep = []
        self.trigs = {}

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s?%d' % (p, self.n))

    def term(self, t):
        memo = self.memo
        st = [t]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            pend = [a for a in n.args if a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            memo[n.id] = self.one(n, [memo[a.id] for a in n.args])
        return memo[t.id]

    def one(self, n, a):
        op = n.op
        if op == 'c':
            v = Fraction(n.val)
            return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        if op == 'v':
            if n.val in INTVARS:
                b, sg = INTVARS[n.val]
                self.ints = True
                return z3.ToReal(z3.BV2Int(b, sg))
            x = z3.Real(n.val)
            if n.val == '$pi':
                self.side += [x > z3.RealVal('3.14159265358979'), x < z3.RealVal('3.14159265358980')]
            return x
        if op == '+':
            return a[0] + a[1]
        if op == '~':
            return -a[0]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            i = self.fresh('inv')
            self.side.append(i * a[1] == 1)
            return a[0] * i
        if op == 'sqrt':
            s = self.fresh('sqrt')
            self.side += [s >= 0, s * s == a[0]]
            return s
        if op == 'abs':
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op in ('sin', 'cos'):
            k = n.args[0].id
            if k not in self.trigs:
                s, c = self.fresh('sin'), self.fresh('cos')
                self.trigs[k] = (s, c)
                self.side += [s * s + c * c == 1]
            return self.trigs[k][0 if op == 'sin' else 1]
        x = self.fresh(op)
        pi = z3.RealVal('3.14159265358980')
        if op == 'acos':
            self.side += [x >= 0, x <= pi]
        elif op in ('asin', 'atan', 'atanp'):
            self.side += [x >= -pi / 2, x <= pi / 2]
        elif op == 'atan2':
            self.side += [x >= -pi, x <= pi]
        elif op == 'exp':
            self.side += [x > 0]
        elif op == 'floor':
            k = z3.Int('floor_i?%d' % self.n)
            self.side += [x == z3.ToReal(k), x <= a[0], a[0] < x + 1]
        return x

    def cond(self, c):
        k = c.k
        if k == 'bv':
            return c.a
        if k == 'and':
            return z3.And(*[self.cond(x) for x in c.a])
        if k == 'or':
            return z3.Or(*[self.cond(x) for x in c.a])
        t = self.term(c.a)
        return {'lt': t < 0, 'le': t <= 0, 'eq': t == 0, 'ne': t != 0}[k]


def bv_at(b, env):
    """value of a z3 expression at env (simplified; not a literal if it has other variables)"""
    vs = {}
    st = [b]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            vs[x.decl().name()] = x
        st.extend(x.children())
    sub = [(x, z3.BitVecVal(env[n], x.size())) for n, x in vs.items() if n in env and z3.is_bv(x)]
    return z3.simplify(z3.substitute(b, *sub)) if sub else z3.simplify(b)


def _inthook(name, env):
    b, sg = INTVARS[name]
    r = bv_at(b, env)
    if not z3.is_bv_value(r):
        return float('nan')
    return r.as_signed_long() if sg else r.as_long()


tm.INTHOOK[0] = _inthook


def has_bv(c):
    if c.k == 'bv':
        return True
    if c.k in ('and', 'or'):
        return any(has_bv(x) for x in c.a)
    return False


def _relevant(conds, goalconds):
    """keep only the hypotheses that share variables (transitively) with the goal"""
    def vars_of(c):
        if c.k == 'bv':
            out = set()
            st = [c.a]
            seen = set()
            while st:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(str(e))
                st.extend(e.children())
            return out
        if c.k in ('and', 'or'):
            return set().union(*[vars_of(x) for x in c.a]) if c.a else set()
        return set(tm.free_vars([c.a]))
    vs = [(c, vars_of(c)) for c in conds]
    cur = set().union(*[vars_of(g) for g in goalconds]) if goalconds else set()
    keep = []
    changed = True
    left = vs
    while changed:
        changed = False
        nl = []
        for c, v in left:
            if not v or v & cur:
                keep.append(c)
                cur |= v
                changed = True
            else:
                nl.append((c, v))
        left = nl
    return keep


def check_sat(conds, timeout_ms, want_model=False, goal=None):
    """'sat' / 'unsat' / 'unknown' for a conjunction of Conds"""
    t0 = time.time()
    if goal is not None:
        conds = _relevant(conds, [goal]) + [goal]
    z = ToZ3()
    fs = [z.cond(c) for c in conds]
    purebv = all(c.k == 'bv' for c in conds)
    s = z3.Solver() if purebv or getattr(z, 'ints', False) or any(has_bv(c) for c in conds) else z3.SolverFor('QF_NRA')
    s.set('timeout', timeout_ms)
    for f in fs:
        s.add(f)
    for f in z.side:
        s.add(f)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS['z3_s'] += time.time() - t0
    if want_model:
        m = None
        if r == 'sat':
            m = {}
            try:
                for d in s.model().decls():
                    v = s.model()[d]
                    m[d.name()] = v
            except z3.Z3Exception:
                m = None
        return r, m
    return r


def z3num(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_int_value(v):
        return v.as_long()
    return None


def cvc5_unsat(conds, timeout_s):
    t0 = time.time()
    z = ToZ3()
    s = z3.Solver()
    for f in [z.cond(c) for c in conds]:
        s.add(f)
    for f in z.side:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--nl-cov', '--tlimit=%d' % int(timeout_s * 1000)], input=txt.encode(),
                           capture_output=True, timeout=timeout_s + 5)
        out = r.stdout.decode().split()
    except Exception:
        out = []
    STATS['cvc5_s'] += time.time() - t0
    return bool(out) and out[0] == 'unsat'


def cond_eval(c, ev, eps=0):
    """numeric truth of a Cond (None if not evaluable)"""
    k = c.k
    if k == 'bv':
        if not isinstance(ev, tm.NumEval):
            return None
        r = bv_at(c.a, ev.env)
        return True if z3.is_true(r) else False if z3.is_false(r) else None
    if k == 'and':
        r = [cond_eval(x, ev, eps) for x in c.a]
        if any(x is False for x in r):
            return False
        return None if any(x is None for x in r) else True
    if k == 'or':
        r = [cond_eval(x, ev, eps) for x in c.a]
        if any(x is True for x in r):
            return True
        return None if any(x is None for x in r) else False
    v = ev(c.a)
    if v != v:
        return None
    if k == 'lt':
        return bool(v < -eps) if eps >= 0 else bool(v < -eps)
    if k == 'le':
        return bool(v <= eps)
    if k == 'eq':
        return bool(abs(v) <= eps)
    return bool(abs(v) > eps)


MP = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
MP.dps = 40


# ---------------------------------------------------------------- linear abstraction over monomials
def lin_unsat(ctx, conds, timeout_ms=2000):
    """True if the conjunction is contradictory when every monomial is treated as an independent real
    (sound: an over-approximation of the real models)"""
    vs = {}
    side = []

    def mv(m):
        x = vs.get(m)
        if x is None:
            x = z3.Real('m%d' % len(vs))
            vs[m] = x
            ok = True
            pos = True
            for i, e in ctx.mono_vars(m):
                if e % 2 and not ctx.nonneg_atom(i):
                    ok = False
                k = ctx.kinds[i]
                if not (k[0] == 'v' and k[1].val in ctx.pos):
                    pos = False
            if ok:
                side.append(x > 0 if pos else x >= 0)
            mvs = ctx.mono_vars(m)
            if len(mvs) == 1 and mvs[0][1] == 1:
                k = ctx.kinds[mvs[0][0]]
                if k[0] in ('sin', 'cos'):
                    side.extend([x <= 1, x >= -1])
                elif k[0] == 'v' and k[1].val == '$pi':
                    side.extend([x > z3.RealVal('3.14159265358979'), x < z3.RealVal('3.14159265358980')])
        return x

    def lin(t):
        p = ctx.poly(t)
        if len(p) > 400:
            raise tm.TooBig()
        e = []
        for m, c in p.items():
            f = Fraction(c)
            k = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
            e.append(k if m == 0 else k * mv(m))
        return z3.Sum(e) if e else z3.RealVal(0)

    def tr(c):
        if c.k == 'bv':
            return c.a
        if c.k == 'and':
            return z3.And(*[tr(x) for x in c.a])
        if c.k == 'or':
            return z3.Or(*[tr(x) for x in c.a])
        try:
            t = lin(c.a)
        except (tm.TooBig, ZeroDivisionError, OverflowError):
            return z3.BoolVal(True)
        return {'lt': t < 0, 'le': t <= 0, 'eq': t == 0, 'ne': t != 0}[c.k]
    def derived(c):
        # k0 + k1*sqrt(p) compared with 0 gives a bound on p itself
        if c.k not in ('lt', 'le', 'eq'):
            return
        try:
            p = ctx.poly(c.a)
        except Exception:
            return
        if not 1 <= len(p) <= 2:
            return
        at = [m for m in p if m]
        if len(at) != 1:
            return
        mv_ = ctx.mono_vars(at[0])
        if len(mv_) != 1 or mv_[0][1] != 1 or ctx.kinds[mv_[0][0]][0] != 'sqrt':
            return
        inner = ctx.term_of(ctx.kinds[mv_[0][0]][1])
        k1, k0 = Fraction(p[at[0]]), Fraction(p.get(0, 0))
        b = -k0 / k1          # sqrt <= b (k1>0) or sqrt >= b (k1<0)
        if c.k == 'eq' or k1 > 0:
            if b >= 0:
                s.add(lin(inner) <= z3.RealVal(str(b * b)))
        if (c.k == 'eq' or k1 < 0) and b >= 0:
            s.add(lin(inner) >= z3.RealVal(str(b * b)))
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for c in conds:
        s.add(tr(c))
        derived(c)
    for f in side:
        s.add(f)
    t0 = time.time()
    try:
        return s.check() == z3.unsat
    finally:
        STATS['z3_s'] += time.time() - t0


# ---------------------------------------------------------------- nonlinear check over the atoms of the normal form
def poly_unsat(ctx, conds, goal, timeout_ms):
    """True if conds + goal are contradictory, translated through the normal form (relations already applied, so hypotheses
    that only restate them disappear); using a subset of the constraints is sound for unsatisfiability"""
    def atoms_of(p):
        s = set()
        for m in p:
            for i, e in ctx.mono_vars(m):
                s.add(i)
        return s

    def polys(c):
        if c.k in ('and', 'or'):
            return [q for x in c.a for q in polys(x)]
        if c.k == 'bv':
            raise tm.TooBig()
        return [ctx.poly(c.a)]
    try:
        items = [(c, polys(c)) for c in conds if c.k != 'bv']
        gp = polys(goal)
        items = [(c, ps) for c, ps in items if any(len(p) > (1 if 0 in p else 0) for p in ps)]
        if any(len(p) > 300 for p in gp):
            return False
    except (tm.TooBig, ZeroDivisionError, OverflowError):
        return False

    def deep(i, seen):
        if i in seen:
            return
        seen.add(i)
        k = ctx.kinds[i]
        if k[0] in ('inv', 'sqrt', 'abs'):
            for j in atoms_of(k[1]):
                deep(j, seen)
        elif k[0] in ('sin', 'cos'):
            pass
    used = set()
    for p in gp:
        for i in atoms_of(p):
            deep(i, used)
    keep = []
    left = [(c, ps, set().union(*[atoms_of(p) for p in ps])) for c, ps in items]
    # only hypotheses over the atoms of the goal (not the transitive closure: keeps the query small), then one more layer
    for rnd in range(2):
        nl = []
        for c, ps, at in left:
            d = set()
            for i in at:
                deep(i, d)
            base = {i for i in d if ctx.kinds[i][0] == 'v'}
            if base and base <= used or (rnd == 1 and d & used and len(used | d) <= 12):
                keep.append(c)
                used |= d
            else:
                nl.append((c, ps, at))
        left = nl
    zv = {}
    side = []

    def av(i):
        x = zv.get(i)
        if x is not None:
            return x
        k = ctx.kinds[i]
        x = z3.Real('a%d' % i)
        zv[i] = x
        pi = z3.RealVal('3.14159265358980')
        if k[0] == 'inv':
            side.append(x * zp(k[1]) == 1)
        elif k[0] == 'sqrt':
            side.extend([x >= 0, x * x == zp(k[1])])
        elif k[0] == 'abs':
            b = zp(k[1])
            side.append(z3.Or(z3.And(b >= 0, x == b), z3.And(b < 0, x == -b)))
        elif k[0] in ('sin', 'cos'):
            other = ctx.index.get(('cos' if k[0] == 'sin' else 'sin', ctx.keyof(k[1])))
            side.extend([x <= 1, x >= -1])
            if other is not None and other in zv:
                side.append(x * x + zv[other] * zv[other] == 1)
            elif other is not None:
                side.append(x * x + av(other) * av(other) == 1)
        elif k[0] == 'acos':
            side.extend([x >= 0, x <= pi])
        elif k[0] in ('asin', 'atan', 'atanp'):
            side.extend([x >= -pi / 2, x <= pi / 2])
        elif k[0] == 'atan2':
            side.extend([x >= -pi, x <= pi])
        elif k[0] == 'exp':
            side.append(x > 0)
        elif k[0] == 'v' and k[1].val == '$pi':
            side.extend([x > z3.RealVal('3.14159265358979'), x < pi])
        elif k[0] == 'v' and k[1].val in ctx.pos:
            side.append(x > 0)
        return x

    def zp(p):
        e = []
        for m, c in p.items():
            f = Fraction(c)
            t = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
            for i, k in ctx.mono_vars(m):
                for _ in range(k):
                    t = t * av(i)
            e.append(t)
        return z3.Sum(e) if e else z3.RealVal(0)

    def tr(c):
        if c.k == 'and':
            return z3.And(*[tr(x) for x in c.a])
        if c.k == 'or':
            return z3.Or(*[tr(x) for x in c.a])
        t = zp(ctx.poly(c.a))
        return {'lt': t < 0, 'le': t <= 0, 'eq': t == 0, 'ne': t != 0}[c.k]
    t0 = time.time()
    try:
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout_ms)
        s.add(tr(goal))
        for c in keep:
            s.add(tr(c))
        # relations between plain variables that are all in use
        for rs in ctx.rules.values():
            for lm, lead, repl in rs:
                ids = {i for i, e in lead} | atoms_of(repl)
                if all(ctx.kinds[i][0] == 'v' for i in ids) and {i for i, e in lead} <= used and len(ids | used) <= 14:
                    l = z3.RealVal(1)
                    for i, e in lead:
                        for _ in range(e):
                            l = l * av(i)
                    s.add(l == zp(repl))
        for f in side:
            s.add(f)
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False
    finally:
        STATS['z3_s'] += time.time() - t0
