"""Verification units: contract of one real function (through a thin entry point), its obligations, and their discharge."""
import hashlib
import math
import os
import random
import re
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

import term as tm
import prove
import externs
import lapack
from prove import MP
from term import Term, ZERO, ONE, const, Ctx
from ir import UNDEF, Ptr, NULL, DOUBLE, PTR, Module
from symex import (ident, Exec, Cond, Unsupported, Infeasible, PathEnd, CppThrow, UndefUse, MemError, Facts,
                   lt, le, gt, ge, eq, ne, And, Or, cond_const)

UNITS = {}
CONTRACTS = {}


def unit(name, cpp, entry=None, **kw):
    def d(f):
        UNITS[name] = dict(name=name, cpp=cpp, entry=entry or 'vc_' + name, spec=f, **kw)
        return f
    return d


class InRepo:
    def __init__(self, name, rx, fn, proved_by):
        self.name, self.rx, self.fn, self.proved_by = name, re.compile(rx), fn, proved_by


def contract(name, rx, proved_by):
    """contract of an in-repo function used at call sites; proved_by: units that discharge it against the body"""
    def d(f):
        CONTRACTS[name] = InRepo(name, rx, f, proved_by)
        return f
    return d


class Ob:
    __slots__ = ('kind', 'name', 'a', 'b', 'when', 'tol')

    def __init__(self, kind, name, a, b=None, when=(), tol=None):
        self.kind, self.name, self.a, self.b, self.when, self.tol = kind, name, a, b, list(when), tol


class Unit:
    """specification side (built by the contract function)"""
    fork_abs = False
    float_ok = False
    max_paths = 256
    z3_ms = 3000
    mindiv = None

    def __init__(self, rec, tier='quick', seed=1):
        self.rec = rec
        self.name = rec['name']
        self.tier = tier
        self.seed = seed
        self.ctx = Ctx()
        self.pre = []
        self.pre_native = []
        self.ins = []
        self.iins = []
        self.obs = []
        self.budget = 6000000
        self.called = {}
        self.vars = []          # (name, sampler)
        self.groups = []        # samplers writing several variables
        self.hints = []
        self.lemmas = []
        self.defs = []
        self.cuts = []
        self._cutmap = {}
        self._guards = {}
        self._cutseen = set()
        self.pos = set()
        self.used_contracts = {}
        self.throw_if = None    # Cond: throws exactly then
        self.throw_may = False
        self.notes = []
        self.tol = 1e-7
        self.trusted = {}
        self.intvars = {}
        self.use_contracts = True
        self.handlers = {}
        self.stubs = {}
        self.nsamp = 400
        self.oracles = []      # (name, f(env, inputs, out, iout) -> None or what is broken), sampled stand-ins only
        self.domain_optional = False
        self.ghosts = set()    # results of stubbed calls: no value in native runs
        self.npts = 24
        self._hc = {}
        rec['spec'](self)

    # ------------------------------------------------------------ declarations
    def real(self, name, lo=None, hi=None, sampler=None, positive=False, near=None):
        # near = (lo, hi): range to sample from only; lo/hi are preconditions
        if near:
            sampler = sampler or (lambda rng: rng.uniform(*near))
        v = tm.var(name)
        if positive:
            self.ctx.pos = frozenset(set(self.ctx.pos) | {name})
            self.pre.append(lt(ZERO, v))
        if lo is not None:
            self.pre.append(le(T(lo), v))
        if hi is not None:
            self.pre.append(le(v, T(hi)))

        def samp(rng):
            if sampler:
                return sampler(rng)
            if lo is not None and hi is not None:
                return rng.uniform(float(lo), float(hi))
            k = rng.random()
            if k < 0.75:
                x = rng.gauss(0, 1.5)
            elif k < 0.9:
                x = rng.choice([-2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 3.0])
            else:
                x = rng.gauss(0, 40)
            if positive:
                x = abs(x) + 1e-3
            if lo is not None:
                x = float(lo) + abs(x)
            if hi is not None:
                x = float(hi) - abs(x)
            return x
        self.vars.append((name, samp))
        self.ctx.poly(v)
        return v

    def ghost(self, name, **kw):
        """what a called function, represented by its contract, returns"""
        self.ghosts.add(name)
        return self.real(name, **kw)

    def vec(self, name, n, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def mat(self, name, r, c, **kw):
        return [[self.real('%s%d%d' % (name, i, j), **kw) for j in range(c)] for i in range(r)]

    def sym(self, name, n, **kw):
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                m[i][j] = m[j][i] = self.real('%s%d_%d' % (name, i, j), **kw)
        return m

    def quat(self, name, special=True):
        """unit quaternion (x,y,z,w)"""
        ns = [name + c for c in 'xyzw']
        vs = [tm.var(n) for n in ns]
        for v in vs:
            self.ctx.poly(v)
        x, y, z, w = vs
        self.ctx.add_relation(w * w, ONE - x * x - y * y - z * z)
        self.pre.append(eq(x * x + y * y + z * z + w * w, ONE))

        def samp(rng):
            k = rng.random()
            if special and k < 0.12:
                q = [0.0] * 4
                q[rng.randrange(4)] = rng.choice([1.0, -1.0])
            elif special and k < 0.2:
                s = math.sqrt(0.5)
                q = [0.0] * 4
                i, j = rng.sample(range(4), 2)
                q[i], q[j] = rng.choice([s, -s]), rng.choice([s, -s])
            elif special and k < 0.26:
                e = 10 ** rng.uniform(-9, -2)
                q = [rng.gauss(0, e) for _ in range(3)] + [rng.choice([1.0, -1.0])]
            elif special and k < 0.42:
                # (nearly) half turns about any axis
                q = [rng.gauss(0, 1) for _ in range(3)] + [rng.choice([0.0, rng.gauss(0, 1e-4), rng.gauss(0, 1e-2)])]
            elif special and k < 0.5:
                q = [rng.gauss(0, 1) for _ in range(4)]
                q[rng.randrange(4)] *= 1e-3
            else:
                q = [rng.gauss(0, 1) for _ in range(4)]
            n = math.sqrt(sum(c * c for c in q))
            return {m: c / n for m, c in zip(ns, q)}
        self.groups.append((ns, samp))
        return vs

    def unitvec(self, name, n=3):
        ns = ['%s%d' % (name, i) for i in range(n)]
        vs = [tm.var(k) for k in ns]
        for v in vs:
            self.ctx.poly(v)
        s = ONE
        for v in vs[:-1]:
            s = s - v * v
        self.ctx.add_relation(vs[-1] * vs[-1], s)
        self.pre.append(eq(vs[-1] * vs[-1], s))

        def samp(rng):
            if rng.random() < 0.2:
                q = [0.0] * n
                q[rng.randrange(n)] = rng.choice([1.0, -1.0])
            else:
                q = [rng.gauss(0, 1) for _ in range(n)]
            m = math.sqrt(sum(c * c for c in q))
            return {k: c / m for k, c in zip(ns, q)}
        self.groups.append((ns, samp))
        return vs

    def int(self, name, bits=64, lo=None, hi=None, sampler=None, signed=True):
        v = z3.BitVec(name, bits)
        if lo is not None:
            self.pre.append(Cond('bv', v >= lo if signed else z3.UGE(v, lo)))
        if hi is not None:
            self.pre.append(Cond('bv', v <= hi if signed else z3.ULE(v, hi)))
        self.iins_s = getattr(self, 'iins_s', {})
        self.iins_s[name] = sampler or (lambda r: r.randint(lo if lo is not None else -2 ** 40, hi if hi is not None else 2 ** 40))
        return v

    def define(self, name, term, lead):
        """abbreviation: variable `name` equals `term`; `lead` is the monomial of `term` rewritten with it"""
        v = tm.var(name)
        self.ctx.poly(v)
        p = self.ctx.poly(term)
        lp = self.ctx.poly(lead)
        (m, _), = lp.items()
        c = p[m]
        rest = {k: -Fraction(x) / c for k, x in p.items() if k != m}
        rest = tm.padd(rest, {k: Fraction(1) / c for k in self.ctx.poly(v)})
        self.ctx.add_rule(self.ctx.mono_vars(m), rest)
        self.ctx.memo.clear()
        self.pre.append(eq(v, term))
        self.defs.append((name, term))
        return v

    def complete(self, env):
        for n, t in self.defs:
            env[n] = float(tm.NumEval(env, MP)(t))
        return env

    def requires(self, *conds):
        self.pre += conds

    def clear_of_zero(self, x, bound):
        """proved for every x > 0; native runs, which round, stay above the bound"""
        self.pre.append(lt(ZERO, T(x)))
        self.pre_native.append(lt(T(bound), T(x)))

    def group(self, names, samp):
        self.groups.append((names, samp))

    def inputs(self, *ts):
        for t in flat(ts):
            self.ins.append(T(t))

    def iinputs(self, *ts):
        for t in ts:
            self.iinputs(*t) if isinstance(t, (list, tuple)) else self.iins.append(t)

    def outs(self, n):
        self.out = [tm.var('out!%d' % i) for i in range(n)]
        return self.out

    def iouts(self, n, bits=64):
        self.iout = [z3.BitVec('iout!%d' % i, 64) for i in range(n)]
        return self.iout

    out = ()
    iout = ()

    def eq(self, name, a, b, when=(), tol=None):
        self.obs.append(Ob('eq', name, T(a), T(b), when, tol))

    def eqv(self, name, a, b, when=(), tol=None):
        a, b = flat(a), flat(b)
        assert len(a) == len(b), (name, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq('%s[%d]' % (name, i), x, y, when, tol)

    def holds(self, name, cond, when=(), tol=None):
        self.obs.append(Ob('cond', name, cond, None, when, tol))

    def cut(self, *terms):
        """intermediate values: subterms of the code proved equal to them are generalised to fresh variables"""
        for t in flat(terms):
            self.cuts.append((T(t), tm.var('cut!%d' % len(self.cuts))))

    def cutsub(self, t, hits):
        """replace the subterms of t that equal a cut (an equality proved by normal form) by the cut's variable"""
        if len(hits) < 2:
            return t
        evs = [ev for _, ev in hits[:2]]
        key = tuple(id(ev) for ev in evs)
        if getattr(self, '_cutkey', None) != key:
            self._cutkey = key
            self._cutseen = set()
            self._cutvals = [([ev(c) for ev in evs], c, v) for c, v in self.cuts]
        st = [t]
        order = []
        while st:
            n = st.pop()
            if n.id in self._cutseen:
                continue
            self._cutseen.add(n.id)
            order.append(n)
            st.extend(n.args)
        for n in order:
            if n.op in 'cv' or n.id in self._cutmap:
                continue
            try:
                x = [ev(n) for ev in evs]
            except Exception:
                continue
            for vals, c, v in self._cutvals:
                for sg in (1, -1):
                    if all(abs(a - sg * b) <= MP.mpf(10) ** -11 * (1 + abs(b)) for a, b in zip(x, vals)):
                        w = tm.neg(c) if sg < 0 else c
                        try:
                            ok = n is w or self.ctx.is_zero(self.ctx.poly(tm.sub(n, w)))
                        except (tm.TooBig, ZeroDivisionError, OverflowError):
                            ok = False
                        if ok:
                            self._cutmap[n.id] = v if sg > 0 else tm.neg(v)
                            break
                if n.id in self._cutmap:
                    break
        return tm.subst(t, self._cutmap)

    def lemma(self, name, cond, witness):
        """cond is (w >= 0) for a term w; witness: list of (coefficient>=0, term) with w == sum c*t*t, an obligation"""
        self.lemmas.append((name, cond, witness))
        self.pre.append(cond)

    def hint(self, f):
        """f(rng) -> partial env dict: directed sample points"""
        self.hints.append(f)

    # ------------------------------------------------------------ sampling
    def sample_env(self, rng, hint=None):
        env = {}
        own = set()
        for ns, s in self.groups:
            e = s(rng)
            own.update(e)
            env.update(e)
        for n, s in self.vars:
            if n not in env:
                env[n] = s(rng)
        if hint is not None:
            env.update(hint(rng))
        for n, s in getattr(self, 'iins_s', {}).items():
            if n not in own:
                env[n] = s(rng)
        return self.complete(env)

    def pre_ok(self, env, eps=1e-9, native=True):
        ev = tm.NumEval(env)
        for c in self.pre + (self.pre_native if native else []):
            r = prove.cond_eval(c, ev, eps)
            if r is False:
                return False
        return True

    def pool(self, n, rng):
        out = []
        tries = 0
        for h in self.hints:
            for _ in range(max(3, n // 4)):
                e = self.sample_env(rng, h)
                if self.pre_ok(e):
                    out.append(e)
        while len(out) < n + (n // 4) * len(self.hints) and tries < 60 * n:
            tries += 1
            e = self.sample_env(rng)
            if self.pre_ok(e):
                out.append(e)
        return out

    def env_inputs(self, env):
        ev = tm.NumEval(env, MP)
        return [float(ev(t)) for t in self.ins]

    def env_iinputs(self, env):
        out = []
        for v in self.iins:
            if isinstance(v, int):
                out.append(v)
            elif z3.is_bv_value(v):
                x = v.as_long()
                out.append(x - (1 << 64) if x >> 63 else x)
            elif z3.is_const(v) and v.decl().name() in env:
                x = env[v.decl().name()] & ((1 << 64) - 1)
                out.append(x - (1 << 64) if x >> 63 else x)
            else:
                sub = [(z3.BitVec(n, 64), z3.BitVecVal(env[n], 64)) for n in getattr(self, 'iins_s', {})]
                r = z3.simplify(z3.substitute(v, *sub))
                x = r.as_long()
                out.append(x - (1 << 64) if x >> 63 else x)
        return out

    # ------------------------------------------------------------ services for Exec
    def handler(self, name):
        h = self._hc.get(name, 0)
        if h != 0:
            return h
        h = self._find(name)
        self._hc[name] = h
        return h

    def _find(self, name):
        h = externs.lookup(name, None)
        if h is not None:
            if not name.startswith('@llvm.'):
                self.trusted[name] = self.trusted.get(name, 0)
            return h
        dem = self.demangle(name)
        for rx, f in self.stubs.items():
            if re.search(rx, dem):
                return f
        if self.use_contracts:
            for c in CONTRACTS.values():
                if self.name in c.proved_by or (self.use_contracts is not True and c.name not in self.use_contracts):
                    continue
                if c.rx.search(dem):
                    self.used_contracts[c.name] = dem

                    def hh(ex, a, rt, n, c=c, dem=dem):
                        return c.fn(ex, a, rt)
                    return hh
        f = externs.lookup_demangled(dem)
        if f is not None:
            self.trusted[dem[:80]] = 1
            return f
        return None

    def demangle(self, name):
        return self.mod.demangle(name)

    def feasible(self, facts, c):
        if c.k != 'bv' and prove.lin_unsat(self.ctx, facts.all() + [c]):
            return False
        if c.k != 'bv' and prove.poly_unsat(self.ctx, facts.all(), c, self.feas_ms):
            return False
        r = prove.check_sat(facts.all(), self.feas_ms, goal=c)
        return r != 'unsat'
    feas_ms = 700

    def int2real(self, v, signed):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return const(v.as_signed_long() if signed else v.as_long())
        nm = '$i%s:%d' % ('s' if signed else 'u', ident(v))
        self.intvars[nm] = (v, signed)
        prove.INTVARS[nm] = (v, signed)
        return tm.var(nm)

    def real2int(self, ex, v, w, signed):
        # truncation toward zero of a real: a fresh integer constrained by its defining inequality
        if v.op == 'v' and v.val.startswith('$i'):
            b, s = self.intvars[v.val]
            if b.size() == w:
                return b
            if b.size() < w:
                return z3.simplify(z3.SignExt(w - b.size(), b) if s else z3.ZeroExt(w - b.size(), b))
        ex.fresh += 1
        k = z3.BitVec('r2i!%d' % ex.fresh, w)
        t = self.int2real(k, signed)
        if ex.decide(le(ZERO, v)):
            ex.facts.add(le(t, v))
            ex.facts.add(lt(v, t + 1))
            ex.facts.add(le(ZERO, t))
        else:
            ex.facts.add(le(v, t))
            ex.facts.add(lt(t - 1, v))
        return k

    def poly_sign(self, c):
        try:
            p = self.ctx.poly(c.a)
        except (tm.TooBig, ZeroDivisionError, OverflowError):
            return None
        if not p:
            return {'lt': False, 'le': True, 'eq': True, 'ne': False}[c.k]
        if len(p) == 1 and 0 in p:
            v = p[0]
            return {'lt': v < 0, 'le': v <= 0, 'eq': False, 'ne': True}[c.k]
        s = self.ctx_sign(p)
        if s == '>':
            return {'lt': False, 'le': False, 'eq': False, 'ne': True}[c.k]
        if s == '<':
            return {'lt': True, 'le': True, 'eq': False, 'ne': True}[c.k]
        if s == '>=' and c.k == 'lt':
            return False
        if s == '<=' and c.k == 'le':
            return True
        return None

    def ctx_sign(self, p):
        ctx = self.ctx
        pos = all(v > 0 for v in p.values())
        neg = all(v < 0 for v in p.values())
        if not (pos or neg):
            return None
        for m in p:
            for i, e in ctx.mono_vars(m):
                if e % 2 and not ctx.nonneg_atom(i):
                    return None
        strict = 0 in p or any(all(self.pos_atom(i) for i, e in ctx.mono_vars(m)) for m in p)
        return ('>' if strict else '>=') if pos else ('<' if strict else '<=')

    def pos_atom(self, i):
        k = self.ctx.kinds[i]
        return k[0] == 'v' and k[1].val in self.ctx.pos


def flat(x):
    out = []
    for e in x:
        if isinstance(e, (list, tuple)):
            out += flat(e)
        else:
            out.append(e)
    return out


T = tm.T


# ==================================================================== running a unit
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.failed = []        # dicts: name, reason, env
        self.undecided = []
        self.assumed = []
        self.error = None
        self.notes = []
        self.functions = {}
        self.contracts = {}
        self.trusted = {}
        self.wall = 0.0
        self.z3_s = 0.0
        self.vacuous = False
        self.throws = 0

    def as_dict(self):
        return dict(self.__dict__)


def explore(u, mod, entry):
    """yield (exec, outcome) for every path"""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        ex = Exec(mod, u, pre)
        n += 1
        if n > u.max_paths:
            raise Unsupported('more than %d paths' % u.max_paths)
        nin, nout = len(u.ins), len(u.out)
        oi = ex.new_obj('in', 8 * max(1, nin), 'arg')
        oo = ex.new_obj('out', 8 * max(1, nout), 'arg')
        oii = ex.new_obj('iin', 8 * max(1, len(u.iins)), 'arg')
        oio = ex.new_obj('iout', 8 * max(1, len(u.iout)), 'arg')
        for i, t in enumerate(u.ins):
            oi.data[8 * i] = (8, t)
        for i, t in enumerate(u.iins):
            oii.data[8 * i] = (8, t & ((1 << 64) - 1) if isinstance(t, int) else t)
        f = mod.funcs.get('@' + entry)
        if f is None:
            raise Unsupported('entry %s missing' % entry)
        for hk in getattr(u, 'prologue', []):
            hk(ex)
        try:
            ex.run(f, [Ptr(oi, 0), Ptr(oo, 0), Ptr(oii, 0), Ptr(oio, 0)])
            outcome = ('return', [ex.load(Ptr(oo, 8 * i), DOUBLE) for i in range(nout)],
                       [ex.load(Ptr(oio, 8 * i), ('i', 64)) for i in range(len(u.iout))])
        except CppThrow as e:
            outcome = ('throw', e.tinfo, None)
        except UndefUse as e:
            outcome = ('undef', str(e), None)
        except MemError as e:
            outcome = ('memory', str(e), None)
        except PathEnd as e:
            outcome = ('end', e.kind + ' ' + e.info, None)
        except Infeasible:
            outcome = ('infeasible', '', None)
        todo.extend(ex.alternatives)
        yield ex, outcome


def verify(u, mod, deadline):
    """generate and discharge all obligations of a unit"""
    r = Result(u.name)
    t0 = time.time()
    u.mod = mod
    rng = random.Random(u.seed * 7919 + int(hashlib.md5(u.name.encode()).hexdigest()[:8], 16))
    pool = u.pool(u.npts, rng)
    r.pool = len(pool)
    if not pool:
        z = prove.check_sat(u.pre, 10000)
        if z == 'unsat':
            r.vacuous = True
            r.failed.append(dict(name='precondition satisfiable', reason='the precondition is contradictory', env=None))
            return r
    for name, cond, wit in u.lemmas:
        r.obligations += 1
        sos = ZERO
        for k, t in wit:
            assert k >= 0
            sos = sos + T(k) * t * t
        assert cond.k == 'le'
        if u.ctx.is_zero(u.ctx.poly(cond.a + sos)):
            settle(r, 'lemma ' + name, 'proved', 'sum of squares')
        else:
            r.failed.append(dict(name='lemma ' + name, reason='sum-of-squares witness does not match', env=None))
    covered = 0
    evs = [(e, tm.NumEval(dict(e), MP, UF)) for e in pool]
    try:
        for ex, (kind, a, b) in explore(u, mod, u.rec['entry']):
            if time.time() > deadline:
                raise Unsupported('time budget of the unit exhausted')
            r.paths += 1
            hits = path_hits(u, ex.facts.conds, evs)
            if not hits:
                z, m = prove.check_sat(ex.facts.all(), u.z3_ms, want_model=True)
                if z == 'unsat' or kind == 'infeasible':
                    r.infeasible += 1
                    continue
                if m:
                    e = model_env(u, m)
                    if e is not None:
                        ev = tm.NumEval(dict(e), MP, UF)
                        hits = path_hits(u, ex.facts.conds, [(e, ev)]) if u.pre_ok(e, 1e-9, False) else []
            if hits:
                covered += 1
            do_path(u, r, ex, kind, a, b, hits, deadline)
    except Unsupported as e:
        r.error = 'unsupported: %s' % e
    except (tm.TooBig, RecursionError, OverflowError, MemoryError) as e:
        r.error = 'too big: %s' % type(e).__name__
    if r.error is None and r.obligations == 0:
        r.failed.append(dict(name='non-vacuity', reason='no obligation generated', env=None))
    r.covered = covered
    if covered == 0 and r.error is None and not r.failed:
        r.notes.append('no sampled witness on any path')
    r.functions = {mod.demangle(k): v for k, v in u.called.items()}
    r.contracts = dict(u.used_contracts)
    r.trusted = sorted(u.trusted)
    r.wall = time.time() - t0
    r.z3_s = prove.STATS['z3_s'] + prove.STATS['cvc5_s']
    return r


def f32(n, a):
    import struct
    v = a[0]
    try:
        w = struct.unpack('<f', struct.pack('<f', float(v)))[0]
    except OverflowError:
        w = float('inf')
    return MP.mpf(w)


UF = {'f32': f32, 'pow': lambda n, a: MP.power(a[0], a[1])}


def path_hits(u, conds, evs):
    hits = []
    for e, ev in evs:
        ok = True
        for c in conds:
            try:
                v = prove.cond_eval(c, ev, MP.mpf(10) ** -14)
            except Exception:
                v = None
            if v is not True:
                if c.k == 'bv' and v is None:
                    continue
                ok = False
                break
        if ok:
            hits.append((e, ev))
    return hits


def model_env(u, m):
    env = {}
    names = [n for n, _ in u.vars] + [n for ns, _ in u.groups for n in ns] + list(getattr(u, 'iins_s', {}))
    for n in names:
        v = prove.z3num(m.get(n)) if n in m else 0
        if v is None:
            return None
        env[n] = float(v) if not (isinstance(v, int) and n in getattr(u, 'iins_s', {})) else v
    return u.complete(env)


def do_path(u, r, ex, kind, a, b, hits, deadline):
    facts = ex.facts
    # definedness obligations met along the path
    seen = set()
    for dk, t, nc, where in ex.defined:
        if (dk, t.id) in seen:
            continue
        seen.add((dk, t.id))
        check_defined(u, r, ex, dk, t, nc, where, hits)
    for name, cond, nc in ex.asserts:
        r.obligations += 1
        res, info = prove_cond(u, facts.pre + facts.conds[:nc], cond, hits)
        if res == 'refuted' and name.startswith('ghost: '):
            # the witness of the specification does not fit: decided by the contract on the results, by replay
            r.undecided.append(dict(name=name, reason=info[0], env=info[1]))
            continue
        settle(r, name, res, info)
    if kind in ('undef', 'memory', 'end'):
        r.obligations += 1
        what = {'undef': 'no read of uninitialised data', 'memory': 'memory safety', 'end': 'no abort'}[kind]
        r.failed.append(dict(name=what, reason=a, env=hits[0][0] if hits else None))
        return
    if kind == 'throw':
        r.throws += 1
        r.obligations += 1
        if u.throw_may:
            settle(r, 'throws', 'proved', 'allowed')
            return
        if u.throw_if is None:
            r.failed.append(dict(name='does not throw', reason='throws %s' % a, env=hits[0][0] if hits else None))
            return
        res, info = prove_cond(u, facts.all(), u.throw_if, hits)
        settle(r, 'throws only when allowed', res, info)
        return
    if u.throw_if is not None:
        r.obligations += 1
        res, info = prove_cond(u, facts.all(), u.throw_if.neg(), hits)
        settle(r, 'throws when required', res, info)
    sub = {}
    undef = set()
    for v, t in zip(u.out, a):
        if t is UNDEF or not isinstance(t, Term):
            undef.add(v.id)
        else:
            sub[v.id] = t
    isub = []
    iundef = False
    for v, t in zip(u.iout, b):
        if t is UNDEF:
            iundef = True
            continue
        if isinstance(t, Cond):
            t = int(ex.decide(t))
        isub.append((v, z3.BitVecVal(t, 64) if isinstance(t, int) else t))
    if isub:
        # reals standing for integer results become the reals of the integers this path returned
        for nm, (v, sg) in list(u.intvars.items()):
            w = z3.simplify(z3.substitute(v, *isub))
            if not w.eq(v):
                sub[tm.var(nm).id] = u.int2real(w, sg)
    memo = {}

    def S(t):
        return tm.subst(t, sub, memo)

    def SC(c):
        if c.k in ('and', 'or'):
            return Cond(c.k, tuple(SC(x) for x in c.a))
        if c.k == 'bv':
            return Cond('bv', z3.simplify(z3.substitute(c.a, *isub)) if isub else c.a)
        return Cond(c.k, S(c.a))
    for ob in u.obs:
        r.obligations += 1
        when = [SC(c) for c in ob.when]
        st = [ex.settled(c) for c in when]
        if any(x is False for x in st):
            settle(r, ob.name, 'proved', 'guard false')
            continue
        h2 = [(e, ev) for e, ev in hits if all(prove.cond_eval(c, ev) is not False for c in when)]
        ts = [ob.a, ob.b] if ob.kind == 'eq' else conds_terms(ob.a)
        fv = tm.free_vars(ts)
        if any(tm.var(n).id in undef for n in fv if n.startswith('out!')):
            r.failed.append(dict(name=ob.name, reason='result is not assigned on this path', env=h2[0][0] if h2 else None))
            continue
        if ob.kind == 'eq':
            res, info = prove_eq(u, facts, when, S(ob.a), S(ob.b), h2)
        else:
            c = SC(ob.a)
            res = None
            if when and not h2:
                # the conclusion is false here: the guard must contradict the path
                if guard_contradicts(u, facts, when):
                    res, info = 'proved', 'guard contradicts path (z3)'
            if res is None:
                res, info = prove_cond(u, facts.all() + when, c, h2)
                if res == 'undecided' and when and guard_contradicts(u, facts, when):
                    res, info = 'proved', 'guard contradicts path (z3)'
        settle(r, ob.name, res, info)


def conds_terms(c):
    if c.k in ('and', 'or'):
        return [t for x in c.a for t in conds_terms(x)]
    return [] if c.k == 'bv' else [c.a]


def settle(r, name, res, info):
    if res == 'proved':
        r.discharged += 1
        r.by[info] = r.by.get(info, 0) + 1
    elif res == 'refuted':
        r.failed.append(dict(name=name, reason=info[0], env=info[1]))
    else:
        r.undecided.append(dict(name=name, reason=str(info)))


def tm_cond(kind, t):
    return {'div': ne(t, ZERO), 'nonneg': le(ZERO, t), 'pos': lt(ZERO, t),
            'unit': And(le(t, ONE), le(tm.neg(t), ONE))}[kind]


def check_defined(u, r, ex, kind, t, nc, where, hits):
    conds = ex.facts.pre + ex.facts.conds[:nc]
    c = tm_cond(kind, t)
    r.obligations += 1
    if kind == 'div' and u.mindiv is not None:
        c = Or(ge(t, u.mindiv), le(t, -u.mindiv))
        res, info = prove_cond(u, conds, c, hits)
        settle(r, 'divisor is bounded away from zero in ' + where_name(u, where), res, info)
        return
    if ex.settled(c) is True:
        settle(r, 'defined', 'proved', 'polynomial')
        return
    key = (kind, t.id, nc)
    if u.cuts:
        tc = u.cutsub(t, hits)
        if tc is not t:
            res, info = prove_cond(u, [cut_cond(u, x, hits) for x in conds], tm_cond(kind, tc), [], quick=True)
            if res == 'proved':
                settle(r, 'defined', 'proved', info)
                return
    res, info = prove_cond(u, conds, c, hits, quick=True)
    name = {'div': 'divisor is not zero', 'nonneg': 'square root argument is not negative', 'pos': 'logarithm argument is positive',
            'unit': 'arc function argument lies in [-1,1]'}[kind] + ' in ' + where_name(u, where)
    if res == 'proved':
        settle(r, name, res, info)
    elif res == 'refuted' and not u.domain_optional:
        r.assumed.append(dict(name=name, reason=info[0], env=info[1]))
        r.obligations -= 1
    else:
        r.assumed.append(dict(name=name, reason='not decided', env=None))
        r.obligations -= 1


def cut_cond(u, c, hits):
    if c.k in ('and', 'or'):
        return Cond(c.k, tuple(cut_cond(u, x, hits) for x in c.a))
    if c.k == 'bv':
        return c
    return Cond(c.k, u.cutsub(c.a, hits))


def where_name(u, w):
    f = w.split(' < ')[0]
    try:
        d = u.demangle(f)
        return re.sub(r'<.*', '', d)[:80]
    except Exception:
        return f


def prove_cond(u, facts, c, hits, quick=False):
    k = cond_const(c)
    if k is True:
        return 'proved', 'constant'
    if c.k in ('lt', 'le', 'eq', 'ne'):
        s = u.poly_sign(c)
        if s is True:
            return 'proved', 'polynomial'
    if c.k == 'and':
        outs = [prove_cond(u, facts, x, hits, quick) for x in c.a]
        for o in outs:
            if o[0] == 'refuted':
                return o
        for o in outs:
            if o[0] != 'proved':
                return o
        return 'proved', outs[0][1] if outs else 'constant'
    for e, ev in hits[:12]:
        try:
            v = prove.cond_eval(c, ev, MP.mpf(10) ** -15)
        except Exception:
            v = None
        if v is False:
            return 'refuted', ('condition is false at a sampled point', e)
    n = c.neg()
    if n.k != 'bv' and prove.lin_unsat(u.ctx, facts + [n]):
        prove.STATS['z3'] += 1
        return 'proved', 'z3-linear'
    if n.k != 'bv' and prove.poly_unsat(u.ctx, facts, n, 1500):
        prove.STATS['z3'] += 1
        return 'proved', 'z3'
    z, m = prove.check_sat(facts, u.z3_ms if not quick else min(u.z3_ms, 1500), want_model=True, goal=n)
    if z == 'unsat':
        prove.STATS['z3'] += 1
        return 'proved', 'z3'
    if z == 'sat' and m is not None:
        e = model_env(u, m)
        if e is not None:
            ok = True
            if any(n.startswith('cut!') for n in tm.free_vars(conds_terms(c))):
                return 'undecided', 'cut'
            ev = tm.NumEval(dict(e), MP, UF)
            if all(not prove.has_bv(x) for x in facts + [c]):
                ok = prove.cond_eval(c, ev, 1e-25) is not True and u.pre_ok(e, 1e-6, False)
            for x in facts:
                # the model only covers the hypotheses related to the goal
                try:
                    if ok and not prove.has_bv(x) and prove.cond_eval(x, ev, 1e-20) is False:
                        ok = False
                except Exception:
                    pass
            if ok:
                return 'refuted', ('solver model', e)
        return 'undecided', 'solver model not realisable'
    if not quick and prove.cvc5_unsat(facts + [n], 4 if u.tier == 'quick' else 30):
        return 'proved', 'cvc5'
    return 'undecided', 'solver: ' + z


def guard_contradicts(u, facts, when):
    k = (len(facts.conds), tuple(id(c) for c in facts.conds), tuple(c.a.id if isinstance(c.a, Term) else id(c.a) for c in when))
    if k not in u._guards:
        bv = [c for c in when if c.k == 'bv']
        u._guards[k] = bool(bv) and prove.check_sat([c for c in facts.all() if c.k == 'bv'] + bv, 2000) == 'unsat'
        u._guards[k] = u._guards[k] or prove.lin_unsat(u.ctx, facts.all() + when) or any(
            prove.poly_unsat(u.ctx, facts.all() + when[:i] + when[i + 1:], when[i], 1500)
            for i in range(len(when)) if when[i].k in ('lt', 'le', 'eq'))
    return u._guards[k]


def prove_eq(u, facts, when, a, b, hits):
    if a is b:
        return 'proved', 'syntactic'
    d = tm.sub(a, b)
    big = False
    # cheap refutation first
    for e, ev in hits[:6]:
        try:
            x, y = ev(a), ev(b)
        except Exception:
            continue
        if x != x or y != y:
            continue
        if abs(x - y) > MP.mpf(10) ** -11 * (1 + abs(x) + abs(y)):
            return 'refuted', ('code gives %s, contract requires %s' % (MP.nstr(x, 12), MP.nstr(y, 12)), e)
    t0 = time.time()
    try:
        if u.cuts:
            dc = u.cutsub(d, hits)
            if u.ctx.is_zero(u.ctx.poly(dc)):
                prove.STATS['poly'] += 1
                return 'proved', 'polynomial+cut'
        if u.ctx.is_zero(u.ctx.poly(d)):
            prove.STATS['poly'] += 1
            return 'proved', 'polynomial'
        es = eq_subst(u, facts, when)
        if es:
            d2 = d
            for _ in range(3):
                d2 = tm.subst(d2, es)
            if u.ctx.is_zero(u.ctx.poly(d2)):
                return 'proved', 'polynomial+path'
        ps = path_ctx(u, facts, when)
        if ps is not None and ps.is_zero(ps.poly(d)):
            return 'proved', 'polynomial+path'
    except (tm.TooBig, ZeroDivisionError, OverflowError):
        big = True
    finally:
        prove.STATS['poly_s'] += time.time() - t0
    for e, ev in hits:
        try:
            x, y = ev(a), ev(b)
        except Exception:
            continue
        if x != x or y != y:
            continue
        if abs(x - y) > MP.mpf(10) ** -11 * (1 + abs(x) + abs(y)):
            return 'refuted', ('code gives %s, contract requires %s' % (MP.nstr(x, 12), MP.nstr(y, 12)), e)
    if when and guard_contradicts(u, facts, when):
        return 'proved', 'guard contradicts path (z3)'
    if big:
        return 'undecided', 'normal form too big (%d sample points agree)' % len(hits)
    n = ne(a, b)
    z, m = prove.check_sat(facts.all() + when, u.z3_ms, want_model=True, goal=n)
    if z == 'unsat':
        prove.STATS['z3'] += 1
        return 'proved', 'z3'
    if z == 'sat' and m is not None:
        e = model_env(u, m)
        if e is not None:
            ev = tm.NumEval(dict(e), MP, UF)
            try:
                x, y = ev(a), ev(b)
                if x == x and y == y and abs(x - y) > MP.mpf(10) ** -9 * (1 + abs(x) + abs(y)) and u.pre_ok(e, 1e-6, False) \
                        and not any(not prove.has_bv(f) and prove.cond_eval(f, ev, 1e-20) is False for f in facts.all() + when):
                    return 'refuted', ('solver model', e)
            except Exception:
                pass
    if prove.cvc5_unsat(facts.all() + when + [n], 4 if u.tier == 'quick' else 30):
        return 'proved', 'cvc5'
    return 'undecided', 'solver: ' + z


def eq_subst(u, facts, when):
    """variable -> term replacements implied by the equalities of the path"""
    out = {}
    for c in facts.conds + when:
        cs = c.a if c.k == 'and' else (c,)
        for c in cs:
            if c.k != 'eq':
                continue
            try:
                p = u.ctx.poly(c.a)
            except Exception:
                continue
            for i in cand_vars(u.ctx, p):
                k = u.ctx.kinds[i]
                if k[0] != 'v' or k[1].id in out:
                    continue
                m = 1 << (tm.W * i)
                if m not in p or any((mm >> (tm.W * i)) & tm.MASK for mm in p if mm != m):
                    continue
                rest = {mm: -Fraction(cv) / p[m] for mm, cv in p.items() if mm != m}
                t = tm.subst(u.ctx.term_of(rest), out)
                if k[1].val in tm.free_vars([t]):
                    continue
                out = {a: tm.subst(b, {k[1].id: t}) for a, b in out.items()}
                out[k[1].id] = t
                break
    return out


def path_ctx(u, facts, when):
    """a normal-form context extended with the sign facts and equalities of the path"""
    eqs = [c.a for c in facts.conds + when if c.k == 'eq']
    signs = [c for c in facts.all() + when if c.k in ('lt', 'le')]
    if not eqs and not any(True for _ in signs):
        return None
    return PathCtx(u, eqs, signs)


class PathCtx:
    """proves t == 0 by first eliminating variables with the path's equalities and resolving |p| by sign facts"""

    def __init__(self, u, eqs, signs):
        self.u = u
        self.ctx = u.ctx
        self.sub = {}
        ctx = u.ctx
        # sign facts on polynomials
        self.signp = {}
        for c in signs:
            try:
                p = ctx.poly(c.a)
            except Exception:
                continue
            if not p or len(p) > 60:
                continue
            cc, pp = ctx.primitive(p)
            # c.a <(=) 0  =>  pp has sign -sign(cc)
            self.signp[ctx.keyof(pp)] = -1 if cc > 0 else 1
        self.eqp = []
        for t in eqs:
            try:
                p = ctx.poly(t)
            except Exception:
                continue
            if p:
                self.eqp.append(p)

    def poly(self, t):
        return self.ctx.poly(t)

    def is_zero(self, p):
        ctx = self.ctx
        p = ctx.reduce(p)
        for _ in range(8):
            if not p:
                return True
            # resolve abs atoms with known sign
            done = False
            for m in list(p):
                for i, e in ctx.mono_vars(m):
                    k = ctx.kinds[i]
                    if k[0] == 'abs':
                        cc, pp = ctx.primitive(k[1])
                        s = self.signp.get(ctx.keyof(pp))
                        if s is not None:
                            inner = tm.pscale(k[1], s * (1 if cc > 0 else -1))
                            p = psubst(ctx, p, i, inner)
                            done = True
                            break
                if done:
                    break
            if not done:
                break
        if ctx.is_zero(p):
            return True
        # eliminate with equalities that are linear in some variable with constant coefficient
        for q in self.eqp:
            for i in cand_vars(ctx, q):
                lin = {m: c for m, c in q.items() if (m >> (tm.W * i)) & tm.MASK}
                if len(lin) == 1:
                    (m, c), = lin.items()
                    if m == 1 << (tm.W * i):
                        rest = {mm: -Fraction(cv) / c for mm, cv in q.items() if mm != m}
                        p = psubst(ctx, p, i, rest)
                        break
            if ctx.is_zero(p):
                return True
        return ctx.is_zero(p)


def cand_vars(ctx, q):
    s = set()
    for m in q:
        for i, e in ctx.mono_vars(m):
            s.add(i)
    return sorted(s, key=lambda i: (ctx.kinds[i][0] != 'v', -i))


def psubst(ctx, p, i, inner):
    out = {}
    pw = [{0: 1}, inner]
    for m, c in p.items():
        e = (m >> (tm.W * i)) & tm.MASK
        while len(pw) <= e:
            pw.append(ctx.reduce(tm.pmul(pw[-1], inner)))
        out = tm.padd(out, tm.pmul({m - (e << (tm.W * i)): c}, pw[e]))
    return ctx.reduce(out)
