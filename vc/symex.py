"""Symbolic execution of LLVM IR: one path per run, driven by a decision prefix.

Doubles and floats are interpreted as mathematical reals (Term); integers exactly (python ints, or z3 bit-vectors when
symbolic); memory as typed cells of objects.  Every fork is decided either by the known facts or recorded.
"""
import re
import struct
import sys
from fractions import Fraction

import z3

import term as tm
from term import Term, ZERO, ONE, const
from ir import UNDEF, Ptr, NULL, fpconst, PTR, DOUBLE, FLOAT

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind, self.info = kind, info


class CppThrow(Exception):
    def __init__(self, tinfo, obj):
        self.tinfo, self.obj = tinfo, obj


class UndefUse(Exception):
    pass


class MemError(Exception):
    """out-of-bounds / null / freed access on a path"""
    pass


ALIVE = {}


def ident(e):
    """identity of a z3 expression; the expression is kept alive, because z3 reuses the ids of dead ones"""
    i = e.get_id()
    ALIVE.setdefault(i, e)
    return i


class Cond:
    """boolean formula; kinds: lt/le/eq/ne (term vs 0), bv (z3 bool), not/and/or"""
    __slots__ = ('k', 'a', 'key')

    def __init__(self, k, a):
        self.k, self.a = k, a
        if k in ('lt', 'le', 'eq', 'ne'):
            self.key = (k, a.id)
        elif k == 'bv':
            self.key = ('bv', ident(a))
        else:
            self.key = (k,) + tuple(x.key for x in a)

    def neg(self):
        k = self.k
        if k == 'lt':
            return le(ZERO, self.a)
        if k == 'le':
            return lt(ZERO, self.a)
        if k == 'eq':
            return Cond('ne', self.a)
        if k == 'ne':
            return Cond('eq', self.a)
        if k == 'bv':
            return Cond('bv', z3.Not(self.a))
        if k == 'not':
            return self.a[0]
        if k == 'and':
            return Cond('or', tuple(x.neg() for x in self.a))
        return Cond('and', tuple(x.neg() for x in self.a))

    def __repr__(self):
        if self.k in ('lt', 'le', 'eq', 'ne'):
            return '%s %s 0' % (tm.show(self.a, 5), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[self.k])
        return '%s%s' % (self.k, self.a)


def lt(a, b): return _cmp('lt', tm.sub(tm.T(a), tm.T(b)))
def le(a, b): return _cmp('le', tm.sub(tm.T(a), tm.T(b)))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return _cmp('eq', tm.sub(tm.T(a), tm.T(b)))
def ne(a, b): return _cmp('ne', tm.sub(tm.T(a), tm.T(b)))
def And(*c): return Cond('and', tuple(c))
def Or(*c): return Cond('or', tuple(c))


def _cmp(k, t):
    return Cond(k, t)


def cond_const(c):
    if c.k in ('lt', 'le', 'eq', 'ne') and c.a.op == 'c':
        v = c.a.val
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0}[c.k]
    if c.k == 'bv':
        if z3.is_true(c.a):
            return True
        if z3.is_false(c.a):
            return False
    return None


class Obj:
    __slots__ = ('name', 'size', 'data', 'bg', 'kind', 'freed', 'fn', 'sym')
    n = 0

    def __init__(self, name, size, kind):
        self.name, self.size, self.kind = name, size, kind
        self.data = {}
        self.bg = []
        self.freed = False
        self.fn = None
        self.sym = None

    def byte(self, off):
        d = self.data
        for o in range(off, off - 16, -1):
            c = d.get(o)
            if c is not None:
                if o + c[0] > off:
                    v = c[1]
                    if isinstance(v, int):
                        return (v >> (8 * (off - o))) & 255
                    if v is NULL:
                        return 0
                    if isinstance(v, Term) and v.op == 'c' and isinstance(v.val, int) and v.val == 0:
                        return 0
                    return None
                break
        for s, e, b in reversed(self.bg):
            if s <= off < e:
                return b
        return None

    def load(self, off, size):
        c = self.data.get(off)
        if c is not None and c[0] == size:
            return c[1]
        bs = [self.byte(off + i) for i in range(size)]
        if all(b is not None for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if c is not None and c[0] > size and not isinstance(c[1], int):
            # low part of a symbolic integer
            v = c[1]
            if z3.is_bv(v):
                return z3.simplify(z3.Extract(8 * size - 1, 0, v))
        return UNDEF

    def store(self, off, size, v):
        d = self.data
        c = d.get(off)
        if c is not None and c[0] == size:
            d[off] = (size, v)
            return
        for o in range(off - 15, off + size):
            c = d.get(o)
            if c is not None and o + c[0] > off:
                # split overlapped cell into bytes outside the store
                keep = []
                for k in range(o, o + c[0]):
                    if k < off or k >= off + size:
                        b = self.byte(k)
                        if b is not None:
                            keep.append((k, b))
                        elif c[0] == 8 and False:
                            pass
                del d[o]
                for k, b in keep:
                    d[k] = (1, b)
        d[off] = (size, v)


class Contract:
    """assumed/verified contract used at call sites instead of the body"""

    def __init__(self, name, handler, trusted=False):
        self.name, self.handler, self.trusted = name, handler, trusted


class Facts:
    """path knowledge: requires + branch conditions, with decision helpers"""

    def __init__(self, ctx, pre, bvpre=()):
        self.ctx = ctx
        self.pre = list(pre)
        self.conds = []
        self.known = {}
        for c in self.pre:
            self._know(c)

    def _know(self, c):
        self.known[c.key] = True
        if c.k == 'lt':
            self.known[('le', c.a.id)] = True
            self.known[('ne', c.a.id)] = True
            n = tm.neg(c.a)
            self.known[('lt', n.id)] = False
            self.known[('le', n.id)] = False
            self.known[('ne', n.id)] = True
            self.known[('eq', n.id)] = False
            self.known[('eq', c.a.id)] = False
        elif c.k == 'le':
            n = tm.neg(c.a)
            self.known[('lt', n.id)] = False
        elif c.k == 'eq':
            n = tm.neg(c.a)
            for x in (c.a, n):
                self.known[('eq', x.id)] = True
                self.known[('ne', x.id)] = False
                self.known[('lt', x.id)] = False
                self.known[('le', x.id)] = True
        elif c.k == 'ne':
            n = tm.neg(c.a)
            self.known[('eq', c.a.id)] = False
            self.known[('eq', n.id)] = False
            self.known[('ne', n.id)] = True
        elif c.k == 'and':
            for x in c.a:
                self._know(x)
        elif c.k == 'bv':
            self.known[('bv', ident(z3.Not(c.a)))] = False

    def add(self, c):
        self.conds.append(c)
        self._know(c)

    def all(self):
        return self.pre + self.conds


FCMP = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le',
        'ogt': 'gt', 'ugt': 'gt', 'oge': 'ge', 'uge': 'ge'}


class Exec:
    def __init__(self, mod, unit, prefix):
        self.mod = mod
        self.unit = unit
        self.ctx = unit.ctx
        self.facts = Facts(unit.ctx, unit.pre)
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.alternatives = []     # prefixes to explore
        self.globals = {}
        self.budget = unit.budget
        self.steps = 0
        self.defined = []          # (kind, term, ncond, where)
        self.called = unit.called
        self.stack = []
        self.fresh = 0
        self.objcount = 0
        self.asserts = []          # (name, cond, ncond) obligations raised by contracts (preconditions)
        self.log = []
        self.exn = None
        self.hooks = {}

    # ---------------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, int):
            return bool(c & 1)
        if c is UNDEF:
            raise UndefUse('branch on uninitialised value in %s' % self.where())
        if z3.is_bv(c):
            c = Cond('bv', z3.simplify(c == 1))
        if z3.is_bool(c):
            c = Cond('bv', c)
        r = self.settled(c)
        if r is not None:
            return r
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(r)
            self.facts.add(c if r else c.neg())
            return r
        # new decision: which sides are feasible?
        n = c.neg()
        ft = self.unit.feasible(self.facts, c)
        ff = self.unit.feasible(self.facts, n) if ft else True
        if ft and ff:
            self.alternatives.append(self.decisions + [False])
            r = True
        elif ft:
            r = True
        else:
            r = False
        if ft != ff:
            # forced: no decision is recorded in the prefix, but remember the fact
            self.facts._know(c if r else n)
            self.pos += 1
            self.decisions.append(r)
            self.prefix.append(r)
            self.facts.conds.append(c if r else n)
            return r
        self.pos += 1
        self.prefix.append(r)
        self.decisions.append(r)
        self.facts.add(c if r else n)
        return r

    def settled(self, c):
        r = cond_const(c)
        if r is not None:
            return r
        r = self.facts.known.get(c.key)
        if r is not None:
            return r
        if c.k == 'and':
            rs = [self.settled(x) for x in c.a]
            if all(x is True for x in rs):
                return True
            if any(x is False for x in rs):
                return False
            return None
        if c.k == 'or':
            rs = [self.settled(x) for x in c.a]
            if any(x is True for x in rs):
                return True
            if all(x is False for x in rs):
                return False
            return None
        if c.k in ('lt', 'le', 'eq', 'ne'):
            r = self.unit.poly_sign(c)
            if r is not None:
                return r
        return None

    def where(self):
        return ' < '.join(self.stack[-3:][::-1])

    # ---------------------------------------------------------------- memory
    def new_obj(self, name, size, kind):
        self.objcount += 1
        return Obj('%s#%d' % (name, self.objcount), size, kind)

    def concretise_offset(self, p, size):
        """one path per value of a symbolic offset (small objects only)"""
        o = p.o
        if not z3.is_bv(p.off) or not isinstance(o.size, int) or o.size // max(size, 1) > 16:
            raise Unsupported('symbolic offset in ' + self.where())
        b = p.off.size()
        for v in range(0, o.size - size + 1, size):
            if self.decide(z3.simplify(p.off == z3.BitVecVal(v, b))):
                p.off = v
                return
        raise Unsupported('symbolic offset beyond the elements in ' + self.where())

    def chk(self, p, size):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise UndefUse('dereference of uninitialised pointer in ' + self.where())
            raise Unsupported('deref of %r in %s' % (p, self.where()))
        o = p.o
        if o is None:
            raise MemError('null dereference in ' + self.where())
        if o.freed:
            raise MemError('use after free of %s in %s' % (o.name, self.where()))
        if not isinstance(p.off, int):
            self.concretise_offset(p, size)
        if p.off < 0 or (o.size is not None and p.off + size > o.size):
            raise MemError('access outside %s (offset %d+%d of %s) in %s' % (o.name, p.off, size, o.size, self.where()))
        return o

    def load(self, p, ty):
        if ty[0] == 'named':
            ty = self.mod.resolve(ty)
        k = ty[0]
        if k in ('st', 'arr', 'vec'):
            if k == 'st':
                return [self.load(Ptr(p.o, p.off + self.mod.field(ty, i)[0]), t) for i, t in enumerate(ty[1])]
            s = self.mod.size_align(ty[2])[0]
            return [self.load(Ptr(p.o, p.off + i * s), ty[2]) for i in range(ty[1])]
        size = self.mod.size_align(ty)[0]
        o = self.chk(p, size)
        if o.sym is not None:
            v = o.sym(self, p.off, size, ty)
            if v is not None:
                return v
        v = o.load(p.off, size)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        k = ty[0]
        if v is UNDEF:
            return v
        if k == 'double':
            if isinstance(v, int):
                if v == 0:
                    return ZERO
                return fpconst(struct.unpack('<d', struct.pack('<Q', v))[0], ty)
        elif k == 'float':
            if isinstance(v, int):
                if v == 0:
                    return ZERO
                return fpconst(struct.unpack('<f', struct.pack('<I', v))[0], ty)
        elif k == 'ptr':
            if isinstance(v, int) and v == 0:
                return NULL
        elif k == 'i':
            if isinstance(v, int):
                return v & ((1 << ty[1]) - 1)
            if v is NULL:
                return 0
            if isinstance(v, Term) and v is ZERO:
                return 0
            if z3.is_bv(v) and v.size() > ty[1]:
                return z3.simplify(z3.Extract(ty[1] - 1, 0, v))
        return v

    def store(self, p, v, ty):
        if ty[0] == 'named':
            ty = self.mod.resolve(ty)
        k = ty[0]
        if k in ('st', 'arr', 'vec'):
            if v is UNDEF:
                return
            if k == 'st':
                for i, t in enumerate(ty[1]):
                    self.store(Ptr(p.o, p.off + self.mod.field(ty, i)[0]), v[i], t)
            else:
                s = self.mod.size_align(ty[2])[0]
                for i in range(ty[1]):
                    self.store(Ptr(p.o, p.off + i * s), v[i], ty[2])
            return
        size = self.mod.size_align(ty)[0]
        o = self.chk(p, size)
        if isinstance(v, Cond):
            v = 1 if self.decide(v) else 0
        o.store(p.off, size, v)

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic length in ' + self.where())
        if n == 0:
            return
        od = self.chk(d, n)
        os_ = self.chk(s, n)
        so, do = s.off, d.off
        cells = []
        if n <= len(os_.data) * 2:
            for o in range(so - 15, so + n):
                c = os_.data.get(o)
                if c is not None and o + c[0] > so:
                    cells.append((o, c))
        else:
            for o, c in os_.data.items():
                if so < o + c[0] and o < so + n:
                    cells.append((o, c))
        bgs = [(max(a, so), min(e, so + n), b) for a, e, b in os_.bg if a < so + n and e > so]
        part = [(k, os_.byte(k)) for o, c in cells if o < so or o + c[0] > so + n
                for k in range(max(o, so), min(o + c[0], so + n))]
        # clear destination
        self.clear(od, do, n)
        for a, e, b in bgs:
            od.bg.append((a - so + do, e - so + do, b))
        for o, c in cells:
            if o >= so and o + c[0] <= so + n:
                od.data[o - so + do] = c
        for k, b in part:
            if b is not None:
                od.data[k - so + do] = (1, b)

    def clear(self, o, off, n):
        ks = [k for k in (range(off - 15, off + n) if n < 4 * len(o.data) + 64 else list(o.data)) if k in o.data and
              k < off + n and k + o.data[k][0] > off]
        for k in ks:
            c = o.data[k]
            keep = []
            if k < off or k + c[0] > off + n:
                keep = [(j, o.byte(j)) for j in range(k, k + c[0]) if j < off or j >= off + n]
            del o.data[k]
            for j, b in keep:
                if b is not None:
                    o.data[j] = (1, b)
        nb = []
        for a, e, b in o.bg:
            if e <= off or a >= off + n:
                nb.append((a, e, b))
            else:
                if a < off:
                    nb.append((a, off, b))
                if e > off + n:
                    nb.append((off + n, e, b))
        o.bg = nb

    def memset(self, d, b, n):
        if not isinstance(n, int):
            raise Unsupported('memset of symbolic length')
        if n == 0:
            return
        o = self.chk(d, n)
        self.clear(o, d.off, n)
        if not isinstance(b, int):
            raise Unsupported('memset of symbolic byte')
        o.bg.append((d.off, d.off + n, b & 255))

    # ---------------------------------------------------------------- constants
    def cval(self, k, ty):
        t = k[0]
        if t == 'int':
            return k[1] & ((1 << ty[1]) - 1)
        if t == 'fp':
            return fpconst(k[1], ty)
        if t == 'null':
            return NULL
        if t == 'undef':
            ty = self.mod.resolve(ty)
            if ty[0] == 'st':
                return [self.cval(k, x) for x in ty[1]]
            if ty[0] in ('arr', 'vec'):
                return [self.cval(k, ty[2]) for _ in range(ty[1])]
            return UNDEF
        if t == 'zero':
            ty = self.mod.resolve(ty)
            if ty[0] == 'i':
                return 0
            if ty[0] in ('double', 'float'):
                return ZERO
            if ty[0] == 'ptr':
                return NULL
            if ty[0] == 'st':
                return [self.cval(k, x) for x in ty[1]]
            return [self.cval(k, ty[2]) for _ in range(ty[1])]
        if t == 'g':
            return self.gaddr(k[1])
        if t == 'gep':
            base = self.cval(k[2][0][1], PTR)
            idx = [(ot, self.cval(v, ot)) for ot, v in k[2][1:]]
            return self.gep(k[1], base, idx)
        if t == 'cast':
            v = self.cval(k[3], k[2])
            if k[1] in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'):
                if k[1] == 'inttoptr' and v == 0:
                    return NULL
                return v
            return self.coerce(v, k[4])
        if t == 'agg':
            return [self.cval(c, ct) for ct, c in k[1]]
        if t == 'str':
            return list(k[1])
        if t == 'splat':
            return [self.cval(k[2], k[1]) for _ in range(ty[1])]
        if t == 'bin':
            return self.binint(k[1], self.cval(k[3], k[2]), self.cval(k[4], k[2]), k[2][1])
        raise Unsupported('const %r' % (k,))

    def gaddr(self, nm):
        nm = self.mod.aliases.get(nm, nm)
        g = self.globals.get(nm)
        if g is not None:
            return g
        if nm in self.mod.funcs or nm in self.mod.decls:
            o = Obj(nm, 0, 'func')
            o.fn = nm
            p = Ptr(o, 0)
            self.globals[nm] = p
            return p
        if nm not in self.mod.globals:
            o = Obj(nm, 0, 'func')
            o.fn = nm
            p = Ptr(o, 0)
            self.globals[nm] = p
            return p
        ty, init = self.mod.global_init(nm)
        size = self.mod.size_align(ty)[0] if ty else None
        o = self.new_obj(nm, size, 'global')
        p = Ptr(o, 0)
        self.globals[nm] = p
        if init is not None:
            self.init_store(o, 0, ty, init)
        return p

    def init_store(self, o, off, ty, init):
        ty = self.mod.resolve(ty)
        if init[0] == 'zero':
            o.bg.append((off, off + self.mod.size_align(ty)[0], 0))
        elif init[0] == 'undef':
            pass
        elif init[0] == 'str':
            for i, b in enumerate(init[1]):
                o.data[off + i] = (1, b)
        elif init[0] == 'agg':
            if ty[0] == 'st':
                for i, (ct, c) in enumerate(init[1]):
                    fo, ft = self.mod.field(ty, i)
                    self.init_store(o, off + fo, ft, c)
            else:
                s = self.mod.size_align(ty[2])[0]
                for i, (ct, c) in enumerate(init[1]):
                    self.init_store(o, off + i * s, ty[2], c)
        else:
            o.data[off] = (self.mod.size_align(ty)[0], self.cval(init, ty))

    def val(self, v, regs, ty):
        if v[0] == 'c':
            return v[1]
        if v[0] == 'r':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('register %s unset in %s' % (v[1], self.where()))
        return self.cval(v[1], ty)

    def gep(self, bt, base, idx):
        off = 0
        ty = bt
        for n, (it, i) in enumerate(idx):
            if i is UNDEF:
                raise UndefUse('address from uninitialised index in ' + self.where())
            if n == 0:
                s = self.mod.size_align(ty)[0]
                off = self.addoff(off, i, it, s)
                continue
            ty = self.mod.resolve(ty)
            if ty[0] == 'st':
                o, ty = self.mod.field(ty, i)
                off = self.addoff(off, o, ('i', 64), 1)
            else:
                ty = ty[2]
                s = self.mod.size_align(ty)[0]
                off = self.addoff(off, i, it, s)
        if not isinstance(base, Ptr):
            if base is UNDEF:
                return UNDEF
            if isinstance(base, int) and isinstance(off, int):
                return base + off
            raise Unsupported('gep on %r' % (base,))
        if isinstance(off, int) and off == 0:
            return base
        if base.o is None:
            if isinstance(off, int) and isinstance(base.off, int):
                return Ptr(None, base.off + off)
        b = base.off
        if isinstance(b, int) and isinstance(off, int):
            return Ptr(base.o, b + off)
        return Ptr(base.o, z3.simplify((b if not isinstance(b, int) else z3.BitVecVal(b, 64)) +
                                       (off if not isinstance(off, int) else z3.BitVecVal(off, 64))))

    def addoff(self, off, i, it, s):
        if isinstance(i, int):
            w = it[1]
            if i >= 1 << (w - 1):
                i -= 1 << w
            if isinstance(off, int):
                return off + i * s
            return off + z3.BitVecVal(i * s, 64)
        if isinstance(i, Ptr):
            raise Unsupported('pointer used as index')
        if isinstance(i, Cond):
            i = 1 if self.decide(i) else 0
            return self.addoff(off, i, it, s)
        w = i.size()
        e = z3.SignExt(64 - w, i) if w < 64 else i
        e = e * s
        return (z3.BitVecVal(off, 64) if isinstance(off, int) else off) + e

    # ---------------------------------------------------------------- calls
    def call(self, name, args, rt):
        """args: list of (type,value)"""
        mod = self.mod
        name = mod.aliases.get(name, name)
        h = self.unit.handler(name)
        if h is not None:
            return h(self, args, rt, name)
        f = mod.funcs.get(name)
        if f is None:
            raise Unsupported('call of unknown external %s (%s) from %s' % (name, self.unit.demangle(name), self.where()))
        return self.run(f, [v for t, v in args])

    def run(self, f, args):
        mod = self.mod
        if not f.parsed:
            mod.parse(f)
        regs = {}
        for (ty, nm), v in zip(f.params, args):
            regs[nm] = v
        n = 0
        for k, (ty, nm) in enumerate(f.params):
            if nm is None:
                regs['%%%d' % k] = args[k]
        if len(self.stack) > 400:
            raise Unsupported('call depth')
        self.stack.append(f.name)
        self.called[f.name] = self.called.get(f.name, 0) + 1
        allocas = []
        try:
            return self.loop(f, regs, allocas)
        finally:
            self.stack.pop()

    def loop(self, f, regs, allocas):
        blocks = f.blocks
        prev = None
        cur = f.entry
        ops = self.OPS
        val = self.val
        while True:
            insts = blocks[cur]
            # phis first, in parallel
            i = 0
            if insts and insts[0].op == 'phi':
                new = []
                while insts[i].op == 'phi':
                    it = insts[i]
                    try:
                        v = it.a[prev]
                    except KeyError:
                        v = it.a.get('%0') if prev == '%entry.anon' and '%0' in it.a else self.phi_anon(it, prev, f)
                    new.append((it.dst, val(v, regs, it.ty)))
                    i += 1
                for d, v in new:
                    regs[d] = v
            n = len(insts)
            self.steps += n
            if self.steps > self.budget:
                raise Unsupported('step budget exceeded in ' + self.where())
            while i < n:
                it = insts[i]
                i += 1
                op = it.op
                if op == 'br':
                    prev, cur = cur, it.a
                    break
                if op == 'condbr':
                    c = val(it.a[0], regs, ('i', 1))
                    prev, cur = cur, (it.a[1] if self.decide(c) else it.a[2])
                    break
                if op == 'ret':
                    return None if it.a is None else val(it.a, regs, it.ty)
                if op == 'switch':
                    v = val(it.a[0], regs, it.ty)
                    v = self.concretise(v, it.ty, [c for c, _ in it.a[2]])
                    tgt = it.a[1]
                    w = it.ty[1]
                    for c, l in it.a[2]:
                        if (c & ((1 << w) - 1)) == v:
                            tgt = l
                            break
                    prev, cur = cur, tgt
                    break
                if op == 'invoke':
                    try:
                        r = self.do_call(it, regs)
                        if it.dst:
                            regs[it.dst] = r
                        prev, cur = cur, it.x[0]
                    except CppThrow as e:
                        self.exn = e
                        prev, cur = cur, it.x[1]
                    break
                if op == 'unreachable':
                    raise PathEnd('unreachable', self.where())
                if op == 'resume':
                    raise self.exn
                h = ops[op]
                r = h(self, it, regs)
                if it.dst:
                    regs[it.dst] = r
            else:
                raise Unsupported('fell off block')

    def phi_anon(self, it, prev, f):
        # the unlabelled entry block is referred to by its number
        lab = [b for b in it.a if b not in f.blocks]
        if len(lab) == 1:
            return it.a[lab[0]]
        raise Unsupported('phi edge')

    def concretise(self, v, ty, cases):
        if isinstance(v, int):
            return v
        if v is UNDEF:
            raise UndefUse('switch on uninitialised value in ' + self.where())
        if isinstance(v, Cond):
            return 1 if self.decide(v) else 0
        for c in cases:
            if self.decide(Cond('bv', z3.simplify(v == z3.BitVecVal(c, v.size())))):
                return c & ((1 << ty[1]) - 1)
        return -1

    def do_call(self, it, regs):
        callee, args = it.a
        av = [(t, None if v is None else self.val(v, regs, t)) for t, v in args]
        if callee[0] == 'k':
            name = callee[1][1]
        else:
            p = self.val(callee, regs, PTR)
            if not isinstance(p, Ptr) or p.o is None or p.o.kind != 'func':
                raise Unsupported('indirect call of %r in %s' % (p, self.where()))
            name = p.o.fn
        return self.call(name, av, it.ty)

    def op_call(self, it, regs):
        return self.do_call(it, regs)

    # ---------------------------------------------------------------- instructions
    def op_alloca(self, it, regs):
        n = 1
        if it.a is not None:
            n = self.val(it.a, regs, ('i', 64))
            if not isinstance(n, int):
                raise Unsupported('symbolic alloca')
        return Ptr(self.new_obj(it.dst, self.mod.size_align(it.ty)[0] * n, 'stack'), 0)

    def op_load(self, it, regs):
        return self.load(self.val(it.a, regs, PTR), it.ty)

    def op_store(self, it, regs):
        self.store(self.val(it.a[1], regs, PTR), self.val(it.a[0], regs, it.ty), it.ty)

    def op_gep(self, it, regs):
        base = self.val(it.a[0][1], regs, PTR)
        return self.gep(it.ty, base, [(t, self.val(v, regs, t)) for t, v in it.a[1:]])

    def op_select(self, it, regs):
        ct, c, a, b = it.a
        c = self.val(c, regs, ct)
        a = self.val(a, regs, it.ty)
        b = self.val(b, regs, it.ty)
        if isinstance(c, list):
            return [x if self.decide(k) else y for k, x, y in zip(c, a, b)]
        if it.ty == ('i', 1) and not isinstance(c, int):
            # logical and / or
            ca, cb, cc = self.tocond(a), self.tocond(b), self.tocond(c)
            if cb == 0:
                return self.mkand(cc, ca)
            if ca == 1:
                return self.mkor(cc, cb)
        return a if self.decide(c) else b

    def tocond(self, v):
        if isinstance(v, int):
            return v & 1
        if z3.is_bv(v):
            return Cond('bv', z3.simplify(v == 1))
        return v

    def mkand(self, a, b):
        if isinstance(a, int):
            return b if a else 0
        if isinstance(b, int):
            return a if b else 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return And(a, b)

    def mkor(self, a, b):
        if isinstance(a, int):
            return 1 if a else b
        if isinstance(b, int):
            return 1 if b else a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return Or(a, b)

    def op_fcmp(self, it, regs):
        a = self.val(it.a[0], regs, it.ty)
        b = self.val(it.a[1], regs, it.ty)
        if isinstance(a, list):
            return [self.fcmp(it.x, x, y) for x, y in zip(a, b)]
        return self.fcmp(it.x, a, b)

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if pred in ('ord', 'uno'):
            return 1 if pred == 'ord' else 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.op == 'v' and x.val in ('$inf', '$ninf') and y is not x:
                k = FCMP[pred]
                big = x.val == '$inf'
                if sw:        # y pred x
                    r = {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[k]
                else:
                    r = {'lt': not big, 'le': not big, 'gt': big, 'ge': big, 'eq': False, 'ne': True}[k]
                return int(r)
        k = FCMP[pred]
        ib = self.int_operands(a, b)
        if ib is not None:
            x, y, signed = ib
            c = {'lt': x < y if signed else z3.ULT(x, y), 'le': x <= y if signed else z3.ULE(x, y), 'gt': x > y if signed else z3.UGT(x, y),
                 'ge': x >= y if signed else z3.UGE(x, y), 'eq': x == y, 'ne': x != y}[k]
            c = z3.simplify(c)
            return 1 if z3.is_true(c) else 0 if z3.is_false(c) else Cond('bv', c)
        if k == 'gt':
            c = lt(b, a)
        elif k == 'ge':
            c = le(b, a)
        else:
            c = _cmp(k, tm.sub(a, b))
        r = cond_const(c)
        return c if r is None else int(r)

    def int_operands(self, a, b):
        # two converted integers (or one and an integer constant) compare as the integers do
        iv = self.unit.intvars
        fa = iv.get(a.val) if a.op == 'v' else None
        fb = iv.get(b.val) if b.op == 'v' else None
        if fa is None and fb is None:
            return None
        (v, s) = fa or fb
        w = v.size()
        r = []
        for t, f in ((a, fa), (b, fb)):
            if f is not None:
                if f[1] != s or f[0].size() != w:
                    return None
                r.append(f[0])
            elif t.op == 'c' and t.val == int(t.val) and (-(1 << (w - 1)) if s else 0) <= t.val < (1 << (w - 1 if s else w)):
                r.append(z3.BitVecVal(int(t.val), w))
            else:
                return None
        return r[0], r[1], s

    def op_icmp(self, it, regs):
        a = self.val(it.a[0], regs, it.ty)
        b = self.val(it.a[1], regs, it.ty)
        if isinstance(a, list):
            return [self.icmp(it.x, x, y, it.ty[2]) for x, y in zip(a, b)]
        return self.icmp(it.x, a, b, it.ty)

    def icmp(self, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Cond):
            a = 1 if self.decide(a) else 0
        if isinstance(b, Cond):
            b = 1 if self.decide(b) else 0
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = NULL if a == 0 else Ptr(None, a)
            if isinstance(b, int):
                b = NULL if b == 0 else Ptr(None, b)
            if a.o is not b.o:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                if a.o is None or b.o is None:
                    # every live object lies above null
                    lo = a.o is None
                    return int({'ult': lo, 'ule': lo, 'ugt': not lo, 'uge': not lo}[pred])
                raise Unsupported('ordering of unrelated pointers in ' + self.where())
            a, b = a.off, b.off
            if isinstance(a, int) and isinstance(b, int):
                return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                            'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
            pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
            ty = ('i', 64)
        if isinstance(a, int) and isinstance(b, int):
            w = ty[1]
            if pred[0] == 's':
                h = 1 << (w - 1)
                if a >= h:
                    a -= 1 << w
                if b >= h:
                    b -= 1 << w
            k = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
        if isinstance(a, Term) or isinstance(b, Term):
            # bit pattern of a real compared with an integer (sign test): i64 view of a double
            raise Unsupported('integer comparison of a floating-point bit pattern')
        w = ty[1]
        a, b = bv(a, w), bv(b, w)
        e = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        e = z3.simplify(e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return Cond('bv', e)

    def op_bin(self, it, regs):
        a = self.val(it.a[0], regs, it.ty)
        b = self.val(it.a[1], regs, it.ty)
        op = it.op
        if isinstance(a, list):
            if op[0] == 'f':
                return [self.fbin(op, x, y) for x, y in zip(a, b)]
            return [self.binint(op, x, y, it.ty[2][1]) for x, y in zip(a, b)]
        if op[0] == 'f':
            return self.fbin(op, a, b)
        return self.binint(op, a, b, it.ty[1])

    def fbin(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if not isinstance(a, Term) or not isinstance(b, Term):
            raise Unsupported('float op on %r %r' % (a, b))
        if op == 'fadd':
            return tm.add(a, b)
        if op == 'fsub':
            return tm.sub(a, b)
        if op == 'fmul':
            return tm.mul(a, b)
        if op == 'fdiv':
            if b.op == 'c' and b.val == 0:
                self.defined.append(('div', b, len(self.facts.conds), self.where()))
                return tm.var('$nan')
            if b.op != 'c':
                self.defined.append(('div', b, len(self.facts.conds), self.where()))
            return tm.div(a, b)
        raise Unsupported(op)

    def binint(self, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            if op in ('and', 'mul') and (a == 0 or b == 0):
                return 0
            return UNDEF
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                sa = a - (1 << w) if a >> (w - 1) else a
                return (sa >> min(b, w - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise MemError('integer division by zero in ' + self.where())
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                sa = a - (1 << w) if a >> (w - 1) else a
                sb = b - (1 << w) if b >> (w - 1) else b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                if op == 'sdiv':
                    return q & M
                return (sa - q * sb) & M
            raise Unsupported(op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(op, a, b, w)
        if w == 1:
            a, b = self.tocond(a), self.tocond(b)
            if op == 'and':
                return self.mkand(a, b)
            if op == 'or':
                return self.mkor(a, b)
            if op == 'xor':
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return a.neg() if b else a
                return And(Or(a, b), Or(a.neg(), b.neg()))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Cond):
            return self.binint(op, int(self.decide(a)), b, w)
        if isinstance(b, Cond):
            return self.binint(op, a, int(self.decide(b)), w)
        if isinstance(a, Term) or isinstance(b, Term):
            # bit tricks on a double: sign flip / mask
            if op == 'xor' and (a == 1 << 63 or b == 1 << 63):
                return tm.neg(a if isinstance(a, Term) else b)
            if op == 'and' and (a == (1 << 63) - 1 or b == (1 << 63) - 1):
                return tm.absv(a if isinstance(a, Term) else b)
            raise Unsupported('bit operation on a floating-point value')
        x, y = bv(a, w), bv(b, w)
        e = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y,
             'srem': lambda: z3.SRem(x, y)}[op]()
        if op in ('udiv', 'urem', 'sdiv', 'srem') and not isinstance(b, int):
            if self.decide(Cond('bv', z3.simplify(y == 0))):
                raise MemError('integer division by zero in ' + self.where())
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return e

    def ptrarith(self, op, a, b, w):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            if isinstance(a.off, int) and isinstance(b.off, int):
                return (a.off - b.off) & ((1 << w) - 1)
            return z3.simplify(bv(a.off, 64) - bv(b.off, 64))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.o, a.off - (b if b < 1 << 63 else b - (1 << 64)))
        if op == 'add':
            if isinstance(b, Ptr):
                a, b = b, a
            if isinstance(b, int):
                return Ptr(a.o, a.off + (b if b < 1 << 63 else b - (1 << 64)))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int):
            if b < 16:
                return a.off & b
            if b == (1 << 64) - 16 or b == (1 << 64) - 8:
                return Ptr(a.o, a.off & ~(((1 << 64) - 1) ^ b))
        raise Unsupported('pointer arithmetic %s %r %r in %s' % (op, a, b, self.where()))

    def op_fneg(self, it, regs):
        v = self.val(it.a, regs, it.ty)
        if isinstance(v, list):
            return [UNDEF if x is UNDEF else tm.neg(x) for x in v]
        return UNDEF if v is UNDEF else tm.neg(v)

    def op_cast(self, it, regs):
        v = self.val(it.a, regs, it.x)
        if isinstance(v, list):
            et, ft = it.ty, it.x
            if it.op == 'bitcast':
                if it.ty[0] == 'vec' and it.ty[1] == it.x[1]:
                    return v
                raise Unsupported('vector bitcast')
            return [self.cast(it.op, x, ft[2], et[2]) for x in v]
        return self.cast(it.op, v, it.x, it.ty)

    def cast(self, op, v, ft, tt):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'bitcast' and isinstance(v, int) and tt[0] in ('double', 'float'):
                return self.coerce(v, tt)
            if op == 'inttoptr' and isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            if op == 'ptrtoint' and v is NULL:
                return 0
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.o is None:
                return v.off
            if op == 'bitcast' and tt[0] == 'i' and isinstance(v, Term) and v.op == 'c':
                if v.val == 0:
                    return 0
                fr = float(Fraction(v.val))
                if tt[1] == 64:
                    return struct.unpack('<Q', struct.pack('<d', fr))[0]
                return struct.unpack('<I', struct.pack('<f', fr))[0]
            return v
        if op == 'fptrunc':
            return v if v.op == 'c' or self.unit.float_ok else tm.fn('f32', v)
        if op == 'fpext':
            return v
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, Cond):
                v = 1 if self.decide(v) else 0
            if isinstance(v, Ptr):
                if op == 'trunc' and isinstance(v.off, int) and tt[1] <= 4:
                    return v.off & ((1 << tt[1]) - 1)
                raise Unsupported('cast of pointer')
            if isinstance(v, Term):
                raise Unsupported('integer cast of float bits')
            fw, tw = ft[1], tt[1]
            if isinstance(v, int):
                if op == 'sext' and v >> (fw - 1):
                    v -= 1 << fw
                return v & ((1 << tw) - 1)
            v = bv(v, fw)
            if op == 'trunc':
                e = z3.Extract(tw - 1, 0, v)
            elif op == 'zext':
                e = z3.ZeroExt(tw - fw, v)
            else:
                e = z3.SignExt(tw - fw, v)
            e = z3.simplify(e)
            return e.as_long() if z3.is_bv_value(e) else e
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, Cond):
                v = 1 if self.decide(v) else 0
                if op == 'sitofp' and ft[1] == 1:
                    v = -v
                return const(v)
            if isinstance(v, int):
                if op == 'sitofp' and v >> (ft[1] - 1):
                    v -= 1 << ft[1]
                return const(v)
            return self.unit.int2real(v, op == 'sitofp')
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, Term) and v.op == 'c':
                f = Fraction(v.val)
                q = abs(f.numerator) // f.denominator
                if f < 0:
                    q = -q
                return q & ((1 << tt[1]) - 1)
            return self.unit.real2int(self, v, tt[1], op == 'fptosi')
        raise Unsupported(op)

    def op_extractvalue(self, it, regs):
        v = self.val(it.a, regs, it.ty)
        for i in it.x:
            if v is UNDEF:
                return UNDEF
            v = v[i]
        return v

    def op_insertvalue(self, it, regs):
        v = self.val(it.a[0], regs, it.ty)
        e = self.val(it.a[2], regs, it.a[1])
        if v is UNDEF:
            v = self.cval(('undef',), it.ty)

        def ins(v, idx):
            v = list(v)
            if len(idx) == 1:
                v[idx[0]] = e
            else:
                v[idx[0]] = ins(v[idx[0]], idx[1:])
            return v
        return ins(v, it.x)

    def op_extractelement(self, it, regs):
        v = self.val(it.a[0], regs, it.ty)
        i = self.val(it.a[1], regs, ('i', 64))
        return UNDEF if v is UNDEF else v[i]

    def op_insertelement(self, it, regs):
        v = self.val(it.a[0], regs, it.ty)
        if v is UNDEF:
            v = [UNDEF] * it.ty[1]
        v = list(v)
        v[self.val(it.a[2], regs, ('i', 64))] = self.val(it.a[1], regs, it.ty[2])
        return v

    def op_shufflevector(self, it, regs):
        a, b, mt, mk = it.a
        a = self.val(a, regs, it.ty)
        b = self.val(b, regs, it.ty)
        n = it.ty[1]
        if a is UNDEF:
            a = [UNDEF] * n
        if b is UNDEF:
            b = [UNDEF] * n
        idx = self.val(mk, regs, mt)
        both = list(a) + list(b)
        return [UNDEF if i is UNDEF else both[i] for i in idx]

    def op_freeze(self, it, regs):
        return self.val(it.a, regs, it.ty)

    def op_landingpad(self, it, regs):
        s = it.a
        e = self.exn
        sel = 0
        for m in re.finditer(r'catch ptr (null|@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', s):
            if m.group(1) == 'null':
                sel = 1
                break
            if self.derives(e.tinfo, m.group(1)):
                sel = self.typeid(m.group(1))
                break
        if sel == 0 and 'cleanup' not in s:
            raise e
        return [e.obj, sel]

    def typeid(self, nm):
        ids = self.hooks.setdefault('typeids', {})
        return ids.setdefault(nm, len(ids) + 2)

    def derives(self, ti, nm):
        seen = 0
        while ti is not None and seen < 10:
            if ti == nm:
                return True
            seen += 1
            if ti not in self.mod.globals:
                return False
            try:
                ty, init = self.mod.global_init(ti)
            except Exception:
                return False
            if init is None or init[0] != 'agg' or len(init[1]) < 3:
                return False
            c = init[1][2][1]
            ti = c[1] if c[0] == 'g' else None
        return False

    def op_atomicrmw(self, it, regs):
        k, q, v = it.a
        q = self.val(q, regs, PTR)
        v = self.val(v, regs, it.ty)
        old = self.load(q, it.ty)
        if k == 'xchg':
            new = v
        else:
            new = self.binint(k, old, v, it.ty[1])
        self.store(q, new, it.ty)
        return old

    def op_cmpxchg(self, it, regs):
        q, c, n = it.a
        q = self.val(q, regs, PTR)
        old = self.load(q, it.ty)
        ok = self.decide(self.icmp('eq', old, self.val(c, regs, it.ty), it.ty))
        if ok:
            self.store(q, self.val(n, regs, it.ty), it.ty)
        return [old, int(ok)]

    def op_unsupported(self, it, regs):
        raise Unsupported('instruction ' + it.a)

    def op_asm(self, it, regs):
        if 'asm sideeffect ""' in it.a or 'asm ""' in it.a:
            return UNDEF
        raise Unsupported('inline asm')

    # ---------------------------------------------------------------- helpers for contracts
    def rd(self, p, n, size=8, ty=DOUBLE):
        v = [self.load(Ptr(p.o, p.off + i * size), ty) for i in range(n)]
        if any(x is UNDEF for x in v):
            raise UndefUse('argument of a function under contract is not initialised')
        return v

    def wr(self, p, vals, size=8, ty=DOUBLE):
        for i, v in enumerate(vals):
            self.store(Ptr(p.o, p.off + i * size), v, ty)

    def newvar(self, base):
        self.fresh += 1
        return tm.var('%s!%d' % (base, self.fresh))

    OPS = {}


def bv(a, w):
    return z3.BitVecVal(a, w) if isinstance(a, int) else a


import ir as _ir
for _o in _ir.BINOPS:
    Exec.OPS[_o] = Exec.op_bin
for _o in _ir.CASTS:
    Exec.OPS[_o] = Exec.op_cast
for _o in ('alloca', 'load', 'store', 'gep', 'select', 'fcmp', 'icmp', 'fneg', 'extractvalue', 'insertvalue',
           'extractelement', 'insertelement', 'shufflevector', 'freeze', 'landingpad', 'atomicrmw', 'cmpxchg',
           'unsupported', 'asm', 'call'):
    Exec.OPS[_o] = getattr(Exec, 'op_' + _o)
