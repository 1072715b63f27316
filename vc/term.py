"""Real-valued terms, exact polynomial normal forms and symbolic differentiation.

Terms are hash-consed DAG nodes over exact rationals.  A `Ctx` owns the atoms (variables,
square roots, inverses, trigonometric values) and the rewrite rules that are known to hold
(e.g. |q|^2 = 1, s*s = arg of a sqrt atom, sin^2 = 1-cos^2).
"""
from fractions import Fraction
import math

_tab = {}
_cnt = [0]


class Term:
    __slots__ = ('op', 'args', 'id', 'val')

    def __init__(self, op, args, val=None):
        self.op = op
        self.args = args
        self.val = val
        _cnt[0] += 1
        self.id = _cnt[0]

    # operator sugar for specifications
    def __add__(a, b): return add(a, T(b))
    def __radd__(a, b): return add(T(b), a)
    def __sub__(a, b): return sub(a, T(b))
    def __rsub__(a, b): return sub(T(b), a)
    def __mul__(a, b): return mul(a, T(b))
    def __rmul__(a, b): return mul(T(b), a)
    def __truediv__(a, b): return div(a, T(b))
    def __rtruediv__(a, b): return div(T(b), a)
    def __neg__(a): return neg(a)

    def __pow__(a, n):
        assert isinstance(n, int)
        if n < 0:
            return div(ONE, a ** (-n))
        r = ONE
        for _ in range(n):
            r = mul(r, a)
        return r

    def __repr__(self):
        return show(self, 6)


def show(t, depth=4):
    if t.op == 'c':
        return str(t.val)
    if t.op == 'v':
        return t.val
    if depth == 0:
        return '..'
    if t.op in '+*/':
        return '(' + (' %s ' % t.op).join(show(a, depth - 1) for a in t.args) + ')'
    if t.op == '~':
        return '-' + show(t.args[0], depth - 1)
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


def mk(op, args, val=None):
    key = (op, val) + tuple(a.id for a in args)
    r = _tab.get(key)
    if r is None:
        r = Term(op, args, val)
        _tab[key] = r
    return r


def const(v):
    if isinstance(v, float):
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = v.numerator
    return mk('c', (), v)


def var(name):
    return mk('v', (), name)


ZERO = const(0)
ONE = const(1)


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, float):
        x = recover(x)
        if isinstance(x, Term):
            return x
    return const(x)


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(Fraction(a.val) + b.val)
        if a.val == 0:
            return b
    elif b.op == 'c' and b.val == 0:
        return a
    return mk('+', (a, b))


def neg(a):
    if a.op == 'c':
        return const(-a.val)
    if a.op == '~':
        return a.args[0]
    return mk('~', (a,))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(Fraction(a.val) * b.val)
        if a.val == 0:
            return ZERO
        if a.val == 1:
            return b
        if a.val == -1:
            return neg(b)
    elif b.op == 'c':
        if b.val == 0:
            return ZERO
        if b.val == 1:
            return a
        if b.val == -1:
            return neg(a)
    return mk('*', (a, b))


def div(a, b):
    if b.op == 'c':
        if b.val == 0:
            return mk('/', (a, b))
        return mul(a, const(Fraction(1) / b.val))
    if a.op == 'c' and a.val == 0:
        return ZERO
    return mk('/', (a, b))


def fn(name, *args):
    args = tuple(T(a) for a in args)
    if name == 'sqrt' and args[0].op == 'c':
        v = Fraction(args[0].val)
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    if name == 'abs':
        if args[0].op == 'c':
            return const(abs(args[0].val))
        if args[0].op == '~':
            return fn('abs', args[0].args[0])
        if args[0].op in ('abs', 'sqrt'):
            return args[0]
    if name in ('sin', 'asin', 'atan') and args[0] is ZERO:
        return ZERO
    if name in ('sin', 'asin', 'atan') and args[0].op == '~':
        return neg(fn(name, args[0].args[0]))
    if name == 'cos' and args[0] is ZERO:
        return ONE
    if name == 'cos' and args[0].op == '~':
        return fn(name, args[0].args[0])
    if name in ('cos', 'sin') and args[0].op in ('asin', 'acos'):
        inner = args[0].args[0]
        if (name, args[0].op) in (('cos', 'acos'), ('sin', 'asin')):
            return inner
        return fn('sqrt', sub(ONE, mul(inner, inner)))
    if name in ('cos', 'sin') and args[0].op == 'atan2':
        y, x = args[0].args
        h = fn('sqrt', add(mul(x, x), mul(y, y)))
        return div(x if name == 'cos' else y, h)
    if name == 'atan2':
        y, x = args
        # a common positive factor does not change the direction
        for _ in range(4):
            if y.op == '/' and x.op == '/' and y.args[1] is x.args[1] and y.args[1].op in ('sqrt', 'abs', 'exp'):
                y, x = y.args[0], x.args[0]
            elif y.op == '*' and x.op == '*' and y.args[1] is x.args[1] and y.args[1].op == 'c' and y.args[1].val > 0:
                y, x = y.args[0], x.args[0]
            else:
                break
        args = (y, x)
    if name == 'acos' and args[0].op == 'c' and args[0].val in (0, 1, -1):
        return mul(const({0: Fraction(1, 2), 1: Fraction(0), -1: Fraction(1)}[args[0].val]), PI)
    if name == 'asin' and args[0].op == 'c' and args[0].val in (1, -1):
        return mul(const(Fraction(int(args[0].val), 2)), PI)
    if name == 'exp' and args[0] is ZERO:
        return ONE
    if name == 'log' and args[0] is ONE:
        return ZERO
    if name == 'atan2' and args[0] is ZERO and args[1].op == 'c' and args[1].val > 0:
        return ZERO
    return mk(name, args)


def sqrt(a): return fn('sqrt', a)
def sin(a): return fn('sin', a)
def cos(a): return fn('cos', a)
def absv(a): return fn('abs', a)


PI = var('$pi')

# --- recovering exact constants from doubles -----------------------------------------------
_rec = {}
_PIS = {}
for _n in (1, -1):
    for _d in (1, 2, 3, 4, 6, 8, 180):
        _PIS[math.pi * _n / _d] = (Fraction(_n, _d))
_PIS[2 * math.pi] = Fraction(2)
_PIS[-2 * math.pi] = Fraction(-2)


def recover(x, single=False):
    """exact value meant by a double literal: an integer/dyadic stays itself; a double that is the
    nearest one to p/q (q<=64), to a short decimal, or to a multiple of pi denotes that number."""
    k = (x, single)
    r = _rec.get(k)
    if r is not None:
        return r
    if x in _PIS:
        r = mul(const(_PIS[x]), PI)
    else:
        f = Fraction(x)
        if f.denominator <= (1 << 20):
            r = const(f)
        else:
            best = None
            for q in (3, 5, 6, 7, 9, 11, 12, 13, 15):
                p = round(f * q)
                if p != 0 and p / q == x:
                    best = Fraction(p, q)
                    break
            if best is None:
                d = repr(x)
                best = Fraction(d) if len(d.replace('-', '').replace('.', '')) <= 15 or 'e' in d else f
            r = const(best)
    _rec[k] = r
    return r


# --- differentiation --------------------------------------------------------------------------
def diff(t, x, memo=None):
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        pend = [a for a in n.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        memo[n.id] = _diff1(n, x, memo)
    return memo[t.id]


def _diff1(n, x, m):
    if n is x:
        return ONE
    op = n.op
    if op in 'cv':
        return ZERO
    a = n.args
    d = [m[k.id] for k in a]
    if all(k is ZERO for k in d):
        return ZERO
    if op == '+':
        return add(d[0], d[1])
    if op == '~':
        return neg(d[0])
    if op == '*':
        return add(mul(d[0], a[1]), mul(a[0], d[1]))
    if op == '/':
        return sub(div(d[0], a[1]), div(mul(a[0], d[1]), mul(a[1], a[1])))
    if op == 'sqrt':
        return div(d[0], mul(const(2), n))
    if op == 'sin':
        return mul(d[0], fn('cos', a[0]))
    if op == 'cos':
        return neg(mul(d[0], fn('sin', a[0])))
    if op == 'exp':
        return mul(d[0], n)
    if op == 'log':
        return div(d[0], a[0])
    if op == 'acos':
        return neg(div(d[0], sqrt(sub(ONE, mul(a[0], a[0])))))
    if op == 'asin':
        return div(d[0], sqrt(sub(ONE, mul(a[0], a[0]))))
    if op == 'atan':
        return div(d[0], add(ONE, mul(a[0], a[0])))
    if op in ('atan2', 'atanp'):
        y, xx = a
        return div(sub(mul(xx, d[0]), mul(y, d[1])), add(mul(xx, xx), mul(y, y)))
    if op == 'abs':
        return mul(d[0], div(a[0], n))
    raise ValueError('diff of ' + op)


def subst(t, mp, memo=None):
    """replace terms (dict id -> Term)."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        if n.id in mp:
            memo[n.id] = mp[n.id]
            stack.pop()
            continue
        pend = [a for a in n.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        if not n.args:
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n.op, [memo[a.id] for a in n.args], n.val)
    return memo[t.id]


def rebuild(op, a, val=None):
    if op == '+':
        return add(*a)
    if op == '~':
        return neg(a[0])
    if op == '*':
        return mul(*a)
    if op == '/':
        return div(*a)
    if val is not None:
        return mk(op, tuple(a), val)
    return fn(op, *a)


def free_vars(terms):
    seen = set()
    out = {}
    st = list(terms)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'v':
            out[n.val] = n
        st.extend(n.args)
    return out


# --- numeric evaluation -----------------------------------------------------------------------
INTHOOK = [None]


class NumEval:
    def __init__(self, env, mp=None, uf=None):
        self.env = env
        self.mp = mp            # mpmath context or None for floats
        self.memo = {}
        self.uf = uf or {}

    def __call__(self, t):
        memo = self.memo
        st = [t]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            pend = [a for a in n.args if a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            memo[n.id] = self._one(n, [memo[a.id] for a in n.args])
        return memo[t.id]

    def _one(self, n, a):
        op = n.op
        mp = self.mp
        M = mp if mp is not None else math
        if op == 'c':
            if mp is not None:
                v = Fraction(n.val)
                return mp.mpf(v.numerator) / v.denominator
            return float(n.val)
        if op == 'v':
            if n.val == '$pi':
                return mp.pi + 0 if mp is not None else math.pi
            v = self.env.get(n.val)
            if v is None:
                if n.val[:2] == '$i':
                    v = INTHOOK[0](n.val, self.env)
                else:
                    raise KeyError(n.val)
            return mp.mpf(v) if mp is not None else v
        try:
            if op == '+':
                return a[0] + a[1]
            if op == '~':
                return -a[0]
            if op == '*':
                return a[0] * a[1]
            if op == '/':
                return a[0] / a[1]
            if op == 'abs':
                return abs(a[0])
            if op == 'sqrt':
                if a[0] < 0:
                    return float('nan') if mp is None else mp.nan
                return M.sqrt(a[0])
            if op in self.uf:
                return self.uf[op](n, a)
            if ':' in op:
                import lapack
                return lapack.numeric(mp, op, a)
            if op == 'f32':
                import struct
                return M.mpf(struct.unpack('<f', struct.pack('<f', float(a[0])))[0]) if mp is not None else \
                    struct.unpack('<f', struct.pack('<f', a[0]))[0]
            if op == 'pow':
                return a[0] ** a[1]
            if op == 'atanp':
                return M.atan2(*a)
            if op in ('acos', 'asin') and abs(a[0]) > 1:
                return float('nan') if mp is None else mp.nan
            return getattr(M, op)(*a)
        except (ZeroDivisionError, ValueError, OverflowError):
            return float('nan') if mp is None else mp.nan


# --- polynomials --------------------------------------------------------------------------------
# dict: packed monomial (16 bits per variable index) -> coefficient (int or Fraction)
W = 16
MASK = (1 << W) - 1


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


class TooBig(Exception):
    pass


LIMIT = [400000]


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m0, c0), = a.items()
        return {m + m0: c * c0 for m, c in b.items()}
    if len(a) * len(b) > 40 * LIMIT[0]:
        raise TooBig()
    r = {}
    g = r.get
    bi = list(b.items())
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            r[m] = g(m, 0) + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT[0]:
        raise TooBig()
    return r


def norm_coeff(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Ctx:
    """atoms + rewrite rules"""

    def __init__(self):
        self.names = []          # index -> display name
        self.index = {}          # key -> index
        self.rules = {}          # var index -> list of (lm, [(idx,exp)], replacement poly)
        self.memo = {}           # term id -> poly
        self.kinds = []          # index -> ('v',term) / ('inv',poly) / ('sqrt',poly) / ...
        self.bases = []          # declared angle bases: list of atom-monomials (Term)
        self.rulecount = 0

    # -- atoms
    def atom(self, key, kind, name):
        i = self.index.get(key)
        if i is None:
            i = len(self.names)
            self.index[key] = i
            self.names.append(name)
            self.kinds.append(kind)
        return i

    def pvar(self, i):
        return {1 << (W * i): 1}

    def add_rule(self, lead, repl):
        """lead: list of (index, exp); repl: poly"""
        lm = 0
        for i, e in lead:
            lm += e << (W * i)
        best = max(i for i, e in lead)
        self.rules.setdefault(best, []).append((lm, lead, repl))
        self.rulecount += 1

    def add_relation(self, lead_term, repl_term):
        """lead_term: product of variables (monomial) ; rewrites to repl_term"""
        lp = self._poly_raw(lead_term)
        (m, c), = lp.items()
        rp = self.poly(repl_term)
        if c != 1:
            rp = pscale(rp, Fraction(1) / c)
        mv = self.mono_vars(m)
        if len(mv) == 1 and mv[0][1] == 2 and len(rp) > 1:
            # sqrt(rp) = |variable|
            if 'squares' not in self.__dict__:
                self.squares = {}
            lead = max(rp)
            f = abs(Fraction(rp[lead]))
            self.squares[self.keyof({k: norm_coeff(Fraction(v) / f) for k, v in rp.items()})] = (mv[0][0], f)
        self.add_rule(mv, rp)

    def mono_vars(self, m):
        out = []
        i = 0
        while m:
            e = m & MASK
            if e:
                out.append((i, e))
            m >>= W
            i += 1
        return out

    def _poly_raw(self, t):
        return self.poly(t)

    def reduce(self, p):
        """rewrite with the rules to a normal form"""
        if not self.rules:
            return p
        rules = self.rules
        todo = dict(p)
        out = {}
        # index of interesting vars
        rl = [r for v in rules.values() for r in v]
        checks = []
        for lm, lead, repl in rl:
            checks.append((lm, [(W * i, e) for i, e in lead], repl))
        steps = 0
        while todo:
            m, c = todo.popitem()
            hit = None
            for lm, lead, repl in checks:
                ok = True
                for sh, e in lead:
                    if ((m >> sh) & MASK) < e:
                        ok = False
                        break
                if ok:
                    hit = (lm, repl)
                    break
            if hit is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            steps += 1
            if steps > 3000000:
                raise TooBig()
            base = m - hit[0]
            for m2, c2 in hit[1].items():
                k = base + m2
                v = todo.get(k, 0) + c * c2
                if v:
                    todo[k] = v
                else:
                    todo.pop(k, None)
        return {m: norm_coeff(c) for m, c in out.items()}

    # -- conversion
    def poly(self, t):
        memo = self.memo
        st = [t]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            pend = [a for a in n.args if a.id not in memo]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            rc = self.rulecount
            r = self._conv(n)
            if self.rulecount != rc:
                # rules were added (new atom): memo was cleared; recompute children lazily
                memo[n.id] = self.reduce(r)
                continue
            memo[n.id] = r
        return memo[t.id]

    def _conv(self, n):
        memo = self.memo
        op = n.op
        if op == 'c':
            return {0: n.val} if n.val else {}
        if op == 'v':
            i = self.atom(('v', n.val), ('v', n), n.val)
            return self.reduce(self.pvar(i))
        a = [memo[k.id] for k in n.args]
        if op == '+':
            return padd(a[0], a[1])
        if op == '~':
            return pneg(a[0])
        if op == '*':
            return self.reduce(pmul(a[0], a[1]))
        if op == '/':
            return self.reduce(pmul(a[0], self.inverse(a[1])))
        if op == 'sqrt':
            return self.sqrt_poly(a[0])
        if op == 'abs':
            return self.abs_poly(a[0])
        if op in ('sin', 'cos'):
            return self.trig(op, a[0], n)
        return self.reduce(self.pvar(self.func_atom(op, a, n)))

    def keyof(self, p):
        return tuple(sorted(p.items()))

    def primitive(self, p):
        """(content, primitive poly) with deterministic sign"""
        lead = max(p)
        c = p[lead]
        return c, {m: norm_coeff(Fraction(v) / c) for m, v in p.items()}

    def inverse(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            (m, c), = p.items()
            r = {0: norm_coeff(Fraction(1) / c)}
            for i, e in self.mono_vars(m):
                k = self.kinds[i]
                if k[0] == 'inv':
                    base = k[1]
                elif k[0] == 'sqrt' :
                    # 1/s = s * 1/(s*s)
                    base = None
                    q = pmul(self.pvar(i), self.inverse(k[1]))
                    for _ in range(e):
                        r = self.reduce(pmul(r, q))
                    continue
                elif k[0] == 'abs':
                    # 1/|x| = |x| * 1/x * 1/x
                    iv = self.inverse(k[1])
                    q = self.reduce(pmul(self.pvar(i), self.reduce(pmul(iv, iv))))
                    for _ in range(e):
                        r = self.reduce(pmul(r, q))
                    continue
                else:
                    base = self.pvar(self.inv_atom({1 << (W * i): 1}))
                for _ in range(e):
                    r = self.reduce(pmul(r, base))
            return r
        # common monomial factor
        mons = list(p)
        g = self.mono_gcd(mons)
        if g:
            rest = {m - g: c for m, c in p.items()}
            return self.reduce(pmul(self.inverse({g: 1}), self.inverse(rest)))
        # p = A + B*s with s a sqrt atom and A, B free of s: rationalise 1/(A+Bs) = (A-Bs)/(A^2-B^2 s^2)
        c, pp = self.primitive(p)
        j = self.inv_atom(pp)
        return {1 << (W * j): norm_coeff(Fraction(1) / c)}

    def mono_gcd(self, mons):
        g = None
        for m in mons:
            d = dict(self.mono_vars(m))
            if g is None:
                g = d
            else:
                g = {i: min(e, d[i]) for i, e in g.items() if i in d}
            if not g:
                return 0
        return sum(e << (W * i) for i, e in g.items())

    def inv_atom(self, pp):
        key = ('inv', self.keyof(pp))
        i = self.index.get(key)
        if i is not None:
            return i
        i = self.atom(key, ('inv', pp), 'inv%d' % len(self.names))
        if len(pp) > 16:
            return i  # large denominators are cleared in is_zero only; rewriting with them would blow up
        # LM(pp)*inv -> 1 - (pp-LM)*inv ; choose the leading monomial as the largest packed one
        lead = max(pp)
        c = pp[lead]
        rest = {m: -v for m, v in pp.items() if m != lead}
        repl = padd({0: 1}, pmul(rest, self.pvar(i)))
        if c != 1:
            repl = pscale(repl, Fraction(1) / c)
        self.add_rule(self.mono_vars(lead) + [(i, 1)], self.reduce(repl))
        return i

    def sqrt_poly(self, p):
        if not p:
            return {}
        if len(p) == 1 and 0 in p:
            v = Fraction(p[0])
            if v > 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return {0: norm_coeff(Fraction(n, d))}
        # pull out a perfect-square content and even powers of atoms known to be positive
        c = None
        g = self.mono_gcd(list(p))
        out = {0: 1}
        if g:
            sq = 0
            for i, e in self.mono_vars(g):
                k = self.kinds[i]
                h = e // 2
                if h:
                    sq += (2 * h) << (W * i)
                    av = self.abs_poly(self.pvar(i))
                    for _ in range(h):
                        out = self.reduce(pmul(out, av))
            if sq:
                p = {m - sq: c for m, c in p.items()}
                if len(p) == 1 and 0 in p:
                    return self.reduce(pmul(out, self.sqrt_poly(p)))
        # sqrt(c/q) = sqrt(c q)/q  (c > 0 and the root exists, so q > 0)
        if len(p) == 1:
            (m, c), = p.items()
            mv = self.mono_vars(m)
            if len(mv) == 1 and mv[0][1] == 1 and self.kinds[mv[0][0]][0] == 'inv' and c > 0:
                q = self.kinds[mv[0][0]][1]
                if len(q) <= 16 and not any(self.kinds[i][0] == 'inv' for k in q for i, e in self.mono_vars(k)):
                    return self.reduce(pmul(out, pmul(self.pvar(mv[0][0]), self.sqrt_poly({k: norm_coeff(Fraction(v) * c) for k, v in q.items()}))))
        # is p a perfect square of a polynomial? (content-normalised leading-term test)
        rt = self.poly_sqrt(p)
        if rt is not None:
            return self.reduce(pmul(out, self.abs_poly(rt)))
        sq = getattr(self, 'squares', None)
        if sq and len(p) > 1:
            lead = max(p)
            f = abs(Fraction(p[lead]))
            hit = sq.get(self.keyof({k: norm_coeff(Fraction(v) / f) for k, v in p.items()}))
            if hit is not None:
                r = self.sqrt_poly({0: norm_coeff(f / hit[1])})
                return self.reduce(pmul(out, pmul(r, self.abs_poly(self.pvar(hit[0])))))
        # normalise square content of the coefficients
        lead = max(p)
        cc = Fraction(p[lead])
        n2, d2 = _square_part(cc.numerator), _square_part(cc.denominator)
        f = Fraction(n2, d2)
        if f != 1:
            p = {m: norm_coeff(Fraction(v) / (f * f)) for m, v in p.items()}
            out = pscale(out, f)
        key = ('sqrt', self.keyof(p))
        i = self.index.get(key)
        if i is None:
            i = self.atom(key, ('sqrt', p), 'sqrt%d' % len(self.names))
            self.add_rule([(i, 2)], p)
        return self.reduce(pmul(out, self.pvar(i)))

    def poly_sqrt(self, p):
        """exact square root of a polynomial, or None"""
        if len(p) > 40:
            return None
        if any(self.kinds[i][0] in ('inv',) for m in p for i, e in self.mono_vars(m)):
            return None
        lead = max(p)
        if any(e % 2 for i, e in self.mono_vars(lead)):
            return None
        c = Fraction(p[lead])
        if c <= 0:
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        half = sum((e // 2) << (W * i) for i, e in self.mono_vars(lead))
        r = {half: norm_coeff(Fraction(n, d))}
        lc = r[half]
        for _ in range(40):
            rest = padd(p, pneg(pmul(r, r)))
            if not rest:
                return r
            m = max(rest)
            dm = dict(self.mono_vars(m))
            q = m - half
            if q < 0 or any(dm.get(i, 0) < e for i, e in self.mono_vars(half)):
                return None
            if q in r or q >= half:
                return None
            r[q] = norm_coeff(Fraction(rest[m]) / (2 * lc))
        return None

    def nonneg_atom(self, i):
        k = self.kinds[i]
        return k[0] in ('sqrt', 'abs') or (k[0] == 'v' and k[1].val in self.pos)

    pos = frozenset()

    def abs_poly(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            out = {0: abs(c)}
            for i, e in self.mono_vars(m):
                if e % 2 == 0 or self.nonneg_atom(i):
                    f = {e << (W * i): 1}
                else:
                    key = ('abs', i)
                    j = self.index.get(key)
                    if j is None:
                        if self.kinds[i][0] == 'inv':
                            # |1/b| = 1/|b|
                            inner = self.abs_poly(self.kinds[i][1])
                            iv = self.inverse(inner)
                            f = iv
                            for _ in range(e - 1):
                                f = self.reduce(pmul(f, iv))
                            out = self.reduce(pmul(out, f))
                            continue
                        j = self.atom(key, ('abs', self.pvar(i)), 'abs(%s)' % self.names[i])
                        self.add_rule([(j, 2)], self.reduce({2 << (W * i): 1}))
                    f = {e << (W * j): 1}
                out = self.reduce(pmul(out, f))
            return out
        if all(c > 0 for c in p.values()) and all(
                e % 2 == 0 or self.nonneg_atom(i) for m in p for i, e in self.mono_vars(m)):
            return p
        if all(c < 0 for c in p.values()) and all(
                e % 2 == 0 or self.nonneg_atom(i) for m in p for i, e in self.mono_vars(m)):
            return pneg(p)
        c, pp = self.primitive(p)
        key = ('absp', self.keyof(pp))
        j = self.index.get(key)
        if j is None:
            j = self.atom(key, ('abs', pp), 'abs%d' % len(self.names))
            self.add_rule([(j, 2)], self.reduce(pmul(pp, pp)))
        return pscale(self.pvar(j), abs(c))

    def func_atom(self, op, a, n):
        key = (op,) + tuple(self.keyof(k) for k in a)
        return self.atom(key, (op, a, n), '%s#%d' % (op, len(self.names)))

    def declare_base(self, t):
        """declare an angle base: sin/cos of integer combinations of bases are expanded"""
        p = self.poly(t)
        self.bases.append(p)
        # order matters not

    def trig(self, op, p, n):
        if not p:
            return {} if op == 'sin' else {0: 1}
        comb = self.as_combination(p)
        if comb is None:
            # single atom keyed on the primitive part with sign
            lead = max(p)
            if p[lead] < 0:
                r = self.trig(op, pneg(p), None)
                return pneg(r) if op == 'sin' else r
            return self.trig_atom(op, p)
        # expand sum_k n_k * base_k
        s, c = {}, {0: 1}
        for k, bi in comb:
            s1, c1 = self.trig_multiple(bi, k)
            s, c = (padd(self.reduce(pmul(s, c1)), self.reduce(pmul(c, s1))),
                    padd(self.reduce(pmul(c, c1)), pneg(self.reduce(pmul(s, s1)))))
        return self.reduce(s if op == 'sin' else c)

    def trig_multiple(self, base, k):
        if base == 'pi2':     # multiples of pi/2
            k %= 4
            return [({}, {0: 1}), ({0: 1}, {}), ({}, {0: -1}), ({0: -1}, {})][k]
        if base == 'pi4':     # odd multiples of pi/4
            k %= 8
            h = pscale(self.sqrt_poly({0: 2}), Fraction(1, 2))
            return (h if k in (1, 3) else pneg(h)), (h if k in (1, 7) else pneg(h))
        b = self.bases[base]
        s0, c0 = self.trig_atom('sin', b), self.trig_atom('cos', b)
        if k < 0:
            s0 = pneg(s0)
            k = -k
        s, c = {}, {0: 1}
        for _ in range(k):
            s, c = (self.reduce(padd(pmul(s, c0), pmul(c, s0))),
                    self.reduce(padd(pmul(c, c0), pneg(pmul(s, s0)))))
        return s, c

    def as_combination(self, p):
        """write p as integer combination of the declared bases (+ multiples of pi/2)"""
        rest = dict(p)
        out = []
        pi = self.index.get(('v', '$pi'))
        if pi is not None:
            m = 1 << (W * pi)
            if m in rest:
                q = Fraction(rest[m]) * 2
                if q.denominator == 2:
                    out.append((int(q * 2), 'pi4'))
                elif q.denominator != 1:
                    return None
                else:
                    out.append((int(q), 'pi2'))
                del rest[m]
        for bi, b in enumerate(self.bases):
            if not rest:
                break
            lead = max(b)
            if lead in rest:
                k = Fraction(rest[lead]) / b[lead]
                if k.denominator != 1:
                    continue
                r2 = padd(rest, pscale(b, -k))
                if lead in r2:
                    continue
                rest = {m: c for m, c in r2.items() if c}
                out.append((int(k), bi))
        for m in list(rest):
            # multiples of arc functions are expanded too
            mv = self.mono_vars(m)
            if len(mv) == 1 and mv[0][1] == 1 and self.kinds[mv[0][0]][0] in ('acos', 'asin', 'atan2', 'atanp'):
                k = Fraction(rest[m])
                half = self.kinds[mv[0][0]][0] == 'atanp' and k.denominator == 2
                if k.denominator == 1 or half:
                    b = {m: Fraction(1, 2) if half else 1}
                    k = k * 2 if half else k
                    if b not in self.bases:
                        self.bases.append(b)
                    out.append((int(k), self.bases.index(b)))
                    del rest[m]
        if rest:
            return None
        return out

    def trig_atom(self, op, p):
        # special inner functions: sin(acos u), cos(asin u), sin/cos(atan2(y,x)) handled when p is one atom
        if len(p) == 1:
            (m, c), = p.items()
            mv = self.mono_vars(m)
            if c == Fraction(1, 2) and len(mv) == 1 and mv[0][1] == 1 and self.kinds[mv[0][0]][0] == 'atanp':
                # half of an angle in (-pi/2, pi/2): cos = sqrt((1+cos)/2) > 0, sin = sin/(2 cos(half))
                y, x = self.kinds[mv[0][0]][1]
                ih = self.inverse(self.sqrt_poly(self.reduce(padd(pmul(x, x), pmul(y, y)))))
                h = self.sqrt_poly(self.reduce(pscale(padd({0: 1}, self.reduce(pmul(x, ih))), Fraction(1, 2))))
                if op == 'cos':
                    return h
                return self.reduce(pscale(pmul(self.reduce(pmul(y, ih)), self.inverse(h)), Fraction(1, 2)))
            if c == 1 and len(mv) == 1 and mv[0][1] == 1:
                k = self.kinds[mv[0][0]]
                if k[0] == 'acos':
                    u = k[1][0]
                    return u if op == 'cos' else self.sqrt_poly(self.reduce(padd({0: 1}, pneg(pmul(u, u)))))
                if k[0] == 'asin':
                    u = k[1][0]
                    return u if op == 'sin' else self.sqrt_poly(self.reduce(padd({0: 1}, pneg(pmul(u, u)))))
                if k[0] in ('atan2', 'atanp'):
                    y, x = k[1]
                    h = self.sqrt_poly(self.reduce(padd(pmul(x, x), pmul(y, y))))
                    return self.reduce(pmul(x if op == 'cos' else y, self.inverse(h)))
        ks = ('sin', self.keyof(p))
        kc = ('cos', self.keyof(p))
        new = ks not in self.index
        # cos gets the smaller index so that sin^2 -> 1 - cos^2 decreases the (lex) monomial order
        j = self.atom(kc, ('cos', p), 'cos%d' % len(self.names))
        i = self.atom(ks, ('sin', p), 'sin%d' % len(self.names))
        if new:
            self.add_rule([(i, 2)], {0: 1, 2 << (W * j): -1})
        return self.reduce(self.pvar(i if op == 'sin' else j))

    def term_of(self, p):
        r = ZERO
        for m, c in sorted(p.items()):
            t = const(c)
            for i, e in self.mono_vars(m):
                t = mul(t, self.atom_term(i) ** e)
            r = add(r, t)
        return r

    def atom_term(self, i):
        k = self.kinds[i]
        if k[0] == 'v':
            return k[1]
        if k[0] == 'inv':
            return div(ONE, self.term_of(k[1]))
        if k[0] in ('sqrt', 'abs', 'sin', 'cos'):
            return fn(k[0], self.term_of(k[1]))
        return k[2]

    # -- zero test
    def is_zero(self, p):
        """True if the polynomial (over atoms) is identically zero given the rules, after clearing inverses"""
        p = self.reduce(p)
        if not p:
            return True
        for _ in range(60):
            invs = {}
            for m in p:
                for i, e in self.mono_vars(m):
                    if self.kinds[i][0] == 'inv':
                        invs[i] = max(invs.get(i, 0), e)
            if not invs:
                break
            # clear the most recently created inverse first (it may contain older ones)
            i = max(invs)
            d = invs[i]
            b = self.kinds[i][1]
            pw = [{0: 1}]
            for _k in range(d):
                pw.append(pmul(pw[-1], b))
            q = {}
            buckets = {}
            for m, c in p.items():
                e = (m >> (W * i)) & MASK
                buckets.setdefault(e, {})[m - (e << (W * i))] = c
            for e, bp in buckets.items():
                q = padd(q, pmul(bp, pw[d - e]))
            p = self.reduce(q)
            if not p:
                return True
        return not p

    def showp(self, p, n=8):
        out = []
        for m, c in list(p.items())[:n]:
            out.append('%s*%s' % (c, '*'.join('%s^%d' % (self.names[i], e) if e > 1 else self.names[i]
                                              for i, e in self.mono_vars(m)) or '1'))
        if len(p) > n:
            out.append('... (%d terms)' % len(p))
        return ' + '.join(out)


def _square_part(n):
    n = abs(n)
    r = 1
    f = 2
    while f * f <= n and f < 200:
        while n % (f * f) == 0:
            r *= f
            n //= f * f
        f += 1
    k = math.isqrt(n)
    if n > 1 and k * k == n:
        r *= k
    return r
