"""Trusted contracts of functions outside /repo (libm, C++ runtime, allocation, logging, I/O streams)."""
import re
from fractions import Fraction

import z3
import term as tm
from term import ZERO, ONE, const
from ir import UNDEF, Ptr, NULL, DOUBLE, PTR
from symex import Unsupported, PathEnd, CppThrow, MemError, UndefUse, Cond, And, Or, lt, le, eq, ne, bv

TABLE = {}
PATTERNS = []


def ext(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def nm(n):
    return '@' + n


def dom(ex, kind, t):
    if t.op != 'c':
        ex.defined.append((kind, t, len(ex.facts.conds), ex.where()))


def f1(name, kind=None):
    def h(ex, a, rt, n):
        v = a[0][1]
        if isinstance(v, list):
            return [UNDEF if x is UNDEF else tm.fn(name, x) for x in v]
        if v is UNDEF:
            return UNDEF
        if kind:
            dom(ex, kind, v)
        return tm.fn(name, v)
    return h


for _n in ('sin', 'cos', 'exp', 'atan', 'sinh', 'cosh', 'tanh'):
    for _s in (_n, _n + 'f', _n + 'l', 'llvm.%s.f64' % _n, 'llvm.%s.f32' % _n):
        TABLE[nm(_s)] = f1(_n)
for _n in ('acos', 'asin'):
    for _s in (_n, _n + 'f'):
        TABLE[nm(_s)] = f1(_n, 'unit')
for _s in ('sqrt', 'sqrtf', 'sqrtl', 'llvm.sqrt.f64', 'llvm.sqrt.f32', 'llvm.sqrt.v2f64'):
    TABLE[nm(_s)] = f1('sqrt', 'nonneg')
for _s in ('log', 'logf', 'llvm.log.f64', 'llvm.log.f32'):
    TABLE[nm(_s)] = f1('log', 'pos')


@ext('@fabs', '@fabsf', '@fabsl', '@llvm.fabs.f64', '@llvm.fabs.f32')
def h_fabs(ex, a, rt, n):
    v = a[0][1]
    if v is UNDEF:
        return UNDEF
    if v.op == 'c' or v.op in ('sqrt', 'abs'):
        return tm.absv(v)
    # fork on the sign when it is already known, otherwise keep |v| symbolic
    r = ex.settled(le(ZERO, v))
    if r is True:
        return v
    r = ex.settled(le(v, ZERO))
    if r is True:
        return tm.neg(v)
    if ex.unit.fork_abs:
        return v if ex.decide(le(ZERO, v)) else tm.neg(v)
    return tm.absv(v)


@ext('@llvm.fmuladd.f64', '@llvm.fma.f64', '@fma', '@llvm.fmuladd.f32')
def h_fma(ex, a, rt, n):
    x, y, z = (k[1] for k in a)
    if UNDEF in (x, y, z):
        return UNDEF
    return tm.add(tm.mul(x, y), z)


@ext('@tan', '@tanf')
def h_tan(ex, a, rt, n):
    v = a[0][1]
    c = tm.cos(v)
    dom(ex, 'div', c)
    return tm.div(tm.sin(v), c)


@ext('@atan2', '@atan2f')
def h_atan2(ex, a, rt, n):
    y, x = a[0][1], a[1][1]
    if y is UNDEF or x is UNDEF:
        return UNDEF
    return tm.fn('atan2', y, x)


def h_atan(ex, a, rt, n):
    v = a[0][1]
    if v is UNDEF:
        return UNDEF
    if v.op == '/':
        # arctan(y/x) is the polar angle of (y,x) or (-y,-x), whichever has x > 0
        y, x = v.args
        if ex.decide(lt(ZERO, x)):
            return tm.fn('atanp', y, x)
        return tm.fn('atanp', tm.neg(y), tm.neg(x))
    return tm.fn('atan', v)


for _s in ('atan', 'atanf', 'atanl'):
    TABLE[nm(_s)] = h_atan


@ext('@_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm')
def h_str_create(ex, a, rt, n):
    k = ex.load(a[1][1], ('i', 64))
    if not isinstance(k, int):
        raise Unsupported('string of symbolic size in ' + ex.where())
    return Ptr(ex.new_obj('heap', k + 1, 'heap'), 0)


@ext('@hypot')
def h_hypot(ex, a, rt, n):
    return tm.sqrt(a[0][1] * a[0][1] + a[1][1] * a[1][1])


@ext('@pow', '@llvm.pow.f64', '@powf')
def h_pow(ex, a, rt, n):
    x, y = a[0][1], a[1][1]
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if y.op == 'c':
        f = Fraction(y.val)
        if f.denominator == 1 and abs(f.numerator) <= 12:
            if f.numerator < 0:
                dom(ex, 'div', x)
            return x ** f.numerator
        if f == Fraction(1, 2):
            dom(ex, 'nonneg', x)
            return tm.sqrt(x)
    if x.op == 'c' and y.op == 'c' and x.val > 0:
        return tm.T(float(Fraction(x.val)) ** float(Fraction(y.val)))
    return tm.fn('pow', x, y)


@ext('@llvm.powi.f64.i32')
def h_powi(ex, a, rt, n):
    k = a[1][1]
    if k >= 1 << 31:
        k -= 1 << 32
    return a[0][1] ** k


@ext('@fmax', '@llvm.maxnum.f64')
def h_fmax(ex, a, rt, n):
    x, y = a[0][1], a[1][1]
    return x if ex.decide(le(y, x)) else y


@ext('@fmin', '@llvm.minnum.f64')
def h_fmin(ex, a, rt, n):
    x, y = a[0][1], a[1][1]
    return x if ex.decide(le(x, y)) else y


@ext('@llvm.copysign.f64', '@copysign')
def h_copysign(ex, a, rt, n):
    x, y = a[0][1], a[1][1]
    m = tm.absv(x)
    return tm.neg(m) if ex.decide(lt(y, 0)) else m


@ext('@floor', '@llvm.floor.f64', '@floorf')
def h_floor(ex, a, rt, n):
    v = a[0][1]
    if v.op == 'c':
        f = Fraction(v.val)
        return const(f.numerator // f.denominator)
    return tm.fn('floor', v)


@ext('@ceil', '@llvm.ceil.f64')
def h_ceil(ex, a, rt, n):
    v = a[0][1]
    if v.op == 'c':
        f = Fraction(v.val)
        return const(-((-f.numerator) // f.denominator))
    return tm.neg(tm.fn('floor', tm.neg(v)))


@pat(r'^@llvm\.is\.fpclass')
def h_fpclass(ex, a, rt, n):
    return 0


@ext('@__isnan', '@isnan', '@__isinf', '@isinf')
def h_isnan(ex, a, rt, n):
    return 0


@pat(r'^@llvm\.(lifetime|dbg|experimental\.noalias|invariant|donothing|var\.annotation|assume|prefetch|stackrestore)')
def h_nop(ex, a, rt, n):
    return None


@pat(r'^@llvm\.stacksave')
def h_ss(ex, a, rt, n):
    return NULL


@pat(r'^@llvm\.expect|^@llvm\.launder|^@llvm\.strip')
def h_first(ex, a, rt, n):
    return a[0][1]


@pat(r'^@llvm\.(memcpy|memmove)|^@memcpy$|^@memmove$')
def h_memcpy(ex, a, rt, n):
    ex.memcpy(a[0][1], a[1][1], a[2][1])
    return a[0][1]


@pat(r'^@llvm\.memset|^@memset$')
def h_memset(ex, a, rt, n):
    ex.memset(a[0][1], a[1][1], a[2][1])
    return a[0][1]


@ext('@memcmp', '@bcmp')
def h_memcmp(ex, a, rt, n):
    p, q, k = (x[1] for x in a)
    for i in range(k):
        x, y = p.o.byte(p.off + i), q.o.byte(q.off + i)
        if x is None or y is None:
            raise Unsupported('memcmp of symbolic data')
        if x != y:
            return (x - y) & 0xffffffff
    return 0


@ext('@strlen')
def h_strlen(ex, a, rt, n):
    p = a[0][1]
    i = 0
    while True:
        b = p.o.byte(p.off + i)
        if b is None:
            raise Unsupported('strlen of symbolic data')
        if b == 0:
            return i
        i += 1


@ext('@memchr')
def h_memchr(ex, a, rt, n):
    p, c, k = (x[1] for x in a)
    for i in range(k):
        b = p.o.byte(p.off + i)
        if b is None:
            raise Unsupported('memchr')
        if b == c & 255:
            return Ptr(p.o, p.off + i)
    return NULL


@ext('@_ZnwmRKSt9nothrow_t', '@_ZnamRKSt9nothrow_t', '@_Znwm', '@_Znam', '@malloc', '@_ZnwmSt11align_val_t')
def h_new(ex, a, rt, n):
    k = a[0][1]
    if not isinstance(k, int):
        raise Unsupported('allocation of symbolic size in ' + ex.where())
    if k > 1 << 28:
        ex.throw_std('@_ZTISt9bad_alloc')
    return Ptr(ex.new_obj('heap', k, 'heap'), 0)


@ext('@calloc')
def h_calloc(ex, a, rt, n):
    k = a[0][1] * a[1][1]
    o = ex.new_obj('heap', k, 'heap')
    o.bg.append((0, k, 0))
    return Ptr(o, 0)


@ext('@_ZdlPvRKSt9nothrow_t', '@_ZdaPvRKSt9nothrow_t', '@_ZdlPv', '@_ZdaPv', '@free', '@_ZdlPvm', '@_ZdaPvm', '@_ZdlPvSt11align_val_t', '@_ZdlPvmSt11align_val_t')
def h_del(ex, a, rt, n):
    p = a[0][1]
    if isinstance(p, Ptr) and p.o is not None:
        if p.o.freed:
            raise MemError('double free of %s in %s' % (p.o.name, ex.where()))
        p.o.freed = True
    return None


@ext('@__cxa_allocate_exception')
def h_cxa_alloc(ex, a, rt, n):
    return Ptr(ex.new_obj('exception', a[0][1], 'heap'), 0)


@ext('@__cxa_free_exception', '@__cxa_end_catch', '@__cxa_call_unexpected', '@__cxa_atexit', '@__cxa_guard_release',
     '@__cxa_guard_abort')
def h_cxa_nop(ex, a, rt, n):
    return 0


@ext('@__cxa_begin_catch', '@__cxa_get_exception_ptr')
def h_cxa_begin(ex, a, rt, n):
    return a[0][1]


@ext('@__cxa_guard_acquire')
def h_guard(ex, a, rt, n):
    p = a[0][1]
    k = ('guard', p.o.name if False else id(p.o))
    if ex.hooks.get(k):
        return 0
    ex.hooks[k] = True
    return 1


@ext('@__cxa_throw')
def h_throw(ex, a, rt, n):
    t = a[1][1]
    name = None
    if isinstance(t, Ptr) and t.o is not None:
        name = t.o.fn or t.o.name.split('#')[0]
    raise CppThrow(name, a[0][1])


@ext('@__cxa_rethrow')
def h_rethrow(ex, a, rt, n):
    raise ex.exn


@pat(r'^@llvm\.eh\.typeid\.for')
def h_typeid(ex, a, rt, n):
    t = a[0][1]
    return ex.typeid(t.o.fn or t.o.name.split('#')[0])


STD_THROW = {'length_error': '@_ZTISt12length_error', 'out_of_range': '@_ZTISt12out_of_range',
             'bad_alloc': '@_ZTISt9bad_alloc', 'logic_error': '@_ZTISt11logic_error',
             'invalid_argument': '@_ZTISt16invalid_argument', 'bad_cast': '@_ZTISt8bad_cast',
             'bad_function_call': '@_ZTISt17bad_function_call', 'runtime_error': '@_ZTISt13runtime_error'}


@pat(r'^@_ZSt\d+__throw_')
def h_stdthrow(ex, a, rt, n):
    for k, t in STD_THROW.items():
        if k in n:
            raise CppThrow(t, NULL)
    raise CppThrow('@_ZTISt9exception', NULL)


@ext('@abort', '@_ZSt9terminatev', '@__clang_call_terminate', '@exit', '@__assert_fail')
def h_abort(ex, a, rt, n):
    raise PathEnd('abort', n)


@ext('@__cxa_pure_virtual')
def h_pure(ex, a, rt, n):
    raise MemError('pure virtual call')


def _ovf(op, signed):
    def h(ex, a, rt, n):
        x, y = a[0][1], a[1][1]
        w = a[0][0][1]
        r = ex.binint({'add': 'add', 'sub': 'sub', 'mul': 'mul'}[op], x, y, w)
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                h_ = 1 << (w - 1)
                sx = x - (1 << w) if x >= h_ else x
                sy = y - (1 << w) if y >= h_ else y
                t = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[op]
                return [r, int(not (-h_ <= t < h_))]
            t = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            return [r, int(not (0 <= t < (1 << w)))]
        X, Y = bv(x, w), bv(y, w)
        f = {('add', False): lambda: z3.BVAddNoOverflow(X, Y, False), ('mul', False): lambda: z3.BVMulNoOverflow(X, Y, False),
             ('sub', False): lambda: z3.BVSubNoUnderflow(X, Y, False),
             ('add', True): lambda: z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)),
             ('mul', True): lambda: z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)),
             ('sub', True): lambda: z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))}[(op, signed)]()
        return [r, Cond('bv', z3.Not(f))]
    return h


for _o in ('add', 'sub', 'mul'):
    for _w in (8, 16, 32, 64):
        TABLE['@llvm.u%s.with.overflow.i%d' % (_o, _w)] = _ovf(_o, False)
        TABLE['@llvm.s%s.with.overflow.i%d' % (_o, _w)] = _ovf(_o, True)


@pat(r'^@llvm\.(umax|umin|smax|smin)\.')
def h_minmax(ex, a, rt, n):
    k = n.split('.')[1]
    x, y = a[0][1], a[1][1]
    c = ex.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], x, y, a[0][0])
    return x if ex.decide(c) else y


@pat(r'^@llvm\.is\.constant\.')
def h_isconst(ex, a, rt, n):
    return 0


@pat(r'^@llvm\.abs\.|^@abs$|^@labs$')
def h_iabs(ex, a, rt, n):
    x = a[0][1]
    w = a[0][0][1]
    if ex.decide(ex.icmp('slt', x, 0, a[0][0])):
        return ex.binint('sub', 0, x, w)
    return x


@pat(r'^@llvm\.usub\.sat')
def h_usubsat(ex, a, rt, n):
    x, y = a[0][1], a[1][1]
    if ex.decide(ex.icmp('ult', x, y, a[0][0])):
        return 0
    return ex.binint('sub', x, y, a[0][0][1])


@pat(r'^@llvm\.ctlz')
def h_ctlz(ex, a, rt, n):
    w = a[0][0][1]
    x = a[0][1]
    if not isinstance(x, int):
        raise Unsupported('ctlz')
    return w - x.bit_length()


@pat(r'^@llvm\.bswap')
def h_bswap(ex, a, rt, n):
    w = a[0][0][1]
    x = a[0][1]
    if isinstance(x, int):
        return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
    if z3.is_bv(x):
        return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
    raise Unsupported('bswap')


@pat(r'^@llvm\.vector\.reduce\.fadd|^@llvm\.vector\.reduce')
def h_vr(ex, a, rt, n):
    raise Unsupported('vector reduce')


# ---- by demangled name: logging, streams, strings used for messages (no influence on results)
DPATS = []


def dpat(rx):
    def d(f):
        DPATS.append((re.compile(rx), f))
        return f
    return d


@dpat(r'^log4cpp::|operator<<.*log4cpp')
def d_log(ex, a, rt, n):
    if rt == PTR:
        # a reference result: the stream itself (first pointer argument)
        return a[0][1] if a and a[0][0] == PTR else NULL
    if rt and rt[0] == 'i':
        return 0
    return None


@dpat(r'^(std::ostream|std::basic_ostream|std::basic_ios|std::ios_base|std::__ostream|std::operator<<|std::basic_string.*stream|std::.*ostringstream|std::.*stringstream|std::.*stringbuf)')
def d_ostream(ex, a, rt, n):
    if rt == PTR:
        return a[0][1] if a and a[0][0] == PTR else NULL
    if rt and rt[0] == 'i':
        return 0
    return None


def lookup(name, dem):
    h = TABLE.get(name)
    if h is not None:
        return h
    for rx, f in PATTERNS:
        if rx.search(name):
            return f
    if name.startswith('@llvm.'):
        return None
    return None


def lookup_demangled(dem):
    for rx, f in DPATS:
        if rx.search(dem):
            return f
    return None


@dpat(r'^std::(runtime_error|logic_error|invalid_argument|domain_error|length_error|out_of_range|range_error|overflow_error|underflow_error|exception|bad_alloc)::')
def d_stdexc(ex, a, rt, n):
    """constructors and destructors of the standard exceptions: no influence on results"""
    if rt == PTR:
        return NULL
    return None


@dpat(r'^std::__detail::_List_node_base::_M_hook')
def d_listhook(ex, a, rt, n):
    this, pos = a[0][1], a[1][1]
    prev = ex.load(Ptr(pos.o, pos.off + 8), PTR)
    ex.store(this, pos, PTR)
    ex.store(Ptr(this.o, this.off + 8), prev, PTR)
    ex.store(prev, this, PTR)
    ex.store(Ptr(pos.o, pos.off + 8), this, PTR)


@dpat(r'^std::__detail::_List_node_base::_M_unhook')
def d_listunhook(ex, a, rt, n):
    this = a[0][1]
    nx, pv = ex.load(this, PTR), ex.load(Ptr(this.o, this.off + 8), PTR)
    ex.store(pv, nx, PTR)
    ex.store(Ptr(nx.o, nx.off + 8), pv, PTR)
