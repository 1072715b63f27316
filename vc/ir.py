"""Parser for textual LLVM IR (LLVM 18, opaque pointers).  Function bodies are parsed on demand."""
import re
import struct

TOK = re.compile(r'''
   c"(?:[^"\\]|\\..)*" | "(?:[^"\\]|\\.)*" |
   [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+) |
   ![-a-zA-Z$._0-9]* | \#\d+ | \$[-a-zA-Z$._0-9]+ |
   0x[HKLMR]?[0-9A-Fa-f]+ |
   [-+]?\d+\.\d*(?:[eE][-+]?\d+)? | [-+]?\d+ |
   [a-zA-Z_][a-zA-Z_0-9.]* |
   \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---- types: tuples -------------------------------------------------------------------------
# ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('st',(t..),packed)
# ('named',name) ('label',) ('meta',) ('fn',...)
DOUBLE = ('double',)
FLOAT = ('float',)
PTR = ('ptr',)
VOID = ('void',)
PARAM_ATTRS = set('''noundef nonnull nocapture readonly readnone writeonly signext zeroext inreg noalias returned
 immarg swiftself swifterror nest allocptr allocalign nofree writable dead_on_unwind noundef dead_on_return
 captures'''.split())


class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


class Function:
    __slots__ = ('name', 'ret', 'params', 'body', 'blocks', 'entry', 'vararg', 'demangled', 'parsed', 'linkage')

    def __init__(self, name, ret, params, body, vararg):
        self.name, self.ret, self.params, self.body, self.vararg = name, ret, params, body, vararg
        self.blocks = None
        self.parsed = False
        self.demangled = name


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'text')

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.dst, self.op, self.ty, self.a, self.x)


class P:
    """token-stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        r = self.next()
        if r != s:
            raise SyntaxError('expected %r got %r in %s' % (s, r, ' '.join(self.t[:60])))

    def type(self):
        t = self.next()
        if t == 'double':
            r = DOUBLE
        elif t == 'float':
            r = FLOAT
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif t == 'void':
            r = VOID
        elif t == 'label':
            r = ('label',)
        elif t == 'metadata':
            r = ('meta',)
        elif t == 'token':
            r = ('token',)
        elif t in ('x86_fp80', 'half', 'fp128'):
            r = (t,)
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t[0] == '%':
            r = ('named', t)
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('st', tuple(self.typelist('}')), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('st', tuple(self.typelist('}')), False)
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise SyntaxError('type? %r in %s' % (t, ' '.join(self.t[:40])))
        while self.peek() == '(' and self.m.fnty_ok:
            # function type
            self.next()
            args = []
            while not self.accept(')'):
                if self.accept('...'):
                    pass
                else:
                    args.append(self.type())
                self.accept(',')
            r = ('fn', r, tuple(args))
        return r

    def typelist(self, close):
        out = []
        while not self.accept(close):
            out.append(self.type())
            self.accept(',')
        return out

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t in ('align',):
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                       'inalloca', 'preallocated', 'nofpclass', 'range', 'initializes', 'memory', 'vscale_range'):
                self.next()
                if self.peek() == '(':
                    d = 0
                    while True:
                        k = self.next()
                        if k == '(':
                            d += 1
                        elif k == ')':
                            d -= 1
                            if d == 0:
                                break
            else:
                return

    def value(self, ty):
        """operand of the given type -> ('r',name) ('g',name) ('k',const) ..."""
        t = self.peek()
        if t[0] == '%':
            self.next()
            return ('r', t)
        return fold(self.const(ty), ty)

    def const(self, ty):
        t = self.next()
        if t[0] == '@':
            return ('g', t)
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'none':
            return ('undef',)
        if t.startswith('c"'):
            return ('str', unescape(t[2:-1]))
        if t == '[':
            out = []
            while not self.accept(']'):
                et = self.type()
                out.append((et, self.const(et)))
                self.accept(',')
            return ('agg', out)
        if t == '{':
            out = []
            while not self.accept('}'):
                et = self.type()
                out.append((et, self.const(et)))
                self.accept(',')
            return ('agg', out)
        if t == '<':
            if self.peek() == '{':
                self.next()
                out = []
                while not self.accept('}'):
                    et = self.type()
                    out.append((et, self.const(et)))
                    self.accept(',')
                self.expect('>')
                return ('agg', out)
            out = []
            while not self.accept('>'):
                et = self.type()
                out.append((et, self.const(et)))
                self.accept(',')
            return ('agg', out)
        if t in ('getelementptr',):
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            if self.accept('inrange'):
                pass
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                while self.peek() in ('inrange',):
                    self.next()
                    if self.accept('('):
                        while not self.accept(')'):
                            self.next()
                ot = self.type()
                ops.append((ot, self.const(ot)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', bt, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            ot = self.type()
            v = self.const(ot)
            self.expect('to')
            nt = self.type()
            self.expect(')')
            return ('cast', t, ot, v, nt)
        if t in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.next()
            self.expect('(')
            at = self.type(); a = self.const(at); self.expect(',')
            bt = self.type(); b = self.const(bt); self.expect(')')
            return ('bin', t, at, a, b)
        if t in ('icmp', 'select', 'fcmp', 'insertvalue', 'extractvalue', 'blockaddress', 'dso_local_equivalent',
                 'no_cfi', 'splat', 'asm'):
            if t == 'splat':
                self.expect('('); et = self.type(); v = self.const(et); self.expect(')')
                return ('splat', et, v)
            raise SyntaxError('const expr ' + t)
        if ty[0] in ('double', 'float'):
            return ('fp', parse_fp(t))
        if ty[0] == 'x86_fp80':
            return ('undef',)
        return ('int', int(t))


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.o is other.o and self.off == other.off

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((id(self.o), self.off if isinstance(self.off, int) else id(self.off)))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (getattr(self.o, 'name', self.o), self.off)


NULL = Ptr(None, 0)


def fold(k, ty):
    """constants that need no module context are evaluated at parse time"""
    if k[0] == 'int':
        return ('c', k[1] & ((1 << ty[1]) - 1)) if ty[0] == 'i' else ('k', k)
    if k[0] == 'fp':
        return ('c', fpconst(k[1], ty))
    if k[0] == 'null':
        return ('c', NULL)
    if k[0] == 'undef' and ty[0] in ('i', 'double', 'float', 'ptr'):
        return ('c', UNDEF)
    return ('k', k)


def fpconst(v, ty):
    import term
    if v != v or v in (float('inf'), float('-inf')):
        return term.var('$nan' if v != v else '$inf' if v > 0 else '$ninf')
    if ty[0] == 'float':
        # a float literal widened to double: use the shortest decimal that rounds to the same float
        import struct as st
        d = v
        for prec in range(1, 10):
            c = float('%.*e' % (prec - 1, v))
            try:
                if st.unpack('f', st.pack('f', c))[0] == v:
                    d = c
                    break
            except OverflowError:
                break
        return term.T(term.recover(d))
    return term.T(term.recover(v))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i]) & 255); i += 1
    return bytes(out)


def parse_fp(t):
    if t.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
    return float(t)


DEF_RE = re.compile(r'^define .*\{$', re.M)


class Module:
    def __init__(self, text):
        self.fnty_ok = False
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.sizecache = {}
        i = 0
        lines = text.split('\n')
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._header(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types[nm] = rest
            elif l.startswith('@'):
                self._global(l)
            i += 1

    def _global(self, l):
        nm = re.match(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', l).group(0)
        rest = l[len(nm) + 3:]
        if re.match(r'(.*\s)?alias ', rest) and 'alias' in rest.split('ptr')[0]:
            m = re.findall(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
            self.aliases[nm] = m[-1]
            return
        m = re.search(r'\b(global|constant) ', rest)
        if not m:
            return
        ext = re.search(r'\bexternal\b', rest[:m.start()]) or 'extern_weak' in rest[:m.start()]
        self.globals[nm] = Global(nm, None, None if ext else rest[m.end():], m.group(1) == 'constant')
        if ext:
            self.globals[nm].ty = rest[m.end():]

    def global_init(self, nm):
        g = self.globals[nm]
        if g.init is None:
            p = P(tokenize(g.ty), self) if isinstance(g.ty, str) else None
            return (p.type() if p else None), None
        if isinstance(g.init, str):
            p = P(tokenize(g.init), self)
            ty = p.type()
            c = p.const(ty)
            g.ty, g.init = ty, c
        return g.ty, g.init

    def _header(self, l, body):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
        name = m.group(1)
        f = Function(name, None, l, body, False)
        self.funcs[name] = f

    def parse(self, f):
        if f.parsed:
            return f
        l = f.params
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
        pre = l[len('define '):m.start()]
        p = P(tokenize(pre), self)
        # skip linkage etc. until a type parses
        skip = {'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'hidden', 'noundef', 'zeroext', 'signext', 'private',
                'external', 'local_unnamed_addr', 'unnamed_addr', 'available_externally', 'noalias', 'nonnull', 'fastcc', 'weak',
                'ccc', 'protected', 'linkonce', 'inreg', 'coldcc', 'comdat'}
        while True:
            p.skip_attrs()
            if p.peek() in skip:
                p.next()
            else:
                break
        f.ret = p.type()
        q = P(tokenize(l[m.end():]), self)
        params = []
        while not q.accept(')'):
            if q.accept('...'):
                f.vararg = True
                continue
            ty = q.type()
            at = q.i
            q.skip_attrs()
            nm = q.next() if q.peek() and q.peek()[0] == '%' else None
            params.append((ty, nm))
            q.accept(',')
        f.params = params
        nparam = sum(1 for _, nm in params if nm is None)
        blocks = {}
        # entry label: explicit number after params or "entry"
        cur = None
        insts = None
        cnt = 0
        joined = []
        buf = ''
        for ln in f.body:
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if buf:
                buf += ' ' + s
                if buf.count('[') <= buf.count(']') and not s.startswith(('i', 'to label', 'catch', 'cleanup', 'filter')) or s == ']':
                    joined.append(buf); buf = ''
                continue
            if s.startswith('switch ') or ' = switch' in s:
                if ']' not in s:
                    buf = s
                    continue
            if s.startswith(('to label', 'catch ', 'cleanup', 'filter ')) and joined:
                joined[-1] += ' ' + s
                continue
            joined.append(s)
        entry = None
        for s in joined:
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', s)
            if m and not s.startswith('"') or (m and s[m.end() - 1] == ':'):
                cur = '%' + m.group(1)
                insts = []
                blocks[cur] = insts
                if entry is None:
                    entry = cur
                continue
            if cur is None:
                # unlabelled entry block: numbered after unnamed params
                cur = '%entry.anon'
                insts = []
                blocks[cur] = insts
                entry = cur
            k = s.find(', !')
            if k > 0:
                s = s[:k]
            it = self.inst(s)
            if it is not None:
                insts.append(it)
        f.blocks = blocks
        f.entry = entry
        f.parsed = True
        f.body = None
        return f

    def inst(self, s):
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('call', 'invoke'):
            return self.call(op, dst, p, s)
        if op == 'br':
            if p.accept('label'):
                return Inst('br', None, None, p.next())
            ty = p.type()
            c = p.value(ty)
            p.expect(','); p.expect('label'); a = p.next()
            p.expect(','); p.expect('label'); b = p.next()
            return Inst('condbr', None, None, (c, a, b))
        if op == 'switch':
            ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t2 = p.type(); c = p.const(t2); p.expect(','); p.expect('label')
                cases.append((c[1], p.next()))
            return Inst('switch', None, ty, (v, d, cases))
        if op == 'ret':
            ty = p.type()
            return Inst('ret', None, ty, None if ty == VOID else p.value(ty))
        if op in ('unreachable',):
            return Inst('unreachable', None, None, None)
        if op == 'resume':
            return Inst('resume', None, None, None)
        if op == 'landingpad':
            ty = p.type()
            return Inst('landingpad', dst, ty, s)
        if op == 'alloca':
            p.accept('inalloca')
            ty = p.type()
            n = None
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return Inst('alloca', dst, ty, n)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
            return Inst('load', dst, ty, v)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type(); v = p.value(ty); p.expect(','); pt = p.type(); q = p.value(pt)
            return Inst('store', None, ty, (v, q))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type(); p.expect(',')
            ops = []
            while True:
                ot = p.type()
                ops.append((ot, p.value(ot)))
                if not p.accept(','):
                    break
            return Inst('gep', dst, bt, ops)
        if op == 'phi':
            ops = []
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); b = p.next(); p.expect(']')
                ops.append((v, b))
                if not p.accept(','):
                    break
            return Inst('phi', dst, ty, {b: v for v, b in ops})
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            ct = p.type(); c = p.value(ct); p.expect(','); ty = p.type(); a = p.value(ty); p.expect(',')
            t2 = p.type(); b = p.value(t2)
            return Inst('select', dst, ty, (ct, c, a, b))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FMF or p.peek() == 'samesign':
                p.next()
            pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return Inst(op, dst, ty, (a, b), pred)
        if op in BINOPS:
            fl = []
            while p.peek() in FMF or p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.append(p.next())
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return Inst(op, dst, ty, (a, b), fl)
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            return Inst('fneg', dst, ty, p.value(ty))
        if op in CASTS:
            while p.peek() in FMF or p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ty = p.type(); v = p.value(ty); p.expect('to'); nt = p.type()
            return Inst(op, dst, nt, v, ty)
        if op == 'extractvalue':
            ty = p.type(); v = p.value(ty)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Inst(op, dst, ty, v, idx)
        if op == 'insertvalue':
            ty = p.type(); v = p.value(ty); p.expect(','); et = p.type(); e = p.value(et)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Inst(op, dst, ty, (v, et, e), idx)
        if op == 'extractelement':
            ty = p.type(); v = p.value(ty); p.expect(','); it = p.type(); i = p.value(it)
            return Inst(op, dst, ty, (v, i))
        if op == 'insertelement':
            ty = p.type(); v = p.value(ty); p.expect(','); et = p.type(); e = p.value(et); p.expect(',')
            it = p.type(); i = p.value(it)
            return Inst(op, dst, ty, (v, e, i))
        if op == 'shufflevector':
            ty = p.type(); a = p.value(ty); p.expect(','); t2 = p.type(); b = p.value(t2); p.expect(',')
            mt = p.type(); mk = p.value(mt)
            return Inst(op, dst, ty, (a, b, mt, mk))
        if op == 'freeze':
            ty = p.type()
            return Inst('freeze', dst, ty, p.value(ty))
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p.accept('volatile')
            k = p.next(); pt = p.type(); q = p.value(pt); p.expect(','); ty = p.type(); v = p.value(ty)
            return Inst('atomicrmw', dst, ty, (k, q, v))
        if op == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'):
                p.next()
            pt = p.type(); q = p.value(pt); p.expect(','); ty = p.type(); c = p.value(ty); p.expect(',')
            t2 = p.type(); n = p.value(t2)
            return Inst('cmpxchg', dst, ty, (q, c, n))
        return Inst('unsupported', dst, None, s)

    def call(self, op, dst, p, s):
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.skip_attrs()
        while p.peek() in ('noundef', 'zeroext', 'signext', 'noalias', 'nonnull') or p.peek() in FMF:
            p.next()
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':
            # vararg / function type
            d = 0
            while True:
                k = p.next()
                if k == '(':
                    d += 1
                elif k == ')':
                    d -= 1
                    if d == 0:
                        break
        if p.peek() == 'asm':
            return Inst('asm', dst, rt, s)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            if ty == ('meta',):
                d = 0
                while p.peek() not in (',', ')') or d:
                    k = p.next()
                    if k == '(':
                        d += 1
                    elif k == ')':
                        d -= 1
                args.append((ty, None))
            else:
                p.skip_attrs()
                args.append((ty, p.value(ty)))
            p.accept(',')
        x = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next(); p.expect('label'); a = p.next(); p.expect('unwind'); p.expect('label'); b = p.next()
            x = (a, b)
        return Inst('call' if op == 'call' else 'invoke', dst, rt, (callee, args), x)

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            t = self.types[ty[1]]
            if isinstance(t, str):
                t = P(tokenize(t), self).type()
                self.types[ty[1]] = t
            ty = t
        return ty

    def size_align(self, ty):
        r = self.sizecache.get(ty)
        if r:
            return r
        k = ty[0]
        if k == 'named':
            r = self.size_align(self.resolve(ty))
        elif k == 'i':
            n = (ty[1] + 7) // 8
            b = 1
            while b < n:
                b *= 2
            r = (b, min(b, 16))
        elif k == 'double' or k == 'ptr':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'arr':
            s, a = self.size_align(ty[2])
            r = (s * ty[1], a)
        elif k == 'vec':
            s, a = self.size_align(ty[2])
            t = s * ty[1]
            b = 1
            while b < t:
                b *= 2
            r = (b, b)
        elif k == 'st':
            off, al = 0, 1
            for t in ty[1]:
                s, a = self.size_align(t)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            r = (1, 1)
        self.sizecache[ty] = r
        return r

    def field(self, ty, i):
        """(offset, type) of field i of a struct type"""
        ty = self.resolve(ty)
        off = 0
        for j, t in enumerate(ty[1]):
            s, a = self.size_align(t)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, t
            off += s


FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
