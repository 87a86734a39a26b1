"""Reader for the textual LLVM IR that clang-18 emits.

Functions are parsed lazily (on first call).  Nothing is dropped: an instruction
the reader does not know raises IRError when the function is first entered."""

import re
import struct


class IRError(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?))
  | (?P<dots>\.\.\.)
  | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            nl = s.find('\n', pos)
            pos = n if nl < 0 else nl
            continue
        m = TOK.match(s, pos)
        if not m:
            raise IRError('token: ' + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k in ('loc', 'glob') and t[1] == '"':
            t = t[0] + unescape(t[2:-1])
        out.append((k, t))
    return out


def unescape(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


def cbytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


VOID = ('void',)
PTR = ('ptr',)
LABEL = ('label',)
META = ('metadata',)

FPW = {'half': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}

CAST_OPS = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
            'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}
BIN_OPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint',
         'nneg', 'inbounds', 'inrange', 'volatile', 'samesign'}
OPERAND_KW = {'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'getelementptr', 'none',
              'blockaddress', 'dso_local_equivalent', 'no_cfi', 'asm', 'icmp', 'select'} | CAST_OPS | \
             {'add', 'sub', 'mul', 'shl', 'xor', 'and', 'or', 'lshr', 'ashr'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'unnamed_addr',
           'local_unnamed_addr', 'default', 'hidden', 'protected', 'externally_initialized'}


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'dbg', 'line')

    def __init__(self, op, dst=None, ty=None, ops=(), x=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.ops = ops
        self.x = x
        self.dbg = None
        self.line = None

    def __repr__(self):
        return '%s%s %s %r %r' % (('%' + self.dst + ' = ') if self.dst else '', self.op, self.ty, self.ops, self.x)


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def at(self, s):
        return self.i < len(self.t) and self.t[self.i][1] == s and self.t[self.i][0] in ('p', 'id', 'dots')

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise IRError('expected %s at %r' % (s, self.t[max(0, self.i - 6):self.i + 6]))

    # types ---------------------------------------------------------------
    def is_type(self):
        k, t = self.peek()
        if k == 'id':
            return t in ('void', 'ptr', 'label', 'metadata', 'token', 'opaque') or t in FPW or \
                re.fullmatch(r'i[0-9]+', t) is not None
        if k == 'loc':
            return True
        return k == 'p' and t in '[{<'

    def type(self):
        k, t = self.next()
        if k == 'id':
            if t == 'void':
                ty = VOID
            elif t == 'ptr':
                ty = PTR
                if self.at('addrspace'):
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif t == 'label':
                ty = LABEL
            elif t == 'metadata':
                ty = META
            elif t == 'opaque' or t == 'token':
                ty = (t,)
            elif t in FPW:
                ty = ('f', FPW[t])
            elif re.fullmatch(r'i[0-9]+', t):
                ty = ('i', int(t[1:]))
            else:
                raise IRError('type? ' + t)
        elif k == 'loc':
            ty = ('named', t[1:])
        elif t == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('arr', n, e)
        elif t == '{':
            ty = ('struct', self.typelist('}'), False)
        elif t == '<':
            if self.eat('{'):
                ty = ('struct', self.typelist('}'), True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('vec', n, e)
        else:
            raise IRError('type? %r' % (t,))
        return ty

    def typelist(self, end):
        r = []
        while not self.eat(end):
            r.append(self.type())
            self.eat(',')
        return tuple(r)

    # operands ------------------------------------------------------------
    def operand(self, ty):
        k, t = self.next()
        if k == 'loc':
            return ('reg', t[1:])
        if k == 'glob':
            return ('glob', t[1:])
        if k == 'num':
            if ty[0] == 'f':
                return ('fp', fpbits(t, ty[1]))
            if ty[0] == 'ptr':
                return ('int', int(t))
            return ('int', int(t, 0) & ((1 << ty[1]) - 1))
        if k == 'cstr':
            return ('str', cbytes(t))
        if k == 'meta':
            # metadata operand: swallow
            if self.at('('):
                self.skip_parens()
            return ('meta', t)
        if k == 'id':
            if t == 'null':
                return ('null',)
            if t in ('undef', 'poison'):
                return ('undef',)
            if t == 'true':
                return ('int', 1)
            if t == 'false':
                return ('int', 0)
            if t == 'zeroinitializer':
                return ('zero',)
            if t == 'none':
                return ('undef',)
            if t == 'getelementptr':
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect('(')
                st = self.type()
                self.expect(',')
                pty = self.type()
                base = self.operand(pty)
                idx = []
                while self.eat(','):
                    if self.at('inrange'):
                        self.next()
                    it = self.type()
                    idx.append((it, self.operand(it)))
                self.expect(')')
                return ('gep', st, base, tuple(idx))
            if t in CAST_OPS:
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect('(')
                ft = self.type()
                v = self.operand(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('cast', t, ft, v, tt)
            if t in BIN_OPS:
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect('(')
                at_ = self.type()
                a = self.operand(at_)
                self.expect(',')
                bt = self.type()
                b = self.operand(bt)
                self.expect(')')
                return ('bin', t, at_, a, b)
            if t == 'asm':
                while self.peek()[0] == 'id':
                    self.next()
                a = self.next()[1]
                self.expect(',')
                b = self.next()[1]
                return ('asm', a, b)
            if t == 'splat':
                self.skip_parens()
                raise IRError('splat')
        if k == 'p' and t in '[{<':
            packed = False
            end = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and self.at('{'):
                self.next()
                end = '}'
                packed = True
            el = []
            while not self.eat(end):
                et = self.type()
                el.append((et, self.operand(et)))
                self.eat(',')
            if packed:
                self.expect('>')
            return ('agg', tuple(el))
        raise IRError('operand? %r %r' % (t, self.t[max(0, self.i - 8):self.i + 4]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == ('p', '('):
                d += 1
            elif t == ('p', ')'):
                d -= 1

    def tyop(self):
        ty = self.type()
        return ty, self.operand(ty)

    def skip_attrs(self):
        """Skip parameter/return attributes; returns byval type if there is one."""
        byval = None
        while True:
            k, t = self.peek()
            if k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            if k == 'attr':
                self.next()
                continue
            if k != 'id' or t in OPERAND_KW:
                return byval
            if self.is_type():
                return byval
            if t in ('to', 'unwind'):
                return byval
            self.next()
            if t == 'align' and self.peek()[0] == 'num':
                self.next()
            elif self.at('('):
                if t == 'byval':
                    self.next()
                    byval = self.type()
                    self.expect(')')
                else:
                    self.skip_parens()


def fpbits(t, w):
    if t.startswith('0x'):
        if t[2] in 'KLMHR':
            return int(t[3:], 16)
        v = int(t, 16)
        if w == 32:
            d = struct.unpack('<d', struct.pack('<Q', v))[0]
            return struct.unpack('<I', struct.pack('<f', d))[0]
        return v
    d = float(t)
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    raise IRError('fp const')


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        p = P(tokenize(self.header), self.mod)
        # define ... RET @name(params)
        p.next()
        while True:
            k, t = p.peek()
            if k == 'id' and not p.is_type():
                p.next()
                if t == 'align' and p.peek()[0] == 'num':
                    p.next()
                elif p.at('('):
                    p.skip_parens()
                continue
            if k == 'attr' or k == 'str':
                p.next()
                continue
            break
        self.ret = p.type()
        k, t = p.next()
        assert k == 'glob', (self.header, k, t)
        p.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        while not p.eat(')'):
            if p.eat('...'):
                self.vararg = True
                continue
            ty = p.type()
            byval = p.skip_attrs()
            if p.peek()[0] == 'loc':
                nm = p.next()[1][1:]
            else:
                nm = str(n)
            n += 1
            self.params.append((ty, nm, byval))
            p.eat(',')
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.lines
        i = 0
        unnamed = len([1 for q in self.params if q[1].isdigit()])
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unescape(nm[1:-1])
                cur = nm
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = 'entry' if 'entry' not in self.blocks else '$entry'
                self.blocks[cur] = []
                self.order.append(cur)
            s = ln.strip()
            # multi-line instructions
            if re.search(r'\bswitch\b', s) and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += '\n' + lines[i].strip()
                    i += 1
                s += '\n' + lines[i].strip()
                i += 1
            elif re.match(r'(%\S+ = |%"[^"]*" = )?invoke\b', s):
                s += ' ' + lines[i].strip()
                i += 1
            elif re.match(r'(%\S+ = |%"[^"]*" = )?landingpad\b', s):
                while re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            self.blocks[cur].append(parse_inst(s, self.mod))
        return self


def parse_inst(s, mod):
    dbg = None
    m = re.search(r', !dbg !([0-9]+)', s)
    if m:
        dbg = int(m.group(1))
    # strip trailing metadata
    s2 = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
    p = P(tokenize(s2), mod)
    dst = None
    if p.peek()[0] == 'loc' and p.i + 1 < len(p.t) and p.t[p.i + 1] == ('p', '='):
        dst = p.next()[1][1:]
        p.next()
    op = p.next()[1]
    ins = parse_op(p, op, dst, s)
    ins.dbg = dbg
    return ins


def parse_op(p, op, dst, s):
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN_OPS:
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type()
        a = p.operand(ty)
        p.expect(',')
        b = p.operand(ty)
        return Inst('bin', dst, ty, (a, b), op)
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        ty, a = p.tyop()
        return Inst('fneg', dst, ty, (a,))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        ty = p.type()
        a = p.operand(ty)
        p.expect(',')
        b = p.operand(ty)
        return Inst(op, dst, ty, (a, b), pred)
    if op in CAST_OPS:
        while p.peek()[1] in FLAGS:
            p.next()
        ft = p.type()
        a = p.operand(ft)
        p.expect('to')
        tt = p.type()
        return Inst('cast', dst, tt, (a,), (op, ft))
    if op == 'alloca':
        if p.at('inalloca'):
            p.next()
        ty = p.type()
        cnt = None
        while p.eat(','):
            if p.eat('align'):
                p.next()
            else:
                cnt = p.tyop()
        return Inst('alloca', dst, ty, (), cnt)
    if op == 'load':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        p.expect(',')
        pt, a = p.tyop()
        return Inst('load', dst, ty, (a,))
    if op == 'store':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        v = p.operand(ty)
        p.expect(',')
        pt, a = p.tyop()
        return Inst('store', None, ty, (v, a))
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        st = p.type()
        p.expect(',')
        pt, base = p.tyop()
        idx = []
        while p.eat(','):
            idx.append(p.tyop())
        return Inst('gep', dst, PTR, (base,), (st, tuple(idx)))
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct, c = p.tyop()
        p.expect(',')
        ty, a = p.tyop()
        p.expect(',')
        ty2, b = p.tyop()
        return Inst('select', dst, ty, (c, a, b), ct)
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.operand(ty)
            p.expect(',')
            l = p.next()[1][1:]
            p.expect(']')
            inc.append((l, v))
            if not p.eat(','):
                break
        return Inst('phi', dst, ty, (), dict(inc))
    if op == 'br':
        if p.at('label'):
            p.next()
            return Inst('br', None, None, (), (p.next()[1][1:],))
        ty, c = p.tyop()
        p.expect(',')
        p.expect('label')
        a = p.next()[1][1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1][1:]
        return Inst('br', None, None, (c,), (a, b))
    if op == 'switch':
        ty, v = p.tyop()
        p.expect(',')
        p.expect('label')
        d = p.next()[1][1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, c = p.tyop()
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1][1:]))
        return Inst('switch', None, ty, (v,), (d, cases))
    if op == 'ret':
        if p.at('void'):
            return Inst('ret', None, VOID)
        ty, v = p.tyop()
        return Inst('ret', None, ty, (v,))
    if op == 'unreachable':
        return Inst('unreachable')
    if op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS:
            p.next()
        while True:
            k, t = p.peek()
            if k == 'id' and not p.is_type():
                p.next()
                if t == 'align' and p.peek()[0] == 'num':
                    p.next()
                elif p.at('('):
                    p.skip_parens()
                continue
            break
        rty = p.type()
        if p.at('('):           # explicit function type (varargs)
            p.skip_parens()
        callee = p.operand(PTR)
        p.expect('(')
        args = []
        while not p.eat(')'):
            ty = p.type()
            byval = p.skip_attrs()
            if ty == META:
                if p.peek()[0] in ('meta',):
                    p.next()
                    if p.at('('):
                        p.skip_parens()
                else:
                    p.tyop()
                args.append((ty, ('meta',), None))
            else:
                args.append((ty, p.operand(ty), byval))
            p.eat(',')
        labels = None
        if op == 'invoke':
            while not p.at('to'):
                p.next()
            p.next()
            p.expect('label')
            a = p.next()[1][1:]
            p.expect('unwind')
            p.expect('label')
            b = p.next()[1][1:]
            labels = (a, b)
        return Inst(op, dst, rty, tuple(args), (callee, labels))
    if op == 'landingpad':
        ty = p.type()
        clauses = []
        while p.peek()[0] != 'eof':
            t = p.next()[1]
            if t == 'cleanup':
                clauses.append(('cleanup', None))
            elif t in ('catch', 'filter'):
                ct, c = p.tyop()
                clauses.append((t, c))
            else:
                break
        return Inst('landingpad', dst, ty, (), clauses)
    if op == 'resume':
        ty, v = p.tyop()
        return Inst('resume', None, ty, (v,))
    if op == 'extractvalue':
        ty, v = p.tyop()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Inst('extractvalue', dst, ty, (v,), idx)
    if op == 'insertvalue':
        ty, v = p.tyop()
        p.expect(',')
        ety, e = p.tyop()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Inst('insertvalue', dst, ty, (v, e), (idx, ety))
    if op == 'freeze':
        ty, v = p.tyop()
        return Inst('freeze', dst, ty, (v,))
    if op == 'fence':
        return Inst('fence')
    if op == 'atomicrmw':
        while p.peek()[1] in ('volatile',):
            p.next()
        rop = p.next()[1]
        pt, a = p.tyop()
        p.expect(',')
        ty, v = p.tyop()
        return Inst('atomicrmw', dst, ty, (a, v), rop)
    if op == 'cmpxchg':
        while p.peek()[1] in ('volatile', 'weak'):
            p.next()
        pt, a = p.tyop()
        p.expect(',')
        ty, c = p.tyop()
        p.expect(',')
        ty2, n = p.tyop()
        return Inst('cmpxchg', dst, ty, (a, c, n))
    if op == 'extractelement':
        ty, v = p.tyop()
        p.expect(',')
        it, i = p.tyop()
        return Inst('extractelement', dst, ty, (v, i))
    if op == 'insertelement':
        ty, v = p.tyop()
        p.expect(',')
        et, e = p.tyop()
        p.expect(',')
        it, i = p.tyop()
        return Inst('insertelement', dst, ty, (v, e, i))
    raise IRError('instruction ' + op + ': ' + s[:120])


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> dict(ty, init(tokens) or None, const)
        self.functions = {}
        self.declares = set()
        self.aliases = {}
        self.dilocs = {}
        self.discopes = {}
        self._dimeta = {}
        self._sz = {}
        self.read(text)

    def read(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)', ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unescape(nm[1:-1])
                self.types[nm] = m.group(2)
            elif c == '@':
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)', ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unescape(nm[1:-1])
                self.globals[nm] = m.group(2)
            elif ln.startswith('define'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unescape(nm[1:-1])
                j = i
                while lines[j] != '}':
                    j += 1
                self.functions[nm] = Function(self, nm, ln.rstrip(' {'), lines[i:j])
                i = j + 1
            elif ln.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1)
                if nm[0] == '"':
                    nm = unescape(nm[1:-1])
                self.declares.add(nm)
            elif c == '!':
                m = re.match(r'!([0-9]+) = (?:distinct )?(!.*)', ln)
                if m:
                    self._dimeta[int(m.group(1))] = m.group(2)
        for g in list(self.globals):
            d = self.globals[g]
            if re.search(r'\balias\b', d.split('"')[0]):
                m = re.search(r', ptr @("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', d)
                if m:
                    self.aliases[g] = m.group(1).strip('"')
                    del self.globals[g]

    def loc(self, dbg):
        """(file, line) of a !dbg reference."""
        if dbg is None:
            return None
        if dbg in self.dilocs:
            return self.dilocs[dbg]
        r = None
        m = self._dimeta.get(dbg, '')
        q = re.search(r'line: ([0-9]+)', m)
        sc = re.search(r'scope: !([0-9]+)', m)
        f = None
        cur = m
        for _ in range(40):
            fm = re.search(r'file: !([0-9]+)', cur)
            if fm:
                ff = self._dimeta.get(int(fm.group(1)), '')
                fq = re.search(r'filename: "([^"]*)"', ff)
                f = fq.group(1) if fq else None
                break
            sm = re.search(r'scope: !([0-9]+)', cur)
            if not sm:
                break
            cur = self._dimeta.get(int(sm.group(1)), '')
        if q:
            r = (f, int(q.group(1)))
        self.dilocs[dbg] = r
        return r

    def global_info(self, name):
        d = self.globals[name]
        if isinstance(d, tuple):
            return d
        s2 = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', d)
        p = P(tokenize(s2), self)
        ext = False
        tls = False
        while True:
            k, t = p.peek()
            if t in ('global', 'constant'):
                break
            if t in ('external', 'extern_weak'):
                ext = True
            if t == 'thread_local':
                tls = True
            p.next()
        const = p.next()[1] == 'constant'
        ty = p.type()
        init = None
        if not ext:
            init = p.operand(ty)
        r = (ty, init, const)
        self.globals[name] = r
        return r

    def resolve(self, ty):
        while ty[0] == 'named':
            d = self.types.get(ty[1])
            if d is None:
                raise IRError('type ' + ty[1])
            if isinstance(d, str):
                d = P(tokenize(d), self).type()
                self.types[ty[1]] = d
            ty = d
        return ty

    def size_align(self, ty):
        r = self._sz.get(ty)
        if r is not None:
            return r
        t = self.resolve(ty)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == 'f':
            r = {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[t[1]]
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == 'opaque':
            r = (0, 1)
        else:
            raise IRError('size of %r' % (t,))
        self._sz[ty] = r
        return r

    def size(self, ty):
        return self.size_align(ty)[0]

    def field_offsets(self, t):
        t = self.resolve(t)
        key = ('fo', t)
        r = self._sz.get(key)
        if r is not None:
            return r
        off = 0
        out = []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        self._sz[key] = out
        return out
