"""Parser for the textual LLVM IR that rustc emits (the subset safe Rust code compiles to)."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<name>[%@](?:[-a-zA-Z$._0-9]+|"[^"]*"))
 |(?P<str>"[^"]*")
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
 |(?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+)
 |(?P<word>[a-zA-Z_$][\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[=,()\[\]{}<>*:|])
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if not s[i:].strip():
                break
            raise IRError('tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


# ---- types: ('i',w) ('ptr',) ('void',) ('f',32|64) ('arr',n,t) ('st',packed,[t]) ('vec',n,t)
PTR = ('ptr',)
VOID = ('void',)


def align_of(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'arr':
        return align_of(t[2])
    if k == 'vec':
        a = 1
        while a < size_of(t):
            a *= 2
        return a
    if k == 'st':
        return 1 if t[1] else max([align_of(x) for x in t[2]] or [1])
    raise IRError('align %r' % (t,))


def size_of(t):
    """alloc size"""
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'arr':
        return t[1] * size_of(t[2])
    if k == 'vec':
        return (t[1] * bits_of(t[2]) + 7) // 8
    if k == 'st':
        o = 0
        for x in t[2]:
            if not t[1]:
                a = align_of(x)
                o = (o + a - 1) // a * a
            o += size_of(x)
        if not t[1]:
            a = align_of(t)
            o = (o + a - 1) // a * a
        return o
    raise IRError('size %r' % (t,))


def bits_of(t):
    if t[0] == 'i' or t[0] == 'f':
        return t[1]
    if t[0] == 'ptr':
        return 64
    raise IRError('bits %r' % (t,))


def field_offset(t, i):
    o = 0
    for j, x in enumerate(t[2]):
        if not t[1]:
            a = align_of(x)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(x)
    raise IRError('field')


class P:
    """token stream"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise IRError('eol')
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise IRError('expected %r got %r in %r' % (s, v, [x[1] for x in self.t][:40]))

    def skip_parens(self):
        assert self.next() == '('
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    # -- types
    def type(self):
        v = self.next()
        if re.fullmatch(r'i\d+', v):
            return ('i', int(v[1:]))
        if v == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            return PTR
        if v == 'void':
            return VOID
        if v == 'float':
            return ('f', 32)
        if v == 'double':
            return ('f', 64)
        if v == 'half':
            return ('f', 16)
        if v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '{':
            return self._st(False)
        if v == '<':
            if self.peek() == '{':
                self.next()
                t = self._st(True)
                self.expect('>')
                return t
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if v == 'metadata':
            return ('meta',)
        if v == 'label':
            return ('label',)
        raise IRError('type %r' % v)

    def _st(self, packed):
        ts = []
        if not self.eat('}'):
            while True:
                ts.append(self.type())
                if self.eat('}'):
                    break
                self.expect(',')
        return ('st', packed, tuple(ts))

    # -- values: ('reg',name) ('c',int) ('cf',bits) ('glob',name) ('null',) ('undef',) ('zero',) ('agg',[..])
    #            ('bytes',b) ('gep',basety,ptr,[idx]) ('cast',op,val,ty)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'name':
            return ('reg', v[1:]) if v[0] == '%' else ('glob', unq(v[1:]))
        if k == 'num':
            if ty[0] == 'f':
                import struct
                return ('c', fbits(float(v), ty[1]))
            return ('c', int(v) & ((1 << ty[1]) - 1))
        if k == 'flt':
            return ('c', fbits(float(v), ty[1]))
        if k == 'hex':
            import struct
            d = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
            return ('c', fbits(d, ty[1]))
        if k == 'cstr':
            return ('bytes', cbytes(v[2:-1]))
        m = re.fullmatch(r'f0x([0-9A-Fa-f]+)', v)
        if m and ty[0] == 'f':
            return ('c', int(m.group(1), 16))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('[', '{'):
            end = {'[': ']', '{': '}'}[v]
            xs = []
            if not self.eat(end):
                while True:
                    t = self.type()
                    xs.append((t, self.value(t)))
                    if self.eat(end):
                        break
                    self.expect(',')
            return ('agg', xs)
        if v == '<':
            if self.eat('{'):
                xs = []
                if not self.eat('}'):
                    while True:
                        t = self.type()
                        xs.append((t, self.value(t)))
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return ('agg', xs)
            xs = []
            while True:
                t = self.type()
                xs.append((t, self.value(t)))
                if self.eat('>'):
                    break
                self.expect(',')
            return ('agg', xs)
        if v == 'splat':
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect(')')
            return ('splat', t, x)
        if v == 'getelementptr':
            while self.peek() != '(':
                if self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                elif self.peek() == 'inrange':
                    self.next()
                    self.skip_parens()
                else:
                    raise IRError('cgep')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            p = self.value(pt)
            idx = []
            while self.eat(','):
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('gep', bt, p, idx)
        if v in ('inttoptr', 'ptrtoint', 'trunc', 'zext', 'bitcast'):
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', v, t, x, t2)
        if v in ('add', 'sub', 'xor', 'and', 'or', 'mul'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', v, t, a, b)
        raise IRError('value %r (%r)' % (v, k))

    def attrs(self):
        """skip parameter attributes"""
        while True:
            k, v = self.t[self.i] if self.i < len(self.t) else (None, None)
            if k == 'word' and v in PATTRS:
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                elif v == 'align':
                    self.next()
            elif k == 'attr' or (k == 'str'):
                self.i += 1
                if self.peek() == '=':
                    self.i += 2
            else:
                return


PATTRS = set('''noundef nonnull noalias nofree readonly readnone writeonly captures nocapture dereferenceable
dereferenceable_or_null align range zeroext signext inreg sret byval returned nosync dead_on_unwind dead_on_return writable
initializes immarg nofpclass allocalign allocptr noext swiftself nest elementtype nocallback'''.split())


def unq(s):
    return s[1:-1] if s.startswith('"') else s


def fbits(d, w):
    import struct
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def cbytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a')

    def __init__(self, op, res, ty, *a):
        self.op, self.res, self.ty, self.a = op, res, ty, a

    def __repr__(self):
        return '<%s %s %s>' % (self.op, self.res, self.a)


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}  # label -> [Ins]
        self.order = []
        self.lines = None


class Global:
    __slots__ = ('name', 'ty', 'init', 'const')

    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'inbounds', 'nusw', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile'}
TAILS = {'tail', 'musttail', 'notail'}


def parse_ins(line):
    p = P(tokenize(line))
    res = None
    if p.kind() == 'name' and p.peek(1) == '=':
        res = p.next()[1:]
        p.next()
    op = p.next()
    if op in TAILS:
        op = p.next()
    if op in BIN or op in FBIN:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins('bin', res, t, op, a, b)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        return Ins('fneg', res, t, p.value(t))
    if op in CAST:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Ins('cast', res, t2, op, t, a)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        rt = ('i', 1) if t[0] != 'vec' else ('vec', t[1], ('i', 1))
        return Ins(op, res, rt, pred, t, a, b)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return Ins('select', res, t, ct, c, a, b)
    if op == 'freeze':
        t = p.type()
        return Ins('freeze', res, t, p.value(t))
    if op == 'alloca':
        t = p.type()
        n = ('c', 1)
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
        return Ins('alloca', res, PTR, t, n)
    if op == 'load':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        return Ins('load', res, t, p.value(pt))
    if op == 'store':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return Ins('store', None, VOID, t, v, p.value(pt))
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(',')
        pt = p.type()
        b = p.value(pt)
        idx = []
        while p.peek() == ',' and p.peek(1) is not None and not p.peek(1).startswith('!'):
            p.next()
            t = p.type()
            idx.append((t, p.value(t)))
        return Ins('gep', res, pt, bt, b, idx)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        ix = []
        while p.peek() == ',' and not p.peek(1).startswith('!'):
            p.next()
            ix.append(int(p.next()))
        rt = t
        for i in ix:
            rt = rt[2][i] if rt[0] == 'st' else rt[2]
        return Ins('extractvalue', res, rt, t, v, ix)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        ix = []
        while p.peek() == ',' and not p.peek(1).startswith('!'):
            p.next()
            ix.append(int(p.next()))
        return Ins('insertvalue', res, t, v, et, ev, ix)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        it = p.type()
        return Ins('extractelement', res, t[2], t, v, it, p.value(it))
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        ev = p.value(et)
        p.expect(',')
        it = p.type()
        return Ins('insertelement', res, t, v, et, ev, it, p.value(it))
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        p.expect(',')
        mt = p.type()
        return Ins('shufflevector', res, ('vec', mt[1], t[2]), t, a, b, mt, p.value(mt))
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = p.next()[1:]
            p.expect(']')
            inc[unq(lab)] = v
            if p.peek() == ',' and p.peek(1) == '[':
                p.next()
                continue
            break
        return Ins('phi', res, t, inc)
    if op == 'br':
        if p.eat('label'):
            return Ins('br', None, VOID, unq(p.next()[1:]))
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1:])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1:])
        return Ins('cbr', None, VOID, c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1:])
        p.expect('[')
        cs = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cs.append((cv[1], unq(p.next()[1:])))
        return Ins('switch', None, VOID, t, v, d, cs)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Ins('ret', None, VOID, None, None)
        return Ins('ret', None, VOID, t, p.value(t))
    if op == 'unreachable':
        return Ins('unreachable', None, VOID)
    if op in ('call', 'invoke'):
        # [cc] [ret attrs] type callee(args)
        while True:
            k, v = p.t[p.i]
            if k == 'word' and (v in PATTRS or v in FLAGS or v in ('fastcc', 'coldcc', 'ccc')):
                p.i += 1
                if p.peek() == '(':
                    p.skip_parens()
                elif v == 'align':
                    p.next()
            else:
                break
        t = p.type()
        if p.peek() == '(':  # function type
            p.skip_parens()
        k = p.kind()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at == ('meta',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x == '(') - (x == ')')
                    args.append((at, None))
                else:
                    p.attrs()
                    args.append((at, p.value(at)))
                if p.eat(')'):
                    break
                p.expect(',')
        ins = Ins('call', res, t, callee, args)
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            ins = Ins('invoke', res, t, callee, args, unq(p.next()[1:]))
        return ins
    if op in ('landingpad', 'resume', 'fence'):
        return Ins(op, res, VOID)
    raise IRError('instruction %r' % line)


LAB = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')


def strip_comment(s):
    if ';' not in s:
        return s
    q = False
    for i, c in enumerate(s):
        if c == '"':
            q = not q
        elif c == ';' and not q:
            return s[:i]
    return s


class Module:
    def __init__(self):
        self.funcs = {}
        self.aliases = {}
        self.decls = {}
        self.globals = {}
        self.ninstr = 0

    def load(self, path, tag=''):
        """private symbols are prefixed by tag to keep several modules apart"""
        lines = open(path, encoding='utf-8').read().split('\n')
        i = 0
        loc = {}
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                self._global(ln, tag, loc)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(ln, lines[i + 1:j], tag, loc)
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[unq(m.group(1))] = ln
            i += 1

    def _global(self, ln, tag, loc):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = unq(m.group(1)), m.group(2)
        private = bool(re.match(r'(private|internal)\b', rest))
        m2 = re.search(r'\b(constant|global|alias)\b', rest)
        if not m2:
            return
        if m2.group(1) == 'alias':
            m3 = re.search(r'ptr @("[^"]*"|[-a-zA-Z$._0-9]+)\s*(?:,.*)?$', rest)
            if m3:
                self.aliases[name] = (unq(m3.group(1)), loc)
            return
        if re.match(r'external\b', rest):
            return
        full = name
        if private:
            loc[name] = full = tag + name
        self.globals[full] = (rest[m2.end():], m2.group(1) == 'constant', loc)

    def _func(self, head, body, tag, loc):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        name = unq(m.group(1))
        pre = head[:m.start()]
        if re.search(r'\b(private|internal)\b', pre):
            loc[name] = tag + name
            name = tag + name
        f = Func(name, None, None)
        f.lines = (head, body, loc)
        self.funcs[name] = f

    def get_global(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, tuple):
            rest, const, loc = g
            p = P(tokenize(strip_md(rest)))
            t = p.type()
            v = p.value(t)
            g = Global(name, t, relocate(v, loc), const)
            self.globals[name] = g
        return g

    def get_func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            t, loc = self.aliases[name]
            return self.get_func(loc.get(t, t))
        if f is None or f.lines is None:
            return f
        head, body, loc = f.lines
        f.lines = None
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        p = P(tokenize(head[m.end() - 1:]))
        p.expect('(')
        f.params = []
        if not p.eat(')'):
            while True:
                t = p.type()
                p.attrs()
                f.params.append((p.next()[1:], t))
                if p.eat(')'):
                    break
                p.expect(',')
        cur = None
        i = 0
        while i < len(body):
            ln = body[i]
            if not ln.strip() or ln.lstrip().startswith(';'):
                i += 1
                continue
            if not ln.startswith(' '):
                m = LAB.match(ln)
                cur = unq(m.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
                i += 1
                continue
            if cur is None:
                cur = '<entry>'
                f.blocks[cur] = []
                f.order.append(cur)
            s = strip_comment(ln)
            if s.lstrip().startswith('#dbg'):
                i += 1
                continue
            if re.match(r'\s+switch\b', s) and s.rstrip().endswith('['):
                i += 1
                while True:
                    x = strip_comment(body[i])
                    s += ' ' + x
                    if x.strip().startswith(']'):
                        break
                    i += 1
            if re.match(r'\s+(%\S+ = )?invoke\b', s) and ' unwind ' not in s:
                i += 1
                s += ' ' + body[i]
            ins = parse_ins(strip_md(s))
            ins.a = relocate(ins.a, loc)
            f.blocks[cur].append(ins)
            self.ninstr += 1
            i += 1
        # the unnamed entry block takes the next free value number
        if '<entry>' in f.blocks:
            n = len([1 for q, _ in f.params if q.isdigit()])
            f.entry_alias = str(n)
        f.entry = f.order[0]
        return f


def strip_md(s):
    # drop ", !foo !12" suffixes
    return re.sub(r'(, )?![a-zA-Z][\w.]* !(\d+|\{\})', '', s)


def relocate(v, loc):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'glob':
            return ('glob', loc.get(v[1], v[1]))
        return tuple(relocate(x, loc) for x in v)
    if isinstance(v, list):
        return [relocate(x, loc) for x in v]
    if isinstance(v, dict):
        return {k: relocate(x, loc) for k, x in v.items()}
    return v
