"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the real sources compile to.

Only the parts of the language the engine executes are kept; attributes, metadata and alignment
hints are dropped (DESIGN.md, "what the extraction drops")."""
import re
from functools import lru_cache

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 |(?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 |(?P<comdat>\$"(?:[^"\\]|\\.)*"|\$[-a-zA-Z$._0-9]+)
 |(?P<meta>!"(?:[^"\\]|\\.)*"|![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<word>[-a-zA-Z$._][-a-zA-Z$._0-9]*:?)
 |(?P<punct>\.\.\.|[()\[\]{}<>,=*|:])
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("token: " + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append(m.group())
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz', '_al', '_offs')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = self._al = self._offs = None

    def __repr__(self):
        return f"{self.k}{self.a if self.a is not None else ''}"


_int = {}


def IntTy(n):
    if n not in _int:
        _int[n] = Ty('int', n)
    return _int[n]


PTR = Ty('ptr')
VOID = Ty('void')
F32 = Ty('fp', 32)
F64 = Ty('fp', 64)
LABEL = Ty('label')
METATY = Ty('metadata')

PARAM_ATTRS = set('''noundef nonnull zeroext signext returned nocapture readonly writeonly readnone noalias
 immarg dead_on_unwind writable nofree nest inreg swiftself swifterror inalloca allocalign allocptr nocallback nosync'''.split())
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                     'memory', 'nofpclass', 'range', 'initializes', 'preallocated', 'captures'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x} got {self.peek()} in {' '.join(self.t)[:200]}")

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def ty(self):
        x = self.next()
        t = None
        if x == 'void':
            t = VOID
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
        elif x == 'float':
            t = F32
        elif x == 'double':
            t = F64
        elif x == 'x86_fp80':
            t = Ty('fp', 80)
        elif x == 'half':
            t = Ty('fp', 16)
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = METATY
        elif x == 'opaque':
            t = Ty('opaque')
        elif x[0] == 'i' and x[1:].isdigit():
            t = IntTy(int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.ty()
            self.expect(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                while not self.eat('}'):
                    fs.append(self.ty())
                    self.eat(',')
                self.expect('>')
                t = Ty('struct', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.ty()
                self.expect('>')
                t = Ty('vec', n, e)
        elif x == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.ty())
                self.eat(',')
            t = Ty('struct', fs, False)
        elif x[0] == '%':
            t = Ty('named', x[1:].strip('"'))
        else:
            raise Unsupported("type " + x)
        return t

    def skip_attrs(self):
        """returns dict of the interesting ones"""
        d = {}
        while True:
            x = self.peek()
            if x is None:
                return d
            if x in PARAM_ATTRS:
                self.next()
            elif x == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                else:
                    self.next()
            elif x in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek() == '(':
                    if x in ('sret', 'byval'):
                        self.expect('(')
                        d[x] = self.ty()
                        self.expect(')')
                    else:
                        self.skip_paren()
            elif x and (x[0] == '#' or x[0] == '"'):
                self.next()
                if self.peek() == '=' and x[0] == '"':
                    self.next()
                    self.next()
            else:
                return d

    def val(self, t):
        """operand of type t"""
        x = self.next()
        if x[0] == '%':
            return ('reg', x[1:].strip('"'))
        if x[0] == '@':
            return ('glob', x[1:].strip('"'))
        if x == 'null':
            return ('null',)
        if x == 'true':
            return ('int', 1, 1)
        if x == 'false':
            return ('int', 1, 0)
        if x in ('undef', 'poison'):
            return ('undef', t)
        if x == 'zeroinitializer':
            return ('zero', t)
        if x == 'none':
            return ('undef', t)
        if t.k == 'int' and re.match(r'-?\d+$', x):
            return ('int', t.a, int(x) & ((1 << t.a) - 1))
        if t.k == 'fp':
            import struct
            if x.startswith('0x') and x[2] not in 'KLMHR':
                bits = int(x, 16)
            else:
                bits = struct.unpack('<Q', struct.pack('<d', float(x)))[0] if not x.startswith('0x') else int(x[3:], 16)
            if t.a == 32:
                bits = struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', bits))[0]))[0]
            return ('int', t.a, bits)
        if x[0] == 'c' and x[1:2] == '"':
            return ('bytes', decode_cstr(x[2:-1]))
        if x in ('{', '[', '<'):
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                x = '{'
            close = {'{': '}', '[': ']', '<': '>'}[x]
            el = []
            while not self.eat(close):
                et = self.ty()
                el.append((et, self.val(et)))
                self.eat(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                if self.next() == 'inrange':
                    self.skip_paren()
            self.expect('(')
            bt = self.ty()
            self.expect(',')
            ops = []
            while True:
                while self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(':
                        self.skip_paren()
                et = self.ty()
                ops.append((et, self.val(et)))
                if not self.eat(','):
                    break
            self.expect(')')
            return ('cgep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            et = self.ty()
            v = self.val(et)
            self.expect('to')
            tt = self.ty()
            self.expect(')')
            return ('ccast', x, et, v, tt)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t1 = self.ty()
            v1 = self.val(t1)
            self.expect(',')
            t2 = self.ty()
            v2 = self.val(t2)
            self.expect(')')
            return ('cbin', x, t1, v1, v2)
        raise Unsupported(f"constant {x} : {' '.join(self.t)[:200]}")


def decode_cstr(s):
    out = bytearray()
    i = 0
    b = s.encode('utf8', 'surrogateescape')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'swc')

    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line, self.swc = op, res, ty, a, line, None

    def __repr__(self):
        return self.line


class Block:
    __slots__ = ('name', 'insts', 'fn', 'idx')


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []   # (ty, name, attrs)
        self.ret = None
        self.blocks = {}
        self.entry = None
        self.body_text = None
        self.parsed = False
        self.varargs = False
        self._loops = None

    # ---- CFG utilities
    def succs(self, b):
        t = self.blocks[b].insts[-1]
        if t.op == 'br':
            return t.a['targets']
        if t.op == 'switch':
            return [t.a['default']] + [x[1] for x in t.a['cases']]
        return []

    def loops(self):
        """header -> set of body blocks (natural loops)"""
        if self._loops is not None:
            return self._loops
        # iterative DFS order, dominators
        order, seen = [], set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise Unsupported("irreducible loop in " + self.name)
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self._loops = loops
        return loops


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> dict(ty, init tokens, const, parsed)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}

    # ---- layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t._al is None:
            if t.k == 'int':
                b = (t.a + 7) // 8
                a = 1
                while a < b:
                    a *= 2
                t._al = min(a, 16)
            elif t.k == 'ptr':
                t._al = 8
            elif t.k == 'fp':
                t._al = {16: 2, 32: 4, 64: 8, 80: 16}[t.a]
            elif t.k == 'arr':
                t._al = self.align(t.b)
            elif t.k == 'struct':
                t._al = 1 if t.b else max([1] + [self.align(f) for f in t.a])
            elif t.k == 'vec':
                t._al = self.size(t)
            else:
                raise Unsupported("align " + repr(t))
        return t._al

    def size(self, t):
        """alloc size"""
        t = self.resolve(t)
        if t._sz is None:
            if t.k == 'int':
                b = (t.a + 7) // 8
                al = self.align(t)
                t._sz = (b + al - 1) // al * al
            elif t.k == 'ptr':
                t._sz = 8
            elif t.k == 'fp':
                t._sz = {16: 2, 32: 4, 64: 8, 80: 16}[t.a]
            elif t.k == 'arr':
                t._sz = t.a * self.size(t.b)
            elif t.k == 'vec':
                t._sz = t.a * self.size(t.b)
            elif t.k == 'struct':
                self.offsets(t)
            else:
                raise Unsupported("size " + repr(t))
        return t._sz

    def offsets(self, t):
        t = self.resolve(t)
        if t._offs is None:
            o = 0
            offs = []
            for f in t.a:
                al = 1 if t.b else self.align(f)
                o = (o + al - 1) // al * al
                offs.append(o)
                o += self.size(f)
            al = self.align(t)
            t._sz = (o + al - 1) // al * al
            t._offs = offs
        return t._offs

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                p = P(tokenize(rest), self)
                self.types[nm[1:].strip('"')] = p.ty()
            elif L.startswith('@'):
                self._global(L)
            elif L.startswith('declare'):
                f = self._sig(L[len('declare'):])
                if f.name not in self.funcs:
                    self.decls[f.name] = f
            elif L.startswith('define'):
                f = self._sig(L[len('define'):])
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f.body_text = lines[i + 1:j]
                f.header = L
                self.funcs[f.name] = f
                i = j
            i += 1
        return self

    GL = re.compile(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$')

    def _global(self, L):
        m = self.GL.match(L)
        name = m.group(1)[1:].strip('"')
        rest = m.group(2)
        mm = re.match(r'(.*?\b(?:global|constant|alias)\b) (.*)$', rest)
        kind = mm.group(1)
        if kind.endswith('alias'):
            t = tokenize(mm.group(2))
            p = P(t, self)
            p.ty()
            if p.peek() == '(':
                p.skip_paren()
            p.expect(',')
            p.ty()
            self.aliases[name] = p.next()[1:].strip('"')
            return
        self.globals[name] = dict(const=kind.endswith('constant'), text=mm.group(2), ext='external' in kind, ty=None, init=None)

    def gparse(self, name):
        g = self.globals[name]
        if g['ty'] is None:
            p = P(tokenize(g['text']), self)
            g['ty'] = p.ty()
            if not g['ext']:
                g['init'] = p.val(g['ty'])
        return g

    def _sig(self, s):
        at = s.index('@')
        m = re.compile(r'@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+').match(s, at)
        name = m.group()[1:].strip('"')
        f = Function(name)
        pre = tokenize(s[:at])
        # return type = trailing type tokens: find by skipping known linkage words
        skip = {'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'external', 'private', 'weak', 'hidden', 'protected',
                'available_externally', 'linkonce', 'fastcc', 'unnamed_addr', 'local_unnamed_addr', 'dso_preemptable'}
        p = P(pre, self)
        while p.peek() in skip:
            p.next()
        p.skip_attrs()
        while p.peek() in skip:
            p.next()
        f.ret = p.ty()
        # params
        rest = s[m.end():]
        toks = tokenize(rest.split(' {')[0] if rest.rstrip().endswith('{') else rest)
        p = P(toks, self)
        p.expect('(')
        idx = 0
        while not p.eat(')'):
            if p.eat('...'):
                f.varargs = True
                continue
            t = p.ty()
            at = p.skip_attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()[1:].strip('"')
            if nm is None:
                nm = str(idx)
            f.params.append((t, nm, at))
            idx += 1
            p.eat(',')
        f.idx_after_params = idx
        return f

    def func(self, name):
        while name in self.aliases:
            name = self.aliases[name]
        f = self.funcs.get(name)
        if f is None:
            return None
        if not f.parsed:
            self._body(f)
        return f

    LAB = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')

    def _body(self, f):
        # the implicit entry label: next unnamed number after params
        cur = None
        pend = None
        lines = f.body_text
        joined = []
        for L in lines:
            if pend is not None:
                pend += ' ' + L.strip()
                if L.strip() == ']':
                    joined.append(pend)
                    pend = None
                continue
            if L.startswith('  switch ') and not L.rstrip().endswith(']'):
                pend = L
                continue
            joined.append(L)
        first = True
        for L in joined:
            if not L.strip() or L.lstrip().startswith(';'):
                continue
            m = self.LAB.match(L)
            if m:
                cur = Block()
                cur.name = m.group(1).strip('"')
                cur.insts = []
                f.blocks[cur.name] = cur
                if f.entry is None:
                    f.entry = cur.name
                first = False
                continue
            if first:
                cur = Block()
                cnt = 0
                for (_, nm, _) in f.params:
                    if nm.isdigit():
                        cnt += 1
                cur.name = str(cnt)
                cur.insts = []
                f.blocks[cur.name] = cur
                f.entry = cur.name
                first = False
            ins = self._inst(L.strip())
            if ins is not None:
                cur.insts.append(ins)
        f.parsed = True

    MD = re.compile(r'(,\s*![-a-zA-Z._0-9]+\s+![0-9]+)+\s*$')

    def _inst(self, L):
        L = self.MD.sub('', L)
        toks = tokenize(L)
        res = None
        p = P(toks, self)
        if len(toks) > 1 and toks[1] == '=':
            res = toks[0][1:].strip('"')
            p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            p.eat('inalloca')
            t = p.ty()
            cnt = None
            if p.eat(',') and p.peek() != 'align':
                ct = p.ty()
                cnt = (ct, p.val(ct))
            return Inst('alloca', res, PTR, dict(ty=t, cnt=cnt), L)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.ty()
            p.expect(',')
            pt = p.ty()
            v = p.val(pt)
            return Inst('load', res, t, dict(ptr=v), L)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.ty()
            v = p.val(t)
            p.expect(',')
            pt = p.ty()
            q = p.val(pt)
            return Inst('store', None, t, dict(val=v, ptr=q), L)
        if op == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                inb = p.next() == 'inbounds' or inb
            bt = p.ty()
            p.expect(',')
            pt = p.ty()
            base = p.val(pt)
            idx = []
            while p.eat(','):
                it = p.ty()
                idx.append((it, p.val(it)))
            return Inst('gep', res, PTR, dict(bt=bt, base=base, idx=idx, inb=inb), L)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'disjoint', 'contract', 'ninf', 'nsz', 'arcp', 'afn', 'reassoc'):
                fl.add(p.next())
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            b = p.val(t)
            return Inst('fbin' if op[0] == 'f' else 'bin', res, t, dict(op=op, a=a, b=b, fl=fl), L)
        if op == 'fneg':
            t = p.ty()
            return Inst('fneg', res, t, dict(a=p.val(t)), L)
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'samesign'):
                p.next()
            c = p.next()
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            b = p.val(t)
            return Inst(op, res, IntTy(1), dict(c=c, t=t, a=a, b=b), L)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                  'fptrunc', 'fpext', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.ty()
            v = p.val(t)
            p.expect('to')
            tt = p.ty()
            return Inst('cast', res, tt, dict(op=op, t=t, v=v), L)
        if op == 'select':
            ct = p.ty()
            c = p.val(ct)
            p.expect(',')
            t = p.ty()
            a = p.val(t)
            p.expect(',')
            t2 = p.ty()
            b = p.val(t2)
            return Inst('select', res, t, dict(c=c, a=a, b=b, ct=ct), L)
        if op == 'phi':
            t = p.ty()
            inc = {}
            while True:
                p.expect('[')
                v = p.val(t)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc[b] = v
                if not p.eat(','):
                    break
            return Inst('phi', res, t, dict(inc=inc), L)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst('br', None, None, dict(cond=None, targets=[p.next()[1:].strip('"')]), L)
            t = p.ty()
            c = p.val(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            return Inst('br', None, None, dict(cond=c, targets=[a, b]), L)
        if op == 'switch':
            t = p.ty()
            v = p.val(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cases = []
            while not p.eat(']'):
                p.ty()
                cv = int(p.next()) & ((1 << t.a) - 1)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()[1:].strip('"')))
            return Inst('switch', None, None, dict(t=t, v=v, default=d, cases=cases), L)
        if op == 'ret':
            t = p.ty()
            v = None if t is VOID else p.val(t)
            return Inst('ret', None, t, dict(v=v), L)
        if op == 'unreachable':
            return Inst('unreachable', None, None, {}, L)
        if op == 'call':
            while p.peek() in ('fast', 'fastcc', 'ccc', 'nnan'):
                p.next()
            p.skip_attrs()
            t = p.ty()
            if p.peek() == '(':   # function type
                p.skip_paren()
            callee = p.val(PTR) if p.peek()[0] in '%@' or p.peek() in ('null', 'undef', 'inttoptr') else None
            if callee is None:
                raise Unsupported("call " + L)
            p.expect('(')
            args = []
            while not p.eat(')'):
                at = p.ty()
                if at is METATY:
                    d = 0
                    while True:
                        x = p.peek()
                        if d == 0 and x in (',', ')'):
                            break
                        if x == '(':
                            d += 1
                        if x == ')':
                            d -= 1
                        p.next()
                    p.eat(',')
                    continue
                attrs = p.skip_attrs()
                v = p.val(at)
                args.append((at, v, attrs))
                p.eat(',')
            return Inst('call', res, t, dict(callee=callee, args=args), L)
        if op == 'extractvalue':
            t = p.ty()
            v = p.val(t)
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return Inst('extractvalue', res, None, dict(v=v, idx=idx, t=t), L)
        if op == 'insertvalue':
            t = p.ty()
            v = p.val(t)
            p.expect(',')
            t2 = p.ty()
            v2 = p.val(t2)
            idx = []
            while p.eat(','):
                if p.peek()[0] == '!':
                    break
                idx.append(int(p.next()))
            return Inst('insertvalue', res, t, dict(v=v, e=v2, idx=idx), L)
        if op == 'freeze':
            t = p.ty()
            return Inst('freeze', res, t, dict(v=p.val(t)), L)
        return Inst('unsupported', res, None, dict(op=op), L)
