"""Values: machine integers are python ints or z3 bit-vector terms of the exact width, pointers are
guarded alternatives over (object, index, linear offset)."""
import z3
from ir import Unsupported

BV = z3.BitVecRef


def is_c(v):
    return isinstance(v, int)


def mask(w):
    return (1 << w) - 1


def term(v, w):
    """z3 term of an int value (w=1 -> BitVec(1) is never used: Bool)"""
    if isinstance(v, int):
        return z3.BoolVal(bool(v)) if w == 1 else z3.BitVecVal(v, w)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def norm(t):
    """z3 term -> python int when it is a literal"""
    if isinstance(t, int):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


_simp_cache = {}


def simp(t):
    if isinstance(t, int):
        return t
    i = t.get_id()
    r = _simp_cache.get(i)
    if r is not None:
        return r[1]
    s = norm(z3.simplify(t))
    _simp_cache[i] = (t, s)      # keep t alive so the id stays unique
    if len(_simp_cache) > 400000:
        _simp_cache.clear()
    return s


TRUE, FALSE = 1, 0


def b_and(*xs):
    r = []
    for x in xs:
        if is_c(x):
            if not x:
                return 0
        else:
            r.append(x)
    if not r:
        return 1
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if is_c(x):
            if x:
                return 1
        else:
            r.append(x)
    if not r:
        return 0
    return r[0] if len(r) == 1 else z3.Or(*r)


def b_not(x):
    return (0 if x else 1) if is_c(x) else simp_not(x)


def simp_not(x):
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_implies(a, b):
    return b_or(b_not(a), b)


def zb(x):
    return z3.BoolVal(bool(x)) if is_c(x) else x


def bin_(op, w, a, b):
    if is_c(a) and is_c(b):
        m = mask(w)

        def sg(x):
            return x - (1 << w) if x >> (w - 1) else x
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sg(a) >> min(b, w - 1)) & m
        if op == 'udiv':
            return a // b if b else 0
        if op == 'urem':
            return a % b if b else 0
        if op == 'sdiv':
            if b == 0:
                return 0
            q = abs(sg(a)) // abs(sg(b))
            return (q if (sg(a) < 0) == (sg(b) < 0) else -q) & m
        if op == 'srem':
            if b == 0:
                return 0
            r = abs(sg(a)) % abs(sg(b))
            return (-r if sg(a) < 0 else r) & m
        raise Unsupported(op)
    if w == 1:
        A, B = zb(a), zb(b)
        if op == 'and':
            return b_and(a, b)
        if op == 'or':
            return b_or(a, b)
        if op in ('xor', 'add', 'sub'):
            return norm(z3.simplify(z3.Xor(A, B)))
        if op == 'mul':
            return b_and(a, b)
        raise Unsupported('i1 ' + op)
    # identities
    if op in ('add', 'or', 'xor') and a == 0 and is_c(a):
        return b
    if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and is_c(b) and b == 0:
        return a
    if op == 'mul':
        if is_c(a) and a == 1:
            return b
        if is_c(b) and b == 1:
            return a
        if (is_c(a) and a == 0) or (is_c(b) and b == 0):
            return 0
    if op == 'and' and ((is_c(a) and a == 0) or (is_c(b) and b == 0)):
        return 0
    A, B = term(a, w), term(b, w)
    if op == 'add':
        r = A + B
    elif op == 'sub':
        r = A - B
    elif op == 'mul':
        r = A * B
    elif op == 'and':
        r = A & B
    elif op == 'or':
        r = A | B
    elif op == 'xor':
        r = A ^ B
    elif op == 'shl':
        r = A << B
    elif op == 'lshr':
        r = z3.LShR(A, B)
    elif op == 'ashr':
        r = A >> B
    elif op == 'udiv':
        r = z3.UDiv(A, B)
    elif op == 'urem':
        r = z3.URem(A, B)
    elif op == 'sdiv':
        r = A / B
    elif op == 'srem':
        r = z3.SRem(A, B)
    else:
        raise Unsupported(op)
    return simp(r)


def icmp(c, w, a, b):
    if is_c(a) and is_c(b):
        def sg(x):
            return x - (1 << w) if x >> (w - 1) else x
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sg(a) < sg(b), 'sle': sg(a) <= sg(b), 'sgt': sg(a) > sg(b), 'sge': sg(a) >= sg(b)}[c])
    if w == 1:
        A, B = zb(a), zb(b)
        if c == 'eq':
            return simp(A == B)
        if c == 'ne':
            return simp(A != B)
        if c == 'ult':
            return b_and(b_not(a), b)
        if c == 'ugt':
            return b_and(a, b_not(b))
        if c == 'ule':
            return b_or(b_not(a), b)
        if c == 'uge':
            return b_or(a, b_not(b))
        raise Unsupported('i1 icmp ' + c)
    A, B = term(a, w), term(b, w)
    r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
         'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
         'sgt': lambda: A > B, 'sge': lambda: A >= B}[c]()
    return simp(r)


def eq64(a, b):
    return icmp('eq', 64, a, b)


def ult(a, b, w=64):
    return icmp('ult', w, a, b)


def ule(a, b, w=64):
    return icmp('ule', w, a, b)


def add64(a, b):
    return bin_('add', 64, a, b)


def sub64(a, b):
    return bin_('sub', 64, a, b)


def ext(kind, w, w2, v):
    if is_c(v):
        if kind == 'zext':
            return v
        if kind == 'sext':
            return (v - (1 << w) if v >> (w - 1) else v) & mask(w2)
        return v & mask(w2)
    if kind == 'trunc':
        if w2 == 1:
            return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
        return simp(z3.Extract(w2 - 1, 0, v))
    if w == 1:
        one = 1 if kind == 'zext' else mask(w2)
        return simp(z3.If(v, z3.BitVecVal(one, w2), z3.BitVecVal(0, w2)))
    return simp(z3.ZeroExt(w2 - w, v) if kind == 'zext' else z3.SignExt(w2 - w, v))


def extract(v, w, hi, lo):
    if is_c(v):
        return (v >> lo) & mask(hi - lo + 1)
    return simp(z3.Extract(hi, lo, v))


def concat(parts):
    """parts: list of (value,width) low first"""
    if all(is_c(v) for v, _ in parts):
        r, s = 0, 0
        for v, w in parts:
            r |= v << s
            s += w
        return r
    if len(parts) == 1:
        return parts[0][0]
    return simp(z3.Concat(*[term(v, w) for v, w in reversed(parts)]))


# ------------------------------------------------------------------ pointers
class Off:
    """constant + sum coef*term (64-bit)"""
    __slots__ = ('c', 't')

    def __init__(self, c, t=()):
        self.c, self.t = c, t

    def __repr__(self):
        return f"{self.c}" + "".join(f"+{k}*{x}" for k, x in self.t)


def off_add(o, c, terms=()):
    if not terms:
        return Off((o.c + c) & mask(64), o.t)
    d = {}
    keep = {}
    for k, x in o.t + tuple(terms):
        i = x.get_id()
        d[i] = (d.get(i, 0) + k) & mask(64)
        keep[i] = x
    return Off((o.c + c) & mask(64), tuple((k, keep[i]) for i, k in d.items() if k))


def off_value(o):
    v = o.c
    for k, x in o.t:
        v = bin_('add', 64, v, bin_('mul', 64, k, x))
    return v


def linear_terms(v, scale):
    """scale * v (64 bit value) -> (const, ((coef, term),...)) peeling +const and sums so that offsets stay canonical"""
    m = mask(64)
    if is_c(v):
        return (v * scale) & m, ()
    c = 0
    out = []
    work = [(v, scale)]
    while work:
        t, s = work.pop()
        if z3.is_bv_value(t):
            c = (c + t.as_long() * s) & m
            continue
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_BADD:
            for ch in t.children():
                work.append((ch, s))
            continue
        if k == z3.Z3_OP_BSUB:
            ch = t.children()
            work.append((ch[0], s))
            for x in ch[1:]:
                work.append((x, (-s) & m))
            continue
        if k == z3.Z3_OP_BNEG:
            work.append((t.arg(0), (-s) & m))
            continue
        if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            work.append((t.arg(1), (s * t.arg(0).as_long()) & m))
            continue
        out.append((s, t))
    return c, tuple(out)


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Ptr" + repr([(str(g)[:60], b, o) for g, b, o in self.alts])


ZOFF = Off(0)
NULL = Ptr([(1, ('n',), ZOFF)])


def pobj(oid, idx=(), off=ZOFF):
    return Ptr([(1, ('o', oid, tuple(idx)), off)])


def same_val(a, b):
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    return a.get_id() == b.get_id() or a.eq(b)


def same_base(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'n':
        return True
    if a[0] == 'o':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same_val(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == 'f':
        return a[1] == b[1]
    return same_val(a[1], b[1])


def same_off(a, b):
    if a.c != b.c or len(a.t) != len(b.t):
        return False
    if not a.t:
        return True
    da = {x.get_id(): k for k, x in a.t}
    return all(da.get(x.get_id()) == k for k, x in b.t)


def p_ite(c, a, b):
    if is_c(c):
        return a if c else b
    if a is b:
        return a
    out = [[b_and(c, g), ba, o] for g, ba, o in a.alts]
    nc = b_not(c)
    for g, ba, o in b.alts:
        for e in out:
            if same_base(e[1], ba) and same_off(e[2], o):
                e[0] = simp(zb(b_or(e[0], b_and(nc, g))))
                break
        else:
            out.append([b_and(nc, g), ba, o])
    return Ptr([tuple(x) for x in out if not (is_c(x[0]) and not x[0])])


def off_eq(a, b):
    if same_off(a, b):
        return 1
    return eq64(off_value(a), off_value(b))


def base_eq(a, b):
    """equality of two pointer targets ignoring offsets, or None if they are of different nature (distinct)"""
    if a[0] == 'o' and b[0] == 'o':
        if a[1] != b[1]:
            return 0
        return b_and(*[eq64(x, y) for x, y in zip(a[2], b[2])])
    if a[0] == 'n' and b[0] == 'n':
        return 1
    if a[0] == 'f' and b[0] == 'f':
        return int(a[1] == b[1])
    if a[0] == 'q' and b[0] == 'q':
        return eq64(a[1], b[1])
    return None


def p_eq(a, b):
    r = []
    for g1, b1, o1 in a.alts:
        for g2, b2, o2 in b.alts:
            e = base_eq(b1, b2)
            if e is None:
                q = b1 if b1[0] == 'q' else b2 if b2[0] == 'q' else None
                n = b1 if b1[0] == 'n' else b2 if b2[0] == 'n' else None
                if q is not None and n is not None:
                    qo, no = (o1, o2) if q is b1 else (o2, o1)
                    c = eq64(bin_('add', 64, q[1], off_value(qo)), off_value(no))
                else:
                    continue      # distinct objects / object vs null: never equal
            else:
                c = b_and(e, off_eq(o1, o2))
            r.append(b_and(g1, g2, c))
    x = b_or(*r)
    return x if is_c(x) else simp(x)


def v_eq(a, b, w=None):
    """boolean: the two values are equal"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            return None
        return p_eq(a, b)
    if isinstance(a, (list, tuple)):
        return b_and(*[v_eq(x, y) for x, y in zip(a, b)])
    if is_c(a) and is_c(b):
        return int(a == b)
    t = a if not is_c(a) else b
    if z3.is_bool(t):
        return simp(zb(a) == zb(b))
    w = t.size()
    return icmp('eq', w, a, b)


def v_ite(c, a, b):
    if is_c(c):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported("ite of pointer and integer")
        return p_ite(c, a, b)
    if isinstance(a, (list, tuple)):
        return [v_ite(c, x, y) for x, y in zip(a, b)]
    if is_c(a) and is_c(b) and a == b:
        return a
    if not is_c(a) and not is_c(b) and a.eq(b):
        return a
    t = a if not is_c(a) else b if not is_c(b) else None
    if t is None:
        return ('ite', c, a, b)   # resolved by caller with width
    if z3.is_bool(t):
        return simp(z3.If(c, zb(a), zb(b)))
    w = t.size()
    return simp(z3.If(c, term(a, w), term(b, w)))


class Poison:
    """a temporary that a loop leaves with some value: may be overwritten or copied, never used"""
    def __repr__(self):
        return 'POISON'


POISON = Poison()


def v_ite_w(c, a, b, w):
    """w: width in bits for ints"""
    if is_c(c):
        return a if c else b
    if a is POISON or b is POISON:
        return POISON
    if is_c(a) and is_c(b):
        if a == b:
            return a
        if w == 1:
            return c if a else b_not(c)
        return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
    return v_ite(c, a, b)


# ------------------------------------------------------------------ substitution
def subst(v, pairs):
    """pairs: list of (z3 const, z3 term)"""
    if v is None or is_c(v) or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, Ptr):
        out = []
        for g, b, o in v.alts:
            g2 = g if is_c(g) else simp(z3.substitute(g, *pairs))
            if is_c(g2) and not g2:
                continue
            if b[0] == 'o':
                b = ('o', b[1], tuple(subst(x, pairs) for x in b[2]))
            elif b[0] == 'q':
                b = ('q', subst(b[1], pairs))
            if o.t:
                n = Off(o.c)
                for k, x in o.t:
                    c, ts = linear_terms(subst(x, pairs), k)
                    n = off_add(n, c, ts)
                o = n
            out.append((g2, b, o))
        return Ptr(out)
    if isinstance(v, (list, tuple)):
        return [subst(x, pairs) for x in v]
    return simp(z3.substitute(v, *pairs))


def mentions(v, consts):
    """does v mention any of the z3 constants (by id)?"""
    ids = {c.get_id() for c in consts}
    seen = set()

    def go(t):
        st = [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                return True
            st.extend(x.children())
        return False
    if v is None or is_c(v):
        return False
    if isinstance(v, Ptr):
        for g, b, o in v.alts:
            if not is_c(g) and go(g):
                return True
            if b[0] == 'o' and any(not is_c(x) and go(x) for x in b[2]):
                return True
            if b[0] == 'q' and not is_c(b[1]) and go(b[1]):
                return True
            if any(go(x) for _, x in o.t):
                return True
        return False
    if isinstance(v, (list, tuple)):
        return any(mentions(x, consts) for x in v)
    return go(v)
