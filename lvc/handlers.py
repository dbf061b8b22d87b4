"""Intrinsics the harnesses use (vc.h).  Natively the same calls read a concrete input vector."""
import re
import z3
from ir import Unsupported, PTR
from val import *   # noqa
import engine as EN
from engine import Field, Obj, Multi, KMAX


def install(E, H):
    def nondet(w):
        def h(st, fr, a, ins):
            nm = E.cstr(st, a[0])
            t = E.fresh(st, nm, w)
            st.inputs = st.inputs + ((nm, t, w),)
            return t
        return h
    for w in (8, 16, 32, 64):
        H[f'vc_u{w}'] = nondet(w)
    H['vc_bool'] = nondet(1)

    def vc_len(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        t = E.fresh(st, nm, 64)
        st.inputs = st.inputs + ((nm, t, 64),)
        st.pc.append(z3.ULT(t, 1 << 32))
        return t
    H['vc_len'] = vc_len

    def vc_below(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        t = E.fresh(st, nm, 64)
        st.inputs = st.inputs + ((nm, t, 64),)
        st.terms = st.terms + (t,)
        st.pc.append(z3.ULT(t, term(a[1], 64)))
        if not E.sat(st, 1):
            return Multi([])
        return t
    H['vc_below'] = vc_below

    def vc_index(st, fr, a, ins):
        t = E.fresh(st, 'ix', 64)
        st.inputs = st.inputs + (('?ix', t, 64),)
        st.terms = st.terms + (t,)
        return t
    H['vc_index'] = vc_index

    def vc_term(st, fr, a, ins):
        if not is_c(a[0]):
            st.terms = st.terms + (a[0],)
    H['vc_term'] = vc_term

    def vc_assume(st, fr, a, ins):
        c = a[0]
        if is_c(c):
            return None if c else Multi([])
        if not E.sat(st, c):
            return Multi([])
        st.pc.append(c)
        return None
    H['vc_assume'] = vc_assume

    def vc_assert(st, fr, a, ins):
        lab = E.cstr(st, a[1])
        E.obligation(st, a[0], lab, 'post')
        if is_c(a[0]):
            return None if a[0] else Multi([])
        st.pc.append(a[0])
        return None
    H['vc_assert'] = vc_assert

    def vc_cover(st, fr, a, ins):
        lab = E.cstr(st, a[0])
        if E.covers.get(lab) is not True and not E.guessing:
            s = z3.Solver()
            s.set('timeout', 20000)
            for c in st.pc:
                s.add(zb(c))
            for c in E.axioms:
                s.add(c)
            r = s.check()
            E.covers[lab] = True if r == z3.sat else ('unknown' if r == z3.unknown else E.covers.get(lab, False))
    H['vc_cover'] = vc_cover

    def vc_unroll(st, fr, a, ins):
        st.unroll = a[0]
    H['vc_unroll'] = vc_unroll

    def vc_split(st, fr, a, ins):
        c = a[0]
        if is_c(c):
            return None
        out = []
        if E.sat(st, c):
            s = st.fork()
            s.pc.append(c)
            out.append(s)
        n = b_not(c)
        if E.sat(st, n):
            st.pc.append(n)
            out.append(st)
        return Multi(out)
    H['vc_split'] = vc_split

    # ---- allocation: the trusted allocator contract
    def vc_alloc(st, fr, a, ins):
        n = a[0]
        o = E.new_flat(st, n, f"heap", 'heap', 16)
        o.align = 16
        return pobj(o.id)
    H['vc_alloc'] = vc_alloc

    def do_free(st, g, b, o, n, fr):
        if b[0] == 'n':
            E.obligation(st, b_not(g), "memory: free(null) given to the allocator", 'memory')
            return False
        if b[0] != 'o':
            raise Unsupported("free of opaque pointer")
        ob = st.mem.get(b[1])
        if ob is None or ob.cls not in ('heap',):
            E.obligation(st, 0, f"memory: free of a pointer that was not allocated", 'memory')
            return False
        E.obligation(st, eq64(off_value(o), 0), "memory: free of an interior pointer", 'memory')
        size = ob.es if ob.kind == 'fam' else ob.size
        E.obligation(st, b_or(eq64(n, 0), eq64(n, size)), "memory: deallocation size equals allocation size", 'memory')
        ob = E.wobj(st, b[1])
        if ob.kind == 'fam':
            f = ob.fields.get(('live', 0)) or Field(lambda idx: 1)
            ok = b_and(ob.valid(b[2]), f.read(b[2], 1))
            E.obligation(st, ok, "memory: double free", 'memory')
            ob.fields[('live', 0)] = f.write(b[2], 0)
        else:
            E.obligation(st, ob.live, "memory: double free", 'memory')
            ob.live = 0
        return True

    def vc_free(st, fr, a, ins):
        p = E.prune(st, E.as_ptr(a[0]))
        out = []
        for i, (g, b, o) in enumerate(p.alts):
            s = st if i == len(p.alts) - 1 else st.fork()
            if not (is_c(g) and g):
                s.pc.append(zb(g))
            if do_free(s, 1, b, o, a[1], fr):
                out.append(s)
        if len(out) == 1 and out[0] is st:
            return None
        return Multi(out)
    H['vc_free'] = vc_free

    def vc_live(st, fr, a, ins):
        r = []
        for g, b, o in E.as_ptr(a[0]).alts:
            if b[0] != 'o':
                continue
            ob = st.mem.get(b[1])
            if ob is None:
                continue
            l = ob.live
            if ob.kind == 'fam':
                f = ob.fields.get(('live', 0))
                l = b_and(ob.valid(b[2]), f.read(b[2], 1) if f else 1)
            r.append(b_and(g, l))
        x = b_or(*r)
        return x if is_c(x) else simp(x)
    H['vc_live'] = vc_live

    def vc_same_object(st, fr, a, ins):
        p, q = E.as_ptr(a[0]), E.as_ptr(a[1])
        r = []
        for g1, b1, o1 in p.alts:
            for g2, b2, o2 in q.alts:
                e = base_eq(b1, b2)
                if e is not None:
                    r.append(b_and(g1, g2, e))
        x = b_or(*r)
        return x if is_c(x) else simp(x)
    H['vc_same_object'] = vc_same_object

    # ---- symbolic data
    def vc_array(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        n, es = a[1], a[2]
        o = Obj(E.new_id(), nm, 'arr', 'heap')
        o.es = es
        o.n = n
        o.size = bin_('mul', 64, n, es)
        o.sym = nm
        o.align = 16
        st.mem[o.id] = o
        st.inputs = st.inputs + (('[]' + nm, ('arr', o.id, n, es), 0),)
        return pobj(o.id)
    H['vc_array'] = vc_array

    def vc_cstr(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        n = a[1]
        o = Obj(E.new_id(), nm, 'arr', 'heap')
        o.es = 1
        o.n = o.size = add64(n, 1)
        o.sym = nm
        o.align = 1
        st.mem[o.id] = o
        f = E.default_field(st, o, (0, 1))
        o.fields[(0, 1)] = f
        st.inputs = st.inputs + (('[]' + nm, ('arr', o.id, n, 1), 0),)
        st.pc.append(zb(eq64(ext('zext', 8, 64, f.read((n,), 8)), 0)))
        st.facts = st.facts + ((lambda t: b_implies(ult(t, n), b_not(eq64(ext('zext', 8, 64, f.read((t,), 8)), 0))), None),)
        if not is_c(n):
            st.terms = st.terms + (n,)
        return pobj(o.id)
    H['vc_cstr'] = vc_cstr

    def vc_family(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        n, es = a[1], a[2]
        o = Obj(E.new_id(), nm, 'fam', 'heap')
        o.nidx = 1
        o.es = o.size = es
        o.n = n
        o.sym = nm
        o.valid = lambda idx: ult(idx[0], n)
        o.fields[('live', 0)] = Field(lambda idx: 1)
        st.mem[o.id] = o
        return o.id
    H['vc_family'] = vc_family

    def vc_node(st, fr, a, ins):
        if not is_c(a[0]):
            raise Unsupported("symbolic family handle")
        return pobj(a[0], (a[1],))
    H['vc_node'] = vc_node

    def initial(w):
        def h(st, fr, a, ins):
            o = st.mem[a[0]]
            f = E.default_field(st, o, (a[2], w // 8))
            return f.read((a[1],), w)
        return h
    for w in (8, 16, 32, 64):
        H[f'vc_init{w}'] = initial(w)

    def initial2(w):
        def h(st, fr, a, ins):
            o = st.mem[a[0]]
            f = E.default_field(st, o, (a[3], w // 8))
            return f.read((a[1], a[2]), w)
        return h
    for w in (8, 16, 32, 64):
        H[f'vc_initb{w}'] = initial2(w)

    def vc_pos(st, fr, a, ins):
        """position of a node in its family (an unspecified value for other pointers)"""
        v = E.fresh(st, 'pos', 64)
        for g, b, o in E.as_ptr(a[1]).alts:
            if b[0] == 'o' and b[1] == a[0]:
                if not (is_c(g) and g) and E.prove(st, g, quick=True)[0] == 'proved':
                    return b[2][-1]
                v = v_ite_w(g, b[2][-1], v, 64)
        return v
    H['vc_pos'] = vc_pos

    def initial_arr(w):
        def h(st, fr, a, ins):
            (g, b, off), = a[0].alts
            o = st.mem[b[1]]
            f = E.default_field(st, o, (a[2], w // 8))
            return f.read((a[1],), w)
        return h
    for w in (8, 16, 32, 64):
        H[f'vc_inita{w}'] = initial_arr(w)

    def link(o, poff, noff):
        n = o.n
        oid = o.id

        def nx(idx):
            j = add64(idx[0], 1)
            c = ult(j, n)
            return p_ite(c, pobj(oid, (j,)), NULL)

        def pv(idx):
            return p_ite(eq64(idx[0], 0), NULL, pobj(oid, (sub64(idx[0], 1),)))
        o.fields[(poff, 8)] = Field(pv, (), True)
        o.fields[(noff, 8)] = Field(nx, (), True)

    def vc_link(st, fr, a, ins):
        link(E.wobj(st, a[0]), a[1], a[2])
    H['vc_link'] = vc_link

    # two-level family: node(b,i), i < cnt(b)
    def vc_family2(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        o = Obj(E.new_id(), nm, 'fam', 'heap')
        o.nidx = 2
        o.es = o.size = a[2]
        nb = a[1]
        cnt = z3.Function(f"cnt:{nm}#{o.id}", z3.BitVecSort(64), z3.BitVecSort(64))
        o.n = cnt
        o.sym = nm

        def c(b):
            t = cnt(term(b, 64))
            return t
        o.valid = lambda idx: b_and(ult(idx[0], nb), ult(idx[1], c(idx[0])))
        o.fields[('live', 0)] = Field(lambda idx: 1)
        oid = o.id
        poff, noff = a[3], a[4]

        def nx(idx):
            j = add64(idx[1], 1)
            return p_ite(ult(j, c(idx[0])), pobj(oid, (idx[0], j)), NULL)

        def pv(idx):
            return p_ite(eq64(idx[1], 0), NULL, pobj(oid, (idx[0], sub64(idx[1], 1))))
        o.fields[(poff, 8)] = Field(pv, (), True)
        o.fields[(noff, 8)] = Field(nx, (), True)
        st.mem[o.id] = o
        return o.id
    H['vc_family2'] = vc_family2

    def vc_node2(st, fr, a, ins):
        return pobj(a[0], (a[1], a[2]))
    H['vc_node2'] = vc_node2

    def vc_count2(st, fr, a, ins):
        t = st.mem[a[0]].n(term(a[1], 64))
        st.pc.append(z3.ULT(t, KMAX))
        return t
    H['vc_count2'] = vc_count2

    # the list heads of all buckets: array of lists, fields defined from the family
    def vc_bucket_heads(st, fr, a, ins):
        arr, fam = a[0], a[1]
        boff, loff, noff = a[2], a[3], a[4]
        (g, b, o), = arr.alts
        ob = E.wobj(st, b[1])
        cnt = st.mem[fam].n

        def first(idx):
            return p_ite(eq64(cnt(term(idx[0], 64)), 0), NULL, pobj(fam, (idx[0], 0)))

        def last(idx):
            c = cnt(term(idx[0], 64))
            return p_ite(eq64(c, 0), NULL, pobj(fam, (idx[0], sub64(c, 1))))
        ob.fields[(boff, 8)] = Field(first, (), True)
        ob.fields[(loff, 8)] = Field(last, (), True)
        ob.fields[(noff, 8)] = Field(lambda idx: cnt(term(idx[0], 64)))
    H['vc_bucket_heads'] = vc_bucket_heads

    def vc_array_const(st, fr, a, ins):
        """every element of the array has the same value in field [off,off+8)"""
        (g, b, o), = a[0].alts
        ob = E.wobj(st, b[1])
        v = a[2]
        ob.fields[(a[1], 8)] = Field(lambda idx: v, (), isinstance(v, Ptr))
    H['vc_array_constp'] = vc_array_const

    def vc_array_below(st, fr, a, ins):
        """the 32 bit field off of element i holds an arbitrary value below n: its initial value modulo n"""
        (g, b, o), = a[0].alts
        ob = E.wobj(st, b[1])
        f = E.default_field(st, ob, (a[1], 4))
        ob.fields[(a[1], 4)] = Field(lambda idx: bin_('urem', 32, f.read(idx, 32), a[2]))
    H['vc_array_below'] = vc_array_below

    def vc_fam_const(st, fr, a, ins):
        ob = E.wobj(st, a[0])
        v = a[2]
        ob.fields[(a[1], 8)] = Field(lambda idx: v, (), isinstance(v, Ptr))
    H['vc_fam_constp'] = vc_fam_const

    def vc_fam_text(st, fr, a, ins):
        """definition: the first n/4+1 nodes hold kind 2 (literal) and the words of the text arr[0..n), zero padded"""
        ob = E.wobj(st, a[0])
        toff, voff, n = a[1], a[2], a[4]
        (g, b, off), = E.as_ptr(a[3]).alts
        f8 = E.default_field(st, st.mem[b[1]], (0, 1))
        ft, fv = E.default_field(st, ob, (toff, 4)), E.default_field(st, ob, (voff, 4))
        words = add64(bin_('udiv', 64, n, 4), 1)
        ob.fields[(toff, 4)] = Field(lambda idx: v_ite_w(ult(idx[0], words), 2, ft.read(idx, 32), 32))

        def word(idx):
            bs = []
            for c in range(4):
                j = add64(bin_('mul', 64, idx[0], 4), c)
                bs.append((v_ite_w(ult(j, n), f8.read((j,), 8), 0, 8), 8))
            return v_ite_w(ult(idx[0], words), concat(bs), fv.read(idx, 32), 32)
        ob.fields[(voff, 4)] = Field(word)
        if not is_c(n):
            st.terms = st.terms + (bin_('udiv', 64, n, 4),)
    H['vc_fam_text'] = vc_fam_text

    def vc_opaque(st, fr, a, ins):
        nm = E.cstr(st, a[0])
        t = E.fresh(st, nm, 64)
        st.pc.append(t != 0)
        return Ptr([(1, ('q', t), ZOFF)])
    H['vc_opaque'] = vc_opaque

    def vc_call(st, fr, a, ins):
        """call the function of the module whose symbol matches a regular expression (a visitor closure)"""
        rx = E.cstr(st, a[0])
        c = [n for n in E.m.funcs if re.fullmatch(rx, n)]
        if len(c) != 1:
            raise Unsupported(f"{len(c)} functions match {rx}")
        fn = E.m.func(c[0])
        if ins.res is not None:
            fr.regs[ins.res] = 0
        E.enter(st, fn, a[1:1 + len(fn.params)], (ins.res if fn.ret.k != 'void' else None, fr.fid))
        return Multi([st])
    H['vc_call'] = H['vc_callv'] = vc_call

    def vc_sym(st, fr, a, ins):
        (g, b, o), = E.as_ptr(a[0]).alts
        ob = E.wobj(st, b[1])
        nm = E.cstr(st, a[2])
        for co in list(ob.cells):
            if o.c <= co < o.c + a[1]:
                del ob.cells[co]
        ob.sym = nm
    H['vc_sym'] = vc_sym

    def vc_sizeof(st, fr, a, ins):
        (g, b, o), = E.as_ptr(a[0]).alts
        ob = st.mem[b[1]]
        return ob.size
    H['vc_size'] = vc_sizeof

    def malloc(st, fr, a, ins):
        n = a[0]
        # allocation may fail
        s = st.fork()
        s.frames[-1].regs[ins.res] = NULL
        o = E.new_flat(st, n, "malloc", 'heap', 16)
        st.frames[-1].regs[ins.res] = pobj(o.id)
        return Multi([s, st])
    H['malloc'] = malloc

    def free(st, fr, a, ins):
        p = E.prune(st, E.as_ptr(a[0]))
        if len(p.alts) == 1 and p.alts[0][1][0] == 'n':
            return None
        return vc_free(st, fr, [a[0], 0], ins)
    H['free'] = free

    def opnew(st, fr, a, ins):
        o = E.new_flat(st, a[0], "new", 'heap', 16)
        o.align = 16
        E.assumed.add("operator new does not fail")
        return pobj(o.id)
    H['_Znam'] = H['_Znwm'] = opnew
    H['_ZdaPv'] = H['_ZdlPv'] = free
    H['_ZdlPvm'] = H['_ZdaPvm'] = free

    def memcmp_unsupported(st, fr, a, ins):
        raise Unsupported("libc " + ins.line[:80])
    for n in ('strlen', 'memcmp', 'printf', 'puts', 'fopen'):
        H.setdefault(n, memcmp_unsupported)
    H['__cxa_pure_virtual'] = memcmp_unsupported
    H['__cxa_atexit'] = lambda st, fr, a, ins: 0
