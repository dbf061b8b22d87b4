"""Cutting loops by inductive invariants.

A loop reached in state S is replaced by the state after an arbitrary number k of iterations.  Everything the
body changes (SSA phis, memory cells, fields of indexed objects, objects allocated per iteration) is described
by a function of k; the descriptions are *guessed* from templates (constant, affine, list walk, previous
iteration's value, recursive fold / specification fold, element-wise update) and then *checked*: they must hold
on entry (k=0) and be re-established by every back edge (k -> k+1).  A wrong guess can therefore only make the
proof fail, never succeed."""
import re
import time
import z3
from ir import Unsupported, PTR
from val import *   # noqa
import engine as EN
import os
E_DEBUG = os.environ.get('LVC_DEBUG')
from engine import Field, Obj, State, ProbeFail, PathLimit, KMAX, Fold, coerce_ite


def enter(E, st, header, body):
    if st.unroll > 0:
        return run_unrolled(E, st, header, body, 'unroll', st.unroll)
    mark = (len(E.obls), dict(E.covers), dict(E.fns))
    try:
        n = const_bound(st.frames[-1].fn, header)
        if n:        # at most n iterations, wherever it is left
            return run_unrolled(E, st.fork(), header, body, 'unroll', n)
    except (Unsupported, ProbeFail) as x:
        if E_DEBUG:
            print('const_bound', repr(x))
        outer(st, x)
        del E.obls[mark[0]:]
        E.covers, E.fns = mark[1], mark[2]
    try:
        return run_unrolled(E, st.fork(), header, body, 'probe', 300)
    except ProbeFail as x:
        outer(st, x)
        del E.obls[mark[0]:]
        E.covers, E.fns = mark[1], mark[2]
    try:
        n = strides(st.frames[-1].fn, body)
        if n > 1:
            try:
                return summarise(E, st.fork(), header, body, n)
            except (Unsupported, PathLimit) as e:
                del E.obls[mark[0]:]
                E.covers, E.fns = mark[1], mark[2]
        return summarise(E, st.fork(), header, body)
    except (Unsupported, PathLimit) as e:
        del E.obls[mark[0]:]
        E.covers, E.fns = mark[1], mark[2]
        if E.unroll_fallback:
            try:
                r = run_unrolled(E, st.fork(), header, body, 'unroll', E.unroll_fallback)
                return r
            except Unsupported:
                del E.obls[mark[0]:]
                E.covers, E.fns = mark[1], mark[2]
        raise Unsupported(f"loop in {st.frames[-1].fn.name}: {e}")


def outer(st, x):
    """the probing of a surrounding loop failed: nothing to do here"""
    if isinstance(x, ProbeFail) and x.args and any(L is x.args[0] for L in st.active):
        raise x


SMALL = re.compile(r'icmp (?:ult|slt|ne|ule|sle) i\d+ %[\w.]+, (\d+)\s*(?:,|$)')


def const_bound(fn, header):
    """a loop whose header compares a counter of its own with a small constant is executed as written"""
    b = fn.blocks[header]
    if b.insts[-1].op != 'br' or b.insts[-1].a['cond'] is None:
        return 0
    phis = [i.res for i in b.insts if i.op == 'phi']
    for i in b.insts:
        if i.op == 'cast' and any('%' + str(p).lstrip('%') + ' to' in i.line for p in phis):
            phis.append(i.res)
        if i.op == 'icmp':
            m = SMALL.search(i.line)
            if m and 1 <= int(m.group(1)) <= 8 and any('%' + str(p).lstrip('%') + ',' in i.line for p in phis):
                return int(m.group(1)) + 1
    return 0


def strides(fn, body):
    """a loop that looks at x % c for a small constant c is cut every c iterations"""
    for b in body:
        for i in fn.blocks[b].insts:
            if i.op == 'bin' and ' urem ' in i.line:
                try:
                    c = int(i.line.rsplit(',', 1)[1].split('!')[0])
                except ValueError:
                    continue
                if 2 <= c <= 8:
                    return c
    return 1


def resume(E, exits):
    out = []
    for s, tgt in exits:
        if isinstance(tgt, tuple):
            # return out of the loop
            act = s.active
            fr = s.frames[-1]
            stop = False
            while act and act[-1].fid == fr.fid:
                L = act[-1]
                act = act[:-1]
                s.active = act
                s.iters.pop(('s', L.fid, L.header), None)
                L.exits.append((s, tgt))
                stop = True
                break
            if stop:
                continue
            done = []
            r = E.finish_ret(s, tgt[1], done)
            if done:
                E.late_done.extend(done)
                continue
            out.append(s)
        else:
            r = E.jump(s, tgt)
            if r is None:
                out.append(s)
            else:
                out.extend(r)
    return out


def run_unrolled(E, st, header, body, mode, limit):
    L = E.mkloop(st, mode, header, body)
    L.limit = limit
    E.set_block(st, header)
    outer = st.active
    st.active = outer + (L,)
    E.explore([st])
    E.stats['unrolled'] += 1
    for s, _ in L.exits:
        s.iters.pop((L.fid, L.header), None)
    return resume(E, L.exits)


class G:
    """guess for one changed location: value as a function of the iteration number"""
    __slots__ = ('fn', 'kind', 'entry', 'w', 'tried', 'hv', 'extra', 'first', 'lw', 'lwn')

    def __init__(self, entry, w):
        self.entry, self.w = entry, w
        self.fn = lambda k: entry
        self.kind = 'const'
        self.tried = {'const'}
        self.hv = None
        self.extra = None
        self.first = None
        self.lw = None
        self.lwn = 0


def mentions_decl(v, f):
    todo = []
    if isinstance(v, Ptr):
        for g, b, o in v.alts:
            todo += [g] + (list(b[2]) if b[0] == 'o' else [b[1]] if b[0] == 'q' else []) + [x for _, x in o.t]
    else:
        todo = [v]
    todo = [x for x in todo if not is_c(x) and isinstance(x, z3.ExprRef)]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f):
            return True
        todo += x.children()
    return False


def rename(v, ren):
    """objects allocated in the iteration -> element of the per-iteration family"""
    if not ren or v is None or is_c(v) or not isinstance(v, (Ptr, list, tuple)):
        return v
    if isinstance(v, (list, tuple)):
        return [rename(x, ren) for x in v]
    out = []
    ch = False
    for g, b, o in v.alts:
        if b[0] == 'o' and b[1] in ren:
            b = ('o', ren[b[1]][0], ren[b[1]][1])
            ch = True
        out.append((g, b, o))
    return Ptr(out) if ch else v


def same_v(a, b):
    if isinstance(a, Ptr) != isinstance(b, Ptr):
        return False
    if isinstance(a, Ptr):
        return len(a.alts) == len(b.alts) and all(same_val(x[0], y[0]) and same_base(x[1], y[1]) and same_off(x[2], y[2])
                                                  for x, y in zip(a.alts, b.alts))
    return same_val(a, b)


def same_base(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'o':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same_val(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == 'q':
        return a[1].eq(b[1])
    return a == b


class Summary:
    def __init__(self, E, st, header, body, stride=1):
        self.stride = stride
        self.E, self.st, self.header, self.body = E, st, header, body
        self.s0 = st.fork()
        E.set_block(self.s0, header)
        fr = self.s0.frames[-1]
        E.nfresh += 1
        kn = f"k!{E.nfresh}"
        if st.loopks:
            f = z3.Function(kn, *([z3.BitVecSort(64)] * (len(st.loopks) + 1)))
            self.k = f(*st.loopks)
        else:
            self.k = z3.BitVec(kn, 64)
        self.g = {}          # key -> G
        for ins in fr.fn.blocks[header].insts:
            if ins.op != 'phi':
                break
            t = E.m.resolve(ins.ty)
            self.g[('phi', ins.res)] = G(fr.regs[ins.res], 64 if t.k == 'ptr' else t.a)
        self.fieldg = {}     # (oid,key) -> list of patterns
        self.fam = {}        # allocation slot -> family object id
        self.famsize = {}
        self.famcells = {}   # slot -> {off:(size, fn(k))}
        self.famlive = Field(lambda idx: 1)
        self.controunds = 0
        self.resets = 0
        self.deferred = 0
        self.dropped = set()
        self.bounds = []     # e with k <= e: every back edge has k != e (or k < e), so k <= e is inductive
        self.brounds = 0
        self.badb = []       # refuted bound candidates
        self.cont = None     # continue condition as function of j

    # ---- state after k iterations
    def build(self, k, final=False):
        E = self.E
        H = self.s0.fork()
        fr = H.frames[-1]
        for slot, oid in self.fam.items():
            o = Obj(oid, f"new{slot}", 'fam', 'heap')
            o.nidx = 1
            o.es = self.famsize[slot]
            o.size = self.famsize[slot]
            o.valid = (lambda kk: lambda idx: ult(idx[0], kk))(k)
            o.fields[('live', 0)] = self.famlive
            for off, (size, fn) in self.famcells[slot].items():
                o.fields[(off, size)] = Field((lambda fn: lambda idx: fn(idx[0]))(fn))
            H.mem[oid] = o
        for key, pats in self.fieldg.items():
            oid, fk = key
            o = E.wobj(H, oid)
            base = o.fields.get(fk)
            if base is None:
                if fk[0] == 'live':
                    base = Field(lambda idx: 1)
                else:
                    base = E.default_field(H, o, fk)
            o.fields[fk] = self.apply_pats(base, pats, k, fk)
        for key, g in self.g.items():
            v = g.fn(k)
            if key[0] == 'phi':
                fr.regs[key[1]] = v
            elif key[0] == 'cell':
                o = E.wobj(H, key[1])
                E.write_obj(H, o, (), key[2], key[3], v)
            elif key[0] == 'live':
                o = E.wobj(H, key[1])
                o.live = v
            elif key[0] == 'fpt':
                o = E.wobj(H, key[1])
                base = o.fields.get(key[2])
                if base is None:
                    base = Field(lambda idx: 1) if key[2][0] == 'live' else E.default_field(H, o, key[2])
                o.fields[key[2]] = base.write(g.extra, v)
        return H

    def apply_pats(self, base, pats, k, fk):
        w = fk[1] * 8 if fk[1] else 1
        if fk[0] == 'live':
            w = 1
        pats = [dict(p) if p.get('bulk') else p for p in pats]

        def nb(idx):
            v = base.read(idx, w)
            for p in pats:
                # index component p.pos is a + c*j
                rel = sub64(idx[p['pos']], p['a'])
                if p.get('bulk'):
                    cond = ult(rel, k)
                    if p['fn'] is not None and not (is_c(cond) and not cond):
                        v = coerce_ite(cond, p['fn'](idx, rel), v, w)
                    continue
                c = p['c']
                if c == 1:
                    j, okc = rel, 1
                elif c == -1:
                    j, okc = sub64(0, rel), 1
                else:
                    cc = c & mask(64)
                    if c < 0:
                        rel = sub64(0, rel)
                        cc = -c
                    j = bin_('udiv', 64, rel, cc)
                    okc = eq64(bin_('urem', 64, rel, cc), 0)
                others = b_and(*[eq64(x, y) for n, (x, y) in enumerate(zip(idx, p['idx'])) if n != p['pos']])
                cond = b_and(okc, ult(j, k), others, p['guard'](j))
                if is_c(cond) and not cond:
                    continue
                v = coerce_ite(cond, p['val'](j), v, w)
            return v
        return Field(nb)

    def starts(self):
        """(sign, a): iteration sign*(t - a) looks at element t"""
        out = []
        for a, walk in self.starts_():
            out += [(1, a), (1, add64(a, 1))] + ([(-1, a)] if walk else [])
        return [x for x in out if not (x[0] == 1 and is_c(x[1]) and x[1] == 0)][:6]

    def starts_(self):
        """start positions of the walks of this loop: iteration t - start handles element t"""
        out = []

        def put(a, walk=False):
            if not any(same_v(a, x) for x, _ in out):
                out.append((a, walk))
        for key, g in self.g.items():
            if g.kind == 'walk' and isinstance(g.entry, Ptr):
                for gd, b, o in g.entry.alts:
                    if b[0] == 'o':
                        for x in b[2]:
                            put(x, True)
            elif g.kind == 'affine':
                if isinstance(g.entry, Ptr):
                    for gd, b, o in g.entry.alts:
                        if b[0] == 'o' and b[1] in self.s0.mem:
                            es = self.s0.mem[b[1]].es
                            if is_c(es) and es:
                                v, ok = 0, True
                                for co, x in ((o.c, 1),) + tuple(o.t):
                                    co = co - (1 << 64) if co >> 63 else co
                                    ok = ok and co % es == 0
                                    if ok:
                                        v = add64(v, bin_('mul', 64, (co // es) & mask(64), x))
                                if ok:
                                    put(v)
                elif g.w == 64:
                    put(g.entry)
        return out[:4]

    # ---- one exploration round
    def explore(self):
        E = self.E
        k = self.k
        H = self.build(k)
        H.pc.append(z3.ULT(k, KMAX))
        npc = len(H.pc)
        H.loopks = self.st.loopks + (k,)
        if self.cont is not None:
            cont = self.cont
            H.facts = H.facts + ((lambda t, cont=cont: b_implies(ult(t, k), cont(t)), self.starts() if E.use_starts else None),)
            if E.use_last:        # the instance for the iteration before, for the feasibility checks
                c = b_implies(zb(k != 0), cont(simp(k - 1)))
                if not is_c(c):
                    H.pc.append(c)
        H.terms = H.terms + (k,)
        for e in self.bounds:
            H.pc.append(z3.ULE(k, e))
        if self.bounds:
            for w in (31, 32):
                if E.must(H, z3.ULT(k, 1 << w)):
                    H.small = dict(H.small)
                    H.small[k.get_id()] = (k, w)
                    break
        npc = len(H.pc)
        L = E.mkloop(H, 'sum', self.header, self.body)
        L.stride = self.stride
        H.active = H.active + (L,)
        ids = set(H.mem)
        Hsnap = H.fork()
        E.explore([H])
        if len(L.back) > 200:
            raise Unsupported("too many back edges")
        return Hsnap, L.back, L.exits, npc, ids

    def run(self):
        E = self.E
        E.stats['loops'] += 1
        rounds = 0
        mark = len(E.obls)
        covers = dict(E.covers)
        while True:
            rounds += 1
            if rounds > 30:
                raise Unsupported("no loop invariant found (rounds)")
            del E.obls[mark:]
            E.covers = dict(covers)
            E.guessing += 1
            try:
                H, back, exits, npc, ids = self.explore()
                stable = self.refine(H, back, npc, ids)
            finally:
                E.guessing -= 1
            if stable:
                if E.guessing:
                    break
                # the invariant is inductive: explore once more, now discharging every obligation of the body
                del E.obls[mark:]
                E.covers = dict(covers)
                H, back, exits, npc, ids = self.explore()
                if self.refine(H, back, npc, ids):
                    break
        # initiation: guesses at k=0 equal the entry state (patterns are empty at k=0 by construction)
        for key, g in self.g.items():
            if g.kind in ('const', 'affine', 'last', 'fold', 'first', 'lw', 'poison'):
                continue
            ok = v_eq(g.fn(0), g.entry)
            r = E.prove(self.s0, ok)[0]
            if r != 'proved':
                raise Unsupported(f"invariant not initially true: {key} {g.kind}")
        E.loop_log.append((self.st.frames[-1].fn.name, self.header, rounds,
                           {str(kk): g.kind for kk, g in self.g.items()},
                           {str(kk): len(p) for kk, p in self.fieldg.items()}))
        E.note('  loop', self.st.frames[-1].fn.name, self.header, 'rounds', rounds, {str(kk): g.kind for kk, g in self.g.items()},
               {str(kk): len(p) for kk, p in self.fieldg.items()}, 'fam', self.famsize, 'exits', len(exits))
        out = []
        for s, t in exits:
            s.loopks = self.st.loopks
            if any(g.kind == 'havoc' for g in self.g.values()):
                s.inexact = True
            out.append((s, t))
        return resume(E, out)

    # ---- inspect the back edges, refine the guesses; True when inductive
    def refine(self, H, back, npc, ids):
        E = self.E
        k = self.k
        k1 = simp(k + 1)
        changed = False
        guards = [b_and(*[c for c in B.pc[npc:]]) for B in back]
        self.guards = guards
        # objects allocated per iteration
        rens = []
        newobjs = []
        for B in back:
            new = [o for o in B.mem.values() if o.id not in ids and o.cls == 'heap' and not (is_c(o.live) and not o.live)]
            new.sort(key=lambda o: o.id)
            newobjs.append(new)
        if back:
            n = len(newobjs[0])
            if any(len(x) != n for x in newobjs):
                raise Unsupported("allocation count differs between back edges")
            for slot in range(n):
                o = newobjs[0][slot]
                if any(x[slot].kind != 'flat' or x[slot].size != o.size for x in newobjs):
                    raise Unsupported("allocated array in loop")
                if slot not in self.fam:
                    self.fam[slot] = E.new_id()
                    self.famsize[slot] = o.size
                    self.famcells[slot] = {}
                    changed = True
            if n != len(self.fam):
                raise Unsupported("allocation pattern changed")
        for new in newobjs:
            rens.append({o.id: (self.fam[i], (k,)) for i, o in enumerate(new)})

        # bounds of this round
        nb = None
        for B in back:
            es = []
            for c in B.pc[npc:]:
                e = self.bound_of(c)
                if e is not None and not any(e.eq(x) for x in es):
                    es.append(e)
                e = self.narrow_bound(c)
                if e is not None and not any(e.eq(x) for x in es) and not any(e.eq(x) for x in self.badb):
                    if any(e.eq(x) for x in self.bounds) and E.prove(B, z3.ULE(k1, e), quick=True)[0] != 'proved':
                        self.badb.append(e)
                    else:
                        es.append(e)
            nb = es if nb is None else [x for x in nb if any(x.eq(y) for y in es)]
        nb = [x for x in nb or [] if not any(x.eq(y) for y in self.badb)]
        oldb, self.bounds = self.bounds, nb
        bounds_ok = not back or all(any(x.eq(y) for y in nb) for x in oldb)
        if not bounds_ok or len(nb) > len(oldb):
            self.brounds += 1
            if self.brounds > 6:
                self.bounds = [x for x in nb if any(x.eq(y) for y in oldb)] if self.brounds < 9 else []
            else:
                bounds_ok = False
        # continue condition of this round
        newcont = None
        if back:
            gs = list(guards)

            def newcont(t, gs=gs):
                x = b_or(*[subst(g, [(k, term(t, 64))]) for g in gs])
                return x if is_c(x) else simp(x)
        oldcont, self.cont = self.cont, newcont
        changed |= self.collect_cells(H, back)
        if changed:
            self.drop_fields()
            self.update_fam(back, rens, newobjs, H)
            return False

        # check scalars
        bad = []
        for key, g in self.g.items():
            vals = []
            if g.kind == 'poison':
                continue
            for bi, B in enumerate(back):
                v = self.value_in(B, key, g)
                if key[0] != 'live':
                    v = rename(v, rens[bi])
                vals.append(v)
            ok = True
            nxt = g.fn(k1)
            for B, v in zip(back, vals):
                if isinstance(nxt, Ptr) != isinstance(v, Ptr):
                    e = eq64(E.int_of(nxt), E.int_of(v))
                else:
                    e = v_eq(nxt, v)
                if is_c(e):
                    if not e:
                        ok = False
                        break
                    continue
                r = E.prove(B, e, quick=True)[0]
                if r != 'proved' and g.kind == 'spec':
                    r = E.prove(B, e)[0]
                if r != 'proved':
                    ok = False
                    break
            if not ok:
                bad.append((key, g, vals))
        if E_DEBUG:
            E.note('  round', self.header, 'bad', [(kk, g.kind, sorted(map(str, g.tried))) for kk, g, _ in bad], 'fields', {kk: [p.get('n') for p in pp] for kk, pp in self.fieldg.items()}, 'back', len(back), 'deferred', self.deferred)
        if bad:
            # pointers that are not a walk: describe the element-wise updates first, the pointer's final value depends on them
            if all(isinstance(g.entry, Ptr) and g.kind == 'const' and 'affine' in g.tried and 'last' not in g.tried for _, g, _ in bad) \
                    and self.deferred < 12:
                self.deferred += 1
                prog = self.collect_fields(H, back, guards)
                if not prog:
                    for oid, fk in list(self.fieldg):
                        if not self.check_field(H, back, oid, fk, rens):
                            prog |= self.repattern(H, back, oid, fk, guards, rens)
                if prog:
                    self.update_fam(back, rens, newobjs, H)
                    return False
            try:
                if self.refine_scalars(bad, back, guards, H) == 'soft':
                    for (oid, fk), pats in list(self.fieldg.items()):
                        if not self.check_field(H, back, oid, fk, rens):
                            self.repattern(H, back, oid, fk, guards, rens)
                else:
                    self.drop_fields()
                    # stores seen while an index was still guessed constant: look again
                    for kk in [kk for kk in self.g if kk[0] == 'cell' and kk not in self.dropped and H.mem[kk[1]].cls == 'heap']:
                        self.dropped.add(kk)
                        del self.g[kk]
            except Unsupported:
                # the values may depend on element-wise updates that are not described yet
                if not self.collect_fields(H, back, guards):
                    raise
            self.update_fam(back, rens, newobjs, H)
            return False
        if self.collect_fields(H, back, guards):
            self.update_fam(back, rens, newobjs, H)
            return False
        # per-iteration objects
        if self.update_fam(back, rens, newobjs, H, check=True):
            return False
        # element-wise updates
        failing = [(oid, fk) for (oid, fk) in self.fieldg if not self.check_field(H, back, oid, fk, rens)]
        if failing:
            prog = False
            for oid, fk in failing:
                prog |= self.repattern(H, back, oid, fk, guards, rens)
            if not prog:
                self.resets += 1
                if self.resets > 2:
                    raise Unsupported(f"no invariant for field {[fk for _, fk in failing]} of {H.mem[failing[0][0]].name}")
                for key in failing:
                    self.fieldg.pop(key, None)
            return False
        # untouched fields/cells must really be untouched: fields changed without pattern
        for bi, B in enumerate(back):
            for oid, ho in H.mem.items():
                bo = B.mem.get(oid)
                if bo is None or bo is ho:
                    continue
                for fk, bf in bo.fields.items():
                    hf = ho.fields.get(fk)
                    if hf is bf or hf is None:
                        continue
                    if (oid, fk) in self.fieldg or any(kk[0] == 'fpt' and kk[1] == oid and kk[2] == fk for kk in self.g):
                        continue
                    if not self.check_field(H, [B], oid, fk, [rens[bi]]):
                        raise Unsupported("field changed without invariant")
        # the assumed continue condition must be the one this round established
        if not bounds_ok:
            return False
        if back:
            a = newcont(k)
            b = oldcont(k) if oldcont is not None else None
            if b is None or not same_val(a, b):
                self.controunds += 1
                if self.controunds < 4:
                    return False
                if oldcont is not None:
                    for B in back:
                        if E.prove(B, oldcont(k), quick=True)[0] != 'proved':
                            raise Unsupported("continue condition not stable")
                    self.cont = oldcont
        return True

    def bound_of(self, c):
        """a path condition  k != e  or  k < e  (e free of k)"""
        k = self.k
        if not isinstance(c, z3.ExprRef):
            return None
        if z3.is_and(c):
            for x in c.children():
                e = self.bound_of(x)
                if e is not None:
                    return e
            return None
        if z3.is_not(c):
            x = c.arg(0)
            if z3.is_eq(x) and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
                c0, ts = linear_terms(sub64(x.arg(0), x.arg(1)), 1)
                coef, rest = 0, Off(c0)
                for co, t in ts:
                    if t.eq(k):
                        coef = co
                    elif mentions(t, [k]):
                        return None
                    else:
                        rest = off_add(rest, 0, ((co, t),))
                if coef == 1:
                    return z3.simplify(term(sub64(0, off_value(rest)), 64))
                if coef == mask(64):
                    return z3.simplify(term(off_value(rest), 64))
            if z3.is_app_of(x, z3.Z3_OP_ULEQ) and x.arg(1).eq(k) and not mentions(x.arg(0), [k]):
                return z3.simplify(x.arg(0))
            return None
        if z3.is_app_of(c, z3.Z3_OP_ULT) and c.arg(0).eq(k) and not mentions(c.arg(1), [k]):
            return z3.simplify(c.arg(1))
        return None

    def narrow_bound(self, c):
        """a path condition  x < e  or  x != e  where x is a narrow counter a + k: the candidate k <= e - a (to be proved)"""
        k = self.k
        if not self.E.use_narrow or not isinstance(c, z3.ExprRef):
            return None
        if z3.is_and(c):
            for x in c.children():
                e = self.narrow_bound(x)
                if e is not None:
                    return e
            return None
        neg = z3.is_not(c)
        x = c.arg(0) if neg else c
        if not z3.is_app(x) or x.num_args() != 2 or not z3.is_bv(x.arg(0)) or x.arg(0).size() >= 64:
            return None
        kd = x.decl().kind()
        a, b = x.children()
        if kd in (z3.Z3_OP_ULT, z3.Z3_OP_SLT) and not neg:
            pairs = [(a, b)]
        elif kd in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ) and neg:
            pairs = [(b, a)]
        elif kd in (z3.Z3_OP_UGT, z3.Z3_OP_SGT) and not neg:
            pairs = [(b, a)]
        elif z3.is_eq(x) and neg:
            pairs = [(a, b), (b, a)]
        else:
            return None
        for a, b in pairs:
            w = a.size()
            if mentions(b, [k]):
                continue
            off = None
            if z3.is_app_of(a, z3.Z3_OP_EXTRACT) and a.arg(0).eq(k) and a.params() == [w - 1, 0]:
                off = 0
            elif z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2:
                for p, q in (a.children(), a.children()[::-1]):
                    if z3.is_app_of(p, z3.Z3_OP_EXTRACT) and p.arg(0).eq(k) and p.params() == [w - 1, 0] and not mentions(q, [k]):
                        off = z3.ZeroExt(64 - w, q)
            if off is None:
                continue
            e = z3.ZeroExt(64 - w, b)
            return z3.simplify(e - off) if not is_c(off) else z3.simplify(e)
        return None

    def drop_fields(self):
        self.fieldg.clear()
        for kk in [kk for kk in self.g if kk[0] == 'fpt']:
            del self.g[kk]

    def collect_cells(self, H, back):
        E = self.E
        changed = False
        for bi, B in enumerate(back):
            for oid, ho in H.mem.items():
                bo = B.mem.get(oid)
                if bo is None or bo is ho:
                    continue
                if bo.kind != ho.kind:
                    # re-typed (flat -> arr) inside the loop: retype at entry and retry
                    if oid in self.s0.mem and self.s0.mem[oid].kind == 'flat' and bo.kind == 'arr':
                        E.as_arr(self.s0, self.s0.mem[oid], bo.es)
                        changed = True
                        continue
                    raise Unsupported("object kind changed in loop")
                if bo.kind == 'flat':
                    for off, (size, v) in bo.cells.items():
                        hv = ho.cells.get(off)
                        if hv is not None and hv[0] == size and hv[1] is v:
                            continue
                        key = ('cell', oid, off, size)
                        if key in self.g:
                            continue
                        if hv is None:
                            ev = self.entry_cell(oid, off, size, v)
                        elif hv[0] != size:
                            raise Unsupported("cell resized in loop")
                        else:
                            ev = hv[1]
                            if self.same(ev, v):
                                continue
                        self.g[key] = G(ev, size * 8)
                        changed = True
                lv = bo.live
                if not (lv is ho.live or (is_c(lv) and is_c(ho.live) and lv == ho.live)):
                    key = ('live', oid)
                    if key not in self.g:
                        self.g[key] = G(ho.live, 1)
                        changed = True
                for fk, bf in bo.fields.items():
                    if ho.fields.get(fk) is None and fk[0] != 'live' and oid in self.s0.mem:
                        # first touched in the loop: default content, recorded at entry so that it is shared
                        so = E.wobj(self.s0, oid)
                        so.fields.setdefault(fk, E.default_field(self.s0, so, fk))
                        changed = True
        return changed

    def collect_fields(self, H, back, guards):
        changed = False
        for bi, B in enumerate(back):
            for oid, ho in H.mem.items():
                bo = B.mem.get(oid)
                if bo is None or bo is ho:
                    continue
                for fk, bf in bo.fields.items():
                    hf = ho.fields.get(fk)
                    if hf is bf or hf is None:
                        continue
                    changed |= self.new_patterns(B, bi, oid, fk, hf, bf, guards)
        return changed

    def same(self, a, b):
        if isinstance(a, Ptr) != isinstance(b, Ptr):
            return False
        e = v_eq(a, b)
        return is_c(e) and bool(e)

    def entry_cell(self, oid, off, size, like):
        E = self.E
        o = self.s0.mem[oid]
        v = E.read_obj(self.s0, o, (), off, None, size, size * 8, isinstance(like, Ptr))
        return v

    def value_in(self, B, key, g):
        E = self.E
        if key[0] == 'phi':
            return B.frames[-1].regs[key[1]]
        if key[0] == 'cell':
            o = B.mem[key[1]]
            return E.read_obj(B, o, (), key[2], None, key[3], key[3] * 8, isinstance(g.entry, Ptr))
        if key[0] == 'live':
            return B.mem[key[1]].live
        if key[0] == 'fpt':
            o = B.mem[key[1]]
            f = o.fields.get(key[2])
            w = key[2][1] * 8 if key[2][1] else 1
            return f.read(g.extra, w)

    # ---- per-iteration objects
    def update_fam(self, back, rens, newobjs, H, check=False):
        """fill in / check the field contents of the family of per-iteration objects"""
        E = self.E
        k = self.k
        if not self.fam or not back:
            return False
        ch = False
        guards = self.guards
        for slot, oid in self.fam.items():
            offs = set()
            for new in newobjs:
                for off, (size, v) in new[slot].cells.items():
                    offs.add((off, size))
            for off, size in offs:
                v = None
                for bi in reversed(range(len(back))):
                    c = newobjs[bi][slot].cells.get(off)
                    if c is None or c[0] != size:
                        raise Unsupported("irregular cell in allocated object")
                    x = rename(c[1], rens[bi])
                    v = x if v is None else coerce_ite(guards[bi], x, v, size * 8)
                cur = self.famcells[slot].get(off)
                if cur is not None:
                    old = cur[1](k)
                    ok = True
                    for bi, B in enumerate(back):
                        x = rename(newobjs[bi][slot].cells[off][1], rens[bi])
                        if isinstance(old, Ptr) != isinstance(x, Ptr):
                            ok = False
                            break
                        e = v_eq(old, x)
                        if not (is_c(e) and e) and E.prove(B, e, quick=True)[0] != 'proved':
                            ok = False
                            break
                    if ok:
                        continue
                    if check and mentions(v, [self.k]) is None:
                        pass
                self.famcells[slot][off] = (size, (lambda v: lambda j: subst(v, [(k, term(j, 64))]))(v))
                ch = True
        return ch

    # ---- element-wise updates
    def new_patterns(self, B, bi, oid, fk, hf, bf, guards):
        """register index patterns for writes not yet covered; True if something new"""
        E = self.E
        k = self.k
        nw = len(hf.writes) if bf.base is hf.base else None
        if nw is None or bf.writes[:nw] != hf.writes[:nw]:
            # bulk update (block copy / inner loop): keep only if provably covered
            if bf.base is not hf.base:
                pats = self.fieldg.get((oid, fk), [])
                if not E.use_bulk:
                    raise Unsupported("bulk update of a field inside a loop")
                if any(p.get('bulk') for p in pats):
                    return False
                ho = B.mem[oid]
                nidx = ho.nidx if ho.kind == 'fam' else 1
                cands = [(pos, a) for a in [0] + [a for a, _ in self.starts_() if not is_c(a)] for pos in range(nidx)]
                p = dict(bulk=True, cands=cands, fn=None, c=1, idx=tuple(E.fresh(None, 'bi', 64) for _ in range(nidx)))
                p['pos'], p['a'] = cands.pop(0)
                self.fieldg[(oid, fk)] = [p]
                return True
            ws = [w for w in bf.writes if w not in hf.writes]
        else:
            ws = bf.writes[nw:]
        ch = False
        pats = self.fieldg.get((oid, fk), [])
        if any(p.get('bulk') for p in pats):
            return False
        for idx, v in ws:
            # is it the pinned location of an 'fpt' key?
            hit = False
            for kk, g in self.g.items():
                if kk[0] == 'fpt' and kk[1] == oid and kk[2] == fk:
                    e = b_and(*[eq64(x, y) for x, y in zip(idx, g.extra)])
                    if is_c(e) and e:
                        hit = True
            for p in pats:
                e = b_and(*[eq64(x, y) for x, y in zip(idx, p['idx'])])
                if is_c(e) and e:
                    hit = True
            if hit:
                continue
            w = fk[1] * 8 if fk[1] else 1
            if not any(mentions(x, [k]) for x in idx):
                n = sum(1 for kk in self.g if kk[0] == 'fpt')
                key = ('fpt', oid, fk, n)
                ent = hf.read(idx, w)
                g = G(ent, w)
                g.extra = idx
                self.g[key] = g
                ch = True
                continue
            pos = [i for i, x in enumerate(idx) if mentions(x, [k])]
            if len(pos) != 1:
                raise Unsupported("two varying indices")
            pos = pos[0]
            c0, ts = linear_terms(idx[pos], 1)
            coef = 0
            rest = Off(c0)
            for co, x in ts:
                if x.eq(k):
                    coef = co - (1 << 64) if co >> 63 else co
                elif mentions(x, [k]):
                    if E.use_narrow and self.deferred < 12:
                        self.deferred += 1
                        return True      # the bound of the counter may not be known yet
                    raise Unsupported("non-affine index " + str(idx[pos])[:100])
                else:
                    rest = off_add(rest, 0, ((co, x),))
            a = off_value(rest)
            p = dict(idx=idx, pos=pos, a=a, c=coef)
            p['guard'] = lambda j: 0
            p['val'] = lambda j: None
            p['raw'] = True
            self.fieldg.setdefault((oid, fk), pats)
            pats.append(p)
            ch = True
        if ch and pats:
            pass
        return ch

    def repattern(self, H, back, oid, fk, guards, rens):
        E = self.E
        """recompute guard/value of the patterns of a field from the current round"""
        k = self.k
        pats = self.fieldg[(oid, fk)]
        w = fk[1] * 8 if fk[1] else 1
        ch = False
        if pats and pats[0].get('bulk'):
            return self.rebulk(pats[0], back, oid, fk, guards, rens, w)
        for p in pats:
            gs, val = [], None
            for bi in reversed(range(len(back))):
                B = back[bi]
                bf = B.mem[oid].fields.get(fk)
                hf = H.mem[oid].fields.get(fk)
                hw = hf.writes if hf else ()
                wr = None
                for idx, v in bf.writes[len(hw):]:
                    e = b_and(*[eq64(x, y) for x, y in zip(idx, p['idx'])])
                    if is_c(e) and e:
                        wr = v
                if wr is None:
                    continue
                wr = self.prune_ite(B, rename(wr, rens[bi]))
                gs.append(guards[bi])
                val = wr if val is None else coerce_ite(guards[bi], wr, val, w)
            if val is None:
                p['stale'] = True
                ch = True
                continue
            guard = b_or(*gs) if len(gs) < len(back) else b_or(*guards)
            # all writing paths: keep only guards that matter for 'did iteration j write?'
            if len(gs) == len(back):
                guard = 1
            sig = (guard, val)
            if p.get('sig') is not None and same_val(p['sig'][0], guard) and same_v(p['sig'][1], val):
                continue
            p['sig'] = sig
            if E_DEBUG: E.note('   pat', fk, 'idx', p['idx'], 'n', p.get('n', 0), 'guard', str(guard)[:300], 'val', str(val)[:600] if not isinstance(val, Ptr) else [(str(g)[:200], b, str(o)) for g, b, o in val.alts])
            p['n'] = p.get('n', 0) + 1
            if p['n'] > 12:
                return ch
            if p['n'] in (3, 4, 5, 8):
                # the value written keeps referring to the previous iteration: try the first iteration's value
                val = subst(val, [(k, z3.BitVecVal(0, 64))])
            p['guard'] = (lambda gd: lambda j: subst(gd, [(k, term(j, 64))]))(guard)
            p['val'] = (lambda vv: lambda j: subst(vv, [(k, term(j, 64))]))(val)
            ch = True
        if any(p.get('stale') for p in pats):
            pats[:] = [p for p in pats if not p.get('stale')]
            if not pats:
                del self.fieldg[(oid, fk)]
        return ch

    def rebulk(self, p, back, oid, fk, guards, rens, w):
        """the iteration rewrites a whole slice of the field (an inner loop): slice a+j holds what iteration j leaves there"""
        k = self.k

        def rd(idx):
            val = None
            for bi in reversed(range(len(back))):
                x = rename(back[bi].mem[oid].fields[fk].read(idx, w), rens[bi])
                val = x if val is None else coerce_ite(guards[bi], x, val, w)
            return val
        sig = rd(p['idx'])
        if p.get('sig') is not None and same_v(p['sig'], sig):
            if not p['cands']:
                return False
            p['pos'], p['a'] = p['cands'].pop(0)
        p['sig'] = sig
        p['n'] = p.get('n', 0) + 1
        if p['n'] > 12:
            return False
        p['fn'] = lambda idx, j: subst(rd(idx), [(k, term(j, 64))])
        return True

    def set_lw(self, g, vals, guards, hvs):
        """written on some paths only: the value of the last iteration that wrote, found by a last-write index"""
        E, k = self.E, self.k
        if not E.use_lw or g.lwn > 6:
            return False
        cur = g.fn(k)
        un = [same_v(v, cur) for v in vals]
        if not any(un) or all(un):
            return False
        X, gs = None, []
        for bi in reversed(range(len(vals))):
            if un[bi]:
                continue
            gs.append(guards[bi])
            X = vals[bi] if X is None else coerce_ite(guards[bi], vals[bi], X, g.w)
        if isinstance(g.entry, Ptr) and not isinstance(X, Ptr):
            X = E.as_ptr(X)
        guard = b_or(*gs)
        if g.lw is not None and (mentions_decl(X, g.lw.f) or mentions_decl(guard, g.lw.f)):
            # guess: written once, so describe the first write
            z = [(g.lw.f(*(list(self.st.loopks) + [k])), z3.BitVecVal(0, 64))]
            X, guard = subst(X, z), subst(guard, z)
        if mentions(X, hvs) or (g.lw is not None and (mentions_decl(X, g.lw.f) or mentions_decl(guard, g.lw.f))):
            return False
        if is_c(guard):
            return False
        loopks = list(self.st.loopks)
        F = g.lw
        if F is None:
            E.nfresh += 1
            F = g.lw = Fold()
            doms = [z3.BitVecSort(64)] * (len(loopks) + 1)
            F.f = z3.Function(f"lw!{E.nfresh}", *doms, z3.BitVecSort(64))
            F.w, F.j = 64, z3.BitVec(f"j!{E.nfresh}", 64)
            F.params = [z3.BitVec(f"p!{E.nfresh}.{i}", 64) for i in range(len(loopks))]
            F.init = 0
        G_ = subst(subst(guard, [(k, F.j)]), list(zip(loopks, F.params))) if loopks else subst(guard, [(k, F.j)])
        if F.guard is not None and same_val(F.guard, G_) and g.kind == 'lw':
            return False
        F.guard = G_
        F.step = z3.If(G_, F.j + 1, F.f(*(F.params + [F.j])))
        if not any(x is F for x in E.lws):
            E.lws.append(F)
            E.fold_by_decl[F.f(*([z3.BitVecVal(0, 64)] * (len(loopks) + 1))).decl().get_id()] = F
        g.lwn += 1
        e, w = g.entry, g.w

        def fn(kk):
            if is_c(kk) and kk == 0:
                return e
            L = F.f(*(loopks + [term(kk, 64)]))
            return coerce_ite(L == 0, e, subst(X, [(k, simp(L - 1))]), w)
        g.fn, g.kind = fn, 'lw'
        return True

    def prune_ite(self, B, v):
        """drop the branches of a value that the path excludes (reads of elements earlier iterations did not write)"""
        if is_c(v) or isinstance(v, (Ptr, list, tuple)) or not isinstance(v, z3.ExprRef):
            return v
        E = self.E
        budget = [12]

        def go(t):
            if not z3.is_app_of(t, z3.Z3_OP_ITE) or budget[0] <= 0:
                return t
            budget[0] -= 1
            c = t.arg(0)
            if E.prove(B, b_not(c), quick=True)[0] == 'proved':
                return go(t.arg(2))
            if E.prove(B, c, quick=True)[0] == 'proved':
                return go(t.arg(1))
            x, y = go(t.arg(1)), go(t.arg(2))
            return t if x.eq(t.arg(1)) and y.eq(t.arg(2)) else z3.If(c, x, y)
        return go(v)

    def base_read(self, H, oid, fk, sk, w):
        if (oid, fk) not in self.fieldg:
            return None
        o = self.s0.mem.get(oid)
        if o is None:
            return None
        f = o.fields.get(fk)
        return f.read(sk, w) if f is not None else None

    def check_field(self, H, back, oid, fk, rens):
        E = self.E
        w = fk[1] * 8 if fk[1] else 1
        k1 = simp(self.k + 1)
        o = H.mem[oid]
        nidx = o.nidx if o.kind == 'fam' else 1
        sk = tuple(E.fresh(None, 'i', 64) for _ in range(nidx))
        H1 = None
        if not back:
            return True
        H1 = self.build(k1)
        o1 = H1.mem[oid]
        f1 = o1.fields.get(fk)
        for bi, B in enumerate(back):
            bo = B.mem[oid]
            bf = bo.fields.get(fk)
            if bf is f1:
                continue
            s = B.fork()
            s.terms = s.terms + sk
            if o.kind == 'fam':
                s.pc.append(zb(o.valid(sk)))
            else:
                s.pc.append(zb(ult(sk[0], o.n)))
            x = rename(bf.read(sk, w), rens[bi]) if bf is not None else None
            y = f1.read(sk, w) if f1 is not None else None
            if isinstance(x, Ptr) != isinstance(y, Ptr):
                e = eq64(E.int_of(x), E.int_of(y))
            else:
                e = v_eq(x, y)
            if is_c(e) and e:
                continue
            bt = self.base_read(H, oid, fk, sk, w)
            r = None
            if bt is not None and not isinstance(bt, Ptr) and not is_c(bt) and bt.num_args() > 0 and not is_c(e):
                # whatever the field held before the loop: one arbitrary value
                r = E.prove(s, z3.substitute(e, (bt, E.fresh(None, 'before', w))), quick=True)[0]
            if r != 'proved':
                r = E.prove(s, e, quick=True)[0]
            if r == 'unknown':
                r = E.prove(s, e)[0]
            if r != 'proved':
                if E_DEBUG:
                    so = z3.Solver(); so.add([zb(c) for c in s.pc] + E.axioms + [zb(b_not(e))]); so.add(E.close(s,[zb(c) for c in s.pc] + [zb(b_not(e))]))
                    open('/tmp/w/cf.smt2','w').write(so.to_smt2())
                    E.note('   check_field fails', oid, fk, bi, r)
                return False
        return True

    # ---- scalar templates
    def refine_scalars(self, bad, back, guards, H):
        E = self.E
        k = self.k
        hvs = [g.hv for g in self.g.values() if g.hv is not None and g.kind == 'havoc']
        progress = False
        soft = True
        pend = []
        for key, g, vals in bad:
            merged = None
            for bi in reversed(range(len(back))):
                merged = vals[bi] if merged is None else coerce_ite(guards[bi], vals[bi], merged, g.w)
            if not isinstance(g.entry, Ptr) and any(isinstance(v, Ptr) for v in vals) and not is_c(g.entry) and g.w == 64:
                # an uninitialised temporary that holds a pointer after the first iteration
                g.entry = E.as_ptr(g.entry)
                g.fn = (lambda e: lambda kk: e)(g.entry)
            if isinstance(g.entry, Ptr):
                if self.refine_ptr(key, g, vals, merged, hvs):
                    progress = True
                    if g.kind not in ('last', 'first', 'const', 'lw'):
                        soft = False
                    continue
                if key[0] == 'cell' and E.get_obj(self.s0, key[1]).cls == 'stack':
                    g.kind, g.fn = 'poison', lambda kk: POISON
                    progress = True
                    continue
                raise Unsupported(f"no invariant for pointer {key} ({g.kind})")
            if any(isinstance(v, Ptr) for v in vals):
                if key[0] == 'cell' and E.get_obj(self.s0, key[1]).cls == 'stack':
                    g.kind, g.fn = 'poison', lambda kk: POISON
                    progress = True
                    continue
                raise Unsupported(f"pointer stored over integer in loop {key}")
            if g.kind == 'const' and 'affine' not in g.tried:
                # cheap guess: constant difference
                d = None
                ok = True
                for v in vals:
                    dv = bin_('sub', g.w, v, g.entry) if g.w > 1 else None
                    if dv is None or mentions(dv, [k] + hvs):
                        ok = False
                        break
                    if d is None:
                        d = dv
                    elif not same_val(d, dv):
                        ok = False
                if ok and d is not None:
                    self.set_affine(g, d)
                    progress = True
                    soft = False
                    continue
            soft = False
            if g.kind in ('const', 'lw') and g.w > 1 and self.set_lw(g, vals, guards, hvs):
                progress = True
                continue
            if g.kind != 'havoc' and 'havoc' not in g.tried:
                self.set_havoc(key, g)
                progress = True
                continue
            if g.kind == 'havoc':
                pend.append((key, g, vals, merged))
                continue
            # previous template failed
            if 'fold' in g.tried:
                raise Unsupported(f"no invariant for {key}")
            self.set_havoc(key, g)
            progress = True
        if progress:
            return 'soft' if soft and not pend else None
        # all remaining bad ones are in havoc form: look at their step
        allh = [g.hv for key, g in self.g.items() if g.kind == 'havoc']
        did = False
        for key, g, vals, merged in pend:
            h = g.hv
            others = [x for x in allh if not x.eq(h)]
            if mentions(merged, others):
                continue
            d = bin_('sub', g.w, merged, h) if g.w > 1 else None
            if d is not None and not mentions(d, [k, h]) and 'affine' not in g.tried:
                self.set_affine(g, d)
                did = True
                continue
            if not mentions(merged, [h]) and 'last' not in g.tried:
                self.set_last(g, merged)
                did = True
        if did:
            return
        # specification folds / earlier folds
        for key, g, vals, merged in pend:
            for F in E.folds:
                if F.w != g.w or ('spec', id(F)) in g.tried:
                    continue
                if F.params and not (len(F.params) == len(self.st.loopks)):
                    continue
                g.tried.add(('spec', id(F)))
                par = list(self.st.loopks) if F.params else []
                # a loop that goes on where an earlier fold stopped: F(t + k)
                sh = 0
                if isinstance(g.entry, z3.ExprRef) and z3.is_app(g.entry) and g.entry.decl().eq(F.f):
                    sh = g.entry.children()[-1]
                fn = (lambda F, par, sh: lambda kk: F.f(*(par + [term(add64(sh, kk), 64)])))(F, par, sh)
                ok = E.prove(self.s0, v_eq(fn(0), g.entry), quick=True)[0] == 'proved'
                if not ok:
                    continue
                # tentative: replace the havoc variable and test consecution with the other havocs untouched
                sub = [(g.hv, fn(k))]
                good = True
                for B, v in zip(back, vals):
                    s = B.fork()
                    s.pc = [zb(subst(c, sub)) for c in s.pc]
                    e = v_eq(subst(v, sub), fn(simp(k + 1)))
                    if not (is_c(e) and e):
                        r = E.prove(s, e, quick=True)[0]
                        if r == 'unknown':
                            r = E.prove(s, e)[0]
                        if E_DEBUG:
                            E.note('  spec', key, F.f, r)
                        if r != 'proved':
                            good = False
                            break
                if good:
                    g.fn, g.kind = fn, 'spec'
                    did = True
                    break
        if did:
            return
        # new folds (simultaneous)
        E.nfresh += 1
        Fs = []
        loopks = list(self.st.loopks)
        doms = [z3.BitVecSort(64)] * (len(loopks) + 1)
        jv = z3.BitVec(f"j!{E.nfresh}", 64)
        params = [z3.BitVec(f"p!{E.nfresh}.{i}", 64) for i in range(len(loopks))]
        for n, (key, g, vals, merged) in enumerate(pend):
            F = Fold()
            sort = z3.BoolSort() if g.w == 1 else z3.BitVecSort(g.w)
            F.f = z3.Function(f"fold!{E.nfresh}.{n}", *doms, sort)
            F.w, F.j, F.params = g.w, jv, params
            Fs.append(F)
        ps = list(zip(loopks, params))
        sub = [(g.hv, F.f(*(params + [jv]))) for (key, g, vals, merged), F in zip(pend, Fs)]
        remaining = [g.hv for key, g in self.g.items() if g.kind == 'havoc' and not any(g is p[1] for p in pend)]
        for (key, g, vals, merged), F in zip(pend, Fs):
            if mentions(merged, remaining):
                raise Unsupported("fold depends on an unresolved location")
            # the iteration counter first (havoc variables may be applications over k)
            stepv = subst(merged, [(g2.hv, F2.f(*(loopks + [k]))) for (k2, g2, v2, m2), F2 in zip(pend, Fs)])
            F.step = subst(subst(stepv, [(k, jv)]), ps) if loopks else subst(stepv, [(k, jv)])
            F.init = subst(g.entry, ps) if loopks else g.entry
            E.folds.append(F)
            E.fold_by_decl[F.f.get_id() if hasattr(F.f, 'get_id') else F.f.ast] = F
            E.fold_by_decl[F.f(*([z3.BitVecVal(0, 64)] * len(doms))).decl().get_id()] = F
            fn = (lambda F: lambda kk: F.f(*(loopks + [term(kk, 64)])))(F)
            g.fn, g.kind = fn, 'fold'
            g.tried.add('fold')

    def set_affine(self, g, d):
        e, w = g.entry, g.w
        g.tried.add('affine')
        g.kind = 'affine'

        def fn(k):
            kk = ext('trunc', 64, w, k) if w < 64 else k
            return bin_('add', w, e, bin_('mul', w, d, kk))
        g.fn = fn

    def set_havoc(self, key, g):
        E = self.E
        E.nfresh += 1
        sort = z3.BoolSort() if g.w == 1 else z3.BitVecSort(g.w)
        doms = [z3.BitVecSort(64)] * (len(self.st.loopks) + 1)
        f = z3.Function(f"h!{E.nfresh}", *doms, sort)
        lk = list(self.st.loopks)
        g.hv = f(*(lk + [self.k]))
        g.fn = lambda k: f(*(lk + [term(k, 64)]))
        g.kind = 'havoc'
        g.tried.add('havoc')

    def set_last(self, g, merged):
        k = self.k
        e, w = g.entry, g.w
        g.tried.add('last')
        g.kind = 'last'

        def fn(kk):
            c = eq64(kk, 0)
            if is_c(c):
                if c:
                    return e
            prev = subst(merged, [(k, term(sub64(kk, 1), 64))])
            if is_c(c):
                return prev
            return coerce_ite(c, e, prev, w)
        g.fn = fn

    def refine_ptr(self, key, g, vals, merged, hvs):
        E = self.E
        k = self.k
        if any(not isinstance(v, Ptr) for v in vals):
            merged = E.as_ptr(merged)
        if mentions(merged, hvs):
            # wait for the others unless nothing else changes
            pass
        if g.kind == 'const' and 'affine' not in g.tried:
            g.tried.add('affine')
            ea = [x for x in g.entry.alts if x[1][0] == 'o']
            va = []
            for v in vals:
                for x in E.as_ptr(v).alts:
                    if x[1][0] == 'o':
                        va.append(x)
            en = [x for x in g.entry.alts if x[1][0] == 'n']
            if len(ea) == 1 and va and not en and all(x[1][1] == ea[0][1][1] for x in va) and not ea[0][1][2]:
                # pointer into one object: constant stride
                b, o = ea[0][1], ea[0][2]
                d = None
                ok = True
                for x in va:
                    dv = sub64(off_value(x[2]), off_value(o))
                    if mentions(dv, [k] + hvs):
                        ok = False
                    elif d is None:
                        d = dv
                    elif not same_val(d, dv):
                        ok = False
                if ok and d is not None and is_c(d):
                    g.kind = 'affine'

                    def fn(kk, b=b, o=o, d=d):
                        c, ts = linear_terms(kk, d)
                        return Ptr([(1, b, off_add(o, c, ts))])
                    g.fn = fn
                    return True
            # list walk
            cands = []
            for e in ea:
                for x in va:
                    if x[1][1] == e[1][1] and e[1][2] and same_off(x[2], e[2]):
                        diff = [i for i, (p, q) in enumerate(zip(e[1][2], x[1][2])) if not same_val(p, q)]
                        if len(diff) == 1:
                            dv = sub64(x[1][2][diff[0]], e[1][2][diff[0]])
                            if is_c(dv) and dv in (1, mask(64)):
                                cands.append((e, diff[0], dv))
            if cands:
                e, pos, dv = cands[0]
                fam = E.get_obj(self.s0, e[1][1])
                b, o = e[1], e[2]
                others = [x for x in g.entry.alts if x is not e]

                def fn(kk, b=b, o=o, pos=pos, dv=dv, fam=fam):
                    idx = list(b[2])
                    step = kk if dv == 1 else sub64(0, kk)
                    idx[pos] = add64(idx[pos], step)
                    ok = fam.valid(tuple(idx))
                    if not is_c(ok):
                        ok = simp(ok)
                    alts = []
                    if not (is_c(ok) and not ok):
                        alts.append((ok, ('o', b[1], tuple(idx)), o))
                    if not (is_c(ok) and ok):
                        alts.append((b_not(ok), ('n',), ZOFF))
                    return Ptr(alts)
                g.fn, g.kind = fn, 'walk'
                return True
            if self.set_lw(g, vals, self.guards, hvs):
                return True
            if self.deferred < 12:
                return True          # first describe the element-wise updates
        if self.set_lw(g, vals, self.guards, hvs):
            return True
        if g.kind in ('walk', 'affine') and 'last' not in g.tried and 'back' not in g.tried:
            g.tried.add('back')
            g.kind = 'const'
            g.fn = (lambda e: lambda kk: e)(g.entry)
            return True
        if g.kind == 'const':
            g.first = E.as_ptr(merged)
        if 'last' in g.tried and 'first' not in g.tried and g.first is not None and not mentions(g.first, hvs):
            g.tried.add('first')
            g.kind = 'first'
            e, fv, w = g.entry, subst(g.first, [(k, z3.BitVecVal(0, 64))]), g.w

            def fn(kk):
                c = eq64(kk, 0)
                if is_c(c):
                    return e if c else fv
                return coerce_ite(c, e, fv, w)
            g.fn = fn
            return True
        if 'last' not in g.tried and not mentions(merged, hvs):
            self.set_last(g, E.as_ptr(merged))
            return True
        # the value written may have changed because other guesses improved: try again a few times
        cnt = sum(1 for t in g.tried if isinstance(t, tuple) and t[0] == 'again')
        if g.kind in ('last', 'first') and cnt < 6:
            g.tried.add(('again', cnt))
            self.set_last(g, E.as_ptr(merged))
            return True
        return False


def summarise(E, st, header, body, stride=1):
    return Summary(E, st, header, body, stride).run()
