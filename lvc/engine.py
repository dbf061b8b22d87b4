"""Deductive verification of harness functions over the LLVM IR of the real sources.

A harness is a C++ function in /verif/harness that states a contract: it builds an arbitrary state that
satisfies the precondition, calls the real function, and asserts the postcondition.  The engine executes the
IR symbolically over all inputs, cuts every unbounded loop by an inductive invariant (found by template
instantiation and then *checked*: initiation, consecution for every back edge), and discharges every
assertion and every memory-safety condition with z3.
"""
import os
import re
import resource
import subprocess
import time
import z3
from ir import Unsupported, IntTy, PTR
from val import *   # noqa

KMAX = 1 << 48      # loop counters / object counts: bounded by the address space


DEBUG = os.environ.get('LVC_DEBUG')


def intblast(fs, to):
    """in a child process: that part of z3 may crash"""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (to // 1000 + 4, to // 1000 + 6))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            s = z3.SimpleSolver()
            s.set('smt.bv.solver', 2)
            s.set('timeout', to)
            s.add(fs)
            rc = 7 if s.check() == z3.unsat else 1
        except BaseException:
            pass
        os._exit(rc)
    _, st = os.waitpid(pid, 0)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7


class Obligation:
    __slots__ = ('label', 'kind', 'status', 'model', 'where', 'time', 'inputs', 'exact', 'backend', 'smt')

    def __init__(self, label, kind, status, where, t=0.0, model=None, inputs=None, exact=True, backend='simplify'):
        self.label, self.kind, self.status, self.where, self.time = label, kind, status, where, t
        self.model, self.inputs, self.exact, self.backend = model, inputs, exact, backend


class Field:
    """content of one field of an indexed object: base function + point writes"""
    __slots__ = ('base', 'writes', 'ptr')

    def __init__(self, base, writes=(), ptr=False):
        self.base, self.writes, self.ptr = base, writes, ptr

    def read(self, idx, w):
        def go(i):
            if i < 0:
                return self.base(idx)
            widx, v = self.writes[i]
            c = b_and(*[eq64(x, y) for x, y in zip(idx, widx)])
            if is_c(c):
                return v if c else go(i - 1)
            return coerce_ite(c, v, go(i - 1), w)
        return go(len(self.writes) - 1)

    def write(self, idx, v):
        ws = self.writes
        if ws and all(same_val(x, y) for x, y in zip(ws[-1][0], idx)):
            ws = ws[:-1]
        return Field(self.base, ws + ((tuple(idx), v),), self.ptr)


ENG = None


def coerce_ite(c, a, b, w):
    if a is POISON or b is POISON:
        return v_ite_w(c, a, b, w)
    if isinstance(a, Ptr) != isinstance(b, Ptr):
        if w == 64:
            a, b = ENG.as_ptr(a), ENG.as_ptr(b)
        elif isinstance(a, Ptr):
            a = ENG.ptr2int(a)
        else:
            b = ENG.ptr2int(b)
    return v_ite_w(c, a, b, w)


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'es', 'n', 'nidx', 'valid', 'fields', 'cells', 'live', 'ro', 'cls',
                 'align', 'sym', 'depth')

    def __init__(self, id, name, kind, cls):
        self.id, self.name, self.kind, self.cls = id, name, kind, cls
        self.size = self.es = self.n = self.valid = None
        self.nidx = 0
        self.fields = {}
        self.cells = {}
        self.live = 1
        self.ro = False
        self.align = 1
        self.sym = None      # name prefix for symbolic initial content, None = uninitialised
        self.depth = 0

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.fields = dict(self.fields)
        o.cells = dict(self.cells)
        return o


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'regs', 'ret', 'allocas', 'fid')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.ip, f.ret, f.fid = self.fn, self.block, self.prev, self.ip, self.ret, self.fid
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'facts', 'unroll', 'inputs', 'inexact', 'active', 'iters', 'loopks', 'terms', 'retval', 'small')

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = self.facts
        s.unroll = self.unroll
        s.inputs = self.inputs
        s.inexact = self.inexact
        s.active = self.active
        s.iters = dict(self.iters)
        s.loopks = self.loopks
        s.terms = self.terms
        s.small = self.small
        s.retval = None
        return s


class ProbeFail(Exception):
    pass


class PathLimit(Unsupported):
    pass


class Budget(Exception):
    pass


class Loop:
    """an active loop: 'sum' (being summarised) or 'probe' (being unrolled)"""
    __slots__ = ('mode', 'depth', 'header', 'body', 'back', 'exits', 'limit', 'fid', 'hold', 'stride')


class Fold:
    """uninterpreted function with a recursive definition F(..,0)=init, F(..,j+1)=step(F,j)"""
    __slots__ = ('f', 'init', 'step', 'j', 'w', 'params', 'guard')

    def __init__(self):
        self.guard = None      # last-write index: F(j+1) = guard(j) ? j+1 : F(j)


class Engine:
    def __init__(self, mod, timeout_ms=8000, budget_s=600, log=None):
        global ENG
        ENG = self
        self.m = mod
        self.nid = 0
        self.nfresh = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.stack = []
        self.obls = []
        self.covers = {}
        self.timeout = timeout_ms
        self.deadline = time.time() + budget_s
        self.axioms = []         # global axioms (addresses)
        self.nax = 0
        self.folds = []
        self.lws = []
        self.fold_by_decl = {}
        self.fns = {}
        self.canon = {}
        self.use_redirect = {}      # callee -> its contract (a harness function)
        self.stats = dict(queries=0, qtime=0.0, paths=0, loops=0, unrolled=0, steps=0, cex=0)
        self.globals_mem = {}
        self.addr_fn = {}
        self.handlers = {}
        self.fam_names = {}
        self.log = log
        self.loop_log = []
        self.maxpaths = 4000
        self.unroll_fallback = 0
        self.probe_forks = 4
        self.guessing = 0
        self.late_done = []
        self.assumed = set()
        self.opq = 0
        self.abs_cache, self.abs_side = {}, []
        self.use_lw = self.use_last = self.use_starts = self.use_narrow = self.use_bulk = self.use_abs = self.use_lazy = False    # per-suite options
        self.init_handlers()

    # ------------------------------------------------------------ solver
    def note(self, *a):
        if self.log:
            print(*a, file=self.log, flush=True)

    def sync(self, pc):
        st = self.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        while len(st) > i:
            self.solver.pop()
            st.pop()
        for c in pc[i:]:
            self.solver.push()
            z = zb(c)
            x = self.abstract_all([z])
            self.solver.add(z if x is None else x)
            st.append(c)

    def check_time(self):
        if time.time() > self.deadline:
            raise Budget("time budget exceeded")

    def sat(self, st, cond):
        """may cond hold on this path? (unknown counts as yes)"""
        if is_c(cond):
            if not cond:
                return False
            if not st.pc:
                return True
            cond = z3.BoolVal(True)
        self.check_time()
        t = time.time()
        self.stats['queries'] += 1
        # cheap syntactic hits
        for p in st.pc[-40:]:
            if p is cond:
                return True
            if z3.is_not(cond) and cond.arg(0).eq(p):
                return False
            if z3.is_not(p) and p.arg(0).eq(cond):
                return False
        self.sync(st.pc)
        self.solver.push()
        x = self.abstract_all([zb(cond)])
        self.solver.add(zb(cond) if x is None else x)
        for a in self.axioms:
            self.solver.add(a)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown:
            base = [zb(c) for c in st.pc] + self.axioms + [zb(cond)]
            if self.intblast(base, 1000) or self.intblast(base + self.close(st, base), 2000):
                r = z3.unsat
            elif any(L.mode == 'probe' for L in st.active):
                self.stats['qtime'] += time.time() - t
                raise ProbeFail()
        self.stats['qtime'] += time.time() - t
        if DEBUG and time.time() - t > 1:
            print('slow sat', round(time.time() - t, 1), r, st.frames[-1].fn.name if st.frames else '', len(st.pc), flush=True)
        return r != z3.unsat

    def must(self, st, cond):
        if is_c(cond):
            return bool(cond)
        return not self.sat(st, b_not(cond))

    # ---- instantiation of universally quantified facts and of fold definitions
    def inst_terms(self, exprs):
        """64-bit terms that occur as indices (arguments of uninterpreted functions), plus neighbours"""
        seen = set()
        found = {}
        folds = {}
        st = [e for e in exprs if not is_c(e)]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                for a in x.children():
                    if z3.is_bv(a) and a.size() == 64:
                        found[a.get_id()] = a
                if x.decl().get_id() in self.fold_by_decl:
                    folds[i] = x
            st.extend(x.children())
        return found, folds

    def fold_def(self, app):
        F = self.fold_by_decl[app.decl().get_id()]
        args = app.children()
        j = args[-1]
        prs = list(zip(F.params, args[:-1]))
        jm1 = simp(j - 1)
        jm1t = term(jm1, 64)
        init = subst(F.init, prs)
        stp = subst(F.step, prs + [(F.j, jm1t)])
        w = F.w
        z = j == 0
        if w == 1:
            return app == z3.If(z, zb(init), zb(stp))
        return app == z3.If(z, term(init, w), term(stp, w))

    def lw_guard(self, F, app, j):
        g = subst(F.guard, list(zip(F.params, app.children()[:-1])) + [(F.j, term(j, 64))])
        return g

    def close(self, st, exprs, rounds=2, maxterms=60):
        """ground instances: fold definitions + facts at the index terms of the query"""
        out = []
        done_fold = set()
        done_fact = set()
        cur = list(exprs)
        keepalive = []
        extra = {}
        for t in st.terms:
            if not is_c(t):
                extra[t.get_id()] = t
        for r in range(rounds):
            found, folds = self.inst_terms(cur)
            new = []
            for i, app in folds.items():
                F = self.fold_by_decl[app.decl().get_id()]
                if i not in done_fold:
                    done_fold.add(i)
                    d = self.fold_def(app)
                    out.append(d)
                    new.append(d)
                    if F.guard is not None:
                        x = app.children()[-1]
                        d = z3.And(z3.ULE(app, x), z3.Or(app == 0, zb(self.lw_guard(F, app, simp(app - 1)))))
                        out.append(d)
                        new.append(d)
                if F.guard is not None:
                    # no write in [F(x), x); monotone
                    x = app.children()[-1]
                    ts = [z3.BitVecVal(0, 64)] + list(found.values()) + list(extra.values())
                    for t in ts[:maxterms]:
                        key = ('lw', i, t.get_id())
                        if key in done_fact or t.eq(app):
                            continue
                        done_fact.add(key)
                        keepalive.append(t)
                        Ft = F.f(*(app.children()[:-1] + [t]))
                        d = z3.And(z3.Implies(z3.ULE(t, x), z3.ULE(Ft, app)),
                                   z3.Implies(z3.And(z3.ULE(app, t), z3.ULT(t, x)), zb(b_not(self.lw_guard(F, app, t)))))
                        out.append(d)
                        if r == 0:
                            new.append(d)
            if st.facts:
                ts = dict(found)
                ts.update(extra)
                base = list(ts.values())
                for t in base:
                    for dlt in (1, -1):
                        x = simp(t + dlt)
                        if not is_c(x):
                            ts[x.get_id()] = x
                ts0 = [z3.BitVecVal(0, 64)] + list(ts.values())
                for fi, (fact, offs) in enumerate(st.facts):
                    tt = ts0[:maxterms]
                    if offs:
                        tt = tt + [simp(t - term(a, 64)) if sg > 0 else simp(term(a, 64) - t) for sg, a in offs for t in base[:maxterms]]
                        tt = [z3.BitVecVal(t, 64) if is_c(t) else t for t in tt]
                    keepalive += tt
                    for t in tt:
                        key = (fi, t.get_id())
                        if key in done_fact:
                            continue
                        done_fact.add(key)
                        f = fact(t)
                        if is_c(f):
                            if f:
                                continue
                            f = z3.BoolVal(False)
                        out.append(f)
                        new.append(f)
            cur = cur + new
        return out

    def abstract(self, e):
        """division by a non-constant as an uninterpreted function (weaker: only for showing unsatisfiability)"""
        cache = self.abs_cache
        ops = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)

        def go(t):
            i = t.get_id()
            r = cache.get(i)
            if r is not None:
                return r[1]
            if not z3.is_app(t) or t.num_args() == 0:
                cache[i] = (t, t)
                return t
            ch = [go(x) for x in t.children()]
            kd = t.decl().kind()
            if kd in ops and not z3.is_bv_value(ch[1]):
                rem = kd in ops[:2]
                w = t.size()
                f = z3.Function(f"abs{'rem' if rem else 'div'}{w}", t.sort(), t.sort(), t.sort())
                n = f(*ch)
                self.abs_used = True
                self.abs_side.append((n, z3.Implies(ch[1] != 0, z3.ULT(n, ch[1])) if rem else z3.ULE(n, ch[0])))
                cache[i] = (t, n)
                return n
            if kd == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]) and (1 << 32) < ch[0].as_long() < (1 << 63) and not z3.is_bv_value(ch[1]):
                w = t.size()
                n = z3.Function(f"absmul{w}.{ch[0].as_long():x}", t.sort(), t.sort())(ch[1])
                self.abs_used = True
                cache[i] = (t, n)
                return n
            if all(x.eq(y) for x, y in zip(ch, t.children())):
                n = t
            else:
                n = z3.substitute(t, *[(x, y) for x, y in zip(t.children(), ch) if not x.eq(y)])
            cache[i] = (t, n)
            return n
        return go(e)

    def abstract_all(self, fs):
        """-> abstracted formulas with side conditions, or None when nothing was abstracted"""
        if not self.use_abs:
            return None
        out = [self.abstract(f) for f in fs]
        if all(a is b or a.eq(b) for a, b in zip(out, fs)):
            return None
        ids = set()
        st = list(out)
        while st:
            x = st.pop()
            if x.get_id() in ids:
                continue
            ids.add(x.get_id())
            st.extend(x.children())
        return out + [sd for n, sd in self.abs_side if n.get_id() in ids]

    def intblast(self, fs, to):
        """z3's integer encoding of bit vectors: far better at index arithmetic than bit-blasting; only 'unsat' is used"""
        return intblast(fs, to)

    def prove(self, st, goal, quick=False):
        """-> ('proved'|'failed'|'unknown', model)"""
        if is_c(goal):
            if goal:
                return 'proved', None, 'simplify'
        self.check_time()
        t = time.time()
        self.stats['queries'] += 1
        neg = zb(b_not(goal))
        base = [zb(c) for c in st.pc] + self.axioms + [neg]
        try:
            ab = self.abstract_all(base)
            if ab is not None:
                for fs in (base, None):
                    if fs is None:
                        ic = self.close(st, base)
                        if not ic:
                            break
                        fs = base + ic
                    s = z3.Solver()
                    s.set('timeout', 1500)
                    s.add(self.abstract_all(fs))
                    if s.check() == z3.unsat:
                        return 'proved', None, 'z3'
            s = z3.Solver()
            s.set('timeout', 600)
            s.add(base)
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat and not st.facts and not self.folds and not self.lws:
                return 'failed', s.model(), 'z3'
            if r == z3.unknown and self.intblast(base, 1500):
                return 'proved', None, 'z3-int'
            inst = self.close(st, base)
            tact = [('smt', 1500)]
            if not quick:
                tact += [('cvc5', 8000)]
            tact += [('smt', 4000 if quick else self.timeout)]
            if not quick:
                tact += [('qf', self.timeout)]
            res, model = 'unknown', None
            for ti, (kind, to) in enumerate(tact):
                if kind == 'cvc5':
                    if self.cvc5(base + inst, to) == 'unsat':
                        return 'proved', None, 'cvc5'
                    continue
                s = z3.Solver() if kind == 'smt' else z3.SolverFor('QF_UFBV')
                s.set('timeout', to)
                s.add(base)
                s.add(inst)
                r = s.check()
                if r == z3.unsat:
                    return 'proved', None, 'z3'
                if r == z3.sat:
                    res, model = 'failed', s.model()
                    break
                if kind == 'smt' and ti == 0 and self.intblast(base + inst, 1500):
                    return 'proved', None, 'z3-int'
            if res == 'failed' and not quick and (st.facts or self.folds or self.lws):
                inst2 = self.close(st, base, rounds=4, maxterms=200)
                if len(inst2) > len(inst):
                    s = z3.Solver()
                    s.set('timeout', self.timeout)
                    s.add(base)
                    s.add(inst2)
                    r = s.check()
                    if r == z3.unsat:
                        return 'proved', None, 'z3'
                    if r == z3.sat:
                        model = s.model()
            return res, model, 'z3'
        finally:
            self.stats['qtime'] += time.time() - t
            if DEBUG and time.time() - t > 2:
                import traceback
                print('slow prove', round(time.time() - t, 1), quick, self.guessing, st.frames[-1].fn.name if st.frames else '', [x.name for x in traceback.extract_stack()[-4:-1]], flush=True)

    def cvc5(self, exprs, ms):
        s = z3.Solver()
        s.add(exprs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
        try:
            r = subprocess.run(['cvc5', '--lang', 'smt2', f'--tlimit={ms}', '-'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'

    def obligation(self, st, goal, label, kind):
        if self.guessing:
            if is_c(goal):
                return 'proved' if goal else 'failed'
            return 'guess'
        t0 = time.time()
        res, model, be = self.prove(st, goal)
        fr = st.frames[-1] if st.frames else None
        where = fr.fn.name if fr else ''
        ob = Obligation(label, kind, res, where, time.time() - t0, None, None, not st.inexact and not st.facts and not self.folds and not self.lws, be)
        if res != 'proved':
            if res == 'failed':
                model = self.smaller(st, goal, model)
            ob.inputs = self.model_inputs(st, model)
            ob.model = str(model)[:4000] if model is not None else None
            self.note('  FAIL', kind, label, 'in', where, res, ob.inputs)
        self.obls.append(ob)
        return res

    def smaller(self, st, goal, model):
        """a counterexample with short containers replays natively"""
        ls = []
        for nm, t, w in st.inputs:
            if isinstance(t, tuple):
                t, w = t[2], 64
            if w == 64 and not is_c(t):
                ls.append(t)
        if model is None or not ls:
            return model
        base = [zb(c) for c in st.pc] + self.axioms + [zb(b_not(goal))]
        inst = self.close(st, base)
        for lim in (3, 40, 5000, 100000):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(base)
            s.add(inst)
            s.add([z3.ULE(t, lim) for t in ls])
            if s.check() == z3.sat:
                return s.model()
        return model

    def model_inputs(self, st, model):
        if model is None:
            return None
        out = []

        def ev(t, w):
            v = model.eval(zb(t) if w == 1 else term(t, w), model_completion=True)
            return v.as_long() if z3.is_bv_value(v) else int(z3.is_true(v))
        for nm, t, w in st.inputs:
            try:
                if isinstance(t, tuple):
                    _, oid, n, es = t
                    ob = st.mem.get(oid)
                    n, es = ev(n, 64), ev(es, 64)
                    if ob is None or n > 20000 or es not in (1, 2, 4, 8):
                        continue
                    f = self.default_field(st, ob, (0, es))
                    for i in range(n):
                        out.append((nm[2:], ev(f.read((i,), 8 * es), 8 * es), 8 * es))
                else:
                    out.append((nm, ev(t, w), w))
            except z3.Z3Exception:
                pass
        return out

    # ------------------------------------------------------------ fresh names
    def fresh(self, st, name, w):
        self.nfresh += 1
        nm = f"{name}!{self.nfresh}"
        sort = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
        if st is not None and st.loopks:
            f = z3.Function(nm, *([z3.BitVecSort(64)] * len(st.loopks)), sort)
            return f(*st.loopks)
        return z3.Const(nm, sort)

    def new_id(self):
        self.nid += 1
        return self.nid

    # ------------------------------------------------------------ objects
    def new_flat(self, st, size, name, cls, align=1):
        o = Obj(self.new_id(), name, 'flat', cls)
        o.size = size
        o.align = align
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid].copy()
        st.mem[oid] = o
        return o

    def get_obj(self, st, oid):
        o = st.mem.get(oid)
        return o

    def default_field(self, st, o, key):
        """initial content of a field; overlapping fields of different width share it"""
        off, size = key
        if size > 0:
            can = self.canon.setdefault(o.id, [])
            if key not in can:
                over = sorted(k for k in can if k[0] < off + size and off < k[0] + k[1])
                if over:
                    parts, p = [], off
                    for ko, ks in over:
                        if ko > p:
                            parts.append((self.default_field(st, o, (p, ko - p)), 0, ko - p))
                            p = ko
                        n = min(off + size, ko + ks) - p
                        parts.append((self.default_field(st, o, (ko, ks)), p - ko, n))
                        p += n
                    if p < off + size:
                        parts.append((self.default_field(st, o, (p, off + size - p)), 0, off + size - p))

                    def base(idx, parts=parts, over=over):
                        out = []
                        for f, lo, n in parts:
                            out.append((f.read(idx, None), lo, n))
                        return concat([(extract(v, v.size(), (lo + n) * 8 - 1, lo * 8), n * 8) for v, lo, n in out])
                    return Field(base)
                can.append(key)
        nm = f"{o.sym or 'uninit:' + o.name}#{o.id}.{off}:{size}"
        w = size * 8 if size > 0 else 1
        dom = [z3.BitVecSort(64)] * (o.nidx if o.kind == 'fam' else 1)
        f = z3.Function(nm, *dom, z3.BitVecSort(w))

        def base(idx):
            return f(*[term(x, 64) for x in idx])
        return Field(base)

    def quotient(self, st, size, es):
        """size / es; exact division of a sum of multiples when it does not wrap around"""
        if is_c(size):
            return size // es
        if es == 1:
            return size
        c0, ts = linear_terms(size, 1)
        sg = [(c - (1 << 64) if c >> 63 else c, t) for c, t in ts]
        if c0 % es == 0 and all(c % es == 0 for c, t in sg):
            q = c0 // es
            for c, t in sg:
                q = add64(q, bin_('mul', 64, (c // es) & mask(64), t))
            if is_c(q) or self.prove(st, z3.ULT(term(q, 64), 1 << 48), quick=True)[0] == 'proved':
                return q
        return bin_('udiv', 64, size, es)

    def as_arr(self, st, o, es):
        """reinterpret a flat/raw block as an array of es-byte elements"""
        o = self.wobj(st, o.id)
        o.kind = 'arr'
        o.es = es
        o.n = self.quotient(st, o.size, es)
        cells = o.cells
        o.cells = {}
        for off, (sz, v) in sorted(cells.items()):
            if sz > es and es == 1:
                if isinstance(v, Ptr):
                    v = self.ptr2int(v)
                for i in range(sz):
                    key = (0, 1)
                    f = o.fields.get(key) or self.default_field(st, o, key)
                    o.fields[key] = f.write(((off + i),), extract(v, sz * 8, i * 8 + 7, i * 8))
                continue
            if off % es + sz > es:
                raise Unsupported("array view with straddling cell")
            key = (off % es, sz)
            f = o.fields.get(key) or self.default_field(st, o, key)
            o.fields[key] = f.write((off // es,), v)
        return o

    def split(self, st, o, off):
        """array object: linear offset -> (element index value, field offset)"""
        es = o.es
        m = mask(64)
        idx = None
        for k, x in off.t:
            ks = k - (1 << 64) if k >> 63 else k
            if ks % es:
                # the term itself may be a multiple (e.g. (len>>2)<<2 byte offset); accept es==1 only
                raise Unsupported(f"offset {off} not a multiple of element size {es} in {o.name}")
            q = (ks // es) & m
            tt = x if q == 1 else bin_('mul', 64, q, x)
            idx = tt if idx is None else bin_('add', 64, idx, tt)
        c = off.c - (1 << 64) if off.c >> 63 else off.c
        q, r = divmod(c, es)
        idx = (q & m) if idx is None else add64(idx, q & m)
        return idx, r

    def access(self, st, base, off, size, why, g, store=False):
        """check the access and return (obj, idxs, fieldoff); raises Unsupported, records obligations"""
        if base[0] == 'n':
            return None
        if base[0] in ('q', 'f'):
            raise Unsupported(f"access through opaque pointer ({why})")
        o = self.get_obj(st, base[1])
        if o is None:
            # dead stack object
            self.obligation(st, b_not(g), f"memory: use of a dead stack object ({why})", 'memory')
            return None
        if o.kind == 'flat':
            if off.t:
                import math
                es = 0
                for k, _ in off.t:
                    ks = k - (1 << 64) if k >> 63 else k
                    es = math.gcd(es, abs(ks))
                o = self.as_arr(st, o, es)
            elif not is_c(o.size):
                # raw block of symbolic size, constant offset
                ok = b_and(o.live, ule(off.c + size, o.size))
                if not (is_c(ok) and ok):
                    self.obligation(st, b_implies(g, ok), f"memory: access inside a live object ({why})", 'memory')
                return o, (), off.c
            else:
                if off.c + size > o.size:
                    self.obligation(st, b_not(g), f"memory: out of bounds access ({why}) {o.name}+{off.c}", 'memory')
                    return None
                if not (is_c(o.live) and o.live):
                    self.obligation(st, b_implies(g, o.live), f"memory: use after free ({why}) {o.name}", 'memory')
                return o, (), off.c
        if o.kind == 'arr':
            idx, fo = self.split(st, o, off)
            n = o.n
            hi = idx
            if size > o.es:
                if o.es != 1 and (fo or size % o.es):
                    raise Unsupported("straddling array access")
                hi = add64(idx, (fo + size + o.es - 1) // o.es - 1)
                ok = b_and(ult(hi, n), ule(idx, hi))
            else:
                ok = ult(idx, n)
            ok = b_and(ok, o.live)
            if not (is_c(ok) and ok):
                self.obligation(st, b_implies(g, ok), f"memory: index inside array ({why}) {o.name}", 'memory')
                if not is_c(ok):
                    st.pc.append(zb(b_implies(g, ok)))
            return o, (idx,), fo
        # fam
        if off.t:
            raise Unsupported("symbolic offset into node")
        if off.c + size > o.es:
            self.obligation(st, b_not(g), f"memory: out of node bounds ({why})", 'memory')
            return None
        ok = o.valid(base[2])
        lf = o.fields.get(('live', 0))
        if lf is not None:
            ok = b_and(ok, lf.read(base[2], 1))
        if not (is_c(ok) and ok):
            r = self.obligation(st, b_implies(g, ok), f"memory: node is live ({why}) {o.name}", 'memory')
        return o, base[2], off.c

    def read_obj(self, st, o, idx, off, ty, size, w, isptr):
        if o.kind == 'flat':
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
            return self.read_flat_bytes(st, o, off, size, isptr)
        if o.kind == 'arr' and size > o.es:
            parts = [(self.int_of(self.read_obj(st, o, (add64(idx[0], i),), 0, None, o.es, 8 * o.es, False)), 8 * o.es)
                     for i in range(size // o.es)]
            return concat(parts)
        key = (off, size)
        f = o.fields.get(key)
        if f is None:
            # covered by another field?
            for (fo, fs), ff in o.fields.items():
                if fo == 'live':
                    continue
                if fo <= off and off + size <= fo + fs:
                    v = self.int_of(ff.read(idx, fs * 8))
                    return extract(v, fs * 8, (off - fo + size) * 8 - 1, (off - fo) * 8)
                if fo < off + size and off < fo + fs:
                    # compose byte-wise
                    return self.compose_fields(st, o, idx, off, size)
            if o.sym is None and o.kind == 'arr' and o.cls in ('heap', 'stack'):
                pass
            f = self.default_field(st, o, key)
            o2 = self.wobj(st, o.id)
            o2.fields[key] = f
            o = o2
        return f.read(idx, w)

    def compose_fields(self, st, o, idx, off, size):
        parts = []
        p = off
        while p < off + size:
            for (fo, fs), ff in o.fields.items():
                if fo == 'live':
                    continue
                if fo <= p < fo + fs:
                    n = min(off + size, fo + fs) - p
                    v = self.int_of(ff.read(idx, fs * 8))
                    parts.append((extract(v, fs * 8, (p - fo + n) * 8 - 1, (p - fo) * 8), n * 8))
                    p += n
                    break
            else:
                f = self.default_field(st, o, (p, 1))
                o2 = self.wobj(st, o.id)
                o2.fields[(p, 1)] = f
                o = o2
        return concat(parts)

    def read_flat_bytes(self, st, o, off, size, isptr):
        # exact or overlapping cells
        over = [(co, cs, cv) for co, (cs, cv) in o.cells.items() if co < off + size and off < co + cs]
        if not over:
            w = size * 8
            if isptr and o.sym is not None:
                v = Ptr([(1, ('q', self.fresh(None, f"{o.sym}.{off}", 64)), ZOFF)])
            else:
                v = self.fresh(st if o.sym is None else None, f"{o.sym or 'uninit:' + o.name}.{off}", w)
            o2 = self.wobj(st, o.id)
            o2.cells[off] = (size, v)
            return v
        over.sort(key=lambda x: x[0])
        parts = []
        p = off
        while p < off + size:
            hit = None
            for co, cs, cv in over:
                if co <= p < co + cs:
                    hit = (co, cs, cv)
            if hit is None:
                nxt = min([co for co, _, _ in over if co > p] + [off + size])
                n = nxt - p
                v = self.fresh(st if o.sym is None else None, f"{o.sym or 'uninit:' + o.name}.{p}", n * 8)
                o2 = self.wobj(st, o.id)
                o2.cells[p] = (n, v)
                o = o2
                parts.append((v, n * 8))
                p += n
            else:
                co, cs, cv = hit
                n = min(off + size, co + cs) - p
                if isptr and isinstance(cv, Ptr) and co == off and cs == size:
                    return cv
                v = self.int_of(cv)
                parts.append((extract(v, cs * 8, (p - co + n) * 8 - 1, (p - co) * 8), n * 8))
                p += n
        return concat(parts)

    def write_obj(self, st, o, idx, off, size, v):
        if o.ro:
            raise Unsupported("write to constant")
        o = self.wobj(st, o.id)
        if o.kind == 'flat':
            c = o.cells.get(off)
            if c is None or c[0] != size:
                for co, (cs, cv) in list(o.cells.items()):
                    if co < off + size and off < co + cs:
                        del o.cells[co]
                        iv = self.int_of(cv) if (co < off or co + cs > off + size) else None
                        if co < off:
                            o.cells[co] = (off - co, extract(iv, cs * 8, (off - co) * 8 - 1, 0))
                        if co + cs > off + size:
                            o.cells[off + size] = (co + cs - off - size, extract(iv, cs * 8, cs * 8 - 1, (off + size - co) * 8))
            o.cells[off] = (size, v)
            return
        if o.kind == 'arr' and size > o.es:
            iv = self.int_of(v)
            for i in range(size // o.es):
                self.write_obj(st, st.mem[o.id], (add64(idx[0], i),), 0, o.es, extract(iv, size * 8, (i + 1) * 8 * o.es - 1, i * 8 * o.es))
            return
        key = (off, size)
        f = o.fields.get(key)
        if f is None:
            for (fo, fs), ff in list(o.fields.items()):
                if fo == 'live':
                    continue
                if fo < off + size and off < fo + fs:
                    if fo <= off and off + size <= fo + fs:
                        old = self.int_of(ff.read(idx, fs * 8))
                        lo = off - fo
                        parts = []
                        if lo:
                            parts.append((extract(old, fs * 8, lo * 8 - 1, 0), lo * 8))
                        parts.append((self.int_of(v), size * 8))
                        if lo + size < fs:
                            parts.append((extract(old, fs * 8, fs * 8 - 1, (lo + size) * 8), (fs - lo - size) * 8))
                        o.fields[(fo, fs)] = ff.write(idx, concat(parts))
                        return
                    # wider write over narrower fields: split
                    iv = self.int_of(v)
                    if fo >= off and fo + fs <= off + size:
                        # handle all of them
                        p = off
                        while p < off + size:
                            k2 = None
                            for (f2, s2) in o.fields:
                                if f2 != 'live' and f2 == p:
                                    k2 = (f2, s2)
                            if k2 is None:
                                nxt = min([f2 for (f2, s2) in o.fields if f2 != 'live' and f2 > p] + [off + size])
                                k2 = (p, nxt - p)
                                o.fields[k2] = self.default_field(st, o, k2)
                            if p + k2[1] > off + size:
                                raise Unsupported("partial overlap of fields")
                            o.fields[k2] = o.fields[k2].write(idx, extract(iv, size * 8, (p - off + k2[1]) * 8 - 1, (p - off) * 8))
                            p += k2[1]
                        return
                    raise Unsupported("partial overlap of fields")
            f = self.default_field(st, o, key)
        o.fields[key] = f.write(idx, v)

    # ------------------------------------------------------------ pointers and integers
    def addr_of(self, base):
        if base[0] == 'n':
            return 0
        if base[0] == 'q':
            return base[1]
        if base[0] == 'f':
            k = ('f', base[1])
            if k not in self.addr_fn:
                c = z3.BitVec('addr:' + base[1], 64)
                self.addr_fn[k] = c
                self.axioms.append(z3.And(c != 0, c & 1 == 0))     # the C++ ABI relies on even function addresses (member pointers)
            return self.addr_fn[k]
        oid, idx = base[1], base[2]
        k = ('o', oid)
        if not idx:
            if k not in self.addr_fn:
                c = z3.BitVec(f'addr:{oid}', 64)
                self.addr_fn[k] = c
                al = self.obj_align.get(oid, 1) if hasattr(self, 'obj_align') else 1
                self.axioms.append(z3.And(c != 0, z3.ULT(c, 1 << 47)))
                if al > 1:
                    self.axioms.append(c & (al - 1) == 0)
            return self.addr_fn[k]
        f = self.addr_fn.get(k)
        if f is None:
            f = z3.Function(f'addr:{oid}', *([z3.BitVecSort(64)] * len(idx)), z3.BitVecSort(64))
            self.addr_fn[k] = f
        t = f(*[term(x, 64) for x in idx])
        return t

    def ptr2int(self, p):
        r = None
        for g, b, o in reversed(p.alts):
            v = bin_('add', 64, self.addr_of(b), off_value(o))
            r = v if r is None else v_ite_w(g, v, r, 64)
        return r

    def int_of(self, v):
        return self.ptr2int(v) if isinstance(v, Ptr) else v

    def int2ptr(self, v):
        if is_c(v):
            return Ptr([(1, ('n',), Off(v))])
        # an address term of a known object (+ offset)?
        c, ts = linear_terms(v, 1)
        for i, (k, x) in enumerate(ts):
            if k == 1 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('addr:'):
                nm = x.decl().name()[5:]
                if ('f', nm) in self.addr_fn and len(ts) == 1:
                    return Ptr([(1, ('f', nm), Off(c))])
                if nm.isdigit():
                    rest = ts[:i] + ts[i + 1:]
                    return Ptr([(1, ('o', int(nm), tuple(norm(a) for a in x.children())), Off(c, rest))])
        return Ptr([(1, ('q', v), ZOFF)])

    def as_ptr(self, v):
        return v if isinstance(v, Ptr) else self.int2ptr(v)

    def gep(self, p, c, terms):
        return Ptr([(g, b, off_add(o, c, terms)) for g, b, o in p.alts])

    def prune(self, st, p):
        if len(p.alts) <= 1:
            return p
        out = [a for a in p.alts if self.sat(st, a[0])]
        if len(out) == 1:
            return Ptr([(1, out[0][1], out[0][2])])
        return Ptr(out)

    # ------------------------------------------------------------ load / store
    def load(self, st, p, ty, why):
        m = self.m
        t = m.resolve(ty)
        if t.k in ('struct', 'arr'):
            out = []
            if t.k == 'struct':
                for f, o in zip(t.a, m.offsets(t)):
                    out.append(self.load(st, self.gep(p, o, ()), f, why))
            else:
                es = m.size(t.b)
                for i in range(t.a):
                    out.append(self.load(st, self.gep(p, i * es, ()), t.b, why))
            return out
        if t.k == 'vec':
            raise Unsupported("vector load")
        size = m.size(t)
        isptr = t.k == 'ptr'
        p = self.prune(st, self.as_ptr(p))
        w = 64 if isptr else t.a
        res = None
        vals = []
        for g, b, o in p.alts:
            if b[0] == 'n':
                self.obligation(st, b_not(g), f"memory: null dereference ({why})", 'memory')
                continue
            a = self.access(st, b, o, size, why, g)
            if a is None:
                continue
            ob, idx, fo = a
            ob = st.mem[ob.id]
            v = self.read_obj(st, ob, idx, fo, t, size, size * 8, isptr)
            if isptr:
                v = self.as_ptr(v)
            else:
                v = self.int_of(v)
                if t.a != size * 8:
                    v = ext('trunc', size * 8, t.a, v)
            vals.append((g, v))
        if not vals:
            return None          # path is dead
        if len(vals) < len(p.alts):
            st.pc.append(zb(b_or(*[g for g, _ in vals])))
        res = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            res = v_ite_w(g, v, res, w)
        return res

    def store(self, st, p, ty, v, why):
        """returns list of states"""
        m = self.m
        t = m.resolve(ty)
        if t.k in ('struct', 'arr'):
            sts = [st]
            items = zip(t.a, m.offsets(t), v) if t.k == 'struct' else [(t.b, i * m.size(t.b), v[i]) for i in range(t.a)]
            for f, o, x in items:
                nx = []
                for s in sts:
                    nx += self.store(s, self.gep(p, o, ()), f, x, why)
                sts = nx
            return sts
        size = m.size(t)
        if t.k == 'int' and t.a != size * 8:
            v = ext('zext', t.a, size * 8, v)
        p = self.prune(st, self.as_ptr(p))
        out = []
        for i, (g, b, o) in enumerate(p.alts):
            if b[0] == 'n':
                self.obligation(st, b_not(g), f"memory: null dereference (store {why})", 'memory')
                continue
            s = st if i == len(p.alts) - 1 else st.fork()
            if not (is_c(g) and g):
                s.pc.append(zb(g))
            a = self.access(s, b, o, size, 'store ' + why, 1, True)
            if a is None:
                continue
            ob, idx, fo = a
            self.write_obj(s, s.mem[ob.id], idx, fo, size, v)
            out.append(s)
        return out

    # ------------------------------------------------------------ constants and globals
    def glob_ptr(self, st, name):
        m = self.m
        while name in m.aliases:
            name = m.aliases[name]
        if name in m.funcs or name in m.decls:
            return Ptr([(1, ('f', name), ZOFF)])
        oid = self.globals_mem.get(name)
        if oid is None:
            g = m.gparse(name)
            oid = self.new_id()
            self.globals_mem[name] = oid
            o = Obj(oid, '@' + name, 'flat', 'global')
            o.size = m.size(g['ty'])
            o.ro = g['const']
            o.align = 16
            o.depth = g
            self.ginit = getattr(self, 'ginit', {})
            if g['init'] is None:
                o.sym = '@' + name
            self.ginit[oid] = o
            if g['init'] is not None:
                self.fill(st, o, 0, g['ty'], g['init'])
        if oid not in st.mem:
            st.mem[oid] = self.ginit[oid]
        return pobj(oid)

    def fill(self, st, o, off, ty, init):
        m = self.m
        t = m.resolve(ty)
        k = init[0]
        if k == 'zero' or k == 'undef':
            self.fill_zero(o, off, t)
        elif k == 'bytes':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, b)
        elif k == 'agg':
            if t.k == 'struct':
                for (et, ev), fo in zip(init[1], m.offsets(t)):
                    self.fill(st, o, off + fo, et, ev)
            else:
                es = m.size(t.b)
                for i, (et, ev) in enumerate(init[1]):
                    self.fill(st, o, off + i * es, et, ev)
        else:
            v = self.const(st, init, ty)
            if t.k == 'int' and m.size(t) * 8 != t.a:
                v = ext('zext', t.a, m.size(t) * 8, v)
            o.cells[off] = (m.size(t), v)

    def fill_zero(self, o, off, t):
        m = self.m
        t = m.resolve(t)
        if t.k == 'struct':
            for f, fo in zip(t.a, m.offsets(t)):
                self.fill_zero(o, off + fo, f)
        elif t.k == 'arr':
            es = m.size(t.b)
            for i in range(t.a):
                self.fill_zero(o, off + i * es, t.b)
        elif t.k == 'ptr':
            o.cells[off] = (8, NULL)
        else:
            o.cells[off] = (m.size(t), 0)

    def zero_val(self, t):
        t = self.m.resolve(t)
        if t.k == 'ptr':
            return NULL
        if t.k == 'struct':
            return [self.zero_val(f) for f in t.a]
        if t.k == 'arr':
            return [self.zero_val(t.b) for _ in range(t.a)]
        return 0

    def undef_val(self, st, t):
        t = self.m.resolve(t)
        if t.k == 'ptr':
            return Ptr([(1, ('q', self.fresh(st, 'undef', 64)), ZOFF)])
        if t.k == 'struct':
            return [self.undef_val(st, f) for f in t.a]
        if t.k == 'arr':
            return [self.undef_val(st, t.b) for _ in range(t.a)]
        return self.fresh(st, 'undef', t.a)

    def const(self, st, v, ty):
        k = v[0]
        if k == 'int':
            return v[2]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob_ptr(st, v[1])
        if k == 'undef':
            return self.undef_val(st, v[1])
        if k == 'zero':
            return self.zero_val(v[1])
        if k == 'agg':
            return [self.const(st, e, t) for t, e in v[1]]
        if k == 'cgep':
            p = self.const(st, v[2][0][1], PTR)
            return self.do_gep(st, v[1], p, [(t, self.const(st, x, t)) for t, x in v[2][1:]])
        if k == 'ccast':
            x = self.const(st, v[3], v[2])
            if v[1] == 'ptrtoint':
                return self.ptr2int(x)
            if v[1] == 'inttoptr':
                return self.int2ptr(x)
            return x
        if k == 'cbin':
            return bin_(v[1], v[2].a, self.const(st, v[3], v[2]), self.const(st, v[4], v[2]))
        raise Unsupported("const " + k)

    def do_gep(self, st, bt, p, idx):
        m = self.m
        t = bt
        c = 0
        terms = ()
        M = mask(64)
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                s = m.size(bt)
                cur = None
            else:
                t = m.resolve(t)
                if t.k == 'struct':
                    c = (c + m.offsets(t)[iv]) & M
                    t = t.a[iv]
                    continue
                s = m.size(t.b)
                t = t.b
            if it.a < 64:
                iv = ext('sext', it.a, 64, iv)
            cc, ts = linear_terms(iv, s & M)
            c = (c + cc) & M
            terms = terms + ts
        return self.gep(self.as_ptr(p), c, terms)

    def val(self, st, v, ty=None):
        if v[0] == 'reg':
            return st.frames[-1].regs[v[1]]
        return self.const(st, v, ty)

    # ------------------------------------------------------------ execution
    def enter(self, st, fn, args, ret):
        if fn.varargs:
            raise Unsupported("varargs function " + fn.name)
        f = Frame()
        f.fn, f.ret, f.prev, f.ip = fn, ret, None, 0
        f.block = fn.entry
        f.regs = {}
        f.allocas = []
        f.fid = self.new_id()
        for (t, nm, at), a in zip(fn.params, args):
            f.regs[nm] = a
        st.frames.append(f)
        if len(st.frames) > 120:
            raise Unsupported("call depth (recursion?) in " + fn.name)
        self.fns[fn.name] = self.fns.get(fn.name, 0) + 1
        if fn.entry in fn.loops():
            raise Unsupported("entry block is a loop header")

    def run_function(self, name, args=()):
        st = State()
        st.frames, st.mem, st.pc, st.facts = [], {}, [], ()
        st.unroll, st.inputs, st.inexact = 0, (), False
        st.active, st.iters, st.loopks, st.terms, st.small = (), {}, (), (), {}
        st.retval = None
        fn = self.m.func(name)
        if fn is None:
            raise Unsupported("no function " + name)
        self.enter(st, fn, args, None)
        done = self.explore([st])
        return done

    def explore(self, work):
        """depth-first execution until every state finished, was captured by an active loop or died.
        returns the list of finished states (harness returned)"""
        done = []
        while work:
            st = work.pop()
            new = self.step_until_fork(st, done)
            if new:
                work.extend(reversed(new))
                self.stats['paths'] += len(new) - 1
                if len(work) > self.maxpaths:
                    raise PathLimit("path limit")
        return done

    def step_until_fork(self, st, done):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block].insts[fr.ip]
            self.stats['steps'] += 1
            op = ins.op
            r = getattr(self, 'x_' + op)(st, fr, ins, done)
            if r is None:
                continue
            return r            # list of successor states (possibly empty)

    # each x_* returns None to continue with the same state, or a list of states
    def x_alloca(self, st, fr, ins, done):
        a = ins.a
        size = self.m.size(a['ty'])
        if a['cnt'] is not None:
            n = self.val(st, a['cnt'][1], a['cnt'][0])
            size = size * n if is_c(n) else bin_('mul', 64, size, n)
        o = self.new_flat(st, size, '%' + (ins.res or '') + '@' + fr.fn.name[-40:], 'stack', 16)
        o.depth = len(st.frames)
        fr.allocas.append(o.id)
        fr.regs[ins.res] = pobj(o.id)
        fr.ip += 1

    def x_load(self, st, fr, ins, done):
        v = self.load(st, self.val(st, ins.a['ptr'], PTR), ins.ty, self.where(fr))
        if v is None:
            return []
        if v is POISON:
            raise Unsupported("a temporary of a loop is used after the loop: no invariant (" + self.where(fr) + ")")
        fr.regs[ins.res] = v
        fr.ip += 1

    def where(self, fr):
        return fr.fn.name

    def x_store(self, st, fr, ins, done):
        v = self.val(st, ins.a['val'], ins.ty)
        p = self.val(st, ins.a['ptr'], PTR)
        fr.ip += 1
        out = self.store(st, p, ins.ty, v, self.where(fr))
        if len(out) == 1 and out[0] is st:
            return None
        return out

    def x_gep(self, st, fr, ins, done):
        a = ins.a
        base = self.val(st, a['base'], PTR)
        idx = [(t, self.val(st, v, t)) for t, v in a['idx']]
        fr.regs[ins.res] = self.do_gep(st, a['bt'], base, idx)
        fr.ip += 1

    def x_bin(self, st, fr, ins, done):
        a = ins.a
        w = self.m.resolve(ins.ty).a
        if ins.ty.k != 'int':
            raise Unsupported("vector arithmetic")
        x, y = self.val(st, a['a'], ins.ty), self.val(st, a['b'], ins.ty)
        op = a['op']
        if op in ('udiv', 'sdiv', 'urem', 'srem') and not (is_c(y) and y):
            self.obligation(st, icmp('ne', w, y, 0), f"arithmetic: division by zero ({self.where(fr)})", 'arith')
            st.pc.append(zb(icmp('ne', w, y, 0)))
        if op in ('shl', 'lshr', 'ashr') and not (is_c(y) and y < w):
            self.obligation(st, icmp('ult', w, y, w), f"arithmetic: shift amount in range ({self.where(fr)})", 'arith')
        if 'nsw' in a['fl'] and w > 1 and not (is_c(x) and is_c(y)) and op in ('add', 'sub', 'mul'):
            X, Y = term(x, w), term(y, w)
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
            self.obligation(st, simp(c), f"arithmetic: no signed overflow ({self.where(fr)})", 'arith')
        fr.regs[ins.res] = bin_(op, w, x, y)
        fr.ip += 1

    def x_fbin(self, st, fr, ins, done):
        a = ins.a
        w = ins.ty.a
        x, y = self.val(st, a['a'], ins.ty), self.val(st, a['b'], ins.ty)
        f = z3.Function('fp.' + a['op'] + str(w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        fr.regs[ins.res] = f(term(x, w), term(y, w))
        fr.ip += 1

    def x_fneg(self, st, fr, ins, done):
        w = ins.ty.a
        x = self.val(st, ins.a['a'], ins.ty)
        fr.regs[ins.res] = bin_('xor', w, x, 1 << (w - 1))
        fr.ip += 1

    def x_fcmp(self, st, fr, ins, done):
        a = ins.a
        w = a['t'].a
        x, y = self.val(st, a['a'], a['t']), self.val(st, a['b'], a['t'])
        sort = z3.FPSort(8, 24) if w == 32 else z3.FPSort(11, 53)
        X, Y = z3.fpBVToFP(term(x, w), sort), z3.fpBVToFP(term(y, w), sort)
        c = a['c']
        un = z3.Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
        base = {'eq': z3.fpEQ(X, Y), 'lt': z3.fpLT(X, Y), 'le': z3.fpLEQ(X, Y), 'gt': z3.fpGT(X, Y), 'ge': z3.fpGEQ(X, Y),
                'ne': z3.Not(z3.fpEQ(X, Y)), 'no': un, 'rd': z3.Not(un)}[c[1:]]
        if c in ('uno', 'ord'):
            r = un if c == 'uno' else z3.Not(un)
        elif c[0] == 'o':
            r = z3.And(z3.Not(un), base)
        else:
            r = z3.Or(un, base)
        fr.regs[ins.res] = simp(r)
        fr.ip += 1

    def x_icmp(self, st, fr, ins, done):
        a = ins.a
        t = self.m.resolve(a['t'])
        x, y = self.val(st, a['a'], t), self.val(st, a['b'], t)
        c = a['c']
        if t.k == 'ptr':
            fr.regs[ins.res] = self.pcmp(st, c, self.as_ptr(x), self.as_ptr(y))
        else:
            fr.regs[ins.res] = icmp(c, t.a, self.int_of(x), self.int_of(y))
        fr.ip += 1

    def pcmp(self, st, c, x, y):
        if c == 'eq':
            return p_eq(x, y)
        if c == 'ne':
            return b_not(p_eq(x, y))
        # relational: only inside one object
        r = []
        for g1, b1, o1 in x.alts:
            for g2, b2, o2 in y.alts:
                e = base_eq(b1, b2)
                if e is None or (is_c(e) and not e):
                    if not self.sat(st, b_and(g1, g2)):
                        continue
                    return icmp(c, 64, self.ptr2int(x), self.ptr2int(y))
                r.append(b_and(g1, g2, icmp(c if c[0] == 'u' else 'u' + c[1:], 64, off_value(o1), off_value(o2))))
        v = b_or(*r)
        return v if is_c(v) else simp(v)

    def widen(self, st, op, w, w2, v):
        """integer casts; a loop counter known to be below 2^31 is the same number in every width"""
        if op != 'trunc' and w == 32 and w2 == 64 and st.small and not is_c(v):
            c, t = 0, v
            if z3.is_app_of(t, z3.Z3_OP_BADD) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                c, t = t.arg(0).as_long(), t.arg(1)
            if z3.is_app_of(t, z3.Z3_OP_EXTRACT) and t.params() == [31, 0]:
                e = st.small.get(t.arg(0).get_id())
                if e is not None and (c == 0 and (op == 'zext' or e[1] == 31) or op == 'zext' and e[1] == 31 and c < 1 << 31):
                    return add64(t.arg(0), c)
        return ext(op, w, w2, v)

    def x_cast(self, st, fr, ins, done):
        a = ins.a
        op = a['op']
        v = self.val(st, a['v'], a['t'])
        if op in ('zext', 'sext', 'trunc'):
            r = self.widen(st, op, a['t'].a, ins.ty.a, self.int_of(v))
        elif op == 'ptrtoint':
            r = self.ptr2int(self.as_ptr(v))
            if ins.ty.a < 64:
                r = ext('trunc', 64, ins.ty.a, r)
        elif op == 'inttoptr':
            r = self.int2ptr(v)
        elif op == 'bitcast':
            r = v
        elif op in ('fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
            w1, w2 = a['t'].a, ins.ty.a
            f = z3.Function(f'fp.{op}{w1}.{w2}', z3.BitVecSort(w1), z3.BitVecSort(w2))
            r = f(term(v, w1))
        else:
            raise Unsupported("cast " + op)
        fr.regs[ins.res] = r
        fr.ip += 1

    def x_select(self, st, fr, ins, done):
        a = ins.a
        c = self.val(st, a['c'], a['ct'])
        x, y = self.val(st, a['a'], ins.ty), self.val(st, a['b'], ins.ty)
        t = self.m.resolve(ins.ty)
        fr.regs[ins.res] = v_ite_w(c, x, y, t.a if t.k != 'ptr' else 64)
        fr.ip += 1

    def x_freeze(self, st, fr, ins, done):
        fr.regs[ins.res] = self.val(st, ins.a['v'], ins.ty)
        fr.ip += 1

    def x_extractvalue(self, st, fr, ins, done):
        v = self.val(st, ins.a['v'], ins.a['t'])
        for i in ins.a['idx']:
            v = v[i]
        fr.regs[ins.res] = v
        fr.ip += 1

    def x_insertvalue(self, st, fr, ins, done):
        v = self.val(st, ins.a['v'], ins.ty)
        e = self.val(st, ins.a['e'], None)

        def go(x, idx):
            x = list(x)
            x[idx[0]] = e if len(idx) == 1 else go(x[idx[0]], idx[1:])
            return x
        fr.regs[ins.res] = go(v, ins.a['idx'])
        fr.ip += 1

    def x_unreachable(self, st, fr, ins, done):
        self.obligation(st, 0, f"undefined behaviour: unreachable code reached ({self.where(fr)})", 'memory')
        return []

    def x_unsupported(self, st, fr, ins, done):
        raise Unsupported("instruction " + ins.line)

    def x_phi(self, st, fr, ins, done):
        raise Unsupported("phi at odd place")

    # ---- control flow
    def x_br(self, st, fr, ins, done):
        ts = ins.a['targets']
        if ins.a['cond'] is None:
            return self.jump(st, ts[0])
        c = self.val(st, ins.a['cond'], None)
        return self.branch(st, [(c, ts[0]), (b_not(c), ts[1])])

    def branch(self, st, opts):
        fr = st.frames[-1]
        feas = []
        for c, t in opts:
            if is_c(c):
                if c:
                    feas.append((c, t))
                continue
            feas.append((c, t))
        if len(feas) > 1:
            f2 = []
            for i, (c, t) in enumerate(feas):
                # the alternatives are exhaustive: the last one need not be asked for when all others are infeasible
                if (i == len(feas) - 1 and not f2) or self.sat(st, c):
                    f2.append((c, t))
            feas = f2
        if not feas:
            return []
        if len(feas) > 1:
            # does this branch decide leaving a loop that is being probed?
            for L in st.active:
                if L.mode == 'probe' and L.fid == fr.fid:
                    outs = [t for _, t in feas if t not in L.body]
                    if outs and len(outs) < len(feas):
                        raise ProbeFail(L)
                if L.mode == 'probe':
                    kf = ('f', L.fid, L.header)
                    it = st.iters.get((L.fid, L.header), 0)
                    last, cnt = st.iters.get(kf, (-1, 0))
                    if last != it:
                        cnt += 1
                        if cnt > self.probe_forks:
                            raise ProbeFail(L)
                        st.iters[kf] = (it, cnt)
        out = []
        for i, (c, t) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.fork()
            if not (is_c(c) and c):
                s.pc.append(c)
            r = self.jump(s, t)
            if r is None:
                out.append(s)
            else:
                out.extend(r)
        if len(out) == 1 and out[0] is st:
            return None
        return out

    def x_switch(self, st, fr, ins, done):
        a = ins.a
        v = self.val(st, a['v'], a['t'])
        w = a['t'].a
        if is_c(v):
            for cv, t in a['cases']:
                if cv == v:
                    return self.jump(st, t)
            return self.jump(st, a['default'])
        # group by target; targets that do the same (straight-line stores, same successor, same phi inputs) are one
        by = {}
        a = self.switch_classes(fr.fn, ins, fr.block)
        for cv, t in a['cases']:
            by.setdefault(t, []).append(cv)
        V = term(v, w)
        opts = []
        for t, cs in by.items():
            opts.append((self.member(V, cs, w), t))
        allc = [cv for cv, _ in a['cases']]
        dflt = z3.Not(self.member(V, allc, w)) if allc else 1
        if a['default'] in by:
            opts = [(c, t) for c, t in opts if t != a['default']]
            others = [cv for cv, t in a['cases'] if t != a['default']]
            dflt = z3.Not(self.member(V, others, w)) if others else 1
        opts.append((dflt, a['default']))
        return self.branch(st, opts)

    def member(self, V, cs, w):
        """V is one of the constants cs (as ranges)"""
        cs = sorted({c % (1 << w) for c in cs})
        rs = []
        for c in cs:
            if rs and rs[-1][1] == c - 1:
                rs[-1][1] = c
            else:
                rs.append([c, c])
        return b_or(*[V == lo if lo == hi else z3.And(z3.UGE(V, lo), z3.ULE(V, hi)) for lo, hi in rs])

    def switch_classes(self, fn, ins, here):
        c = ins.swc
        if c is not None:
            return c
        a = ins.a
        loops = fn.loops()
        rep, sig = {}, {}
        for t in [t for _, t in a['cases']] + [a['default']]:
            if t in rep:
                continue
            b = fn.blocks[t]
            k = None
            if t not in loops and b.insts[-1].op == 'br' and b.insts[-1].a['cond'] is None and \
                    all(i.op == 'store' for i in b.insts[:-1]) and b.insts[-1].a['targets'][0] not in loops:
                j = b.insts[-1].a['targets'][0]
                phis = tuple(repr(i.a['inc'][t]) for i in fn.blocks[j].insts if i.op == 'phi')
                k = (tuple(i.line for i in b.insts[:-1]), j, phis)
            rep[t] = sig.setdefault(k, t) if k is not None else t
        c = dict(t=a['t'], v=a['v'], default=rep[a['default']], cases=[(cv, rep[t]) for cv, t in a['cases']])
        ins.swc = c
        return c

    def set_block(self, st, target):
        """move the top frame into target, evaluating phis (parallel)"""
        fr = st.frames[-1]
        prev = fr.block
        b = fr.fn.blocks[target]
        vals = []
        n = 0
        for ins in b.insts:
            if ins.op != 'phi':
                break
            vals.append((ins.res, self.val(st, ins.a['inc'][prev], ins.ty)))
            n += 1
        fr.prev, fr.block, fr.ip = prev, target, n
        for r, v in vals:
            fr.regs[r] = v

    def jump(self, st, target):
        """None: continue with st; list: successor states"""
        fr = st.frames[-1]
        fn = fr.fn
        loops = fn.loops()
        # leaving / repeating an active loop of this frame?
        act = st.active
        while act and act[-1].fid == fr.fid and target not in act[-1].body:
            L = act[-1]
            act = act[:-1]
            st.active = act
            if L.stride > 1:
                st.iters.pop(('s', L.fid, L.header), None)
            L.exits.append((st, target))
            self.left(st, L)
            return []
        if act and act[-1].fid == fr.fid and target == act[-1].header:
            L = act[-1]
            if L.mode == 'sum':
                self.set_block(st, target)
                if L.stride > 1:          # one cut stands for several iterations of the real loop
                    ks = ('s', L.fid, L.header)
                    n = st.iters.get(ks, 0) + 1
                    if n < L.stride:
                        st.iters[ks] = n
                        return None
                    st.iters.pop(ks, None)
                L.back.append(st)
                return []
            k = (L.fid, L.header)
            st.iters[k] = st.iters.get(k, 0) + 1
            if st.iters[k] > L.limit:
                raise ProbeFail(L)
            self.set_block(st, target)
            return None
        if target in loops:
            return self.enter_loop(st, target, loops[target])
        self.set_block(st, target)
        return None

    def left(self, st, L):
        if L.mode == 'probe':
            n = st.iters.get((L.fid, L.header), 0)
            if L.hold is None:
                L.hold = n
            elif L.hold != n:
                raise ProbeFail(L)      # the trip count depends on symbolic data

    def mkloop(self, st, mode, header, body):
        L = Loop()
        L.mode, L.depth, L.header, L.body = mode, len(st.frames), header, body
        L.back, L.exits, L.limit, L.fid, L.hold = [], [], 100000, st.frames[-1].fid, None
        L.stride = 1
        st.iters.pop(('s', L.fid, L.header), None)
        return L

    def enter_loop(self, st, header, body):
        """loop entered from outside"""
        import loops
        return loops.enter(self, st, header, body)

    # ---- calls
    def x_call(self, st, fr, ins, done):
        a = ins.a
        cal = a['callee']
        if cal[0] == 'glob':
            name = cal[1]
        else:
            p = self.prune(st, self.as_ptr(self.val(st, cal, PTR)))
            if len(p.alts) == 1 and p.alts[0][1][0] == 'f':
                name = p.alts[0][1][1]
            else:
                names = [b for g, b, o in p.alts]
                if all(b[0] == 'f' for b in names):
                    out = []
                    for i, (g, b, o) in enumerate(p.alts):
                        s = st if i == len(p.alts) - 1 else st.fork()
                        s.pc.append(zb(g))
                        r = self.do_call(s, s.frames[-1], ins, b[1], done)
                        out.extend([s] if r is None else r)
                    return out
                if len(p.alts) == 1 and names[0][0] == 'n':
                    self.obligation(st, 0, f"memory: call through null ({self.where(fr)})", 'memory')
                    return []
                raise Unsupported("indirect call " + repr(p)[:200])
        return self.do_call(st, fr, ins, name, done)

    def do_call(self, st, fr, ins, name, done):
        while name in self.m.aliases:
            name = self.m.aliases[name]
        rx = None
        if name not in self.use_redirect:
            rx = next((v for k, v in self.use_redirect.items() if k[0] == '~' and re.fullmatch(k[1:], name)), None)
        if rx:
            self.assumed.add(f"{name} by its contract {rx} (its own contract is decided by another suite)")
            name = rx
        elif rx == '':
            self.assumed.add(f"{name} is called for its side effects outside the contract only (logging, naming): no effect, any result")
            fr.ip += 1
            if ins.res is not None:
                fr.regs[ins.res] = NULL if ins.ty == PTR else self.fresh(st, 'nop', ins.ty.a)
            return None
        if '@' + name in self.use_redirect and fr.fn.name == name:     # a recursive call, by the contract being shown
            self.assumed.add(f"recursive calls of {name} by its contract {self.use_redirect['@' + name]} (induction on the structure)")
            name = self.use_redirect['@' + name]
        if name in self.use_redirect:
            self.assumed.add(f"{name} by its contract {self.use_redirect[name]} (its own contract is decided by another suite)")
            name = self.use_redirect[name]
        if self.use_lazy and self.guessing and re.search(self.use_lazy, name):
            return []        # while guessing invariants only; the checking round explores the call
        args = [self.val(st, v, t) for t, v, _ in ins.a['args']]
        h = self.handlers.get(name)
        if h is None and name.startswith('llvm.'):
            for pre, hh in self.prefix_handlers:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            fr.ip += 1
            r = h(st, fr, args, ins)
            if isinstance(r, Multi):
                return r.states
            if ins.res is not None:
                fr.regs[ins.res] = r
            return None
        fn = self.m.func(name)
        if fn is None:
            raise Unsupported("call of undefined function " + name)
        fr.ip += 1
        # byval
        for i, (t, v, at) in enumerate(ins.a['args']):
            if 'byval' in at:
                sz = self.m.size(at['byval'])
                o = self.new_flat(st, sz, 'byval', 'stack', 16)
                fr.allocas.append(o.id)
                self.memcpy(st, pobj(o.id), args[i], sz, 'byval')
                args[i] = pobj(o.id)
        self.enter(st, fn, args, (ins.res, fr.fid))
        return None

    def x_ret(self, st, fr, ins, done):
        v = None
        if ins.a['v'] is not None:
            v = self.val(st, ins.a['v'], ins.ty)
        # returning out of active loops of this frame
        act = st.active
        while act and act[-1].fid == fr.fid:
            L = act[-1]
            act = act[:-1]
            st.active = act
            L.exits.append((st, ('ret', v)))
            self.left(st, L)
            return []
        return self.finish_ret(st, v, done)

    def finish_ret(self, st, v, done):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        if not st.frames:
            st.retval = v
            done.append(st)
            return []
        if fr.ret[0] is not None:
            st.frames[-1].regs[fr.ret[0]] = v
        return None

    # ------------------------------------------------------------ memory intrinsics
    def memcpy(self, st, d, s, n, why):
        if is_c(n) and n == 0:
            return
        d = self.prune(st, self.as_ptr(d))
        s = self.prune(st, self.as_ptr(s))
        if len(d.alts) != 1 or len(s.alts) != 1:
            raise Unsupported("memcpy with several targets")
        (_, db, do), (_, sb, so) = d.alts[0], s.alts[0]
        if db[0] != 'o' or sb[0] != 'o':
            raise Unsupported("memcpy through null/opaque")
        if is_c(n):
            # piecewise following the source layout
            so_obj = st.mem.get(sb[1])
            if so_obj is None or st.mem.get(db[1]) is None:
                raise Unsupported("memcpy of dead object")
            pos = 0
            pieces = []
            if so_obj.kind == 'flat' and not so.t:
                cuts = sorted(x for co, (cs, _) in so_obj.cells.items() for x in (co, co + cs) if so.c < x < so.c + n)
                bounds = [so.c] + sorted(set(cuts)) + [so.c + n]
                for a, b in zip(bounds, bounds[1:]):
                    pieces.append((a - so.c, b - a))
                # uninitialised gaps: copied lazily as 8-byte pieces
                fine = []
                for a, l in pieces:
                    while l:
                        c = so_obj.cells.get(so.c + a)
                        step = min(l, c[0] if c else 8)
                        fine.append((a, step))
                        a += step
                        l -= step
                pieces = fine
            elif so_obj.kind == 'arr' or so_obj.kind == 'fam':
                es = so_obj.es
                keys = sorted(k for k in so_obj.fields if k[0] != 'live')
                if so_obj.kind == 'arr':
                    idx, fo = self.split(st, so_obj, so)
                else:
                    fo = so.c
                base = 0
                if es >= n and fo + n <= es:
                    cov = fo
                    for (ko, ks) in keys:
                        if ko >= fo and ko + ks <= fo + n and ko >= cov:
                            while cov < ko:
                                stp = min(8, ko - cov)
                                pieces.append((cov - fo, stp))
                                cov += stp
                            pieces.append((ko - fo, ks))
                            cov = ko + ks
                    while cov < fo + n:
                        stp = min(8, fo + n - cov)
                        pieces.append((cov - fo, stp))
                        cov += stp
                else:
                    if fo or n % es:
                        raise Unsupported("memcpy straddling elements")
                    pieces = [(i * es, es) for i in range(n // es)]
            else:
                raise Unsupported("memcpy kind")
            vals = []
            for a, l in pieces:
                sp = self.gep(s, a, ())
                v = self.load_raw(st, sp, l, why)
                if v is None:
                    return
                vals.append(v)
            for (a, l), v in zip(pieces, vals):
                dp = self.gep(d, a, ())
                self.store_raw(st, dp, l, v, why)
            return
        # symbolic length between arrays of the same element size
        so_obj = st.mem[sb[1]]
        do_obj = st.mem[db[1]]
        es = so_obj.es if so_obj.kind == 'arr' else do_obj.es if do_obj.kind == 'arr' else None
        if es is None:
            es = 1
        if so_obj.kind == 'flat':
            so_obj = self.as_arr(st, so_obj, es)
        if do_obj.kind == 'flat':
            do_obj = self.as_arr(st, do_obj, es)
        if so_obj.es != es or do_obj.es != es or db[1] == sb[1]:
            raise Unsupported("memcpy of different element sizes / same object")
        c, ts = linear_terms(n, 1)
        cnt = None
        try:
            fake = Obj(0, 'n', 'arr', '')
            fake.es = es
            cnt, r = self.split(st, fake, Off(c, ts))
        except Unsupported:
            r = 1
        if r:
            cnt = bin_('udiv', 64, n, es)
            self.obligation(st, icmp('eq', 64, bin_('urem', 64, n, es), 0), "memcpy: whole elements", 'memory')
        si, sf = self.split(st, so_obj, so)
        di, df = self.split(st, do_obj, do)
        if sf or df:
            raise Unsupported("memcpy field offset")
        for o, i in ((so_obj, si), (do_obj, di)):
            ok = b_or(eq64(cnt, 0), b_and(o.live, ule(cnt, o.n), ule(i, sub64(o.n, cnt))))
            self.obligation(st, ok, f"memory: block copy inside object ({why})", 'memory')
            if not is_c(ok):
                st.pc.append(ok)
        if not so_obj.fields:
            so_obj = self.wobj(st, so_obj.id)
            so_obj.fields[(0, es)] = self.default_field(st, so_obj, (0, es))
        do_obj = self.wobj(st, do_obj.id)
        for key, sfld in so_obj.fields.items():
            if key[0] == 'live':
                continue
            old = do_obj.fields.get(key) or self.default_field(st, do_obj, key)
            w = key[1] * 8

            def nb(idx, old=old, sfld=sfld, w=w):
                rel = sub64(idx[0], di)
                return coerce_ite(ult(rel, cnt), sfld.read((add64(si, rel),), w), old.read(idx, w), w)
            do_obj.fields[key] = Field(nb)

    def load_raw(self, st, p, size, why):
        (g, b, o), = self.prune(st, p).alts
        a = self.access(st, b, o, size, why, 1)
        if a is None:
            return None
        ob, idx, fo = a
        return self.read_obj(st, st.mem[ob.id], idx, fo, None, size, size * 8, False)

    def store_raw(self, st, p, size, v, why):
        (g, b, o), = self.prune(st, p).alts
        a = self.access(st, b, o, size, why, 1, True)
        if a is None:
            return
        ob, idx, fo = a
        self.write_obj(st, st.mem[ob.id], idx, fo, size, v)

    def memset(self, st, d, v, n, why):
        if is_c(n) and n == 0:
            return
        d = self.prune(st, self.as_ptr(d))
        if len(d.alts) != 1 or d.alts[0][1][0] != 'o':
            raise Unsupported("memset target")
        _, b, o = d.alts[0]
        ob = st.mem[b[1]]
        if is_c(n):
            if not is_c(v):
                raise Unsupported("memset symbolic value")
            pos = 0
            while pos < n:
                stp = 8 if n - pos >= 8 else 4 if n - pos >= 4 else 1
                if ob.kind == 'flat' and not o.t:
                    nx = [co - o.c for co in ob.cells if co > o.c + pos]
                    c = ob.cells.get(o.c + pos)
                    if c and c[0] <= n - pos:
                        stp = c[0]
                elif ob.kind == 'arr':
                    stp = min(ob.es, n - pos)
                val = 0
                for _ in range(stp):
                    val = (val << 8) | (v & 0xff)
                self.store_raw(st, self.gep(d, pos, ()), stp, val, why)
                pos += stp
            return
        if ob.kind == 'flat':
            ob = self.as_arr(st, ob, 1)
        raise Unsupported("memset symbolic length")

    # ------------------------------------------------------------ handlers
    def cstr(self, st, p):
        (g, b, o), = p.alts
        ob = st.mem[b[1]]
        out = bytearray()
        i = o.c
        while True:
            c = ob.cells[i][1]
            if c == 0:
                return out.decode()
            out.append(c)
            i += 1

    def init_handlers(self):
        H = self.handlers
        self.prefix_handlers = [
            ('llvm.memcpy', lambda st, fr, a, i: self.memcpy(st, a[0], a[1], a[2], fr.fn.name)),
            ('llvm.memmove', lambda st, fr, a, i: self.memcpy(st, a[0], a[1], a[2], fr.fn.name)),
            ('llvm.memset', lambda st, fr, a, i: self.memset(st, a[0], a[1], a[2], fr.fn.name)),
            ('llvm.lifetime', lambda st, fr, a, i: None),
            ('llvm.dbg', lambda st, fr, a, i: None),
            ('llvm.experimental.noalias', lambda st, fr, a, i: None),
            ('llvm.assume', lambda st, fr, a, i: None),
            ('llvm.trap', self.h_trap),
            ('llvm.umax', lambda st, fr, a, i: v_ite_w(icmp('ugt', i.ty.a, a[0], a[1]), a[0], a[1], i.ty.a)),
            ('llvm.umin', lambda st, fr, a, i: v_ite_w(icmp('ult', i.ty.a, a[0], a[1]), a[0], a[1], i.ty.a)),
            ('llvm.smax', lambda st, fr, a, i: v_ite_w(icmp('sgt', i.ty.a, a[0], a[1]), a[0], a[1], i.ty.a)),
            ('llvm.smin', lambda st, fr, a, i: v_ite_w(icmp('slt', i.ty.a, a[0], a[1]), a[0], a[1], i.ty.a)),
        ]
        import handlers
        handlers.install(self, H)

    def h_trap(self, st, fr, a, i):
        self.obligation(st, 0, "trap reached", 'memory')
        return Multi([])


class Multi:
    __slots__ = ('states',)

    def __init__(self, states):
        self.states = states
