"""Check driver:  python3-vt lvc/driver.py <property> [--tier quick|thorough]
Rebuilds everything from /repo's working tree, runs the deductive verifier on every contract of the property, runs the same
contracts natively (bounded), and reports.  Exit 0, or exit 1 with VIOLATION lines."""
import sys, os, re, json, time, subprocess, hashlib, multiprocessing as mp, traceback, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
INC = [f'-I{REPO}/lib/include', f'-I{REPO}/common/include', f'-I{ROOT}/harness', f'-DVC_REPO="{REPO}"']
# the definitions the repository's own build uses by default (logging: natively only)
DEFS = ['-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1', '-DSPVGENTWO_REPLACE_PLACEMENTNEW=1', '-DSPVGENTWO_REPLACE_TRAITS=1']
COMMON = DEFS + ['-std=c++17', '-fno-access-control', '-Wno-everything']
SYM = ['clang++-18', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics',
       '-DVC_SYMBOLIC', '-c', '-emit-llvm'] + COMMON + INC
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment,enum,bool']
NAT = ['clang++-18', '-O1', '-g1', '-DSPVGENTWO_LOGGING'] + SAN + COMMON + INC
BUILD = os.path.join(ROOT, 'build')
T0 = time.time()


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)


_h = {}


def tree_hash():
    """content hash of everything a build depends on"""
    if 't' not in _h:
        h = hashlib.sha256(repr((SYM, NAT)).encode())
        for pat in (f'{REPO}/lib/**/*', f'{REPO}/common/**/*', f'{ROOT}/harness/*', f'{ROOT}/native/*'):
            for f in sorted(glob.glob(pat, recursive=True)):
                if os.path.isfile(f):
                    h.update(f.encode())
                    h.update(open(f, 'rb').read())
        _h['t'] = h.hexdigest()[:20]
    return _h['t']


def cached(out, cmds):
    """run cmds to make out (atomically, keyed by content)"""
    if os.path.exists(out):
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for c in cmds:
        r = sh(c)
        if r.returncode:
            return r.stdout[-3000:]
    return None


def build_dir():
    return os.path.join(BUILD, tree_hash())


def compile_ir(job):
    src, kind = job
    d = build_dir()
    base = os.path.join(d, 'ir_' + os.path.relpath(src, '/').replace('/', '_'))
    out = base + '.bc'
    tmp = base + f'.{os.getpid()}.tmp'
    err = None
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        r = sh(SYM + [src, '-o', tmp])
        if r.returncode:
            err = r.stdout[-3000:]
        else:
            os.rename(tmp, out)
    return src, out, err


def link_ir(name, bcs):
    d = build_dir()
    out = os.path.join(d, name + '.ll')
    tmp = os.path.join(d, name + f'.{os.getpid()}')
    if os.path.exists(out):
        return out, None
    r = sh(['llvm-link-18'] + bcs + ['-o', tmp + '.bc'])
    if r.returncode:
        return None, r.stdout[-3000:]
    r = sh(['opt-18', '-S', '-passes=sroa,early-cse', tmp + '.bc', '-o', tmp + '.ll'])
    os.unlink(tmp + '.bc')
    if r.returncode:
        return None, r.stdout[-3000:]
    os.rename(tmp + '.ll', out)
    return out, None


def compile_native(src):
    d = build_dir()
    out = os.path.join(d, 'nat_' + os.path.relpath(src, '/').replace('/', '_') + '.o')
    tmp = out + f'.{os.getpid()}.tmp'
    if os.path.exists(out):
        return src, out, None
    os.makedirs(d, exist_ok=True)
    cmd = list(NAT)
    if os.path.basename(src) == 'Grammar.cpp':      # 9000 generated lines: unsanitised -O0
        cmd = ['clang++-18', '-O0', '-DSPVGENTWO_LOGGING'] + COMMON + INC
    r = sh(cmd + ['-c', src, '-o', tmp], timeout=300)
    if r.returncode:
        return src, None, r.stdout[-3000:]
    os.rename(tmp, out)
    return src, out, None


def harness_names(src):
    t = open(src).read()
    return tuple(list(dict.fromkeys(re.findall(r'^%s\((\w+)\)' % k, t, re.M))) for k in ('VC_HARNESS', 'VC_BOUNDED', 'VC_KNOWN'))


MODS = {}


def verify_one(job):
    """run the deductive engine on one contract"""
    import ir
    import engine
    sname, h, opts, budget, thorough, logf = job
    t0 = time.time()
    res = dict(suite=sname, harness=h, status='proved', obligations=0, discharged=0, failed=[], covers={}, fns=[], reason='',
               time=0, qtime=0, queries=0, loops=[], assumed=[], kinds={}, cvc5=0)
    try:
        m = MODS[sname]
        m.reset() if hasattr(m, 'reset') else None
        E = engine.Engine(m, budget_s=budget, timeout_ms=opts.get('timeout', 20000 if thorough else 8000),
                          log=open(logf, 'w') if logf else None)
        E.thorough = thorough
        for k, v in opts.items():
            if k in ('unroll_fallback', 'maxpaths', 'probe_forks') or k.startswith('use_'):
                setattr(E, k, v)
        try:
            d = E.run_function(h)
            d = d + E.late_done
            bad = [o for o in E.obls if o.status != 'proved']
            if bad:
                res['status'] = 'failed' if any(o.status == 'failed' for o in bad) else 'undecided'
                if res['status'] == 'undecided':
                    res['reason'] = 'solver timeout: ' + bad[0].label
            elif not E.covers or any(v is False for v in E.covers.values()):
                res['status'] = 'undecided'
                res['reason'] = 'vacuous: cover not reached ' + str(E.covers)
            elif not E.obls:
                res['status'] = 'undecided'
                res['reason'] = 'no obligations'
        except ir.Unsupported as e:
            res['status'], res['reason'] = 'undecided', 'unsupported: ' + str(e)[:300]
        except engine.Budget as e:
            res['status'], res['reason'] = 'undecided', 'budget: ' + str(e)[:300]
        bad = [o for o in E.obls if o.status != 'proved']
        for o in bad:
            res['failed'].append(dict(label=o.label, kind=o.kind, status=o.status, where=o.where, inputs=o.inputs, exact=bool(o.exact),
                                      model=(o.model or '')[:1500]))
        res['obligations'] = len(E.obls)
        res['discharged'] = len(E.obls) - len(bad)
        for o in E.obls:
            kk = o.kind + ':' + (o.backend or '')
            res['kinds'][kk] = res['kinds'].get(kk, 0) + 1
        res['covers'] = {k: str(v) for k, v in E.covers.items()}
        res['fns'] = sorted(E.fns)
        res['qtime'] = E.stats['qtime']
        res['queries'] = E.stats['queries']
        res['loops'] = [(l[0], l[1]) for l in E.loop_log]
        res['assumed'] = sorted(E.assumed)
        res['paths'] = E.stats['paths'] + 1
        res['cvc5'] = E.stats.get('cvc5', 0)
    except RecursionError:
        res['status'], res['reason'] = 'undecided', 'recursion limit'
    except MemoryError:
        res['status'], res['reason'] = 'undecided', 'memory'
    except Exception as e:      # a defect of the verifier never becomes an alarm
        res['status'], res['reason'] = 'undecided', 'engine error: ' + traceback.format_exc()[-600:]
    res['time'] = time.time() - t0
    return res


def native_one(job):
    exe, h, secs, seed, out, runs = job
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    cmd = [exe, '--harness', h, '--seconds', str(secs), '--seed', str(seed), '--out', out]
    if runs:
        cmd += ['--runs', str(runs)]
    try:
        r = sh(cmd, timeout=secs + 120, env=env)
    except subprocess.TimeoutExpired:
        return dict(harness=h, result='timeout', runs=0, label='', sample='', out=None, distinct=0, asserts=0)
    m = re.search(r'^RESULT (\w+) runs=(\d+) rejects=(\d+) distinct=(\d+) asserts=(\d+) label=(.*)$', r.stdout, re.M)
    sm = re.search(r'^SAMPLE (.*)$', r.stdout, re.M)
    if not m:
        return dict(harness=h, result='error', runs=0, label=r.stdout[-300:], sample='', out=None, distinct=0, asserts=0)
    san = ''
    if m.group(1) == 'crash':
        x = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: \S+.*|ERROR: UndefinedBehaviorSanitizer.*)', r.stdout)
        fr = re.search(r'#\d+ 0x\w+ in (spvgentwo::\S+|\S*spvgentwo\S*)', r.stdout)
        san = (x.group(1)[:200] if x else '') + (' in ' + fr.group(1)[:120] if fr else '')
    return dict(harness=h, result=m.group(1), runs=int(m.group(2)), rejects=int(m.group(3)), distinct=int(m.group(4)),
                asserts=int(m.group(5)), label=m.group(6) + (' ' + san if san else ''), sample=sm.group(1) if sm else '', out=out, cov=r.stdout)


def replay_one(job):
    exe, h, rf, out, runs, seed = job
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = sh([exe, '--harness', h, '--replay', rf, '--runs', str(runs), '--out', out, '--seed', str(seed)], timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return True, 'does not terminate'
    if r.returncode == 0 or r.returncode == 3:
        return False, ''
    m = re.search(r'^FAILED (.*)$', r.stdout, re.M)
    if m:
        return True, m.group(1)
    x = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*)', r.stdout)
    shutil.copy(rf, out)
    return True, 'memory: ' + (x.group(1)[:200] if x else 'crash')


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')[:len(names)]


def main():
    import contracts
    import ir
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1].split(',') if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    prop = contracts.PROPS[pid]
    deadline = T0 + (780 if not thorough else 6 * 3600)
    nproc = 8
    os.makedirs(build_dir(), exist_ok=True)
    for d in glob.glob(os.path.join(BUILD, '*')):      # old trees
        if os.path.isdir(d) and d != build_dir() and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rdir = os.path.join(evd, 'replay')
    os.makedirs(rdir, exist_ok=True)
    undecided = []
    # ---------------------------------------------------------------- build
    suites = prop['suites']
    srcs = set()
    natsrcs = set()
    for s in suites:
        hs = os.path.join(ROOT, 'harness', s['src'])
        if s.get('symbolic', True):
            srcs.add(hs)
            for l in s.get('link', ()):
                srcs.add(os.path.join(REPO, l))
        natsrcs.add(hs)
        for l in (s.get('nlink') if s.get('nlink') is not None else s.get('link', ())):
            natsrcs.update(sorted(glob.glob(os.path.join(REPO, l))))
    natsrcs.add(os.path.join(ROOT, 'native', 'vcrt.cpp'))
    with mp.Pool(nproc) as pool:
        natjobs = pool.map_async(compile_native, sorted(natsrcs), 1)
        irres = pool.map(compile_ir, [(s, '') for s in sorted(srcs)], 1)
        natres = natjobs.get()
    irmap = {s: (o, e) for s, o, e in irres}
    natmap = {s: (o, e) for s, o, e in natres}
    jobs, njobs = [], []
    exes = {}
    for s in suites:
        hs = os.path.join(ROOT, 'harness', s['src'])
        sname = s['src'].replace('.cpp', '')
        hn, bn, kn = harness_names(hs)
        pre = s.get('only')
        if pre:
            hn = [x for x in hn if re.fullmatch(pre, x)]
            bn = [x for x in bn if re.fullmatch(pre, x)]
            kn = [x for x in kn if re.fullmatch(pre, x)]
        if only:
            hn = [x for x in hn if x in only]
            bn = [x for x in bn if x in only]
        s['names'] = (hn, bn, kn)
        if s.get('symbolic', True) and hn:
            need = [hs] + [os.path.join(REPO, l) for l in s.get('link', ())]
            errs = [irmap[x][1] for x in need if irmap[x][1]]
            if errs:
                undecided.append(f"{s['src']}: contracts do not compile against this tree: {errs[0][-600:]}")
                if verbose:
                    print(errs[0])
            else:
                ll, err = link_ir('link_' + sname, [irmap[x][0] for x in need])
                if err:
                    undecided.append(f"{s['src']}: link: {err[-300:]}")
                else:
                    MODS[sname] = ir.Module().parse(open(ll).read())
                    for h in hn:
                        o = dict(s.get('opts', {}).get('*', {}))
                        o.update(s.get('opts', {}).get(h, {}))
                        if o.get('skip'):
                            continue
                        jobs.append((sname, h, o, o.get('budget', 300 if not thorough else 3600), thorough,
                                     f'/tmp/lvc_{h}.log' if verbose else None))
        # native
        nl = s.get('nlink') if s.get('nlink') is not None else s.get('link', ())
        need = [hs, os.path.join(ROOT, 'native', 'vcrt.cpp')]
        for l in nl:
            need += sorted(glob.glob(os.path.join(REPO, l)))
        errs = [natmap[x][1] for x in need if natmap[x][1]]
        if errs:
            undecided.append(f"{s['src']}: native build: {errs[0][-600:]}")
            if verbose:
                print(errs[0])
        else:
            exe = os.path.join(build_dir(), 'run_' + sname)
            if not os.path.exists(exe):
                tmp = exe + f'.{os.getpid()}'
                r = sh(['clang++-18'] + SAN + ['-rdynamic'] + [natmap[x][0] for x in need] + ['-o', tmp, '-ldl'])
                if r.returncode:
                    undecided.append(f"{s['src']}: native link: {r.stdout[-600:]}")
                    if verbose:
                        print(r.stdout[-3000:])
                    tmp = None
                else:
                    os.rename(tmp, exe)
            if os.path.exists(exe):
                exes[sname] = exe
                secs = s.get('nsecs', 1.0 if not thorough else 20.0)
                for h in hn:
                    njobs.append((exe, h, secs, seed, os.path.join(rdir, f'{pid}_{h}.inputs'), None))
                for h in bn:
                    njobs.append((exe, h, s.get('bsecs', 3.0) * (1 if not thorough else 20), seed, os.path.join(rdir, f'{pid}_{h}.inputs'), None))
    t_build = time.time() - T0
    # ---------------------------------------------------------------- run
    jobs.sort(key=lambda j: -j[2].get('cost', 1))
    results, nres = [], []
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc, maxtasksperchild=1)
    ar = [(j, pool.apply_async(verify_one, (j,))) for j in jobs]
    an = [(j, pool.apply_async(native_one, (j,))) for j in njobs]
    for j, a in ar:
        left = max(1.0, deadline - time.time())
        try:
            r = a.get(timeout=left)
        except mp.TimeoutError:
            r = dict(suite=j[0], harness=j[1], status='undecided', obligations=0, discharged=0, failed=[], covers={}, fns=[],
                     reason='deadline', time=0, qtime=0, queries=0, loops=[], assumed=[], kinds={}, cvc5=0)
        results.append(r)
        if verbose:
            print(f"  {r['harness']}: {r['status']} {r['discharged']}/{r['obligations']} {r['time']:.1f}s {r['reason']}", flush=True)
    for j, a in an:
        try:
            n = a.get(timeout=max(1.0, deadline + 60 - time.time()))
        except mp.TimeoutError:
            n = dict(harness=j[1], result='timeout', runs=0, label='', sample='', out=None, distinct=0, asserts=0)
        n['exe'] = j[0]
        nres.append(n)
        if verbose:
            print(f"  native {n['harness']}: {n['result']} runs={n['runs']} {n['label']}", flush=True)
    # solver time-outs depend on the load: try the contracts left undecided once more, on a quiet machine
    again = [i for i, r in enumerate(results) if r['status'] == 'undecided' and 'engine error' not in r['reason']]
    ran = {n['harness'] for n in nres if n['result'] in ('fail', 'crash', 'hang')}
    again = [i for i in again if results[i]['harness'] not in ran][:4]
    if again and deadline - time.time() > 60:
        ar = [(i, pool.apply_async(verify_one, (jobs[i],))) for i in again]
        for i, a in ar:
            try:
                r = a.get(timeout=max(1.0, deadline - 20 - time.time()))
            except mp.TimeoutError:
                continue
            if r['status'] != 'undecided':
                results[i] = r
            if verbose:
                print(f"  again {r['harness']}: {r['status']} {r['discharged']}/{r['obligations']} {r['time']:.1f}s {r['reason']}", flush=True)
    pool.terminate()
    nby = {n['harness']: n for n in nres}
    # ---------------------------------------------------------------- judge
    viol = []
    seen = set()
    for n in nres:
        if n['result'] in ('fail', 'crash', 'hang'):
            # confirm by replaying the recorded input
            ok = True
            if n['result'] != 'hang':
                ok, lab = replay_one((n['exe'], n['harness'], n['out'], n['out'] + '.min', 1, seed))
            if ok:
                viol.append((n['harness'], n['label'], n['out'], True, ''))
                seen.add(n['harness'])
            else:
                undecided.append(f"{n['harness']}: native failure did not replay ({n['label']})")
        elif n['result'] in ('vacuous', 'error', 'timeout'):
            undecided.append(f"{n['harness']}: native run {n['result']} {n['label'][:200]}")
    optof = {(j[0], j[1]): j[2] for j in jobs}
    for r in results:
        if r['status'] == 'proved' or r['harness'] in seen:
            continue
        if r['status'] == 'undecided':
            undecided.append(f"{r['harness']}: {r['reason']}")
        if not r['failed']:
            continue
        exe = exes.get(r['suite'])
        found = None
        rf = os.path.join(rdir, f"{pid}_{r['harness']}.inputs")
        if exe:
            for i, o in enumerate(r['failed'][:4]):
                if not o['inputs']:
                    continue
                cand = rf + f'.cex{i}'
                with open(cand, 'w') as f:
                    for nm, v, w in o['inputs']:
                        if not nm.startswith('?'):
                            f.write(f'{nm}={v}\n')
                ok, lab = replay_one((exe, r['harness'], cand, rf, 300, seed))
                if ok:
                    found = (lab, rf)
                    break
            if not found:
                left = max(5, min(60 if not thorough else 600, deadline - time.time()))
                per = left / max(1, sum(1 for x in results if x['failed']))
                with ctx.Pool(nproc) as p2:
                    outs = p2.map(native_one, [(exe, r['harness'], max(5, per), seed * 100 + i + 1, rf + f'.s{i}', None) for i in range(nproc)], 1)
                for o in outs:
                    if o['result'] in ('fail', 'crash', 'hang') and (o['result'] == 'hang' or replay_one((exe, r['harness'], o['out'], o['out'] + '.min', 1, seed))[0]):
                        found = (o['label'], o['out'])
                        break
        o = r['failed'][0]
        if found:
            viol.append((r['harness'], found[0], found[1], True, o['label']))
        else:
            ex = [x for x in r['failed'] if x['status'] == 'failed' and x['exact']]
            if optof.get((r['suite'], r['harness']), {}).get('confirm'):
                ex = []     # the contract stands on recorded calls: a refutation alone may come from another, equally good, division of the work
            if ex and r['status'] == 'failed':
                p = rf + '.obligation'
                with open(p, 'w') as f:
                    f.write(f"# contract {r['harness']}: obligation not discharged\n# obligation: {ex[0]['label']}\n# in: {ex[0]['where']}\n"
                            f"# verifier counterexample inputs: {ex[0]['inputs']}\n# model:\n")
                    f.write('\n'.join('# ' + l for l in ex[0]['model'].split('\n')) + '\n')
                viol.append((r['harness'], ex[0]['label'], p, False, ex[0]['label']))
            else:
                undecided.append(f"{r['harness']}: obligation undecided ({o['status']}): {o['label']}")
    # ---------------------------------------------------------------- known findings
    known = []
    for s in suites:
        sname = s['src'].replace('.cpp', '')
        for k in s['names'][2]:
            if sname in exes:
                n = native_one((exes[sname], k, 2.0, seed, os.path.join(rdir, f'{pid}_{k}.inputs'), None))
                if n['result'] in ('fail', 'crash', 'hang'):
                    what = known_text(pid, k)
                    if what is None:
                        viol.append((k, n['label'], n['out'], True, ''))
                    else:
                        known.append((k, what))
                        print(f"KNOWN-FINDING: property={pid} {what}")
    # ---------------------------------------------------------------- evidence
    fns = sorted({f for r in results if r['status'] == 'proved' for f in r['fns']})
    dm = demangle(fns) if fns else []
    under = sorted({d for d in dm if 'spvgentwo::' in d})
    ob = sum(r['obligations'] for r in results)
    dis = sum(r['discharged'] for r in results)
    proved = [r for r in results if r['status'] == 'proved']
    kinds = {}
    for r in results:
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    assumptions = list(contracts.ASSUMPTIONS) + list(prop.get('assumptions', ())) + sorted({a for r in results for a in r['assumed']})
    cov = dict(
        obligations=ob, discharged=dis,
        checker_cmd=f"python3-vt lvc/driver.py {pid} --tier {tier}",
        trusted_base=contracts.TRUSTED,
        contracts=len(results), contracts_proved=len(proved),
        contract_results=[dict(contract=r['harness'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'],
                               paths=r.get('paths', 0), loops_cut=len(r['loops']), covers=r['covers'], seconds=round(r['time'], 2),
                               solver_seconds=round(r['qtime'], 2), queries=r['queries'], reason=r['reason']) for r in results],
        obligations_by_kind_and_backend=kinds,
        solver_seconds=round(sum(r['qtime'] for r in results), 2),
        functions_under_contract=under,
        cvc5_confirmed=sum(r['cvc5'] for r in results),
        undecided=undecided,
        bounded_standins=[dict(contract=n['harness'], runs=n['runs'], distinct=n['distinct'], asserts=n['asserts'], result=n['result'],
                               sample=n['sample'][:300], note='bounded: executed natively under ASan/UBSan, never counted as proved') for n in nres],
        evaluations=sum(n['runs'] for n in nres),
        distinct_nontrivial=sum(n['distinct'] for n in nres),
        rule='native runs of the contracts: small-scope enumeration of the choice tree, then biased random; distinct = different choice sequences that satisfy the precondition',
        samples=[dict(contract=n['harness'], inputs=n['sample'][:300]) for n in nres if n['sample']][:5] or ['(see contract_results)'],
        explanation=prop.get('explanation', ''),
        known_findings=[k for k, _ in known],
        build_seconds=round(t_build, 1),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=prop['level'], coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - T0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    print(f"{pid}: {len(proved)}/{len(results)} contracts proved, {dis}/{ob} obligations discharged, "
          f"{sum(n['runs'] for n in nres)} bounded runs, {len(undecided)} undecided, {time.time()-T0:.1f}s")
    for u in undecided:
        print("UNDECIDED", u.replace('\n', ' ')[:400])
    if not viol:
        return 0
    for h, lab, path, conc, obl in viol:
        rp = os.path.join(rdir, f'{pid}_{h}.replay')
        body = open(path).read() if path and os.path.exists(path) else ''
        with open(rp, 'w') as f:
            f.write(f"# property {pid}, contract {h}\n# failed: {lab}\n")
            if obl:
                f.write(f"# refuted obligation: {obl}\n")
            f.write(f"# replay: python3-vt {ROOT}/lvc/replay.py {rp}\n" if conc else '# no failing input found; verifier output follows\n')
            f.write(body)
        print(f"  contract {h}: {lab}")
        print(f"VIOLATION property={pid} replay={rp}" + ('' if conc else ' no-failing-input-found'))
    return 1


def known_text(pid, k):
    """text of the listed finding k=<contract name>, or None when the file does not list it"""
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) \[(\w+)\] (.*)', l.strip())
            if m and m.group(1) == pid and m.group(2) == k:
                return m.group(3)
    return None


if __name__ == '__main__':
    if sys.version_info < (3, 8):
        sys.exit(0)
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("CHECK-ERROR (no verdict)")
        rc = 0 if os.environ.get('LVC_LENIENT') else 3
    sys.stdout.flush()
    os._exit(rc)
