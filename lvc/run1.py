"""development runner: python3-vt lvc/run1.py C03 [contracts..]   (no native runs, detailed output)"""
import re, sys, time, os, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ir, engine, driver, contracts
from ir import Unsupported
if __name__ == '__main__':
    p = contracts.PROPS[sys.argv[1]]
    for s in p['suites']:
        hs = os.path.join(driver.ROOT, 'harness', s['src'])
        hn, bn, kn = driver.harness_names(hs)
        hn = [n for n in hn if re.fullmatch(s.get('only', '.*'), n)]
        names = [n for n in hn if n in sys.argv[2:]] if len(sys.argv) > 2 else hn
        if not names:
            continue
        bcs = []
        with mp.Pool(8) as pool:
            for src, o, e in pool.map(driver.compile_ir, [(x, '') for x in [hs] + [os.path.join(driver.REPO, l) for l in s.get('link', ())]], 1):
                if e:
                    sys.exit(e)
                bcs.append(o)
        ll, e = driver.link_ir('link_' + s['src'].replace('.cpp', ''), bcs)
        if e:
            sys.exit(e)
        m = ir.Module().parse(open(ll).read())
        for n in names:
            t = time.time()
            E = engine.Engine(m, log=sys.stdout if os.environ.get('LVC_LOG') else None, budget_s=int(os.environ.get('LVC_BUDGET', '300')))
            E.late_done = []
            o = dict(s.get('opts', {}).get('*', {}))
            o.update(s.get('opts', {}).get(n, {}))
            for k, v in o.items():
                if k in ('unroll_fallback', 'maxpaths', 'probe_forks') or k.startswith('use_'):
                    setattr(E, k, v)
            why = ''
            d = []
            try:
                d = E.run_function(n)
            except Unsupported as x:
                why = 'UNSUPPORTED ' + str(x)
            except engine.Budget as x:
                why = 'BUDGET ' + str(x)
            bad = [o for o in E.obls if o.status != 'proved']
            print(n, why, 'obl', len(E.obls), 'bad', len(bad), 'covers', E.covers, 'paths', len(d), E.stats, round(time.time() - t, 2))
            for o in bad[:6]:
                print('    ', o.kind, o.label, o.status, o.where[:90], o.inputs)
            if os.environ.get('LVC_SLOW'):
                for o in sorted(E.obls, key=lambda o: -o.time)[:12]:
                    print('    slow', round(o.time, 2), o.kind, o.label, o.where[:60])
                print('   total obl time', sum(o.time for o in E.obls))
                for l in E.loop_log:
                    print('   loop', l[:3])
