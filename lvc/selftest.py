"""Soundness self-test of the verifier (also the setup command): ok_* contracts prove, bad_* contracts must not."""
import sys, os, multiprocessing as mp
import driver, ir


def main():
    hs = os.path.join(driver.ROOT, 'harness', 'selftest.cpp')
    src, bc, err = driver.compile_ir((hs, ''))
    if err:
        print(err)
        return 1
    ll, err = driver.link_ir('link_selftest', [bc])
    driver.MODS['selftest'] = ir.Module().parse(open(ll).read())
    names = driver.harness_names(hs)[0]
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        rs = pool.map(driver.verify_one, [('selftest', n, {}, 120, False, None) for n in names], 1)
    bad = 0
    for r in rs:
        good = (r['status'] == 'proved') == r['harness'].startswith('ok_')
        bad += not good
        print(('ok  ' if good else 'BAD ') + r['harness'], r['status'], r['reason'][:200])
    print('self-test:', 'passed' if not bad else f'{bad} FAILED')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
