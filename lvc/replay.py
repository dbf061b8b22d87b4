"""Replay a recorded violation:  python3-vt lvc/replay.py <replay file>
Rebuilds the contract of the file natively (ASan/UBSan) from /repo's working tree and feeds it the recorded inputs.
Exit 1 when the violation shows again, 0 when it does not, 2 when the file holds no concrete input."""
import sys, os, re, glob, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import driver
import contracts


def main():
    rf = os.path.abspath(sys.argv[1])
    t = open(rf).read()
    m = re.search(r'property (\w+), contract (\w+)', t)
    pid, h = m.group(1), m.group(2)
    if '# replay:' not in t:
        print("no failing input was found for this obligation; see the verifier output in the file")
        return 2
    for s in contracts.PROPS[pid]['suites']:
        src = os.path.join(driver.ROOT, 'harness', s['src'])
        if h in sum(driver.harness_names(src), []):
            break
    need = [src, os.path.join(driver.ROOT, 'native', 'vcrt.cpp')]
    for l in (s.get('nlink') if s.get('nlink') is not None else s.get('link', ())):
        need += sorted(glob.glob(os.path.join(driver.REPO, l)))
    objs = []
    for n in need:
        _, o, e = driver.compile_native(n)
        if e:
            print(e)
            return 2
        objs.append(o)
    with tempfile.TemporaryDirectory() as d:
        exe = os.path.join(d, 'run')
        subprocess.check_call(['clang++-18'] + driver.SAN + ['-rdynamic'] + objs + ['-o', exe, '-ldl'])
        r = subprocess.run([exe, '--harness', h, '--replay', rf])
    return 0 if r.returncode == 0 else 1


sys.exit(main())
