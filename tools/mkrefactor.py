"""Apply a list of behaviour-preserving edits to a copy of /repo, build and test it, and run the
checks on it: every check has to stay quiet.

usage: mkrefactor.py FILE.py [-k name,name] [-p C01,C02] [-n]
FILE.py defines EDITS = [(name, file, old, new), ...].  -n: only build and test."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)

def main():
    a = sys.argv[1:]
    f = a.pop(0)
    keep = props = None
    nocheck = False
    while a:
        x = a.pop(0)
        if x == '-k': keep = set(a.pop(0).split(','))
        if x == '-p': props = a.pop(0).split(',')
        if x == '-n': nocheck = True
    ns = {}
    exec(open(f).read(), ns)
    tag = os.path.basename(f)[:-3] + ('_' + '_'.join(sorted(keep))[:40] if keep else '')
    d = '/tmp/rf/' + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/rf', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    for name, fn, old, new in ns['EDITS']:
        if keep and name not in keep: continue
        p = os.path.join(d, 'src', fn)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print('EDIT %s: %d occurrences' % (name, n)); return 1
        open(p, 'w').write(s.replace(old, new))
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=d, env=env, capture_output=True, text=True)
    oks = [l for l in (r.stdout + r.stderr).splitlines() if 'test result' in l or l.startswith('error') or 'FAILED' in l or 'panicked' in l]
    print(tag, 'test rc', r.returncode, *oks[:6], sep='\n  ')
    if r.returncode:
        print(r.stderr[-3000:]); return 1
    if nocheck: return 0
    if not props and os.system("python3-vt %s/tools/whole.py %s" % (V, d)) >= 0: return 0
    if not props:
        props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    def one(p):
        e = dict(os.environ, LOKKY_REPO=d, LOKKY_EVIDENCE='/tmp/rf/ev')
        r = subprocess.run(['python3-vt', 'check.py', p, 'quick'], cwd=V, env=e, capture_output=True, text=True)
        return p, r.returncode, r.stdout + r.stderr
    bad = 0
    with cf.ThreadPoolExecutor(3) as ex:
        for p, rc, out in ex.map(one, props):
            last = out.strip().splitlines()[-1] if out.strip() else ''
            if rc:
                bad += 1
                print(p, 'RC', rc)
                print('\n'.join('    ' + l for l in out.splitlines() if 'VIOLATION' in l or 'violat' in l)[:3000])
            elif ' 0 undecided' not in last:
                print(p, last[:600])
                print('\n'.join('    ' + l[:400] for l in out.splitlines()[-12:-1]))
    print('%s: %d checks alarm' % (tag, bad))

sys.exit(main())
