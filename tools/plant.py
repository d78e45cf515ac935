"""plant.py NAME... | all: builds seeded/NAME from tools/bugs.py and confirms
it in a scratch copy (demo passes, fails with the change, the tests pass).
plant.py --check NAME... : runs the check of its property against it."""
import glob
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = 'golem_messages/'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def copy(name):
    d = '/tmp/plant_' + name
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree('/repo', d)
    return d


def edit(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f[1:] if f[0] == '/' else BASE + f)
        s = open(p, 'rb').read()
        crlf = b'\r\n' in s
        o, n = old.encode(), new.encode()
        if crlf:
            o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
        assert s.count(o) == 1, (f, s.count(o), old)
        open(p, 'wb').write(s.replace(o, n))


def build(name, bug):
    out = os.path.join(ROOT, 'seeded', name)
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    for f in glob.glob(HERE + '/demo/*'):
        if os.path.isfile(f):
            shutil.copy(f, out)
    open(out + '/demo.py', 'w').write(bug['demo'].lstrip())
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'],
               'what_it_breaks': bug['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    d = copy(name)
    try:
        a = sh(out + '/demo.sh', d)
        edit(d, bug['edits'])
        p = subprocess.run(['git', 'diff', '--binary'], cwd=d,
                           stdout=subprocess.PIPE)
        open(out + '/patch.diff', 'wb').write(p.stdout)
        b = sh(out + '/demo.sh', d)
        t = sh('bash /tmp/full.sh ' + d, d)
        sh('git checkout -- .', d)
        c = sh('git apply --check %s/patch.diff' % out, d)
    finally:
        shutil.rmtree(d)
    last = t.stdout.strip().splitlines()[-1]
    ok = a.returncode == 0 and b.returncode != 0 and c.returncode == 0 \
        and '2 failed, 515 passed' in last
    print(name, bug['property'], 'OK' if ok else 'BAD', a.returncode,
          b.returncode, c.returncode, last)
    if not ok:
        print('clean:', a.stdout[-800:])
        print('planted:', b.stdout[-800:])
        print(t.stdout[-800:], c.stdout)
    else:
        print('   ', b.stdout.strip().splitlines()[-1:])
    return ok


def check(name, bug):
    d = copy('c_' + name)
    try:
        r = sh('git apply %s/seeded/%s/patch.diff' % (ROOT, name), d)
        assert r.returncode == 0, r.stdout
        r = sh('./check.sh ' + bug['property'], ROOT, env=dict(
            os.environ, GM_SIM_REPO=d))
    finally:
        shutil.rmtree(d)
    lines = [x for x in r.stdout.splitlines() if x.strip()]
    print(name, bug['property'],
          'caught' if r.returncode == 1 else 'MISSED %d' % r.returncode,
          lines[-2:], flush=True)


def main():
    from bugs import BUGS
    args = sys.argv[1:]
    fn = build
    if args[0] == '--check':
        fn, args = check, args[1:]
    todo = [(name, bug) for name, bug in BUGS.items()
            if 'all' in args or name in args or bug['property'] in args]
    with ThreadPoolExecutor(6 if fn is build else 1) as pool:
        for _ in pool.map(lambda x: fn(*x), todo):
            pass


main()
