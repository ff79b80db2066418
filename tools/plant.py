#!/usr/bin/env python3
"""plant.py ID            confirm a seeded change: applies, builds, passes the stable tests, demo 0 / nonzero
plant.py ID --new FILE OLD NEW   create patch.diff from a textual replacement (once) in FILE
plant.py ID --check            run the property's check on a copy with the change applied"""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy():
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    subprocess.run('git -C /repo worktree list >/dev/null; git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
    subprocess.run('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % d, shell=True, check=True)
    return d


def apply(d, sid): subprocess.run(['git', 'apply', os.path.join(V, 'seeded', sid, 'patch.diff')], cwd=d, check=True)


def stable(d):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    x = os.path.join(d, 'junit.xml')
    env = dict(os.environ, PYTHONPATH='/opt/vp/plugins', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VP_SEED='0')
    n = os.environ.get('NPROC', '8')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'vp_seed', '-p', 'no:cacheprovider', '--timeout=160', '-n', n, '--dist', 'worksteal', '--doctest-modules', '--continue-on-collection-errors',
                    '--tb=short', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'ctbayes', 'tests'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if c.find('failure') is None and c.find('error') is None and c.find('skipped') is None: ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    return [b for b in base if b not in ok]


def demo(d, sid):
    e = tempfile.mkdtemp(prefix='demo', dir='/tmp')
    for f in os.listdir(os.path.join(V, 'seeded', sid)):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(V, 'seeded', sid, f), e)
    r = subprocess.run(['bash', os.path.join(e, 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300, env=dict(os.environ, DEMO_REPO=d))
    shutil.rmtree(e)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def main():
    sid = sys.argv[1]
    d = copy()
    try:
        if '--new' in sys.argv:
            f, old, new = sys.argv[3:6]
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(old) == 1, 'text occurs %d times' % s.count(old)
            open(p, 'w').write(s.replace(old, new))
            os.makedirs(os.path.join(V, 'seeded', sid), exist_ok=True)
            open(os.path.join(V, 'seeded', sid, 'patch.diff'), 'w').write(subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout)
            return
        if '--check' in sys.argv:
            apply(d, sid)
            prop = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))['property']
            c = tempfile.mkdtemp(prefix='vchk', dir='/tmp')
            subprocess.run('cp -a %s/. %s/ && rm -rf %s/.git %s/seeded' % (V, c, c, c), shell=True)
            r = subprocess.run(['python3-vt', 'check.py', prop], cwd=c, capture_output=True, text=True, env=dict(os.environ, PYVC_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'))
            print(sid, 'rc', r.returncode, (r.stdout + r.stderr)[-700:])
            shutil.rmtree(c)
            return
        r0 = demo(d, sid)
        apply(d, sid)
        r1 = demo(d, sid)
        b = [] if '--demo' in sys.argv else stable(d)
        print(sid, 'demo unchanged', r0[0], 'demo patched', r1[0], 'stable failing', b, 'GOOD' if r0[0] == 0 and r1[0] != 0 and not b else 'BAD ' + r0[1] + '|' + r1[1], flush=True)
    finally:
        shutil.rmtree(d)


main()
