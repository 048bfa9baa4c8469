"""Developer tool: confirm planted bugs in scratch copies of /repo.

  bug.py new ID FILE < replacement spec (python: list of (old, new))   -> seeded/ID/patch.diff
  bug.py demo ID...    demo exits 0 unchanged, nonzero patched
  bug.py tests ID...   stable tests pass with the patch
  bug.py check ID...   run the property's quick check against the patched copy
"""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
LO = '''import socket,fcntl,struct,sys,os
s=socket.socket()
fcntl.ioctl(s, 0x8914, struct.pack("16sh", b"lo", 0x49))
os.execv(sys.executable, [sys.executable] + sys.argv[1:])'''


def copy(i, patch=True):
    d = '/tmp/bugs/%s%s' % (i, '' if patch else '-base')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/bugs', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    if patch:
        subprocess.check_call(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', PYTHONHASHSEED='0')
    e['PATH'] = '/opt/venv/bin:' + e['PATH']
    return e


def new(i, spec):
    d = '/tmp/bugs/new-' + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/bugs', exist_ok=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    for f, old, nw in spec:
        p = d + '/karabo_data/' + f
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, nw))
    os.makedirs('%s/seeded/%s' % (V, i), exist_ok=True)
    out = subprocess.check_output(['git', '-C', d, 'diff'])
    open('%s/seeded/%s/patch.diff' % (V, i), 'wb').write(out)
    shutil.rmtree(d)


def demo(i):
    dm = '/tmp/bugs/demo-' + i
    shutil.rmtree(dm, ignore_errors=True)
    shutil.copytree('%s/seeded/%s' % (V, i), dm)
    for f in ('patch.diff', 'meta.json'):
        if os.path.exists(dm + '/' + f):
            os.unlink(dm + '/' + f)
    res = []
    for p in (False, True):
        d = copy(i, p)
        r = subprocess.run(['bash', dm + '/demo.sh'], cwd=d, env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        res.append((r.returncode, r.stdout.decode()[-300:]))
        shutil.rmtree(d)
    shutil.rmtree(dm)
    ok = res[0][0] == 0 and res[1][0] != 0
    print('DEMO', i, 'ok' if ok else 'BAD', res if not ok else res[1][1].strip().splitlines()[-1:])
    return ok


def tests(i):
    d = copy(i)
    base = json.load(open('/opt/vp/BASELINE.json'))
    xml = d + '.xml'
    subprocess.run(['unshare', '-Urn', PY, '-c', LO, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--nbval-lax',
                    '--continue-on-collection-errors', '--basetemp=' + d + '.pt', '--disable-warnings', '--tb=short',
                    '-o', 'junit_family=xunit2', '--junitxml=' + xml], cwd=d, env=env(d), stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    root = ET.parse(xml).getroot()
    bad = [c.get('classname') + '::' + c.get('name') for c in root.iter('testcase')
           if c.find('failure') is not None or c.find('error') is not None]
    n = len(list(root.iter('testcase')))
    bad = [b for b in bad if 'test_permission' not in b]
    print('TESTS', i, 'ok' if not bad and n >= 146 else 'BAD', n, bad)
    shutil.rmtree(d); shutil.rmtree(d + '.pt', ignore_errors=True); os.unlink(xml)


def check(i, prop=None):
    d = copy(i)
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    p = prop or m['property']
    r = subprocess.run([PY, '-m', 'dst.run', p, '--tier', 'quick', '--no-evidence', '--no-shrink'], cwd=V,
                       env=dict(os.environ, KD_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode().strip().splitlines()
    print('CHECK', i, p, 'CAUGHT' if r.returncode == 1 and any('VIOLATION property=' + p in l for l in o) else 'MISSED(rc=%d)' % r.returncode, o[-3:])
    shutil.rmtree(d)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ['all']:
        ids = sorted(os.listdir(V + '/seeded'))
    for i in ids:
        {'demo': demo, 'tests': tests, 'check': check}[cmd](i)
        sys.stdout.flush()
