"""Developer tool: systematic small changes ("mutants") of a file, to find out what neither the tests nor the checks notice.

  mutate.py FILE OUT.jsonl [--props C01,C02] [--every N] [--jobs J] [--lines A-B]

Each mutant is made in a scratch clone; those which the repository's tests accept are given to the checks of the properties.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SWAP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'Is': 'is not', 'IsNot': 'is', 'In': 'not in', 'NotIn': 'in'}
CALL = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'set': 'list'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((n.lineno, kind, a, b, new))
    doc = {id(b.value) for n in ast.walk(tree) if hasattr(n, 'body') and isinstance(n.body, list) for b in n.body[:1]
           if isinstance(b, ast.Expr)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0]).__name__
            if op in SWAP:
                add(n, '%s %s %s' % (text(n.left), SWAP[op], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + w.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for v in n.values:
                add(n, '(%s)' % text(v), 'bool1')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'not (%s)' % text(n.test), 'neg')
            if isinstance(n, ast.If):
                add(n.test, '(True or (%s))' % text(n.test), 'true')
                add(n.test, '(False and (%s))' % text(n.test), 'false')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'const')
            if n.value:
                add(n, str(n.value - 1), 'const')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'const')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            add(n, '(%s) %s (%s)' % (text(n.left), {'Add': '-', 'Sub': '+', 'Mult': '+'}[type(n.op).__name__], text(n.right)), 'arith')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in CALL and n.args:
                add(n.func, CALL[n.func.id], 'call')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'intersection', 'union'):
                add(n, text(n.func.value), 'method')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, b = span(k)
                    e = b
                    while raw[e:e + 1] in b' \n\t':
                        e += 1
                    if raw[e:e + 1] == b',':
                        out.append((n.lineno, 'kw', a, e + 1, ''))
                    else:
                        while raw[a - 1:a] in b' \n\t':
                            a -= 1
                        if raw[a - 1:a] == b',':
                            out.append((n.lineno, 'kw', a - 1, b, ''))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for x, nm in ((s.lower, 'lower'), (s.upper, 'upper')):
                if x is not None:
                    a, b = span(x)
                    out.append((n.lineno, 'slice-' + nm, a, b, ''))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, 'ZeroDivisionError', 'except')
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'break' if isinstance(n, ast.Continue) else 'continue', 'loop')
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise)) and id(getattr(n, 'value', None)) not in doc:
            add(n, 'pass', 'drop')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', 'drop')
        elif isinstance(n, ast.Assert):
            pass
    seen, res = set(), []
    for ln, kind, a, b, new in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        if m in seen or m == src:
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((ln, kind, lines[ln - 1].strip(), new, m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('out'); ap.add_argument('--props', default='')
    ap.add_argument('--every', type=int, default=1); ap.add_argument('--jobs', type=int, default=6); ap.add_argument('--lines', default='')
    ap.add_argument('--tests', default='karabo_data/tests')
    ap.add_argument('--checks-first', action='store_true', help='run the tests only with what the checks did not notice')
    a = ap.parse_args()
    src = open('/repo/' + a.file).read()
    ms = mutants(src)
    if a.lines:
        lo, hi = map(int, a.lines.split('-'))
        ms = [m for m in ms if lo <= m[0] <= hi]
    random.Random(1).shuffle(ms)
    ms = sorted(ms[::a.every], key=lambda m: m[0])
    done = set()
    if os.path.exists(a.out):
        done = {(d['line'], d['kind'], d['new']) for d in map(json.loads, open(a.out))}
    print(len(ms), 'mutants', len(done), 'done')
    dirs = queue.Queue()
    for i in range(a.jobs):
        d = '/tmp/mut/%s-%d' % (os.path.basename(a.out), i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs('/tmp/mut', exist_ok=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
        dirs.put(d)

    def one(m):
        ln, kind, line, new, text = m
        if (ln, kind, new) in done:
            return
        d = dirs.get()
        rec = {'file': a.file, 'line': ln, 'kind': kind, 'src': line, 'new': new, 'tests': None, 'caught': None}
        try:
            open(d + '/' + a.file, 'w').write(text)
            e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
            def tests():
                try:
                    r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=100', '--deselect',
                                        'karabo_data/tests/test_run_files_map.py::test_permission', '-k', 'not test_permission', '--basetemp=%s.pt' % d] + a.tests.split(','),
                                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                    rec['tests'] = r.returncode == 0
                    rec['out'] = r.stdout.decode()[-100:]
                except subprocess.TimeoutExpired:
                    rec['tests'] = False

            def checks():
                rec['caught'] = []
                for p in a.props.split(','):
                    try:
                        r = subprocess.run([PY, '-m', 'dst.run', p, '--tier', 'quick', '--no-evidence', '--no-shrink'], cwd=V,
                                           env=dict(os.environ, KD_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc:
                        rec['caught'].append([p, rc])
                        break
            if a.checks_first:
                checks()
                if not rec['caught']:
                    tests()
            else:
                tests()
                if rec['tests']:
                    checks()
        finally:
            open(d + '/' + a.file, 'w').write(src)
            shutil.rmtree(d + '.pt', ignore_errors=True)
            dirs.put(d)
        with open(a.out, 'a') as f:
            f.write(json.dumps(rec) + '\n')
    with ThreadPoolExecutor(a.jobs) as ex:
        for f in [ex.submit(one, m) for m in ms]:
            f.result()
    while not dirs.empty():
        shutil.rmtree(dirs.get())


if __name__ == '__main__':
    main()
