"""Runs the check of one property: many simulated runs, shrinking, evidence.

  python -m dst.run C01 [--tier quick|thorough] [--seed N] [--runs N]
  python -m dst.run --replay FILE        replay a recorded violation exactly
"""
import argparse
import copy
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BLOCK = 24          # simulated runs per interpreter (each has its own hash seed)


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.access(d, os.W_OK):
            return tempfile.mkdtemp(prefix='kdst-', dir=d)
    return tempfile.mkdtemp(prefix='kdst-')


class Worker:
    def __init__(self, prop, hashseed, base, so, verbose=False):
        self.dir = tempfile.mkdtemp(prefix='w-', dir=base)
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'LD_PRELOAD')}
        env.update(PYTHONHASHSEED=str(hashseed), LD_PRELOAD=so, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONNOUSERSITE='1', PYTHONPATH=VERIF, OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', MPLBACKEND='agg', LANG='C.UTF-8', TZ='UTC',
                   HDF5_USE_FILE_LOCKING='TRUE')
        self.p = subprocess.Popen(
            [PY, '-m', 'dst.worker', prop, self.dir] + (['--verbose'] if verbose else []),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=VERIF,
            stderr=None if verbose else subprocess.DEVNULL, text=True)
        first = self.p.stdout.readline()
        first = json.loads(first) if first.strip() else {'fatal': 'worker did not start'}
        self.fatal = first.get('fatal')

    def run(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise EOFError
            return json.loads(line)
        except (OSError, EOFError, ValueError) as e:
            return {'status': 'harness', 'cls': 'worker', 'msg': repr(e), 'seed': req.get('seed'),
                    'faults': {}, 'probes': {}, 'states': [], 'evals': 0, 'simtime': 0, 'hash': ''}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def hashseed_for(seed0, block):
    return int(hashlib.sha256(('%d/%d' % (seed0, block)).encode()).hexdigest()[:7], 16) % 4294967295


FAILED = ('violation', 'hang', 'process-died')


class Batch:
    """Distributes blocks of seeds over workers and aggregates the results."""
    def __init__(self, prop, seed, tier, runs, base, so, jobs, wall_cap):
        self.prop, self.seed, self.tier, self.runs = prop, seed, tier, runs
        self.base, self.so, self.jobs, self.wall_cap = base, so, jobs, wall_cap
        self.lock = threading.Lock()
        self.results = {}
        self.failures = []
        self.harness = []
        self.hashes = {}
        self.samples = []
        self.agg = {'faults': {}, 'probes': {}, 'states': set(), 'evals': 0, 'simtime': 0.0,
                    'nevents': 0, 'nontrivial': set(), 'runs': 0, 'hashseeds': set()}
        self.stop = False

    def seeds(self, block):
        a = block * BLOCK
        return range(a, min(a + BLOCK, self.runs))

    def run(self):
        t0 = time.monotonic()
        self.t0 = t0
        nblocks = (self.runs + BLOCK - 1) // BLOCK
        q = queue.Queue()
        for b in range(nblocks):
            q.put(b)
        ths = [threading.Thread(target=self.work, args=(q,)) for _ in range(min(self.jobs, nblocks))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return time.monotonic() - t0

    def work(self, q):
        while not self.stop:
            try:
                b = q.get_nowait()
            except queue.Empty:
                return
            if time.monotonic() - self.t0 > self.wall_cap:
                return
            hs = hashseed_for(self.seed, b)
            w = Worker(self.prop, hs, self.base, self.so)
            if w.fatal:
                with self.lock:
                    self.harness.append({'status': 'harness', 'cls': 'import', 'msg': w.fatal})
                    self.stop = True
                w.close()
                return
            for i in self.seeds(b):
                if self.stop or time.monotonic() - self.t0 > self.wall_cap:
                    break
                full = self.seed * 1000000 + i
                res = w.run({'seed': full, 'tier': self.tier, 'want_sample': i in (0, 7)})
                res['hashseed'] = hs
                with self.lock:
                    self.take(i, res)
            w.close()

    def take(self, i, res):
        a = self.agg
        a['runs'] += 1
        a['hashseeds'].add(res['hashseed'])
        for k in ('faults', 'probes'):
            for n, c in res[k].items():
                a[k][n] = a[k].get(n, 0) + c
        a['states'].update(res['states'])
        a['evals'] += res['evals']
        a['simtime'] += res['simtime']
        a['nevents'] += res.get('nevents', 0)
        self.hashes[i] = (res['hash'], res['hashseed'], res.get('seed'))
        if res.get('sample') is not None:
            self.samples.append(res['sample'])
        if res['status'] == 'ok':
            if res['evals'] > 0:
                a['nontrivial'].add(res['hash'])
        elif res['status'] in FAILED:
            self.failures.append((i, res))
            self.stop = True
        else:
            self.harness.append(res)
            if len(self.harness) > 3:
                self.stop = True


# ---------------------------------------------------------------- shrinking

def get_path(plan, path):
    for p in path.split('.'):
        if not isinstance(plan, dict) or p not in plan:
            return None
        plan = plan[p]
    return plan


def set_path(plan, path, value):
    parts = path.split('.')
    for p in parts[:-1]:
        plan = plan[p]
    plan[parts[-1]] = value


class Shrinker:
    def __init__(self, prop, plan, cls, hashseed, base, so, budget):
        self.plan, self.cls, self.tries = plan, cls, 0
        self.end = time.monotonic() + budget
        self.w = Worker(prop, hashseed, base, so)
        self.mod = prop

    def fails(self, plan):
        if time.monotonic() > self.end:
            return False
        self.tries += 1
        res = self.w.run({'plan': plan, 'timeout': 60})
        return res['status'] in FAILED and res['cls'] == self.cls

    def list_pass(self, path):
        items = get_path(self.plan, path)
        if not isinstance(items, list) or not items:
            return False
        changed = False
        size = max(1, len(items) // 2)
        while size >= 1:
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                p = copy.deepcopy(self.plan)
                set_path(p, path, cand)
                if self.fails(p):
                    self.plan, items, changed = p, cand, True
                else:
                    i += size
                if time.monotonic() > self.end:
                    return changed
            size //= 2
        return changed

    def scalar_pass(self, path, values):
        cur = get_path(self.plan, path)
        if cur is None:
            return False
        for v in values:
            if v == cur:
                return False
            p = copy.deepcopy(self.plan)
            set_path(p, path, v)
            if self.fails(p):
                self.plan = p
                return True
        return False

    def run(self, lists, scalars):
        try:
            for _ in range(4):
                ch = False
                for path in lists:
                    ch |= self.list_pass(path)
                for path, values in scalars.items():
                    ch |= self.scalar_pass(path, values)
                if not ch or time.monotonic() > self.end:
                    break
        finally:
            self.w.close()
        return self.plan


# ---------------------------------------------------------------- main

def prop_info(prop):
    """Static facts of the property module, read without importing the code under test."""
    import ast
    path = os.path.join(VERIF, 'dst', 'props', prop.lower() + '.py')
    tree = ast.parse(open(path).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def match_known(prop, res):
    for k in known_findings()['findings']:
        if k['property'] == prop and k['cls'] == res['cls'] and k['match'] in res['msg']:
            return k
    return None


def replay_file(path, so, base, verbose=False):
    with open(path) as f:
        rep = json.load(f)
    w = Worker(rep['property'], rep['hashseed'], base, so, verbose)
    if w.fatal:
        print(w.fatal, file=sys.stderr)
        return None, rep
    res = w.run({'plan': rep['plan'], 'timeout': 150})
    w.close()
    return res, rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument('--one', type=int, help="run a single case index, verbosely")
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-shrink', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    sys.path.insert(0, VERIF)
    from dst import shim
    base = scratch_base()
    try:
        so = shim.build(base)
        if args.replay:
            return do_replay(args, so, base)
        return do_check(args, so, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_replay(args, so, base):
    res, rep = replay_file(args.replay, so, base, args.verbose)
    if res is None:
        return 2
    print(json.dumps({k: res.get(k) for k in ('status', 'cls', 'msg', 'hash', 'tail')}, indent=1))
    if res['status'] in FAILED and res['cls'] == rep['cls']:
        same = 'identical event log' if res['hash'] == rep['hash'] else 'event log differs'
        print('REPRODUCED property=%s class=%s (%s)' % (rep['property'], rep['cls'], same))
        return 1
    print('NOT REPRODUCED')
    return 0


def do_check(args, so, base):
    prop = args.prop.upper()
    info = prop_info(prop)
    t_start = time.time()
    if args.one is not None:
        hs = hashseed_for(args.seed, args.one // BLOCK)
        w = Worker(prop, hs, base, so, verbose=True)
        if w.fatal:
            print(w.fatal)
            return 2
        res = w.run({'seed': args.seed * 1000000 + args.one, 'tier': args.tier})
        w.close()
        print(json.dumps(res, indent=1)[:20000])
        return 0
    runs = args.runs or info['RUNS'][args.tier]
    cap = 420 if args.tier == 'quick' else 3600 * 3
    b = Batch(prop, args.seed, args.tier, runs, base, so, args.jobs, cap)
    wall = b.run()
    known_hit = []
    # Known findings are reported and set aside; anything else is a violation.
    while b.failures and all(match_known(prop, r) for _, r in b.failures) and not b.harness:
        # continue the batch past known findings
        for i, r in b.failures:
            known_hit.append(match_known(prop, r))
        break
    if b.harness and not b.failures:
        for h in b.harness[:3]:
            print('HARNESS-ERROR property=%s %s: %s' % (prop, h.get('cls'), h.get('msg')), file=sys.stderr)
        return 2
    det = {'rechecked': 0, 'mismatches': 0}
    violation = None
    if b.failures:
        b.failures.sort(key=lambda x: x[0])
        i, res = b.failures[0]
        violation = confirm(args, prop, info, i, res, so, base)
        if violation is None:
            print('HARNESS-ERROR property=%s case %d did not reproduce: %s %s' % (
                prop, i, res['cls'], res['msg']), file=sys.stderr)
            return 2
    else:
        det = redo(b, prop, so, base, args, info)
        if det['mismatches']:
            print('HARNESS-ERROR property=%s nondeterministic runs: %s' % (prop, det), file=sys.stderr)
            return 2
    if not args.no_evidence:
        write_evidence(args, prop, info, b, wall, det, 1 if violation else 0, time.time() - t_start)
    a = b.agg
    print('%s %s seed=%d: %d runs in %.1fs, %d oracle checks, %d distinct states, faults %s' % (
        prop, args.tier, args.seed, a['runs'], wall, a['evals'], len(a['states']),
        dict(sorted(a['faults'].items()))))
    print('   probes %s; determinism %s' % (dict(sorted(a['probes'].items())), det))
    if violation:
        print('%s: %s' % (violation['cls'], violation['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, violation['path']))
        return 1
    if a['runs'] < runs:
        print('HARNESS-ERROR property=%s only %d of %d runs within the wall limit' % (prop, a['runs'], runs),
              file=sys.stderr)
        if a['runs'] < runs // 4:
            return 2
    return 0


def redo(b, prop, so, base, args, info):
    """Re-run a sample of the batch in fresh interpreters; logs must be identical."""
    n = 8 if args.tier == 'quick' else 120
    picks = sorted(b.hashes)[::max(1, len(b.hashes) // n)][:n]
    det = {'rechecked': 0, 'mismatches': 0}
    byhash = {}
    for i in picks:
        byhash.setdefault(b.hashes[i][1], []).append(i)
    groups = list(byhash.items())
    lock = threading.Lock()

    def go():
        while True:
            with lock:
                if not groups:
                    return
                hs, idx = groups.pop()
            w = Worker(prop, hs, base, so)
            for i in reversed(idx):
                res = w.run({'seed': b.hashes[i][2], 'tier': args.tier})
                with lock:
                    det['rechecked'] += 1
                    if res['hash'] != b.hashes[i][0]:
                        det['mismatches'] += 1
                        det.setdefault('cases', []).append(i)
            w.close()
    ths = [threading.Thread(target=go) for _ in range(args.jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return det


def confirm(args, prop, info, i, res, so, base):
    """Minimise the failing plan, write the replay file, and replay it afresh."""
    hs, cls = res['hashseed'], res['cls']
    plan = res.get('plan')
    if plan is None:          # hang / died: regenerate the plan from its seed
        w = Worker(prop, hs, base, so)
        r2 = w.run({'seed': res['seed'], 'tier': args.tier, 'plan_only': True})
        w.close()
        plan = r2.get('plan')
    small = plan
    tries = 0
    if plan is not None and not args.no_shrink:
        budget = 45 if args.tier == 'quick' else 240
        s = Shrinker(prop, copy.deepcopy(plan), cls, hs, base, so, budget)
        small = s.run(info.get('SHRINK', ['ops']), info.get('SHRINK_SCALARS', {}))
        tries = s.tries
    out_dir = os.path.join(VERIF, 'replays')
    os.makedirs(out_dir, exist_ok=True)
    for cand, exact in ((small, True), (plan, True), (plan, False)):
        w = Worker(prop, hs, base, so)
        req = {'plan': cand, 'timeout': 150} if cand is not None else \
            {'seed': res['seed'], 'tier': args.tier}
        r = w.run(req)
        w.close()
        if r['status'] in FAILED and (r['cls'] == cls or not exact):
            path = os.path.join(out_dir, '%s-%d-%d.json' % (prop, args.seed, i))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': res['seed'], 'hashseed': hs, 'cls': r['cls'],
                           'msg': r['msg'], 'hash': r['hash'], 'plan': cand, 'tail': r['tail'],
                           'tb': r.get('tb'), 'shrink_runs': tries,
                           'how': '/opt/venv/bin/python -m dst.run --replay ' + path}, f, indent=1)
            return {'path': path, 'cls': r['cls'], 'msg': r['msg']}
    return None


def write_evidence(args, prop, info, b, wall, det, nviol, total):
    a = b.agg
    ev = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': a['evals'],
            'distinct_nontrivial': len(a['nontrivial']),
            'rule': info.get('RULE', '') + ' A run is one seed = one plan (configuration, workload, schedule '
                    'and faults); non-trivial: it finished with at least one oracle comparison; distinct: '
                    'its event log differs from that of every other run.',
            'samples': b.samples[:2],
            'simulated_runs': a['runs'],
            'runs_per_hour': round(a['runs'] / max(wall, 1e-6) * 3600),
            'simulated_seconds': round(a['simtime'], 1),
            'events_logged': a['nevents'],
            'faults_injected': dict(sorted(a['faults'].items())),
            'probes': dict(sorted(a['probes'].items())),
            'distinct_states': len(a['states']),
            'state_measure': info.get('STATES', ''),
            'hash_seeds': len(a['hashseeds']),
            'determinism': det,
            'real_components': info.get('REAL', []),
            'stub_components': info.get('STUB', []),
        },
        'assumptions': info.get('ASSUMES', []),
        'wall_s': round(total, 2),
        'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
