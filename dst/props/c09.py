"""C09: concurrent opens and crashes leave a correct cache or none."""
import errno
import json
import os

from .. import facility, rundir
from ..core import EPOCH0, HarnessError, Violation, check, rng
from ..procs import Proc
from ..shim import MKDIR, OPEN_W, RENAME
from . import base

PROP = 'C09'
RUNS = {'quick': 800, 'thorough': 60000}
SHRINK = ['steps', 'trig', 'actors', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Several processes open a run, interleaved at every file system operation, while files are replaced, added or the '
        'cache is removed, with crashes, torn writes and I/O errors at chosen operations.')
STATES = 'sequence of (actor, operation) switches, hashed'
REAL = ['karabo_data (unmodified, imported from /repo)', 'one real process per opener', 'h5py and libhdf5']
STUB = ['the data acquisition (dst/facility.py)', 'scheduling of processes and failures at file system operations (dst/procs.py, dst/shim.c)']
ASSUMES = ['a replaced file differs in size or in modification time (by at least 5 ms)',
           'data of a file replaced while a process is opening the run is not specified for that process']
warm = base.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    nver = r.choice([1, 2, 3])
    fac = rundir.gen_versions(r, nver)
    names = sorted({f.name for f in facility.simulate(fac).files})
    actors = []
    for i in range(r.choice([2, 2, 3, 4])):
        actors.append({'k': 'open', 'inc': r.choice(['*', '*', '*', '*-DA01-*', '*S00000*']), 'n': r.choice([1, 1, 2]),
                       'off': 1000 * (i + 1)})
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        actors.append({'k': 'put', 'f': r.choice(names), 'v': r.randrange(nver)})
    if r.random() < .2:
        actors.append({'k': 'rmcache'})
    steps = []
    na = len(actors)
    length = r.choice([0, 20, 60, 120, 200])
    while len(steps) < length:
        a = r.randrange(na)
        for _ in range(min(r.choice([1, 1, 2, 4, 10, 30]), length - len(steps))):
            steps.append([a, 'g', 0])
    if steps:
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            i = r.randrange(len(steps))
            k = r.choice(['c', 'c', 't', 'e', 'e'])
            steps[i] = [steps[i][0], k, r.randrange(1, 120) if k == 't' else r.choice(
                [errno.EIO, errno.EACCES, errno.ENOSPC, errno.EDQUOT, errno.ESTALE]) if k == 'e' else 0]
    # things that happen exactly when a process is about to do a certain operation
    trig = []
    openers = [i for i, a in enumerate(actors) if a['k'] == 'open']
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        do = r.choice(['c', 't', 'e', 'run', 'run', 'run'])
        others = [i for i in range(na)]
        on = r.choice(['open_w', 'write', 'rename', 'close'] * 4 + ['stat', 'open_r', 'read', 'listdir', 'mkdir', 'unlink'])
        trig.append({'a': r.choice(openers), 'on': 'write' if do == 't' else on, 'nth': r.choice([0, 0, 0, 0, 1, 2]),
                     'do': do, 'x': r.randrange(1, 120) if do == 't' else r.choice(
                         [errno.EIO, errno.EACCES, errno.ENOSPC, errno.EDQUOT, errno.ESTALE]) if do == 'e' else r.choice(others),
                     'cache': r.random() < .7 and on not in ('listdir', 'mkdir', 'stat') or on == 'write', 'n': r.choice([1, 5, 40, 400])})
    puts = [i for i, a in enumerate(actors) if a['k'] == 'put']
    for i in puts:
        if r.random() < .5:      # a file is replaced while some process opens or looks at files
            trig.append({'a': r.choice(openers), 'on': r.choice(['stat', 'stat', 'stat', 'open_r']), 'nth': r.randrange(12),
                         'do': 'run', 'x': i, 'cache': False, 'n': 1})
        elif r.random() < .6:    # a file is replaced after some process has opened it
            trig.append({'a': r.choice(openers), 'after': actors[i]['f'], 'nth': r.choice([0, 0, 0, 1]), 'do': 'run', 'x': i,
                         'n': 1})
    first = [n for n in names if r.random() < .9] or names[:1]
    return {'listseed': r.getrandbits(63), 'fac': fac, 'first': first, 'actors': actors, 'steps': steps, 'trig': trig,
            'warmcache': r.choice(['none', 'none', 'full', 'partial']), 'links': r.random() < .6, 'scratch': r.random() < .6,
            'denied': r.random() < .15}


def opener(plan, D, a, kd, files):
    def fn(stop_yielding):
        import tempfile
        from .. import collops
        from ..core import Ctx
        tempfile._name_sequence.n = a['off']
        c = Ctx(PROP, D.ctx.shim)
        for i in range(a['n']):
            W = collops.World(c, D.H, files=files)
            with D.ctx.shim.live():
                run = kd.RunDirectory(D.dir, a['inc'])
            if i == a['n'] - 1:
                stop_yielding()
            D.ctx.shim.quiet()
        with run:
            rundir.check_collection(W, 'c', run, files, True)
        return c.evals
    return fn


def execute(plan, ctx):
    from .. import collops
    import karabo_data as kd
    D = rundir.RunDir(ctx, plan['fac'], plan['links'], plan['scratch'])
    sh = ctx.shim
    stamps = {}                  # (name, mtime, size) -> FileRec

    def put(name, ver):
        if D.put(name, ver):
            st = os.stat(D.dir + '/' + name)
            stamps[(name, st.st_mtime, st.st_size)] = D.disk[name]
            return True
    for n in plan['first']:
        put(n, 0)
    if not D.disk:
        return
    ctx.armed = True
    if plan['denied']:
        sh.rule(OPEN_W | RENAME | MKDIR, os.path.basename(D.dir) + '/karabo_data', count=-1, err=errno.EACCES)
    if plan['warmcache'] != 'none' and not rundir.conflict(D.H, D.expected()):
        inc = '*' if plan['warmcache'] == 'full' else '*S00000*'
        if D.expected(inc):
            with sh.live():
                kd.RunDirectory(D.dir, inc)
    # later versions are written beforehand: replacing a file is one rename
    ready = {}
    for i, a in enumerate(plan['actors']):
        if a['k'] == 'put' and a['v'] in D.versions.get(a['f'], {}):
            tmp = '/gpfs/tmp/next-%d.h5' % i
            facility.write_file(D.H, D.versions[a['f']][a['v']], D.aggs[D.versions[a['f']][a['v']].agg], path=tmp)
            D.stamp(tmp)
            ready[i] = tmp
    procs = {}
    begun = {}
    changes = []                 # step numbers at which the directory changed
    ended = {}
    nstep = 0
    sig = []

    def start(i):
        a = plan['actors'][i]
        files = D.expected(a['inc'])
        begun[i] = (nstep, rundir.conflict(D.H, files), bool(files))
        procs[i] = Proc(sh, 'opener-%d' % i, opener(plan, D, a, kd, files))
        ctx.ev('start', i, procs[i].at)

    def finished(i):
        p = procs[i]
        ended[i] = nstep
        ctx.ev('end', i, p.code, p.result)
        if p.code == 137:
            ctx.fault('crash')
            return
        overlap = any(begun[i][0] <= c <= nstep for c in changes)
        res = p.result or {'error': 'the process died with status %s' % p.code}
        if overlap:
            ctx.probe('overlapped_change')
            return
        if i in hit:             # an injected error may have hit a data file
            if any(x.endswith('.h5') or not x.count('karabo_data_map') for x in hit[i]):
                return
        if begun[i][1] or not begun[i][2]:
            check('error' in res, 'conflict-accepted', 'opening a directory without files or with doubly recorded data worked')
            return
        if 'violation' in res:
            raise Violation(res['violation'][0], 'opener %d: %s' % (i, res['violation'][1]))
        if 'error' in res:
            raise Violation('open-failed', 'opener %d: %s\n%s' % (i, res['error'], res.get('tb')))
        ctx.evals += res['ok']
        ctx.probe('opener_checked')
    hit = {}

    def check_cache():
        for path, data in D.read_cache():
            if not rundir.is_complete_cache(data):
                raise Violation('partial-cache', '%s holds %d bytes of an incomplete cache: ...%r' % (path, len(data), data[-60:]))
            ctx.evals += 1
            for e in json.loads(data):
                if not isinstance(e, dict) or not {'filename', 'mtime', 'size', 'train_ids'} <= set(e):
                    continue
                f = stamps.get((e['filename'], e['mtime'], e['size']))
                if f is None:
                    continue
                check(e['train_ids'] == f.tids, 'wrong-cache', '%s: entry for %s has trains %s, this version has %s', path,
                      e['filename'], e['train_ids'], f.tids)
        return
    seen_cache = None
    queue = [list(s) for s in plan['steps']]
    trig = [dict(t) for t in plan['trig']]
    prev = {}
    rr = 0
    while True:
        live = [i for i, a in enumerate(plan['actors']) if (a['k'] == 'open' and i not in ended) or
                (a['k'] != 'open' and i not in ended)]
        if not live:
            break
        nstep += 1
        if nstep > 20000:
            raise Violation('no-progress', 'openers do not end')
        if queue:
            i, cmd, arg = queue.pop(0)
            if i not in live:
                continue
        else:
            i, cmd, arg = live[rr % len(live)], 'g', 0
            if i in procs and procs[i].alive:
                pass
        a = plan['actors'][i]
        if a['k'] == 'put':
            ended[i] = nstep
            if i in ready:
                name = a['f']
                new = name in D.disk
                os.rename(ready[i], D.dir + '/' + name)
                D.disk[name] = D.versions[name][a['v']]
                st = os.stat(D.dir + '/' + name)
                stamps[(name, st.st_mtime, st.st_size)] = D.disk[name]
                changes.append(nstep)
                ctx.fault('file_replaced' if new else 'file_added')
                ctx.ev('put', a)
            sig.append((i, 'put'))
            continue
        if a['k'] == 'rmcache':
            ended[i] = nstep
            for p in D.cache_paths():
                os.unlink(p)
            ctx.fault('cache_removed')
            continue
        if i not in procs:
            start(i)
        else:
            p = procs[i]
            at = p.at
            for t in trig:
                if t.get('done') or t['a'] != i:
                    continue
                if 'after' in t:
                    match = prev.get(i, ['', ''])[0] == 'open_r' and prev[i][1].endswith('/' + t['after'])
                else:
                    match = t['on'] == at[0] and ('karabo_data_map' in at[1]) == t['cache']
                if match:
                    if t['nth'] > 0:
                        t['nth'] -= 1
                        continue
                    t['done'] = True
                    if t['do'] == 'run':      # others get to run first
                        if t['x'] in live and t['x'] != i:
                            queue[:0] = [[t['x'], 'g', 0]] * t['n'] + [[i, cmd, arg]]
                            cmd = None
                    else:
                        cmd, arg = t['do'], t['x']
                    break
            if cmd is None:
                continue
            if cmd == 'e':
                ctx.fault('errno_%d' % arg)
                hit.setdefault(i, []).append(at[1])
            elif cmd == 't' and at[0] == 'write':
                ctx.fault('torn_write')
            elif cmd == 'c':
                ctx.probe('crash_before_' + at[0])
            if cmd == 't' and at[0] != 'write':
                cmd = 'g'
            prev[i] = at
            p.step(cmd, arg)
            if not sig or sig[-1][0] != i:
                sig.append((i, at[0]))
            ctx.ev(i, cmd, at)
            if at[0] in ('write', 'rename', 'open_w', 'close', 'unlink', 'ftruncate', 'mkdir', 'meta') or cmd != 'g':
                check_cache()
        if not procs[i].alive:
            finished(i)
    ctx.state(sig)
    check_cache()
    sh.clear()
    # whatever was left behind: later opens are correct
    files = D.expected()
    for again in range(2):
        W = collops.World(ctx, D.H, files=files)
        clash = rundir.conflict(D.H, files)
        if clash:
            W.expect_error('later open', ['ValueError'], kd.RunDirectory, D.dir)
            break
        run = W.call('later open', kd.RunDirectory, D.dir)
        with run:
            rundir.check_collection(W, 'c', run, files, True)
        W.colls.clear()
