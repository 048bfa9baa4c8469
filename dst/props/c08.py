"""C08: a run opened through cached metadata behaves as if opened without it."""
import errno
import json
import os
import random

from .. import facility, rundir
from ..core import Violation, check, rng
from ..shim import MKDIR, OPEN_R, OPEN_W, RENAME
from . import base

PROP = 'C08'
RUNS = {'quick': 700, 'thorough': 40000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Histories of a run directory: files added, replaced, renamed, swapped, deleted; the cache stale, restored, foreign, '
        'damaged, moved or unwritable; the run opened in between by different paths and patterns.')
STATES = 'last three operations x cache present x number of files x how the run was opened'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5']
STUB = ['the data acquisition (dst/facility.py)', 'file times (virtual clock), listing order, permissions (I/O seam)']
ASSUMES = ['a replaced file differs in size or in modification time (by at least 5 ms)']
warm = base.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    nver = r.choice([1, 2, 2, 3])
    fac = rundir.gen_versions(r, nver)
    H = facility.simulate(fac)
    names = sorted({f.name for f in H.files})
    ops = [{'op': 'put', 'f': n, 'v': 0} for n in names if r.random() < 0.9]
    inc = ['*', '*', '*', '*', '*-DA01-*', '*S00000*', '*S0000[12]*']
    for _ in range(r.randint(3, 14)):
        k = r.choice(['open', 'open', 'open', 'open', 'put', 'put', 'put', 'del', 'rename', 'swap', 'touch', 'cache', 'cache',
                      'perm', 'addold'])
        if k == 'open':
            ops.append({'op': k, 'inc': r.choice(inc), 'how': r.choice(['abs', 'abs', 'rel', 'link', 'slash', 'real']),
                        'deep': r.random() < 0.6, 'cold': r.random() < 0.3})
        elif k == 'put':
            ops.append({'op': k, 'f': r.choice(names), 'v': r.randrange(nver), 'keep': r.random() < 0.4})
        elif k == 'addold':
            ops.append({'op': 'backdate', 'f': r.choice(names), 'v': r.randrange(nver)})
        elif k in ('del', 'touch'):
            ops.append({'op': k, 'f': r.choice(names)})
        elif k == 'rename':
            a = r.choice(names)
            ops.append({'op': k, 'f': a, 'to': r.choice(names + [a.replace('-S', '-T')])})
        elif k == 'swap':
            ops.append({'op': k, 'f': r.choice(names), 'to': r.choice(names)})
        elif k == 'cache':
            ops.append({'op': k, 'k': r.choice(['delete', 'restore', 'restore', 'restore', 'garbage', 'truncate', 'foreign',
                                                'twice', 'reverse', 'partial', 'to_scratch', 'future']),
                        'x': r.random()})
        else:
            ops.append({'op': k, 'rw': r.random() < 0.4})
    ops.append({'op': 'open', 'inc': '*', 'how': 'abs', 'deep': True, 'cold': False})
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops, 'links': r.random() < 0.6, 'scratch': r.random() < 0.6}


def execute(plan, ctx):
    from .. import collops
    import karabo_data as kd
    D = rundir.RunDir(ctx, plan['fac'], plan['links'], plan['scratch'])
    sh = ctx.shim
    other = D.exp + '/view'
    os.makedirs(other, exist_ok=True)
    os.symlink(os.path.relpath(D.dir, other) if not plan['links'] else '../raw/' + os.path.basename(D.dir), other + '/run')
    backup = []
    denied = None
    last = []
    ctx.armed = True
    for i, op in enumerate(plan['ops']):
        k = op['op']
        if k == 'put':
            new = op['f'] in D.disk
            if D.put(op['f'], op['v'], op.get('keep')) and new:
                ctx.fault('file_replaced')
        elif k == 'backdate':
            if op['f'] in D.disk and D.put(op['f'], op['v']):
                # an older copy comes back: its time lies before everything else
                t = 1400000000 * 10**9 + i * 7000000
                os.utime(D.dir + '/' + op['f'], ns=(t, t))
                ctx.fault('file_restored_older')
        elif k == 'del':
            if op['f'] in D.disk and len(D.disk) > 1:
                D.delete(op['f'])
                ctx.fault('file_deleted')
        elif k == 'touch':
            D.touch(op['f'])
        elif k == 'rename':
            if op['f'] in D.disk and op['f'] != op['to']:
                if op['to'] in D.disk:
                    D.delete(op['to'])
                D.rename(op['f'], op['to'])
                ctx.fault('file_renamed')
        elif k == 'swap':
            if op['f'] in D.disk and op['to'] in D.disk and op['f'] != op['to']:
                D.swap(op['f'], op['to'])
                ctx.fault('files_swapped')
        elif k == 'perm':
            if denied is not None:
                ctx.fault('cache_write_denied', sh.fired(denied))
                sh.rule_off(denied)
                denied = None
            if not op['rw']:
                denied = sh.rule(OPEN_W | RENAME | MKDIR, os.path.basename(D.dir) + '/karabo_data', count=-1, err=errno.EACCES)
        elif k == 'cache':
            meddle(ctx, D, op, backup)
        elif k == 'open':
            files = D.expected(op['inc'])
            open_and_check(ctx, D, plan, op, files, other)
            backup.append(D.read_cache())
        last = (last + [k if k != 'cache' else op['k']])[-3:]
        ctx.state(last, len(D.cache_paths()), len(D.disk), op.get('how'))
        ctx.ev('op', op, len(D.disk))


def open_and_check(ctx, D, plan, op, files, other):
    from .. import collops
    import karabo_data as kd
    sh = ctx.shim
    path = {'abs': D.dir, 'rel': os.path.relpath(D.dir, '/gpfs/tmp'), 'slash': D.dir + '/', 'link': other + '/run',
            'real': os.path.realpath(D.dir)}[op['how']]
    if op['how'] == 'rel':
        path = D.dir + '/../' + os.path.basename(D.dir)
    W = collops.World(ctx, D.H, files=files)
    if op['cold']:
        for p in D.cache_paths():
            os.unlink(p)
    have = bool(D.cache_paths())
    sh.reset_counts()
    if not files:
        W.expect_error('RunDirectory without files', ['Exception'], kd.RunDirectory, path, op['inc'])
        return
    clash = rundir.conflict(D.H, files)
    if clash:
        W.expect_error('RunDirectory with %s doubly recorded for train %d' % clash, ['ValueError'], kd.RunDirectory, path,
                       op['inc'])
        return
    run = W.call('RunDirectory', kd.RunDirectory, path, op['inc'])
    if have and sh.opcounts()['open_r'] <= 2:
        ctx.probe('served_from_cache')
    got = sorted(os.path.basename(f.filename) for f in run.files)
    check(got == sorted(os.path.basename(f.path) for f in files), 'wrong-files', 'run made of %s, expected %s', got,
          [f.name for f in files])
    with run:
        rundir.check_collection(W, 'c', run, files, op['deep'])
    del run
    W.colls.clear()


def meddle(ctx, D, op, backup):
    caches = D.read_cache()
    k = op['k']
    if k == 'restore':
        # an earlier cache comes back (restored from a backup, or written late by another host)
        for p, data in backup[int(op['x'] * len(backup))] if backup else ():
            if os.path.isdir(os.path.dirname(p)):
                with open(p, 'wb') as f:
                    f.write(data)
                ctx.fault('cache_stale')
        return
    if not caches:
        return
    p, data = caches[0]
    if k == 'delete':
        for q, _ in caches:
            os.unlink(q)
        ctx.fault('cache_deleted')
        return
    if k == 'to_scratch':
        sc = D.exp + '/scratch'
        if os.path.isdir(sc) and p.startswith(D.dir):
            os.makedirs(sc + '/.karabo_data_maps', exist_ok=True)
            os.rename(p, sc + '/.karabo_data_maps/raw_%s.json' % os.path.basename(D.dir))
            ctx.fault('cache_moved')
        return
    try:
        entries = json.loads(data)
        assert isinstance(entries, list)
    except (ValueError, AssertionError):
        entries = None
    r = random.Random(op['x'])
    if k == 'garbage':
        new = r.choice([b'', b'{', b'\xff\xfe\x00', b'[}', b'null', b'{}', b'[1, 2]', b'"x"', b'[{"filename": "a.h5"}]'])
    elif k == 'truncate':
        new = data[:int(len(data) * op['x'])]
    elif entries is None:
        return
    elif k == 'foreign':
        # the cache of some other run with the same file names
        new = json.dumps([dict(e, mtime=e['mtime'] - 86400.00137 - j, train_ids=[t + 1000 for t in e['train_ids']])
                          for j, e in enumerate(entries)]).encode()
    elif k == 'future':
        new = json.dumps([dict(e, mtime=e['mtime'] + 3600.00137, size=e['size']) for e in entries]).encode()
    elif k == 'twice':
        new = json.dumps(entries + [dict(e, mtime=e['mtime'] + 1.00137, train_ids=[]) for e in entries]).encode()
    elif k == 'reverse':
        new = json.dumps(entries[::-1]).encode()
    else:
        new = json.dumps([e for e in entries if r.random() < 0.5]).encode()
    with open(p, 'wb') as f:
        f.write(new)
    ctx.fault('cache_' + k)
