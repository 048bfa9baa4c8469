"""C06: damaged or unreadable files are skipped, intact ones served in full."""
import contextlib
import errno
import io
import os
import shutil

import h5py
import numpy as np

from .. import facility, opsgen
from ..core import Violation, check, rng
from ..model import MColl, Recorded
from ..shim import A_ERRNO, OPEN_R, READ, STAT
from . import base

PROP = 'C06'
RUNS = {'quick': 800, 'thorough': 50000}
SHRINK = ['ops', 'damage', 'damage2', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('A simulated run, a random subset of files damaged in one of many ways (or failing at a chosen I/O '
        'operation while opening), opened, read, partly repaired, opened again.')
STATES = 'set of damage kinds x number of files left x phase'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5']
STUB = ['the data acquisition (dst/facility.py)', 'storage failures and listing order (I/O seam dst/shim.c)']
ASSUMES = ['a file replaced or damaged differs in size or modification time']
warm = base.warm

STATIC = ['truncate', 'empty', 'garbage', 'headonly', 'no_index', 'no_trainid', 'no_metadata', 'no_sourceid',
          'bad_category', 'dangling', 'directory', 'text', 'bad_version', 'undecodable']
DYNAMIC = ['eacces', 'eio_open', 'estale_open', 'enoent_open', 'eio_read', 'emfile_open']


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r)
    H = facility.simulate(fac)
    names = [f.name for f in H.files]
    plan = {'listseed': r.getrandbits(63), 'fac': fac, 'first': r.random() < 0.3}

    def some():
        k = r.choice([0, 1, 1, 1, 2, 3, len(names)]) if r.random() < 0.85 else len(names)
        return r.sample(names, min(k, len(names)))
    plan['damage'] = [{'file': n, 'k': r.choice(STATIC + DYNAMIC), 'x': r.random(), 'n': r.randrange(12)}
                      for n in some()]
    plan['repair'] = [d['file'] for d in plan['damage'] if r.random() < 0.6]
    plan['damage2'] = [{'file': n, 'k': r.choice(STATIC), 'x': r.random(), 'n': 0}
                       for n in some() if r.random() < 0.3]
    bad = {d['file'] for d in plan['damage']}
    good = [f for f in H.files if f.name not in bad] or H.files
    g = opsgen.OpGen(r, H, {'select': 1, 'select_trains': 1, 'train_id': 3, 'iter_open': 2, 'iter_rest': 2, 'array': 3,
                            'counts': 1, 'series': 1, 'keys': 1}, files=good, neg=0.02)
    if any(f.tids for f in good):
        plan['ops'] = g.history(r.randint(3, 12))
    else:
        plan['ops'] = []
    return plan


def damage(ctx, path, d, i):
    k = d['k']
    size = os.path.getsize(path)
    if k == 'truncate':
        with open(path, 'r+b') as f:
            f.truncate(int(size * d['x']) if d['x'] < .97 else size - 1)
    elif k == 'headonly':
        with open(path, 'r+b') as f:
            f.truncate(96)
    elif k == 'empty':
        open(path, 'wb').close()
    elif k in ('garbage', 'text'):
        with open(path, 'wb') as f:
            f.write(b'not an HDF5 file\n' * 20 if k == 'text' else bytes((i * 37 + 11) % 256 for i in range(size)))
    elif k == 'dangling':
        os.unlink(path)
        os.symlink('/gpfs/nowhere/gone.h5', path)
    elif k == 'directory':
        os.unlink(path)
        os.mkdir(path)
    else:
        with h5py.File(path, 'r+') as f:
            md = 'METADATA/dataSources' if 'dataSources' in f['METADATA'] else 'METADATA'
            if k == 'no_index':
                del f['INDEX']
            elif k == 'no_trainid':
                del f['INDEX/trainId']
            elif k == 'no_metadata':
                del f['METADATA']
            elif k == 'no_sourceid':
                del f[md + '/dataSourceId']
            elif k == 'bad_category':
                ds = f[md + '/dataSourceId']
                ds.resize((len(ds) + 1,))
                ds[-1] = b'MYSTERY/DEVICE/1'
            elif k == 'undecodable':
                ds = f[md + '/dataSourceId']
                ds.resize((len(ds) + 1,))
                ds[-1] = b'CONTROL/\xff\xfe\xfd'
            elif k == 'bad_version':
                if 'dataFormatVersion' in f['METADATA']:
                    del f['METADATA/dataFormatVersion']
                else:
                    f['METADATA/dataFormatVersion'] = np.array([b'1.0'])
    if k != 'dangling':
        facility.stamp(path, 1000 + i)
    ctx.fault('file_' + k)


def copy(a, b):
    shutil.copyfile(a, b)
    st = os.stat(a)
    os.utime(b, ns=(st.st_mtime_ns, st.st_mtime_ns))


def arm(ctx, d):
    sh = ctx.shim
    pat = '/' + d['file']
    k = d['k']
    if k == 'eio_read':
        return sh.rule(READ, pat, skip=d['n'], count=-1, err=errno.EIO)
    return sh.rule(OPEN_R, pat, count=-1, err={'eacces': errno.EACCES, 'eio_open': errno.EIO, 'estale_open': errno.ESTALE,
                                               'enoent_open': errno.ENOENT, 'emfile_open': errno.EMFILE}[k])


def try_open(ctx, H, usable, maybe, bad, phase):
    """usable must be served, bad must be skipped, maybe either.  Returns (run, files served)."""
    import karabo_data as kd
    err = io.StringIO()
    W = None
    try:
        with contextlib.redirect_stderr(err), ctx.shim.live():
            run = kd.RunDirectory(H.dir)
    except Exception as e:
        check(not usable, 'run-refused', '%s: opening failed with %s: %s although %d files are intact', phase,
              type(e).__name__, e, len(usable))
        ctx.probe('all_unusable')
        ctx.evals += 1
        return None, []
    got = {os.path.basename(f.filename): f for f in run.files}
    ctx.evals += 1
    byname = {f.name: f for f in H.files}
    for n in got:
        check(n in byname and byname[n] not in bad, 'bad-file-served', '%s: unusable file %s is part of the run', phase, n)
    for f in usable:
        check(f.name in got, 'good-file-skipped', '%s: intact file %s was skipped', phase, f.name)
    text = err.getvalue()
    for f in bad:
        check(f.name in text, 'skip-not-reported', '%s: %s skipped without a message', phase, f.name)
    return run, usable + [f for f in maybe if f.name in got]


def execute(plan, ctx):
    from .. import collops
    import karabo_data as kd
    H = base.build(plan, ctx)
    if H is None:
        return
    byname = {f.name: f for f in H.files}
    dmg = [d for d in plan['damage'] if d['file'] in byname]
    keep = H.dir + '/../saved'
    os.makedirs(keep)
    for f in H.files:
        copy(f.path, keep + '/' + f.name)
    ctx.armed = True
    dyn = [d for d in dmg if d['k'] in DYNAMIC]
    if plan['first'] and not dyn:     # a cache from before the damage
        with ctx.shim.live():
            with kd.RunDirectory(H.dir):
                pass
        ctx.probe('cache_before_damage')
    bad, maybe, rules = [], [], []
    for i, d in enumerate(dmg):
        if d['k'] in DYNAMIC:
            rules.append((arm(ctx, d), d))
            (maybe if d['k'] == 'eio_read' else bad).append(byname[d['file']])
        else:
            damage(ctx, byname[d['file']].path, d, i)
            bad.append(byname[d['file']])
    usable = [f for f in H.files if f not in bad and f not in maybe]
    # H5File on an unusable file must raise, not return an empty collection
    for f in bad:
        try:
            with ctx.shim.live():
                kd.H5File(f.path)
        except Exception:
            ctx.evals += 1
        else:
            raise Violation('bad-file-served', 'H5File opened the unusable file %s' % f.name)
    run, files = try_open(ctx, H, usable, maybe, bad, 'first open')
    for rid, d in rules:
        ctx.fault('storage_' + d['k'], ctx.shim.fired(rid))
        ctx.shim.rule_off(rid)
    ctx.state(sorted({d['k'] for d in dmg}), len(files), 1)
    if run is not None:
        verify(plan, ctx, H, files, run)
        with run:
            pass
    # repair some files, damage others, and open again (the cache is in place now)
    bad = [f for f in bad if f.name not in plan['repair'] and not any(d['file'] == f.name for d in dyn)]
    for n in plan['repair']:
        if n in byname and not any(d['file'] == n for d in dyn):
            p = byname[n].path
            if os.path.isdir(p) and not os.path.islink(p):
                os.rmdir(p)
            elif os.path.lexists(p):
                os.unlink(p)
            copy(keep + '/' + n, p)
            ctx.probe('repaired')
    for i, d in enumerate(plan['damage2']):
        if d['file'] in byname and byname[d['file']] not in bad:
            damage(ctx, byname[d['file']].path, d, 100 + i)
            bad.append(byname[d['file']])
    usable = [f for f in H.files if f not in bad]
    run, files = try_open(ctx, H, usable, [], bad, 'second open')
    ctx.state(sorted({d['k'] for d in dmg + plan['damage2']}), len(files), 2)
    if run is not None:
        verify(plan, ctx, H, files, run)


def verify(plan, ctx, H, files, run):
    from .. import collops
    W = collops.World(ctx, H, files=files)
    m = MColl(W.rec)
    W.add('c0', run, m, 'RunDirectory')
    if not m.tids:
        return
    W.step({'op': 'recheck', 'c': 'c0'})
    for s in sorted(m.sel):
        k = sorted(m.sel[s])[0]
        W.step({'op': 'array', 'c': 'c0', 's': s, 'k': k})
    if {f.name for f in files} == {f.name for f in H.files}:
        pass
    for op in plan['ops'][1:]:
        W.step(op)
