"""C16: validation reports every defect in a recorded run, names its place, and is silent about clean ones."""
import contextlib
import errno
import gc
import io
import json
import os
import shutil

import h5py
import numpy as np

from .. import facility
from ..core import check, rng
from ..shim import OPEN_R, READ, STAT
from . import base, c06

PROP = 'C16'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['steps', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('A simulated run is validated again and again - as a run, file by file, and by the command - while defects '
        'appear: indexes are corrupted at a random place, train lists disordered, files damaged or copied, cache '
        'entries falsified, storage fails while reading; and are repaired again.')
STATES = 'set of defect kinds present x how it was validated x number of problems'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5']
STUB = ['the data acquisition (dst/facility.py)', 'storage failures and listing order (I/O seam dst/shim.c)']
ASSUMES = ['entries of an index beyond the number of trains are padding',
           'a cache entry for another size or modification time is outdated, not wrong']
warm = base.warm

INDEX = ['end', 'cut', 'gap', 'overlap', 'start', 'short', 'uneven', 'twodim', 'nocount', 'noindex', 'scalar', 'huge', 'idle', 'idle']
TIDS = ['zero', 'swap', 'repeat', 'backward']
CACHE = ['c_train', 'c_drop', 'c_swapcat', 'c_extra', 'c_fewer']
CLEANCACHE = ['stale', 'garbage', 'partial', 'real', 'none', 'empty']
FILE = c06.STATIC
IO = ['eio_read', 'eacces', 'eio_open', 'estale_open']


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r, strings=True)
    H = facility.simulate(fac)
    names = [f.name for f in H.files]
    steps = []
    for _ in range(r.randint(1, 4)):
        d = []
        for _ in range(r.choice([0, 0, 1, 1, 1, 1, 2, 3])):
            kind = r.choice([INDEX, INDEX, INDEX, TIDS, CACHE, FILE, IO, ['copy']])
            d.append({'file': r.choice(names), 'k': r.choice(kind), 'pick': r.random(), 'at': r.random(),
                      'x': r.random(), 'n': r.randrange(60)})
        steps.append({'defects': d, 'cache': r.choice(CLEANCACHE + ['real']), 'how': r.choice(['run', 'run', 'run', 'main', 'files', 'mainfile']),
                      'repair': r.random() < .5, 'twice': r.random() < .3, 'where': r.choice(names)})
    return {'listseed': r.getrandbits(63), 'fac': fac, 'steps': steps}


def corrupt_index(ctx, H, f, d):
    """Corrupt the index of one source and group; returns the places where that may be reported."""
    agg = H.plan_aggs[f.agg]
    groups = sorted((s, g) for s in agg['sources'] for g in H.sources[s].groups)
    if not groups:
        return None
    s, g = groups[int(d['pick'] * len(groups))]
    src = H.sources[s]
    keys = sorted(k for k in src.keys if src.group(k) == g)
    cat = 'CONTROL' if src.control else 'INSTRUMENT'
    ip = 'INDEX/%s/%s' % (s, g) if g else 'INDEX/' + s
    dps = ['%s/%s/%s' % (cat, s, k.replace('.', '/')) for k in keys]
    n = len(f.tids)
    k = d['k']
    old = agg.get('idx') == 'old'
    with h5py.File(f.path, 'r+') as h:
        first = h[ip + '/first'][:].astype('i8')
        if old:
            last, status = h[ip + '/last'][:].astype('i8'), h[ip + '/status'][:]
            count = (last - first + 1) * status
        else:
            count = h[ip + '/count'][:].astype('i8')
        N = len(first)
        dim = min(h[p].shape[0] for p in dps)

        def put(first, count):
            """Write the index again, now in the current layout."""
            if not old or first.shape != count.shape:
                for nm in ('first', 'count', 'last', 'status'):
                    if nm in h[ip]:
                        del h[ip][nm]
                h[ip + '/first'] = first.astype('u8')
                h[ip + '/count'] = count.astype('u8')
            else:
                st = (count > 0).astype('i4')
                la = np.where(count > 0, first + count - 1, first)
                for nm in ('first', 'last', 'status'):
                    del h[ip][nm]
                h[ip + '/first'], h[ip + '/last'], h[ip + '/status'] = first.astype('u8'), la.astype('u8'), st
        at = int(d['at'] * n)
        if k == 'noindex':
            del h[ip]
            return {'src': s}
        if k == 'nocount':
            del h[ip]['status' if old else 'count']
            return {'src': s}
        if k == 'scalar':
            p = dps[int(d['x'] * len(dps))]
            del h[p]
            h[p] = np.float32(1)
            return {'src': s}
        if n == 0:
            return None
        if k == 'end':       # one train refers to data after the end
            count[at] += dim - (first[at] + count[at]) + 1 + int(d['x'] * 3)
            put(first, count)
        elif k == 'huge':
            first[at] = (1 << 40) + 7
            count[at] = max(1, count[at])
            put(first, count)
        elif k == 'cut':     # the data ends too early
            end = int((first + count)[:n].max())
            p = dps[int(d['x'] * len(dps))]
            if not end:
                return None
            a = h[p][:end - 1]
            ty = facility.VLEN if a.dtype.kind == 'O' else a.dtype
            del h[p]
            h.create_dataset(p, a.shape, dtype=ty)
            if a.size:
                h[p][:] = a
            return {'ds': [p]}
        elif k == 'gap':
            if at == 0:
                return None
            first[at:n] += 1 + int(d['x'] * 3)
            put(first, count)
        elif k == 'overlap':
            if at == 0 or first[at] == 0:
                return None
            by = 1 + int(d['x'] * first[at] * .99)
            first[at:n] -= by
            put(first, count)
        elif k == 'idle':      # a train without data, but with a place
            idle = np.nonzero(count[:n] == 0)[0]
            if not idle.size:
                return None
            at = int(idle[int(d['at'] * idle.size)])
            first[at] += 1 + int(d['x'] * 3) if first[at] == 0 or d['x'] < .7 else -1
            put(first, count)
        elif k == 'start':
            first[:n] += 1 + int(d['x'] * 3)
            put(first, count)
        elif k in ('short', 'uneven'):
            m = int(d['x'] * n)
            # `last` and `status` of the old layout of length 1 would apply to every train
            if k == 'short':
                put(first[:m], count[:m])
            elif d['at'] < .5:
                put(first, count[:m])
            else:
                put(first[:m], count)
        elif k == 'twodim':
            for nm in ('first', 'count', 'last', 'status'):
                if nm in h[ip]:
                    a = h[ip][nm][:]
                    del h[ip][nm]
                    h[ip][nm] = a[:, None]
    return {'ds': [ip] + dps, 'src': s}


def corrupt_tids(ctx, H, f, d):
    n, k = len(f.tids), d['k']
    if n < 2:
        return None
    at = int(d['at'] * (n - 1))
    with h5py.File(f.path, 'r+') as h:
        t = h['INDEX/trainId'][:]
        if k == 'zero':
            t[at] = 0
        elif k == 'swap':
            t[at], t[at + 1] = t[at + 1], t[at]
        elif k == 'repeat':
            t[at + 1] = t[at]
        else:
            t[at + 1] = 5
        h['INDEX/trainId'][:] = t
    return {'ds': ['INDEX/trainId'], 'conflict': k in ('repeat', 'swap', 'backward')}


def entries(H, files):
    out = []
    for f in files:
        st = os.stat(f.path)
        agg = H.plan_aggs[f.agg]
        out.append({'filename': f.name, 'mtime': st.st_mtime, 'size': st.st_size, 'train_ids': list(f.tids),
                    'control_sources': sorted(s for s in agg['sources'] if H.sources[s].control),
                    'instrument_sources': sorted(s for s in agg['sources'] if not H.sources[s].control)})
    return out


def falsify(e, k, x):
    if k == 'c_train':
        if not e['train_ids']:
            return False
        e['train_ids'][int(x * len(e['train_ids']))] += 1000000
    elif k == 'c_fewer':
        if not e['train_ids']:
            return False
        del e['train_ids'][int(x * len(e['train_ids']))]
    elif k == 'c_extra':
        e['control_sources'].append('GHOST/DEVICE')
    else:
        which = [c for c in ('control_sources', 'instrument_sources') if e[c]]
        c = which[int(x * len(which))]
        s = e[c].pop(int(x * 7919) % len(e[c]))
        if k == 'c_swapcat':
            o = 'instrument_sources' if c[0] == 'c' else 'control_sources'
            e[o].append(s)
    return True


def execute(plan, ctx):
    H = base.build(plan, ctx)
    if H is None:
        return
    keep = '/gpfs/keep'
    os.makedirs(keep)
    for f in H.files:
        c06.copy(f.path, keep + '/' + f.name)
    ctx.armed = True
    bad = {}          # file name -> list of {'k', places}
    tick = 0
    for i, st in enumerate(plan['steps']):
        rules = []
        for d in st['defects']:
            f = next((x for x in H.files if x.name == d['file']), None)
            if f is None or d['k'] in CACHE + IO:
                continue
            tick += 1
            if bad.get(f.name) or f.name + ':copy' in bad:
                continue          # one defect per file
            if d['k'] in INDEX:
                where = corrupt_index(ctx, H, f, d)
            elif d['k'] in TIDS:
                where = corrupt_tids(ctx, H, f, d)
            elif d['k'] == 'copy':
                if not f.tids or any(b['where'].get('open') for b in bad.get(f.name, ())):
                    continue
                shutil.copyfile(f.path, f.path[:-3] + '-copy.h5')
                facility.stamp(f.path[:-3] + '-copy.h5', 5000 + tick)
                bad[f.name + ':copy'] = [{'k': 'copy', 'where': {}}]
                ctx.fault('file_duplicated')
                continue
            else:
                c06.damage(ctx, f.path, d, tick)
                where = {'open': 1}
            if where is None:
                c06.copy(keep + '/' + f.name, f.path)
                continue
            if d['k'] in INDEX + TIDS:
                ctx.fault('defect_' + d['k'])
                facility.stamp(f.path, 3000 + tick)
            bad[f.name] = [{'k': d['k'], 'where': where}]
        sound = [f for f in H.files if f.name not in bad]
        lies = write_cache(ctx, H, st, sound)
        for d in st['defects']:
            if d['k'] in IO and d['file'] not in bad and st['how'] != 'mainfile':
                if d['file'] + ':copy' in bad or (d['file'] in lies and d['k'] == 'eio_read'):
                    continue
                rid = (ctx.shim.rule(READ, '/' + d['file'], skip=d['n'], count=-1, err=errno.EIO) if d['k'] == 'eio_read'
                       else ctx.shim.rule(OPEN_R, '/' + d['file'], count=-1,
                                          err={'eacces': errno.EACCES, 'eio_open': errno.EIO, 'estale_open': errno.ESTALE}[d['k']]))
                rules.append((rid, d))
        before = listing(H.dir)
        probs = [{k: str(v) for k, v in p.items()} for p in validate(ctx, H, st, bad)]
        gc.collect()      # errors keep files open until then, and the next step writes to them
        io = {}
        for rid, d in rules:
            ctx.fault('storage_' + d['k'], ctx.shim.fired(rid))
            if ctx.shim.fired(rid):
                io[d['file']] = d['k']
            ctx.shim.rule_off(rid)
        kinds = sorted({b['k'] for v in bad.values() for b in v} | set(io.values()) | set(lies.values()))
        judge(ctx, H, st, i, probs, bad, lies, io)
        check(listing(H.dir) == before, 'run-modified', 'validating changed the run directory')
        ctx.state(kinds, st['how'], min(len(probs), 5))
        ctx.ev('step', i, st['how'], len(probs), kinds)
        if st['repair']:
            for f in H.files:
                if f.name in bad:
                    if os.path.isdir(f.path) and not os.path.islink(f.path):
                        os.rmdir(f.path)
                    elif os.path.lexists(f.path):
                        os.unlink(f.path)
                    c06.copy(keep + '/' + f.name, f.path)
                if f.name + ':copy' in bad:
                    os.unlink(f.path[:-3] + '-copy.h5')
            if bad:
                ctx.probe('repaired')
            bad = {}


def listing(d):
    return sorted((n, os.lstat(d + '/' + n).st_size, os.lstat(d + '/' + n).st_mtime_ns) for n in os.listdir(d))


def write_cache(ctx, H, st, sound):
    """Put a cache in place; returns {file name: kind} of entries which are wrong."""
    path = H.dir + '/karabo_data_map.json'
    if os.path.lexists(path):
        os.unlink(path)
    lies = {}
    want = [d for d in st['defects'] if d['k'] in CACHE and d['file'] in [f.name for f in sound]]
    es = entries(H, sound)
    if want:
        for d in want:
            if d['file'] in lies:
                continue
            e = next(e for e in es if e['filename'] == d['file'])
            if falsify(e, d['k'], d['x']):
                lies[d['file']] = d['k']
                ctx.fault('cache_' + d['k'])
    elif st['cache'] == 'none':
        return lies
    elif st['cache'] == 'stale':
        for j, e in enumerate(es):
            e['train_ids'] = [1, 2, 3]
            if j % 2:
                e['size'] += 1
            else:
                e['mtime'] += 1
        ctx.fault('cache_outdated')
    elif st['cache'] == 'garbage':
        open(path, 'wb').write(b'{"not": \xff\xfe')
        ctx.fault('cache_damaged')
        return lies
    elif st['cache'] == 'partial':
        es = es[::2]
    elif st['cache'] == 'empty':
        es = []
    with open(path, 'w') as f:
        json.dump(es, f)
    return lies


def validate(ctx, H, st, bad):
    """Run one form of validation; returns the problems as (message, file path or None, other fields)."""
    from karabo_data import validation
    from karabo_data.reader import FileAccess
    if st['how'] in ('main', 'mainfile'):
        if st['how'] == 'mainfile' and st['twice'] and st['defects']:
            st['where'] = st['defects'][-1]['file']
        path = H.dir if st['how'] == 'main' else H.dir + '/' + st['where']
        if not os.path.lexists(path):
            path = H.files[0].path
        out = io.StringIO()
        with contextlib.redirect_stdout(out), ctx.shim.live():
            code = validation.main([path])
        text = out.getvalue()
        check(code in (None, 0, 1), 'exit-code', 'karabo-data-validate returned %r', code)
        check((code == 1) != ('No problems found' in text), 'exit-code',
              'karabo-data-validate returned %r but said %r', code, text[-300:])
        probs = []
        for block in text.split('\n\n')[1:] if code else ():
            lines = block.split('\n')
            p = {'msg': lines[0]}
            for l in lines[1:]:
                a, s, b = l.strip().partition(': ')
                if s:
                    p[a] = b
            probs.append(p)
        check(bool(code) == bool(probs), 'exit-code', 'returned %r but reported %d problems:\n%s', code, len(probs), text[-500:])
        if st['how'] == 'mainfile':
            for p in probs:
                p.setdefault('file', path)
        return probs
    if st['how'] == 'files':
        out = []
        for f in H.files:
            if any(b['where'].get('open') for b in bad.get(f.name, ())):
                continue
            try:
                with ctx.shim.live():
                    fa = FileAccess(f.path)
            except Exception as e:
                out.append({'msg': 'Could not open file', 'file': f.path, 'error': e})
                continue
            with ctx.shim.live():
                fv = validation.FileValidator(fa)
                out += run_twice(ctx, fv, st)
        return out
    with ctx.shim.live():
        rv = validation.RunValidator(H.dir)
        return run_twice(ctx, rv, st)


def run_twice(ctx, v, st):
    from karabo_data import validation
    try:
        v.validate()
    except validation.ValidationError as e:
        probs = list(e.problems)
        check(probs, 'empty-error', 'ValidationError without problems')
        str(e)
    else:
        probs = []
    if st['twice'] and not any(d['k'] in IO for d in st['defects']):
        again = v.run_checks()
        check([p['msg'] for p in again] == [p['msg'] for p in probs], 'not-repeatable',
              'checking again gave %d problems, not %d', len(again), len(probs))
        ctx.probe('checked_twice')
    return probs


def judge(ctx, H, st, i, probs, bad, lies, io):
    """Every defect has a problem naming its file (and place); every problem names a defect."""
    how = 'step %d (%s)' % (i, st['how'])
    whole = st['how'] in ('run', 'main')
    byfile = {}
    rest = []
    for p in probs:
        path = p.get('data_file') or p.get('file')
        if path:
            byfile.setdefault(os.path.basename(path), []).append(p)
        else:
            rest.append(p)
    for n, ps in byfile.items():
        base_n = n.replace('-copy.h5', '.h5')
        known = bad.get(base_n, [])
        check(known or n in lies or n in io, 'false-alarm', '%s: %s reported for the sound file %s', how, ps, n)
        for p in ps:
            if n in io:
                continue
            if 'data_file' in p:
                check(n in lies, 'false-alarm', '%s: cache entry of %s reported but is right or outdated: %s', how, n, p)
                continue
            check(known, 'false-alarm', '%s: %s reported for the sound file %s', how, p, n)
            w = known[0]['where']
            if 'open' in w:
                continue
            place = p.get('dataset') or p.get('source')
            check(place in w.get('ds', []) or place == w.get('src'), 'false-alarm',
                  '%s: problem %s of %s but its only defect is %s at %s', how, p, n, known[0]['k'], w)
    for n, known in bad.items():
        if n.endswith(':copy'):
            if whole:
                if any(b['where'].get('open') for b in bad.get(n[:-5], ())):
                    continue
                # a conflict is not seen for files which can't be read at all
                check(rest or n[:-5] in io, 'defect-missed', '%s: file %s is there twice, not reported', how, n[:-5])
                ctx.evals += 1
            continue
        if st['how'] == 'mainfile' and n != st['where']:
            continue
        if st['how'] == 'files' and known[0]['where'].get('open'):
            continue
        check(n in byfile, 'defect-missed', '%s: %s with defect %s is not reported (%s)', how, n, known, probs)
        ctx.probe('defect_reported')
        ctx.evals += 1
    if whole:
        for n, k in lies.items():
            if n in io:
                continue
            check(any('data_file' in p for p in byfile.get(n, [])), 'defect-missed',
                  '%s: wrong cache entry (%s) of %s is not reported', how, k, n)
            ctx.evals += 1
    for n, k in io.items():
        if whole or st['how'] == 'files':
            check(n in byfile, 'defect-missed', '%s: %s could not be read (%s) and is not reported', how, n, k)
            ctx.evals += 1
    for p in rest:
        ok = any(x.endswith(':copy') for x in bad) or any(b['where'].get('conflict') for v in bad.values() for b in v)
        if 'No usable files' in p['msg']:
            ok = all(f.name in io or any(b['where'].get('open') for b in bad.get(f.name, ())) for f in H.files)
        check(ok and whole, 'false-alarm', '%s: %s reported', how, p)
    if not (bad or lies or io):
        check(not probs, 'false-alarm', '%s: clean run but %s', how, probs)
        ctx.probe('clean')
    ctx.evals += 1
