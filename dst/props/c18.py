"""C18: virtual CXI files present detector frames correctly."""
import logging
import os
import shutil

import h5py
import numpy as np

from .. import detector, facility, writeops
from ..core import check, rng
from ..model import MColl, describe, same
from . import base, c17

PROP = 'C18'
RUNS = {'quick': 600, 'thorough': 40000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('A simulated detector run whose modules lose trains, restart and split their files independently; CXI files are '
        'written - by the method and by the command - for parts of it, with subsets of modules and minimum numbers of '
        'modules, some first by a process whose storage fails or which crashes; read again after other parts are written.')
STATES = 'layout x how the collection was made x trains x modules x share of modules present x fault'
REAL = ['karabo_data (components, write_cxi, the make-virtual-cxi command; unmodified)', 'h5py and the system libhdf5']
STUB = ['the detectors and the data acquisition (dst/detector.py)', 'failures of storage (I/O seam dst/shim.c)']
ASSUMES = ['in most runs small frames stand for modules of full size (module_shape of a subclass)',
           'pulse IDs agree between modules and are increasing', 'storage that fails while writing goes on failing',
           'libhdf5 may abort the process when writing fails while it closes a file',
           'the original files stay in place']
warm = c17.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    full = r.random() < .03
    fac = detector.gen_det(r, shape=(2, 2) if full else None, nmods=2 if full else None)
    if full:
        fac['n'] = min(fac['n'], 3)
        shp = {'AGIPD1M': (512, 128), 'LPD1M': (256, 256), 'DSSC1M': (128, 512)}[fac['det']['kind']]
        for s in fac['sources']:
            if s.get('det'):
                s['keys'] = detector.keys_for(fac['det']['kind'], fac['det']['layout'], *shp)
                s['freq'] = {g: min(2, k) for g, k in s['freq'].items()}
        for a in fac['aggs']:
            a['start'], a['stop'] = 0, fac['n']
        fac['faults'] = [f for f in fac['faults'] if f['k'] != 'count' and f.get('t', 0) < fac['n']]
    fac['small'] = not full
    odd = r.random() < .07
    if odd:
        detector.odd_module(r, fac)
    H = facility.simulate(fac)
    tids = sorted({t for f in H.files for t in f.tids}) or [fac['t0']]
    dets = [s for s in fac['sources'] if s.get('det')]
    ops = []
    for _ in range(r.randint(1, 3)):
        s = r.choice(dets)
        b = r.choice(['run', 'run', 'run', 'ix', 'id', 'glob', 'union'])
        o = {'op': 'det', 'base': b, 'name': s['det'] if len(fac['det']['names']) > 1 else None, 'min': r.choice([1, 1, 1, 1, 2, 3]),
             'mods': r.choice([None, None, None, sorted(r.sample(range(16), r.randint(4, 12)))]),
             'fault': writeops.gen_fault(r) if r.random() < .25 else None, 'old': r.random() < .3,
             'own': r.randrange(20) if r.random() < .12 else None, 'same': r.random() < .3, 'cli': r.random() < .25 and b == 'run', 'to': r.choice(['-o', '-o', 'scratch', 'scratch', 'number'])}
        if b == 'ix':
            o['tr'] = ['ix_slice', [r.choice([None, r.randrange(len(tids))]), r.choice([None, r.randint(1, len(tids))]), r.choice([None, 1, 2])]]
        elif b == 'id':
            o['tr'] = ['id_list', sorted(r.sample(tids, r.randint(1, len(tids))))]
        elif b == 'glob':
            o['glob'] = r.choice(['*/DET/*', '*/DET/1*', '*/DET/[0-4]*', s['det'] + '/DET/*', s['name']])
        elif b == 'union':
            o['pick'] = r.random()
        ops.append(o)
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops}


def execute(plan, ctx):
    from karabo_data import components
    from .. import collops
    H = base.build(plan, ctx)
    if H is None:
        return
    logging.disable(logging.CRITICAL)
    os.makedirs('/gpfs/out', exist_ok=True)
    det = plan['fac']['det']
    cls = getattr(components, det['kind'])
    src = next((s for s in plan['fac']['sources'] if s.get('det')), None)
    if src is None:
        return
    shape = tuple(next(k for k in src['keys'] if k[0] == 'image.data')[2])
    if plan['fac']['small']:
        if plan['fac']['det']['layout'] != 'raw':
            cls.module_shape = shape      # (this process runs one simulation only)
    else:
        ctx.probe('full_size')
    ctx.armed = True
    W = collops.World(ctx, H)
    run = W.open_run()
    full = MColl(W.rec)
    written = []
    for i, op in enumerate(plan['ops']):
        real, m = c17.make_base(W, H, run, full, op)
        if real is None or not m.tids:
            continue
        mods, mn = (None, op['min']) if op['cli'] else (op['mods'], op['min'])
        D = detector.DetModel(m, op['name'], mods, mn)
        path = '/gpfs/out/%s.cxi' % ('x' if op['same'] else i)
        what = 'CXI file of %s modules %s min %d' % (op['base'], mods, mn)
        if D.error and not op['cli']:
            W.expect_error(what, D.error, lambda: cls(real, detector_name=op['name'], modules=mods, min_modules=mn))
            ctx.probe('refused')
            op, mods, mn = dict(op, base='run', mods=None, min=1), None, 1      # go on with all of it
            real, m = run, full
            D = detector.DetModel(m, op['name'], mods, mn)
            what = 'CXI file of run modules None min 1'
        if D.error or (op['cli'] and (det['kind'] == 'DSSC1M' or len(det['names']) > 1)):
            if op['cli'] and det['kind'] == 'DSSC1M':
                no_cxi(ctx, H, path)
            continue
        if op['cli']:
            path, argv = destination(H, op, path, mn)
        d = W.call(what, lambda: cls(real, detector_name=op['name'], modules=mods, min_modules=mn))
        if op['old']:
            with open(path, 'wb') as f:
                f.write(b'\x89HDF\r\n\x1a\n' + b'old contents' * 4000)
        before = base.fingerprint([f.path for f in H.files])
        # (libhdf5 has the virtual datasets show fill values where originals can't be read)
        fn = lambda: d.write_virtual_cxi(path)
        if op.get('own') is not None:
            files = sorted(f.path for f in D.m.files if set(f.tids) & set(D.tids) and set(D.mods) & set(H.plan_aggs[f.agg]['sources']))
            p = files[op['own'] % len(files)]
            try:
                with ctx.shim.live():
                    d.write_virtual_cxi(p)
            except Exception as e:
                ctx.ev('own', os.path.basename(p), type(e).__name__)
            else:
                check(False, 'data-modified', '%s written onto %s, where its data is', what, os.path.basename(p))
            check(base.fingerprint(list(before)) == before, 'data-modified', '%s written onto %s has changed it', what, os.path.basename(p))
            ctx.probe('own_file_refused')
        if op['fault'] and not mixed(D):
            out, fired = writeops.faulty_child(ctx, op['fault'], path, fn, src='/' + H.files[0].name[:5])
            if out == 'ok':
                judge(W, D, path, what + ' (storage failed %d times, no error)' % fired)
        if op['cli'] and not mixed(D):
            cli(W, ctx, argv)
            ctx.probe('by_command')
        elif mixed(D):
            try:
                with ctx.shim.live():
                    fn()
            except Exception as e:
                ctx.ev('refused', type(e).__name__)
                ctx.probe('mixed_refused')
                continue
        else:
            W.call('write ' + what, fn)
        check(base.fingerprint(list(before)) == before, 'data-modified', 'a data file was changed by writing a CXI file')
        judge(W, D, path, what)
        share = sum(len(D.present(t)) for t in D.tids) * 4 // (len(D.tids) * len(D.mods))
        ctx.probe('modules_missing', int(share < 4))
        ctx.state(det['layout'], op['base'], len(D.tids), len(D.mods), share, op['fault'] and op['fault']['k'])
        ctx.ev('cxi', i, len(D.tids), sorted(D.mods.values()))
        written = [w for w in written if w[1] != path] + [(D, path, what)]
    if run is not None:
        for f in run.files:
            f.close()
    for D, path, what in written:
        judge(W, D, path, what + ' (later)')


def mixed(D):
    return len({D.m.src(s).keys['image.data'].dtype for s in D.mods}) > 1


def destination(H, op, path, mn):
    """Where the command has to write, and its arguments."""
    prop = os.path.dirname(os.path.dirname(H.dir))
    kind, run = H.dir.split('/')[-2:]
    to = op.get('to', '-o')
    if to == 'number' and kind != 'proc':
        to = 'scratch'
    if to == '-o':
        return path, [H.dir, '-o', path, '--min-modules', str(mn)]
    os.makedirs(prop + '/scratch', exist_ok=True)
    if to == 'number':
        return '%s/scratch/%s_detectors_virt.cxi' % (prop, run), [prop, run[1:].lstrip('0') or '0', '--min-modules', str(mn)]
    return '%s/scratch/%s_%s_detectors_virt.cxi' % (prop, run, kind), ['--min-modules', str(mn), H.dir + '/' * (mn % 2)]


def no_cxi(ctx, H, path):
    """The command ends with an error where there is no detector it can handle."""
    from karabo_data.cli import make_virtual_cxi
    had = os.path.exists(path)
    try:
        with ctx.shim.live():
            make_virtual_cxi.main([H.dir, '-o', path])
    except SystemExit as e:
        check(e.code not in (0, None), 'missing-error', 'karabo-data-make-virtual-cxi: status %r without a detector', e.code)
        check(os.path.exists(path) == had, 'phantom-data', 'karabo-data-make-virtual-cxi wrote a file without a detector')
        ctx.probe('no_detector')
        return
    check(False, 'missing-error', 'karabo-data-make-virtual-cxi: no error without a detector')


def cli(W, ctx, argv):
    from karabo_data.cli import make_virtual_cxi
    try:
        W.call('karabo-data-make-virtual-cxi', make_virtual_cxi.main, argv)
    except SystemExit as e:
        check(False, 'unexpected-error', 'karabo-data-make-virtual-cxi exited: %s', e.code)


def judge(W, D, path, what):
    """The file shows each frame of each module in its place."""
    W.ctx.evals += 1
    mods = sorted(D.mods.values())
    by = {no: s for s, no in D.mods.items()}
    any_src = D.m.src(by[mods[0]])
    n = len(D.tids) * D.fpt
    frames = [(t, i, any_src.pulse_id(t, i)) for t in D.tids for i in range(D.fpt)]
    try:
        f = h5py.File(path, 'r')
    except OSError as e:
        check(False, 'no-file', '%s: can not be opened: %s', what, e)
    with f:
        def get(p):
            check(p in f, 'missing-entry', '%s: no %s', what, p)
            return f[p][()]
        check(get('cxi_version').tolist() == [150], 'wrong-value', '%s: cxi_version %s', what, f['cxi_version'][()])
        check(get('entry_1/trainId').tolist() == [t for t, _, _ in frames], 'wrong-trains', '%s: trainId %s, expected %s', what,
              f['entry_1/trainId'][:20], [t for t, _, _ in frames][:20])
        check(get('entry_1/pulseId').tolist() == [p for _, _, p in frames], 'wrong-pulses', '%s: pulseId %s, expected %s', what,
              f['entry_1/pulseId'][:20], [p for _, _, p in frames][:20])
        ids = [x.decode() for x in get('entry_1/experiment_identifier')]
        check(ids == ['%d:%d' % (t, p) for t, _, p in frames], 'wrong-identifier', '%s: experiment_identifier %s', what, ids[:20])
        for g in ('entry_1/instrument_1/detector_1', 'entry_1/data_1'):
            check(get(g + '/module_identifier').tolist() == mods, 'wrong-modules', '%s: module_identifier %s, expected %s', what,
                  f[g + '/module_identifier'][()], mods)
            check([x.decode() for x in get(g + '/experiment_identifier')] == ids, 'wrong-identifier', '%s: identifier in %s', what, g)
        fields = {'data': 'entry_1/data_1/data', 'cellId': 'entry_1/cellId'}
        for k in ('gain', 'mask'):
            if 'image.' + k in any_src.keys:
                fields[k] = 'entry_1/instrument_1/detector_1/' + k
        for k, p in sorted(fields.items()):
            key = any_src.keys['image.' + k]
            got = get(p)
            shape = key.shape if k != 'cellId' else ()
            check(got.shape == (n, 16) + shape, 'wrong-shape', '%s: %s has shape %s, expected %s', what, k, got.shape, (n, 16) + shape)
            odd = k == 'data' and mixed(D)
            if not odd:
                check(got.dtype == key.dtype, 'wrong-type', '%s: %s is %s, recorded %s', what, k, got.dtype, key.dtype)
            exp = np.full(got.shape, np.nan if got.dtype.kind == 'f' else 0, 'f8' if odd else key.dtype)
            for no, s in by.items():
                for j, (t, i, _) in enumerate(frames):
                    if D.has(s, 'image.' + k, t):
                        v = D.m.src(s).sample('image.' + k, t, i)
                        exp[j, no] = v.reshape(shape)
            if not same(got.astype(exp.dtype), exp):
                bad = np.argwhere(~((got == exp) | ((got != got) & (exp != exp))))
                if len(bad):
                    i = tuple(int(x) for x in bad[0])
                    check(False, 'wrong-frame', '%s: %s frame %d (train %d, pulse %d) module %d: got %s, recorded %s', what, k, i[0],
                          frames[i[0]][0], frames[i[0]][2], i[1], got[i], exp[i])
            if k == 'data':
                ax = f[p].attrs['axes']
                want = 'experiment_identifier:module_identifier:' + ('data_gain:' if len(shape) == 3 else '') + 'y:x'
                check(ax == want, 'wrong-axes', '%s: axes %s', what, ax)
                if len(shape) == 3:
                    dg = [x.decode() for x in get('entry_1/instrument_1/detector_1/data_gain')]
                    check(dg == (['data', 'gain'] if shape[0] == 2 else ['data']), 'wrong-axes', '%s: data_gain %s', what, dg)
