"""C25: exported and displayed images are those asked for."""
import os

import numpy as np

from .. import detector, facility, writeops
from ..core import check, rng
from ..model import describe
from . import base
from .c24 import faulty_read, gen_read_fault

PROP = 'C25'
RUNS = {'quick': 600, 'thorough': 40000}
SHRINK = ['ops', 'views', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Frames of simulated files are exported to CBF while reading or writing fails or the process crashes, over older files too; '
        'viewers on stacks of frames are moved and given new data in long histories.')
STATES = 'file format x type of data x kind of index x fault; last three steps of a viewer x position'
REAL = ['karabo_data.utils (unmodified)', 'fabio, h5py, libhdf5, matplotlib (figures are made, not drawn)']
STUB = ['the detectors and the data acquisition (dst/detector.py)', 'failures of storage (I/O seam dst/shim.c)']
ASSUMES = ['the frames are integers with two axes: CBF and fabio store no others', 'a file has the images of one detector module',
           'storage that fails while writing goes on failing']
TYPES = ['u2', 'u2', 'i4', 'i2', 'u1', 'u4']


def warm():
    base.warm()
    import fabio.cbfimage   # noqa
    import matplotlib.pyplot   # noqa


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = detector.gen_det(r, second=0)
    dt = r.choice(TYPES)
    ss, fs = r.choice([(3, 4), (5, 2), (16, 16), (1, 7)])
    fac['det']['layout'] = 'proc'
    for s in fac['sources']:
        if s.get('det'):
            s['keys'] = [['image.pulseId', 'u8', [], 'pulseId'], ['image.cellId', 'u2', [], 'cellId'], ['image.data', dt, [ss, fs]],
                         ['header.pulseCount', 'u8', []]]
            s['freq'] = {'image': s['freq']['image'], 'header': 1}
    if r.random() < .4:      # other sources in the same files
        for a in fac['aggs']:
            if r.random() < .7 and any('/DET/' in x for x in a['sources']):
                nm = r.choice(['SPB_EXP/CAM/IMAGER_%s:daqOutput', 'AAA_image/CAM/%s:output', 'SPB_XTD9_IMAGE/CAM/%s:image']) % a['id']
                fac['sources'].append({'name': nm, 'cat': 'i', 'keys': [['data.data', dt, [ss, fs]], ['data.image.pixels', 'u2', [2, 2]]], 'freq': {'data': r.choice([1, 2])}})
                a['sources'].insert(0 if r.random() < .7 else 1, nm)
    ops = []
    for _ in range(r.randint(1, 6)):
        f = r.choice([None, None, 'read', 'write', 'write'])
        ops.append({'f': r.random(), 'ix': r.random(), 'neg': r.random() < .15, 'far': r.random() < .1, 'old': r.random() < .3, 'same': r.random() < .4,
                    'header': r.random() < .4, 'read': gen_read_fault(r) if f == 'read' else None, 'write': writeops.gen_fault(r) if f == 'write' else None,
                    'how': r.choice(['file', 'file', 'file', 'array'])})
    views = []
    for _ in range(r.choice([0, 1, 1, 2])):
        steps = [{'do': r.choice(['next', 'next', 'next', 'next', 'prev', 'prev', 'next()', 'pos', 'pos', 'display', 'data', 'bad', 'far']), 'x': r.random(),
                  'n': r.randint(1, 5), 'dtype': r.choice(['u2', 'f4', 'i1']), 'times': r.choice([1, 1, 2, 7])} for _ in range(r.randint(2, 14))]
        views.append({'n': r.randint(1, 5), 'dtype': r.choice(['u2', 'f4', 'i1']), 'init': r.random() < .5, 'steps': steps})
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops, 'views': views}


def execute(plan, ctx):
    H = base.build(plan, ctx)
    ctx.armed = True
    if H is not None:
        export(plan, ctx, H)
    for v in plan['views']:
        view(ctx, v)


def call(ctx, what, fn):
    try:
        with ctx.shim.live():
            return fn()
    except Exception as e:
        check(False, 'unexpected-error', '%s: %s: %s', what, type(e).__name__, e)


def export(plan, ctx, H):
    from karabo_data import utils
    os.makedirs('/gpfs/out', exist_ok=True)
    files = []
    for f in H.files:
        s = next((s for (s, g) in f.counts if g == 'image' and '/DET/' in s), None)
        if s is not None and sum(f.counts[(s, 'image')]):
            files.append((f, s))
    if not files:
        return
    before = base.fingerprint([f.path for f in H.files])
    for n, op in enumerate(plan['ops']):
        f, s = files[int(op['f'] * len(files))]
        frames = [(t, i) for t, c in zip(f.tids, f.counts[(s, 'image')]) for i in range(c)]
        ix = int(op['ix'] * len(frames))
        src = H.sources[s]
        img = src.sample('image.data', *frames[ix])
        out = '/gpfs/out/%s.cbf' % ('x' if op['same'] else n)
        header = {'Exposure_time': '0.%d s' % n, 'Detector': s.replace('/', '_')} if op['header'] else None
        what = '%s frame %d' % (os.path.basename(f.path), ix)
        if op['old']:
            with open(out, 'wb') as fh:
                fh.write(b'###CBF: VERSION 1.5\r\n' + b'old contents' * 4000)
        kw = {'header': dict(header)} if header else {}
        if op['how'] == 'array':
            data = np.stack([src.sample('image.data', *x) for x in frames])
            keep = data.copy()
            what += ' numpy_to_cbf'
            fn = lambda: utils.numpy_to_cbf(data, ix - (len(frames) if op['neg'] else 0), **kw).write(out)
        else:
            what += ' hdf5_to_cbf'
            if op['far']:
                import h5py
                with h5py.File(f.path, 'r') as h:
                    far = h['INSTRUMENT/%s/image/data' % s].shape[0]
                try:
                    utils.hdf5_to_cbf(f.path, out, far + n)
                except Exception:
                    ctx.probe('refused')
                    continue
                check(False, 'not-refused', '%s: exported frame %d of %d', what, far + n, far)
            fn = lambda: utils.hdf5_to_cbf(f.path, out, ix, **kw)
        if op['write']:
            res, fired = writeops.faulty_child(ctx, op['write'], out, fn, src='/' + os.path.basename(f.path)[:5])
            if res == 'ok':
                judge(ctx, out, img, header, what + ' (storage failed %d times, no error)' % fired)
        if op['read']:
            faulty_read(ctx, lambda w, g: call(ctx, w, g), op['read'], os.path.basename(f.path), what, fn)
        else:
            call(ctx, what, fn)
        judge(ctx, out, img, header, what)
        if op['how'] == 'array':
            check(np.array_equal(keep, data), 'input-changed', '%s changed the data', what)
        if header:
            check(kw['header'] == header, 'input-changed', '%s changed the header: %s', what, kw['header'])
        ctx.state(img.dtype.str, op['how'], op['neg'], op['write'] and op['write']['k'], bool(op['read']), op['old'])
        ctx.ev('export', n, ix)
    check(base.fingerprint(list(before)) == before, 'data-modified', 'a data file was changed by exporting from it')


def judge(ctx, path, img, header, what):
    import fabio
    ctx.evals += 1
    try:
        got = fabio.open(path)
        data = got.data
    except Exception as e:
        check(False, 'invalid-file', '%s: can not be read: %s: %s', what, type(e).__name__, e)
    check(data.shape == img.shape and data.dtype == img.dtype and np.array_equal(data, img), 'wrong-image', '%s: %s, recorded %s', what, describe(data), describe(img))
    if header:
        with open(path, 'rb') as f:
            text = f.read().decode('latin1')
        for k, v in header.items():
            check('# %s %s' % (k, v) in text, 'header-lost', '%s: no entry "%s %s"', what, k, v)


def view(ctx, v):
    """A viewer against a counter."""
    import matplotlib.pyplot as plt
    from karabo_data.utils import QuickView
    data = stack(v['n'], v['dtype'], 0)
    if v['init']:
        q = call(ctx, 'QuickView(data)', lambda: QuickView(data))
    else:
        q = call(ctx, 'QuickView()', QuickView)
        call(ctx, 'data =', lambda: setattr(q, 'data', data))
    pos, shown = 0, 0
    look(ctx, q, data, pos, shown, 'new viewer')
    last = []
    for n, st in enumerate(v['steps']):
        for _ in range(st['times']):
            do = st['do']
            what = 'step %d %s at %d of %d' % (n, do, pos, len(data))
            if do in ('next', 'next()'):
                end = pos == len(data) - 1
                try:
                    next(q) if do == 'next()' else q.next()
                except StopIteration:
                    check(end, 'stopped-early', '%s: StopIteration', what)
                except Exception as e:
                    check(False, 'unexpected-error', '%s: %s: %s', what, type(e).__name__, e)
                if not end:
                    pos = shown = pos + 1
                ctx.probe('at_end', int(end))
            elif do == 'prev':
                call(ctx, what, q.prev)
                if pos:
                    pos = shown = pos - 1
            elif do == 'pos':
                pos = shown = int(st['x'] * len(data))
                call(ctx, what, lambda: setattr(q, 'pos', pos))
            elif do == 'display':
                shown = int(st['x'] * len(data))
                call(ctx, what, lambda: q.display(shown))
            elif do == 'data':
                data = stack(st['n'], st['dtype'], n + 1)
                call(ctx, what, lambda: setattr(q, 'data', data))
                pos = shown = 0
            elif do == 'bad':
                for x in (np.zeros((2, 2)), [1, 2], np.zeros((1, 2, 3, 4))):
                    try:
                        q.data = x
                    except TypeError:
                        ctx.probe('refused')
                        continue
                    check(False, 'not-refused', '%s: accepted %s', what, type(x))
            else:
                for x in (-1, len(data), len(data) + 3):
                    try:
                        q.pos = x
                    except ValueError:
                        ctx.probe('refused')
                        continue
                    check(False, 'not-refused', '%s: accepted position %d', what, x)
            look(ctx, q, data, pos, shown, what)
        last = (last + [st['do']])[-3:]
        ctx.state(last, pos, len(data))
        ctx.ev('view', n, pos, shown)
    plt.close('all')


def stack(n, dtype, seed):
    return ((np.arange(n * 12).reshape(n, 4, 3) * 7 + seed * 31) % 120).astype(dtype)


def look(ctx, q, data, pos, shown, what):
    ctx.evals += 1
    check(q.pos == pos, 'wrong-index', '%s: position %s, expected %d', what, q.pos, pos)
    check(len(q) == len(data), 'wrong-index', '%s: length %s, expected %d', what, len(q), len(data))
    check(q.data is data or np.array_equal(q.data, data), 'wrong-image', '%s: other data', what)
    img = np.ma.getdata(q._image.get_array()) if hasattr(q, '_image') else None
    import matplotlib.pyplot as plt
    if img is None:
        return
    check(np.array_equal(img, data[shown]), 'wrong-image', '%s: shows %s, expected frame %d: %s', what, describe(img), shown, describe(data[shown]))
    title = q._image.axes.get_title()
    check(title.endswith(' %d' % shown), 'wrong-title', '%s: title %r, frame %d', what, title, shown)
