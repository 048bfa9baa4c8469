"""C19: stacked detector images behave like arrays of the recorded modules."""
import re

import numpy as np

from .. import detector, facility
from ..core import check, rng
from ..model import MColl, describe, same
from . import base, c17

PROP = 'C19'
RUNS = {'quick': 1200, 'thorough': 120000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Trains of a simulated detector run with missing modules, messages and frames are stacked along random axes; '
        'the view is indexed again and again, in branches, next to an ordinary array of the recorded modules.')
STATES = 'field x axis x share of modules present x shape of the view x kind of index x depth'
REAL = ['karabo_data (reader and stacking, unmodified)', 'h5py and the system libhdf5']
STUB = ['the detectors and the data acquisition (dst/detector.py)', 'directory listing order (I/O seam)']
ASSUMES = ['views are indexed with integers, slices and ..., and with one module or all of them',
           'a module is changed through a view only where that was indexed with integers and slices']
warm = c17.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = detector.gen_det(r, second=0)
    if r.random() < .15:
        facility.gen_frames(r, fac, [s for s in fac['sources'] if s.get('det')])
    s = next(x for x in fac['sources'] if x.get('det'))
    for x in fac['sources']:       # some more types
        if x.get('det'):
            x['keys'] = x['keys'] + [['image.signed', s.get('sg', 'i4'), [2, 3]], ['image.flag', 'b1', [2]], ['image.big', 'i8', [1, 2]]]
    ops = []
    for _ in range(r.randint(1, 4)):
        key = r.choice(['image.data', 'image.data', 'image.signed', 'image.flag', 'image.big', 'image.cellId', 'image.pulseId'])
        steps = [{'of': r.random(), 'ix': gen_index(r), 'mod': r.choice(['all', 'all', 'all', 'one']), 'm': r.choice([-17, -16, -1, 0, 1, 5, 15, 16, 3, 7]),
                  'set': r.choice([None, None, None, 1, 2])}
                 for _ in range(r.randint(1, 8))]
        ops.append({'t': r.random(), 'k': key, 'axis': r.choice([-3, -3, -3, 'any', 'any']), 'ax': r.random(),
                    'fill': r.choice(['nan', 'default', 7, -1, 0]), 'empty': r.choice([0, 0, 0, 1, 2]), 'delkey': r.choice([0, 0, 1]),
                    'real': r.random() < .3, 'bad': r.choice([None] * 8 + ['type', 'shape', 'source', 'fewmods', 'frames']), 'steps': steps,
                    'nmods': r.choice([16, 16, 16, 'least', 20, 33]),
                    'how': r.choice(['train', 'iter', 'stack_data']), 'names': gen_names(r) if r.random() < .6 else None})
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops}


def gen_names(r):
    """Names of devices, to be ordered by the numbers in them."""
    form = r.choice(['A/B/C_%d', '%d', 'X%d_a', 'S1/D_%d:out', '%d/7/x'])
    hi = r.choice([20, 200, 20000, 10 ** 7, 10 ** 13])
    ns = set()
    while len(ns) < 16:
        ns.add(r.choice([r.randrange(hi), 10 ** r.randrange(1, 13), 10 ** r.randrange(1, 13) - 1, r.randrange(30)]))
    ns = list(ns)
    r.shuffle(ns)
    out = [form % n for n in ns]
    if r.random() < .4:          # a second number
        out = ['%s/%d' % (x.rsplit('/', 1)[0] if '/' in x and r.random() < .3 else x, r.randrange(20)) for x in out]
        out = list(dict.fromkeys(out))
    return out


def gen_index(r):
    """Indexes for the axes of a module, chosen when the shape is known: fractions."""
    return [r.choice(['full', 'full', 'int', 'int', 'neg', 'slice', 'slice', 'step', 'rev', 'none']) for _ in range(6)], \
        [r.random() for _ in range(6)], r.choice([None, None, 'dots', 'short'])


def make_index(ix, shape, axis, modix):
    """A tuple of indexes for an array of the given shape."""
    kinds, xs, form = ix
    out = []
    for d, n in enumerate(shape):
        if d == axis:
            out.append(modix)
            continue
        k, x = kinds[d % 6], xs[d % 6]
        i = int(x * n)
        if n == 0 or k in ('full', 'none'):
            out.append(slice(None))
        elif k == 'int':
            out.append(i)
        elif k == 'neg':
            out.append(i - n)
        elif k == 'slice':
            out.append(slice(i, min(n, i + 1 + int(x * 7919) % 3)))
        elif k == 'step':
            out.append(slice(None, None, 2))
        else:
            out.append(slice(None, None, -1))
    if form == 'short':
        while len(out) > 1 and out[-1] == slice(None):
            out.pop()
    elif form == 'dots':
        for i, o in enumerate(out):
            if o == slice(None):
                j = i
                while j < len(out) and out[j] == slice(None):
                    j += 1
                if not i <= axis < j or modix == slice(None):
                    out[i:j] = [Ellipsis]
                break
    return tuple(out) if len(out) != 1 else out[0]


def stack_axis(axis, ix, ndim):
    """Where the axis of modules is after indexing: one less for each integer before it."""
    full = list(ix) if isinstance(ix, tuple) else [ix]
    if Ellipsis in full:
        i = full.index(Ellipsis)
        full[i:i + 1] = [slice(None)] * (ndim - len(full) + 1)
    full += [slice(None)] * (ndim - len(full))
    return sum(not isinstance(x, int) for x in full[:axis])


def execute(plan, ctx):
    from karabo_data import stack_data, stack_detector_data
    from .. import collops
    H = base.build(plan, ctx)
    if H is None:
        return
    ctx.armed = True
    W = collops.World(ctx, H)
    run = W.open_run()
    m = MColl(W.rec)
    dets = sorted(s for s in m.sel if '/DET/' in s)
    if not dets or not m.tids:
        return
    sel = W.call('select', run.select, '*/DET/*', '*')
    for i, op in enumerate(plan['ops']):
        t = m.tids[int(op['t'] * len(m.tids))]
        key = op['k']
        if key not in m.src(dets[0]).keys:
            continue
        if op['how'] == 'iter':
            tid, data = W.call('trains', lambda: next(iter(sel.select_trains(collops.real_tr(['id_list', [t]])).trains())))
        else:
            tid, data = W.call('train_from_id', sel.train_from_id, t)
        check(int(tid) == t, 'wrong-train', 'got train %s, asked for %d', tid, t)
        mods = {}
        for s in dets:
            if t in m.may_tids(s) and m.count(s, key, t):
                mods[int(re.search(r'/DET/(\d+)CH', s).group(1))] = m.entry(s, key, t)
        data = {s: dict(d) for s, d in data.items()}
        # frames or fields of some modules are missing
        present = sorted(mods)
        several = mods and len({m.count(s, key, t) for s in dets if m.count(s, key, t)}) == 1
        first = next(iter(mods.values())) if mods else None
        if not mods or first.ndim == 0 or not several:
            if not mods and data:
                try:
                    stack_detector_data(data, key)
                    check(False, 'invented-data', 'stacked %s although no module has it', key)
                except ValueError:
                    ctx.probe('no_module')
            if first is None or not several:
                continue
        if len(present) > 1 and first.ndim and first.shape[0] > 0:
            for no in present[:op['empty']][:len(present) - 1]:
                s = next(x for x in data if '/DET/%dCH' % no in x)
                data[s][key] = data[s][key][:0]
                del mods[no]
        if op['delkey'] and len(mods) > 1:
            no = sorted(mods)[-1]
            s = next(x for x in data if '/DET/%dCH' % no in x)
            del data[s][key]
            del mods[no]
        if not data:
            continue
        if op['how'] == 'stack_data':
            plain(W, ctx, op, data, key, first)
            continue
        detector_stack(W, ctx, op, data, mods, key, m.src(dets[0]).keys[key].dtype)
    ctx.ev('done', len(plan['ops']))


def plain(W, ctx, op, data, key, first):
    from karabo_data import stack_data
    if any(key not in d or len(d[key]) != len(first) for d in data.values() if first.ndim) or any(key not in d for d in data.values()):
        return
    nd = first.ndim + 1
    ax = -3 if op['axis'] == -3 else int(op['ax'] * 2 * nd) - nd
    if not -nd <= ax < nd:
        return
    if op.get('names'):
        data = dict(zip(op['names'], data.values()))
    num = {d: [int(x) for x in re.findall(r'\d+', d)] for d in data}
    if len({tuple(v) for v in num.values()}) < len(num):
        return       # no order
    order = sorted(data, key=num.get)
    xcept = order[:1] if len(order) > 1 and op['empty'] else []
    if op['bad']:
        if op['bad'] == 'type' and len(order) > 1:
            data[order[-1]] = {key: data[order[-1]][key].astype('c8')}
        elif op['bad'] == 'shape' and len(order) > 1:
            data[order[-1]] = {key: np.zeros(first.shape[:-1] + (first.shape[-1] + 1,), first.dtype)}
        elif op['bad'] == 'source':
            xcept = order[::-1]
        else:
            return
        W.expect_error('stack_data with mismatched %s' % op['bad'], ['ValueError'], stack_data, data, key, ax, xcept)
        ctx.probe('refused')
        ctx.evals += 1
        return
    got = W.call('stack_data(axis=%d)' % ax, stack_data, data, key, ax, xcept)
    want = np.stack([data[s][key] for s in order if s not in xcept], axis=ax)
    check(same(got, want), 'wrong-data', 'stack_data(%s, axis=%d): %s, expected %s', key, ax, describe(got), describe(want))
    ctx.evals += 1
    ctx.state('stack_data', key, ax)


def detector_stack(W, ctx, op, data, mods, key, dtype):
    from karabo_data import stack_detector_data
    shape = next(iter(mods.values())).shape
    nd = len(shape) + 1
    ax = -3 if op['axis'] == -3 else int(op['ax'] * 2 * nd) - nd
    if not -nd <= ax < nd:
        return
    kw = {'axis': ax}
    if op['fill'] == 'nan':
        kw['fillvalue'] = np.nan
    elif op['fill'] != 'default':
        kw['fillvalue'] = op['fill'] if dtype.kind in 'if' else abs(op['fill'])
    fv = kw.get('fillvalue', np.nan)
    if dtype.kind != 'f' and fv != fv:
        fv = 0
    what = 'stack_detector_data(%s, %s)' % (key, kw)
    if op['bad']:
        bad(W, ctx, op, data, mods, key, kw, what)
        return
    nm = max(mods) + 1 if op['nmods'] == 'least' else op['nmods']
    if nm != 16:
        kw['modules'] = nm
    ref = np.full((nm,) + shape, fv, dtype)
    for no, a in mods.items():
        ref[no] = a
    ref = np.moveaxis(ref, 0, ax)
    axis = ax if ax >= 0 else ax + nd
    keys = {s: set(d) for s, d in data.items()}
    if op['real']:
        arr = W.call(what, lambda: stack_detector_data(data, key, **kw))
        check(isinstance(arr, np.ndarray), 'wrong-type', '%s gave %s', what, type(arr))
        check(same(arr, ref), 'wrong-data', '%s: %s, expected %s', what, describe(arr), describe(ref))
        ctx.evals += 1
    view = W.call(what, lambda: stack_detector_data(data, key, real_array=False, **kw))
    check({s: set(d) for s, d in data.items()} == keys, 'input-changed', '%s changed the train data', what)
    views = [(view, ref, axis, what, 0)]
    compare(ctx, W, *views[0][:4])
    for st in op['steps']:
        v, a, axis, w, depth = views[int(st['of'] * len(views))]
        single = st['mod'] == 'one'
        ix = make_index(st['ix'], a.shape, axis, st['m'] if single else slice(None))
        w2 = '%s[%s]' % (w, ix)
        ctx.state(key, op['axis'] == -3, len(mods) // 4, a.ndim, axis, st['ix'][0][:2], depth, single)
        if single and not -nm <= st['m'] < nm:
            W.expect_error(w2, ['IndexError'], lambda: v[ix])
            ctx.probe('module_out_of_range')
            continue
        got = W.call(w2, lambda: v[ix])
        want = a[ix]
        if single:
            check(same(got, want), 'wrong-data', '%s: %s, expected %s', w2, describe(got), describe(want))
            ctx.evals += 1
            continue
        n = stack_axis(axis, ix, a.ndim)
        compare(ctx, W, got, want, n, w2)
        ctx.probe('nested_view', int(depth > 0))
        views.append((got, want, n, w2, depth + 1))
    # earlier views are unchanged by what was done with later ones
    for v, a, axis, w, depth in views:
        compare(ctx, W, v, a, axis, w + ' (again)')
    for st in op['steps']:
        if st.get('set') and -nm <= st['m'] < nm:
            change(W, ctx, views[int(st['of'] * len(views))], st, dtype, nm)
            break


def change(W, ctx, view, st, dtype, nm):
    """Write to one module: the others keep their data."""
    v, a, axis, w, depth = view
    ix = (slice(None),) * axis + (st['m'],)
    part = W.call('%s[%s]' % (w, ix), lambda: v[ix])
    if not isinstance(part, np.ndarray) or not part.ndim:
        return      # one number
    part[...] = st['set']
    for m in range(nm):
        ix2 = (slice(None),) * axis + (m,)
        got = W.call('%s[%s]' % (w, ix2), lambda: v[ix2])
        want = a[ix2]
        if m == st['m'] % nm:       # the array of a module without data may be one of its own
            want[...] = got
            continue
        check(same(got, want), 'wrong-data', '%s[%s] after writing %s to module %d: %s, expected %s', w, ix2, st['set'], st['m'],
              describe(got), describe(want))
    ctx.probe('module_changed')
    ctx.evals += 1


def compare(ctx, W, view, ref, axis, what):
    check(not isinstance(view, np.ndarray), 'wrong-type', '%s: an array, not a view (%s)', what, describe(view))
    check(tuple(view.shape) == ref.shape, 'wrong-shape', '%s: shape %s, expected %s', what, view.shape, ref.shape)
    check(view.ndim == ref.ndim, 'wrong-shape', '%s: ndim %s, expected %d', what, view.ndim, ref.ndim)
    check(view.dtype == ref.dtype, 'wrong-type', '%s: %s, expected %s', what, view.dtype, ref.dtype)
    arr = W.call(what + '.asarray()', view.asarray)
    check(same(arr, ref), 'wrong-data', '%s.asarray(): %s, expected %s', what, describe(arr), describe(ref))
    repr(view)
    ctx.evals += 1


def bad(W, ctx, op, data, mods, key, kw, what):
    """Modules which don't fit together must be refused."""
    from karabo_data import stack_detector_data
    no = sorted(mods)[0]
    s = next(x for x in data if '/DET/%dCH' % no in x)
    a = data[s][key]
    b = op['bad']
    errs = ['ValueError']
    if b == 'source':
        data['SPB_XTD9_XGM/DOOCS/MAIN'] = {'pulseEnergy': np.float32(1)}
    elif b == 'fewmods':
        kw = dict(kw, modules=max(mods))
        errs = ['IndexError']
    elif len(mods) < 2 or not a.ndim:
        return
    elif b == 'type':
        data[s][key] = a.astype('c8')
    elif b == 'shape':
        data[s][key] = np.zeros(a.shape + (2,), a.dtype)
    else:
        data[s][key] = np.concatenate([a, a])
    W.expect_error(what + ' with mismatched ' + b, errs, lambda: stack_detector_data(data, key, **kw))
    ctx.probe('refused')
    ctx.evals += 1
