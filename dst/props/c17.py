"""C17: detector data is combined with the right module, train and pulse."""
import errno

from .. import detector, facility
from ..core import check, rng
from ..model import MColl
from ..shim import READ
from . import base

PROP = 'C17'
RUNS = {'quick': 700, 'thorough': 60000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('A simulated detector run (AGIPD, LPD, DSSC; raw or corrected) whose modules lose trains, restart and split '
        'their files independently; detector objects are made from it and from parts of it, with subsets of modules '
        'and minimum numbers of modules; arrays and trains are read with random pulse selections, some while storage '
        'fails.')
STATES = 'layout x how the collection was made x operation x pulse selection kind x share of modules present'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5', 'xarray, pandas']
STUB = ['the detectors and the data acquisition (dst/detector.py)', 'storage failures and listing order (I/O seam)']
ASSUMES = ['small frames stand for modules of full size', 'pulse IDs are increasing within a train',
           'lists of pulse indexes are increasing']


def warm():
    base.warm()
    import karabo_data.components   # noqa


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = detector.gen_det(r)
    for a in fac['aggs']:
        a['chunk'] = max(1, a['chunk'])
    if rng(PROP + 'odd', seed).random() < .07:
        detector.odd_module(rng(PROP + 'odd', seed + 1), fac)
    H = facility.simulate(fac)
    tids = sorted({t for f in H.files for t in f.tids})
    dets = [s for s in fac['sources'] if s.get('det')]
    ops = []
    for _ in range(r.randint(2, 5)):
        s = r.choice(dets)
        b = r.choice(['run', 'run', 'ix', 'id', 'glob', 'union', 'file'])
        o = {'op': 'det', 'base': b, 'name': r.choice([None, s['det']]), 'min': r.choice([1, 1, 1, 2, 3, 16]),
             'mods': r.choice([None, None, sorted(r.sample(range(16), r.randint(1, 12)))])}
        if b == 'ix':
            o['tr'] = ['ix_slice', [r.choice([None, r.randrange(len(tids))]), r.choice([None, r.randint(1, len(tids))]), r.choice([None, 1, 2])]]
        elif b == 'id':
            o['tr'] = ['id_list', sorted(r.sample(tids, r.randint(1, len(tids))))]
        elif b == 'glob':
            o['glob'] = r.choice(['*/DET/*', '*/DET/1*', '*/DET/[0-4]*', s['det'] + '/DET/*', s['name']])
        elif b == 'union':
            o['pick'] = r.random()
        elif b == 'file':
            o['ix'] = r.randrange(30)
        ops.append(o)
        for _ in range(r.randint(1, 4)):
            p = detector.gen_pulses(r, s)
            k = r.choice(['array', 'array', 'array', 'trains', 'trains', 'slow', 'meta'])
            q = {'op': k, 'p': p, 'k': r.choice([x[0] for x in s['keys'] if x[0].startswith('image.')])}
            if k == 'slow':
                q['k'] = r.choice([x[0] for x in s['keys'] if not x[0].startswith('image.')] or ['image.data'])
            if k in ('array', 'trains') and r.random() < .12:
                q['eio'] = [r.randrange(len(H.files)), r.randrange(12)]
            ops.append(q)
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops}


def execute(plan, ctx):
    import karabo_data as kd
    from karabo_data import components
    from .. import collops
    H = base.build(plan, ctx)
    if H is None:
        return
    cls = getattr(components, plan['fac']['det']['kind'])
    layout = plan['fac']['det']['layout']
    ctx.armed = True
    W = collops.World(ctx, H)
    run = W.open_run()
    full = MColl(W.rec)
    D = det = None
    for i, op in enumerate(plan['ops']):
        k = op['op']
        if k == 'det':
            D = det = None
            for op in (op, {'base': 'run', 'name': op['name'], 'mods': None, 'min': 1}):
                real, m = make_base(W, H, run, full, op)
                if real is None or not m.tids:
                    continue
                what = '%s(%s, name=%s, modules=%s, min_modules=%d)' % (cls.__name__, op['base'], op['name'], op['mods'], op['min'])
                D = detector.DetModel(m, op['name'], op['mods'], op['min'])
                fn = lambda: cls(real, detector_name=op['name'], modules=op['mods'], min_modules=op['min'])
                if not D.error:
                    break
                W.expect_error(what, D.error, fn)
                ctx.probe('refused')
                D = None
                ctx.evals += 1
            if D is None:
                continue
            det = W.call(what, fn)
            check([int(t) for t in det.train_ids] == D.tids, 'wrong-trains', '%s has trains %s, expected %s', what,
                  list(det.train_ids), D.tids)
            check(det.frames_per_train == D.fpt, 'wrong-count', '%s has %s frames per train, expected %d', what,
                  det.frames_per_train, D.fpt)
            check(det.detector_name == D.name, 'wrong-name', '%s: detector %s', what, det.detector_name)
            check({no: s for s, no in D.mods.items()} == det.modno_to_source, 'wrong-modules', '%s: modules %s', what, det.modno_to_source)
            ctx.evals += 1
            ctx.ev('det', len(D.tids), len(D.mods))
            bname = op['base']
        elif D is not None:
            share = sum(len(D.present(t)) for t in D.tids) * 4 // (len(D.tids) * len(D.mods))
            p = op['p']
            kind = p[0] + type(p[1]).__name__
            ctx.state(layout, bname, k, kind, op['k'].partition('.')[0], share, len(H.files) > 4)
            if share < 4:
                ctx.probe('modules_missing')
            rid = None
            if 'eio' in op:
                f = H.files[op['eio'][0] % len(H.files)]
                rid = ctx.shim.rule(READ, f.name, skip=op['eio'][1], count=-1, err=errno.EIO)
                W.tolerate = lambda e: ctx.shim.fired(rid) > 0
            try:
                n = read(W, ctx, det, D, k, op)
                ctx.ev(k, n)
            except collops.Refused:
                ctx.probe('read_failed')
            finally:
                if rid is not None:
                    W.tolerate = None
                    fired = ctx.shim.fired(rid)
                    ctx.shim.rule_off(rid)
            if rid is not None and fired:
                ctx.fault('storage_eio_read', fired)
                n = read(W, ctx, det, D, k, op)     # storage works again
                ctx.probe('read_after_failure')


def negative(p):
    v = p[1]
    if p[0] == 'wrong':
        return False
    v = v['s'][:2] if isinstance(v, dict) else v if isinstance(v, list) else [v]
    return any(x is not None and x < 0 for x in v)


def read(W, ctx, det, D, k, op):
    p = op['p']
    rp = detector.real_pulses(p)
    ctx.evals += 1
    key = op['k']
    if not all(key in D.m.H.sources[s].keys for s in D.mods):
        return 0
    if k == 'meta':
        repr(det)
        return 0
    if p[0] == 'wrong' and (k == 'trains' or key.startswith('image.')):
        fn = (lambda: det.get_array(key, rp)) if k != 'trains' else (lambda: list(det.trains(rp)))
        W.expect_error('%s(%s, %s)' % (k, key, rp), ['ValueError', 'TypeError'], fn)
        W.ctx.probe('wrong_pulses')
        return 0
    if negative(p) and (k == 'trains' or key.startswith('image.')):
        fn = (lambda: det.get_array(key, rp)) if k != 'trains' else (lambda: list(det.trains(rp)))
        W.expect_error('%s(%s, %s)' % (k, key, p), ['ValueError', 'NotImplementedError'], fn)
        W.ctx.probe('negative_pulses')
        return 0
    if k == 'array' or (k == 'slow' and key.startswith('image.')):
        what = 'get_array(%s, %s)' % (key, p)
        if not any(D.has(s, key, t) for s in D.mods for t in D.tids):
            return 0
        arr = W.call(what, det.get_array, key, rp)
        return detector.check_frames(D, key, p, arr, D.tids, what)
    if k == 'slow':
        if not any(D.has(s, key, t) for s in D.mods for t in D.tids):
            return 0        # no sample to read at all
        what = 'get_array(%s)' % key
        return detector.check_slow(D, key, W.call(what, det.get_array, key), D.tids, what)
    want = [t for t in D.tids if D.complete(t)]
    what = 'trains(%s)' % p
    it = W.call(what, lambda: iter(det.trains(rp)))
    n = 0
    for t in want:
        got = W.call(what, lambda: next(it, None))
        check(got is not None, 'train-missing', '%s: train %d is complete but was not included', what, t)
        check(int(got[0]) == t, 'wrong-train', '%s: got train %s, expected %d', what, got[0], t)
        keys = set().union(*(D.m.sel[s] for s in D.m.sel))
        check(set(got[1]) == keys, 'wrong-keys', '%s: keys %s', what, sorted(got[1]))
        for key in sorted(keys):
            w = '%s train %d %s' % (what, t, key)
            if key.startswith('image.'):
                n += detector.check_frames(D, key, p, got[1][key], [t], w)
            else:
                n += detector.check_slow(D, key, got[1][key], [t], w, train_axis=False)
        ctx.probe('train_assembled')
    check(W.call(what, lambda: next(it, None)) is None, 'extra-train', '%s: more trains than the complete ones', what)
    return n


def make_base(W, H, run, full, op):
    import karabo_data as kd
    from .. import collops
    b = op['base']
    if b == 'run':
        return run, full
    if b in ('ix', 'id'):
        m = full.select_trains(op['tr'])
        if m is None or not m.tids:
            return None, None
        return W.call('select_trains', run.select_trains, collops.real_tr(op['tr'])), m
    if b == 'glob':
        m = full.select([[op['glob'], '*']])
        if m is None:
            return None, None
        return W.call('select', run.select, op['glob']), m
    if b == 'file':
        f = H.files[op['ix'] % len(H.files)]
        return W.open_file(f.path), collops.file_model(W.rec, f)
    n = len(full.tids)
    c = int(op['pick'] * n)
    if not 0 < c < n:
        return run, full
    a, z = ['ix_slice', [0, c, None]], ['ix_slice', [c, n, None]]
    m = full.select_trains(a).union(full.select_trains(z))
    return W.call('union', lambda: run.select_trains(collops.real_tr(z)).union(run.select_trains(collops.real_tr(a)))), m
