"""C26: threads sharing a collection each get exactly the recorded data."""
from .. import sched, stream      # before karabo_data
from ..sched import Sched

from .. import detector, facility, opsgen, writeops
from ..core import check, rng
from . import base, c17

PROP = 'C26'
RUNS = {'quick': 1200, 'thorough': 50000}
SHRINK = ['threads', 'switches', 'ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Two to five threads read and select at the same time from collections that share files just opened, with preemption at every '
        'line of karabo_data; dask arrays are computed by pools of threads; some threads write what they selected to files of their '
        'own, or read arrays and trains of a detector.')
STATES = 'hash of the sequence of thread switches'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5', 'numpy, pandas, xarray, dask arrays']
STUB = ['the data acquisition (dst/facility.py)', 'thread scheduling (dst/sched.py), the thread pool of dask']
ASSUMES = ['calls of h5py are atomic (they hold its global lock)', 'no thread closes files while others read']
WEIGHTS = {'select': 2, 'deselect': 1, 'select_trains': 2, 'union': 1, 'keys': 2, 'train_id': 6, 'train_ix': 2, 'iter_open': 2,
           'iter_next': 3, 'iter_rest': 2, 'array': 4, 'series': 2, 'counts': 2, 'dask': 3, 'dataframe': 1, '_req': .4}
RATES = [{'line': .02, 'spawn': .5}, {'line': .2, 'spawn': .5}, {'line': .6, 'spawn': .5}, {'line': .08, 'spawn': .2},
         {'line': .35, 'spawn': .9}]


def warm():
    base.warm()


def gen(seed, tier):
    r = rng(PROP, seed)
    w = rng(PROP + 'write', seed)
    if w.random() < .2:
        return gen_det(w)
    writes = w.choice([0, 0, .15, .4])
    fac = facility.gen_run(r, strings=True, pulsed=.3)
    facility.gen_spread(r, fac)
    H = facility.simulate(fac)
    g = opsgen.OpGen(r, H, {'open': 1, 'select': 2, 'select_trains': 2, 'union': 1}, neg=0)
    ops = g.history(r.randint(1, 4))
    threads = []
    same = r.random() < .3       # all threads do the same thing
    # many reads of few trains from one collection
    hot = sorted(g.m)[-1] if g.m and r.random() < .4 else None
    weights = {'train_id': 6, 'train_ix': 2, 'iter_open': 1, 'iter_next': 3, 'keys': .3, 'counts': .3} if hot else WEIGHTS
    for i in range(r.randint(2, 5)):
        if same and threads:
            threads.append(list(threads[0]))
            continue
        t = opsgen.OpGen(r, H, dict(weights), neg=0 if hot else .03)
        t.m, t.opened = {hot: g.m[hot]} if hot else dict(g.m), list(g.opened)
        t.n = 100 * (i + 1)
        out = []
        for _ in range(60):
            op = t.gen()
            if op is not None:
                out.append(op)
            if len(out) >= r.choice([8, 12, 16, 24] if hot else [3, 5, 8, 12]):
                break
        if w.random() < writes:
            gen_write(w, t, out)
        threads.append(out)
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops, 'threads': threads, 'cached': r.random() < .5,
            'sched': {'seed': r.getrandbits(40), 'rates': r.choice(RATES)}}


def gen_write(r, t, out):
    names = [n for n, m in t.m.items() if writeops.writable(m)]
    if names:
        c = r.choice(names[-4:])
        m = t.m[c]
        op = {'op': 'write', 'c': c, 'mode': r.choice(['write', 'virtual', 'vds']), 'old': False, 'temp': False}
        op['s'] = r.choice(sorted(m.sel))
        op['k'] = r.choice(sorted(m.sel[op['s']]))
        # (not before the collection has been made)
        at = [n for n, o in enumerate(out) if o.get('out') == c]
        out.insert(r.randint(at[0] + 1 if at else 0, len(out)), op)


def gen_det(r):
    fac = detector.gen_det(r, nmods=r.choice([1, 2, 3, 5]))
    H = facility.simulate(fac)
    tids = sorted({t for f in H.files for t in f.tids})
    s = r.choice([s for s in fac['sources'] if s.get('det')])
    dets = []
    for _ in range(r.randint(1, 2)):
        o = {'base': r.choice(['run', 'run', 'id', 'union']), 'name': s['det'], 'min': r.choice([1, 1, 1, 2]), 'mods': None, 'pick': r.random()}
        if o['base'] == 'id':
            o['tr'] = ['id_list', sorted(r.sample(tids, r.randint(1, len(tids))))]
        dets.append(o)
    threads = []
    for i in range(r.randint(2, 4)):
        out = []
        for _ in range(r.randint(1, 3)):
            k = r.choice(['array', 'array', 'trains', 'slow'])
            key = r.choice([x[0] for x in s['keys'] if x[0].startswith('image.') != (k == 'slow')] or ['image.data'])
            out.append({'op': k, 'd': r.randrange(len(dets)), 'p': detector.gen_pulses(r, s), 'k': key})
        threads.append(out if i == 0 or r.random() < .6 else list(threads[0]))
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': dets, 'threads': threads, 'det': True, 'early': r.random() < .5,
            'sched': {'seed': r.getrandbits(40), 'rates': r.choice(RATES)}}


class Pool:
    """Scheduler for dask: several simulated threads take ready tasks in seeded order."""
    def __init__(self, s, seed, n):
        import random
        self.s, self.r, self.n = s, random.Random(seed), n

    def __call__(self, dsk, keys, **kw):
        from dask.core import get_dependencies, istask
        dsk = dict(dsk)
        deps = {k: get_dependencies(dsk, k) for k in dsk}
        done, busy = {}, set()

        def ev(x):
            if isinstance(x, list):
                return [ev(i) for i in x]
            if istask(x):
                return x[0](*[ev(i) for i in x[1:]])
            try:
                if x in done:
                    return done[x]
            except TypeError:
                pass
            return x

        def ready():
            return sorted((k for k in dsk if k not in done and k not in busy and all(d in done for d in deps[k])), key=str)

        def work():
            while len(done) < len(dsk):
                ks = ready()
                if not ks:
                    self.s.block(lambda: ready() or len(done) == len(dsk), None, 'a task')
                    continue
                k = ks[self.r.randrange(len(ks))]
                busy.add(k)
                self.s.point('task')
                v = ev(dsk[k])
                self.s.point('task')
                done[k] = v
                busy.discard(k)
        [self.s.go(work, name='dask-%d' % i) for i in range(self.n)]
        self.s.block(lambda: len(done) == len(dsk), None, 'dask')

        def pick(x):
            return [pick(i) for i in x] if isinstance(x, list) else done[x]
        return pick(keys)


def execute(plan, ctx):
    from .. import collops
    H = base.build(plan, ctx)
    if H is None:
        return
    if plan.get('det'):
        return execute_det(plan, ctx, H)
    before = base.fingerprint([f.path for f in H.files])
    W0 = collops.World(ctx, H)
    ctx.armed = True
    if plan['cached']:        # the files themselves are first opened by the threads
        for d in sorted({f.path.rpartition('/')[0] for f in H.files}):
            W0.open_run(dir=d)
    for op in plan['ops']:
        W0.step(op)
    with Sched(ctx, plan) as s:
        worlds = []

        class World(collops.World):
            def op_dask(self, op):
                if op.get('slice') is not None:
                    return super().op_dask(op)
                real, m = self.colls[op['c']]
                src, key = op['s'], op['k']
                what = 'get_dask_array(%s, %s)' % (src, key)
                if src not in m.sel or key not in m.sel[src] or not m.exact(src):
                    return
                a = self.call(what, real.get_dask_array, src, key)
                v = self.call(what + '.compute', a.compute, scheduler=Pool(s, op.get('seed', 0), 1 + op['seed'] % 3))
                self.check_array(what, m, src, key, v)
                ctx.probe('dask_pool')

            def op_write(self, op):
                real, m = self.colls[op['c']]
                if not writeops.writable(m) or writeops.mixed_stage(op, m):
                    return
                C = writeops.Chain(ctx, {})
                path = '/gpfs/out/thread%d.h5' % self.no
                ds = C.make(self, op, real, m, path)
                if op['mode'] == 'vds':
                    C.check_vds(self, op, m, ds)
                    if ds is None:
                        return
                    ds.file.close()
                C.reopen(op, m, path)
                ctx.probe('written_in_thread')
        for i, ops in enumerate(plan['threads']):
            W = World(ctx, H)
            W.rec, W.colls, W.snap = W0.rec, dict(W0.colls), dict(W0.snap)
            W.no = i
            worlds.append(W)

            def body(W=W, ops=ops):
                for op in ops:
                    W.step(op)
            s.go(body, name='reader-%d' % i)
        ts = [t for t in s.threads if t.name.startswith('reader')]
        s.block(lambda: all(t.done for t in ts), None, 'the readers')
        s.block(lambda: all(t.done for t in s.threads if t.ix), None, 'all threads')
        ctx.probe('threads', len(ts))
        ctx.fault('preempted', len(s.out))
    for W in worlds:
        for c in sorted(W.colls):
            W.check_parent(c)
    check(base.fingerprint([f.path for f in H.files]) == before, 'data-modified', 'a data file was changed by reading it')


def execute_det(plan, ctx, H):
    from karabo_data import components
    from .. import collops
    from ..model import MColl
    cls = getattr(components, plan['fac']['det']['kind'])
    ctx.armed = True
    W0 = collops.World(ctx, H)
    run = W0.open_run()
    full = MColl(W0.rec)
    made = {}

    def get(W, i):
        if i not in made:
            op = plan['ops'][i]
            real, m = c17.make_base(W, H, run, full, op)
            made[i] = None
            if real is None or not m.tids:
                return None
            D = detector.DetModel(m, op['name'], op['mods'], op['min'])
            if not D.error:
                det = W.call(cls.__name__, lambda: cls(real, detector_name=op['name'], modules=op['mods'], min_modules=op['min']))
                made[i] = (det, D)
        return made[i]
    if plan['early']:
        [get(W0, i) for i in range(len(plan['ops']))]
    with Sched(ctx, plan) as s:
        for i, ops in enumerate(plan['threads']):
            W = collops.World(ctx, H)
            W.rec = W0.rec

            def body(W=W, ops=ops):
                for op in ops:
                    if op['d'] < len(plan['ops']):
                        x = get(W, op['d'])
                        if x:
                            c17.read(W, ctx, x[0], x[1], op['op'], op)
                            ctx.probe('detector_read')
            s.go(body, name='reader-%d' % i)
        s.block(lambda: all(t.done for t in s.threads if t.ix), None, 'all threads')
        ctx.probe('threads', len(plan['threads']))
        ctx.fault('preempted', len(s.out))
