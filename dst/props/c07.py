"""C07: storage errors while reading never become wrong data; reads recover."""
import errno

from .. import facility, opsgen
from ..core import check, rng
from ..shim import A_SHORT, OPEN_R, READ, STAT
from . import base

PROP = 'C07'
RUNS = {'quick': 800, 'thorough': 50000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = 'Histories of reads on a simulated run, with storage errors armed before chosen operations and healed later.'
STATES = 'last three operations x whether they failed x fault armed'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5 (its reads go through the seam)']
STUB = ['the data acquisition (dst/facility.py)', 'storage failures (I/O seam dst/shim.c)']
ASSUMES = ['libhdf5 reports failed reads (its zero filling after an unexpected end of file, '
           'and its stale sieve buffer for contiguous datasets after a failed read, are out of scope)']
warm = base.warm
WEIGHTS = {'open': 1.5, 'select': 2, 'deselect': 1, 'select_trains': 2, 'union': 1, 'train_id': 5, 'train_ix': 1,
           'iter_open': 3, 'iter_next': 6, 'iter_rest': 2, 'array': 5, 'series': 2, 'counts': 2, 'dask': 1, 'keys': 2,
           'close': 1.5}
ERRS = [errno.EIO, errno.EIO, errno.ESTALE, errno.EACCES, errno.EMFILE, errno.ENOMEM, errno.ENOENT, errno.ETIMEDOUT]


def gen(seed, tier):
    r = rng(PROP, seed)
    plan = base.gen_plan(r, WEIGHTS, nops=r.randint(8, 40), neg=0.03)
    # Recorded files are chunked.  (For contiguous datasets libhdf5 itself keeps serving an
    # invalid sieve buffer after a failed read, which no library above it can repair.)
    for a in plan['fac']['aggs']:
        a['chunk'] = a.get('chunk') or 3
    names = [f.name for f in facility.simulate(plan['fac']).files]
    ops = []
    p = r.choice([0.1, 0.25, 0.5])
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'open':
            # (a file that fails while a run is opened is left out: C06)
            ops += [{'op': 'heal'}, op]
        elif i and r.random() < p:
            f = {'op': 'fault', 'ops': r.choice([READ, READ, OPEN_R, READ | OPEN_R]),
                 'pat': r.choice(['.h5', '.h5', r.choice(names)]), 'skip': r.choice([0, 0, 1, 2, 3, 5, 8, 13]),
                 'count': r.choice([1, 1, 2, 5, -1]), 'err': r.choice(ERRS), 'short': r.random() < 0.15}
            ops.append(f)
            ops.append(op)
            if r.random() < 0.6:
                ops.append({'op': 'heal'})
                # the same read again, now with working storage
                if r.random() < 0.8 and 'out' not in op and op['op'] not in ('iter_open', 'iter_next', 'iter_rest'):
                    ops.append(op)
        else:
            ops.append(op)
    ops.append({'op': 'heal'})
    colls = [o['out'] for o in plan['ops'] if o.get('out', '').startswith('c')]
    ops += [{'op': 'recheck', 'c': c} for c in colls]
    plan['ops'] = ops
    return plan


def execute(plan, ctx):
    W = base.make_world(plan, ctx)
    if W is None:
        return
    before = base.fingerprint([f.path for f in W.H.files])
    ctx.armed = True
    sh = ctx.shim
    rules = []

    def fired():
        return sum(sh.fired(i) for i in rules)
    start = [0]
    # an error is acceptable only if the storage failed during this operation
    W.tolerate = lambda e: fired() > start[0]
    last = []
    for op in plan['ops']:
        if op['op'] == 'fault':
            if len(rules) > 28:
                for i in rules:
                    ctx.fault('read_error', sh.fired(i))
                sh.clear()
                rules.clear()
            if op['short']:
                rid = sh.rule(READ, op['pat'], skip=op['skip'], count=op['count'], action=A_SHORT)
                ctx.probe('short_read_armed')
                W.short = rid
            else:
                rules.append(sh.rule(op['ops'], op['pat'], skip=op['skip'], count=op['count'], err=op['err']))
            continue
        if op['op'] == 'heal':
            for i in rules:
                ctx.fault('read_error', sh.fired(i))
            if getattr(W, 'short', None) is not None:
                ctx.fault('short_read', sh.fired(W.short))
                W.short = None
            sh.clear()
            rules.clear()
            continue
        start[0] = fired()
        e0 = W.errors
        W.step(op)
        last = (last + [(op['op'], W.errors > e0)])[-3:]
        ctx.state(last, bool(rules))
        if W.errors > e0:
            ctx.probe('read_failed')
    check(base.fingerprint([f.path for f in W.H.files]) == before, 'data-modified', 'a data file was changed by reading it')
