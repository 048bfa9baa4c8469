"""C22: leaving a context closes every data file; collections stay usable and exact afterwards."""
import errno

from .. import facility
from ..core import Violation, check, rng
from ..shim import OPEN_R, READ
from . import base

PROP = 'C22'
RUNS = {'quick': 800, 'thorough': 50000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = 'Histories of reads in and after context blocks, some left by exceptions, some with storage errors inside.'
STATES = 'last three operations x open contexts x files open'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5; descriptors counted at the seam']
STUB = ['the data acquisition (dst/facility.py)', 'storage failures (I/O seam dst/shim.c)']
ASSUMES = ['iterators obtained before leaving a context are not used after it']
warm = base.warm
WEIGHTS = {'open': 1.5, 'select': 3, 'deselect': 1.5, 'select_trains': 2, 'union': 1.5, 'train_id': 5, 'train_ix': 1,
           'iter_open': 3, 'iter_next': 5, 'iter_rest': 2, 'array': 4, 'series': 2, 'counts': 2, 'dask': 1, 'keys': 2,
           'info': .5}


class Left(Exception):
    pass


def gen(seed, tier):
    r = rng(PROP, seed)
    plan = base.gen_plan(r, WEIGHTS, nops=r.randint(8, 36), neg=0.04)
    for a in plan['fac']['aggs']:
        a['chunk'] = a.get('chunk') or 2
    ops, depth = [], 0
    opened = []
    fault = False
    for op in plan['ops']:
        if r.random() < 0.2 and opened and depth < 2:
            ops.append({'op': 'enter', 'c': r.choice(opened)})
            depth += 1
        if depth and r.random() < 0.1:
            ops.append({'op': 'fault', 'ops': r.choice([READ, OPEN_R]), 'pat': '.h5', 'skip': r.randrange(6),
                        'count': r.choice([1, 3, -1]), 'err': r.choice([errno.EIO, errno.ESTALE, errno.EMFILE])})
            fault = True
        if op['op'] == 'open' and fault:
            ops.append({'op': 'heal'})
            fault = False
        ops.append(op)
        if op['op'] == 'open':
            opened.append(op['out'])
        if fault and r.random() < 0.5:
            ops.append({'op': 'heal'})
            fault = False
        if depth and r.random() < 0.3:
            ops.append({'op': 'exit', 'exc': r.random() < 0.3})
            depth -= 1
    ops += [{'op': 'exit', 'exc': False}] * depth + [{'op': 'heal'}]
    colls = [o['out'] for o in plan['ops'] if o.get('out', '').startswith('c')]
    ops += [{'op': 'recheck', 'c': c} for c in r.sample(colls, min(5, len(colls)))]
    plan['ops'] = ops
    return plan


def execute(plan, ctx):
    W = base.make_world(plan, ctx)
    if W is None:
        return
    before = base.fingerprint([f.path for f in W.H.files])
    ctx.armed = True
    sh = ctx.shim
    rules, start = [], [0]

    def fired():
        return sum(sh.fired(i) for i in rules)
    W.tolerate = lambda e: fired() > start[0]
    stack, last = [], []
    roots = {}

    def leave(name, exc):
        real, m = W.colls[name]
        try:
            with sh.live():
                if exc:
                    try:
                        raise Left()
                    except Left as e:
                        r = real.__exit__(Left, e, e.__traceback__)
                        check(not r, 'exception-swallowed', 'the context swallowed an exception from its body')
                else:
                    real.__exit__(None, None, None)
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected-error', 'leaving the context raised %s: %s' % (type(e).__name__, e))
        W.iters.clear()
        ctx.evals += 1
        ctx.probe('left_by_exception' if exc else 'left_normally')
        others = set()
        for n, files in roots.items():
            if n != name:
                others |= files
        for p in roots[name] - others:
            check(sh.open_fds(p) == 0, 'files-left-open', '%s is still open after leaving the context', p)

    for op in plan['ops']:
        k = op['op']
        start[0] = fired()
        if k == 'fault':
            if len(rules) < 28:
                rules.append(sh.rule(op['ops'], op['pat'], skip=op['skip'], count=op['count'], err=op['err']))
            continue
        if k == 'heal':
            ctx.fault('read_error', fired())
            sh.clear()
            rules.clear()
            continue
        if k == 'enter':
            if op['c'] in roots:
                with sh.live():
                    check(W.colls[op['c']][0].__enter__() is W.colls[op['c']][0], 'wrong-object',
                          'entering the context gave another object')
                stack.append(op['c'])
            continue
        if k == 'exit':
            if stack:
                leave(stack.pop(), op['exc'])
            continue
        W.step(op)
        if k == 'open' and op['out'] in W.colls and op['out'] not in roots:
            roots[op['out']] = {f.path for f in W.colls[op['out']][1].files}
        elif op.get('out') in W.colls and W.colls[op['out']][0].ctx_closes and op['out'] not in roots:
            check(False, 'wrong-context', '%s gave a collection usable as a context' % k)
        last = (last + [k])[-3:]
        ctx.state(last, len(stack), sh.open_fds('.h5'))
    with_derived(W, ctx)
    for n in sorted(roots):
        leave(n, False)
    check(sh.open_fds('.h5') == 0, 'files-left-open', '%d data files open after leaving all contexts', sh.open_fds('.h5'))
    # and everything still reads exactly afterwards
    for n in sorted(W.colls)[:4]:
        W.step({'op': 'recheck', 'c': n})
    check(base.fingerprint([f.path for f in W.H.files]) == before, 'data-modified', 'a data file was changed by reading it')


def with_derived(W, ctx):
    """Derived collections refuse to be used as contexts, so they cannot close shared files."""
    for n, (real, m) in sorted(W.colls.items()):
        if not real.ctx_closes:
            try:
                with real:
                    pass
            except Exception:
                ctx.evals += 1
                return
            raise Violation('missing-error', 'a derived collection was accepted as a context')
