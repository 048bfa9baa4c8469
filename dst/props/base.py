"""Shared workload: a simulated run directory read through a history of operations."""
import hashlib
import os

from .. import facility, opsgen
from ..core import HarnessError, Violation, check
from ..model import Recorded


def warm():
    import karabo_data
    import xarray, pandas, dask.array   # noqa
    import karabo_data.writer, karabo_data.validation, karabo_data.components   # noqa


def gen_plan(r, weights, nops, fac=None, neg=0.05):
    fac = fac or facility.gen_run(r, strings=True)
    facility.gen_reconf(fac)
    facility.gen_spread(r, fac)
    H = facility.simulate(fac)
    w = dict(weights)
    # swarm: switch off a random subset of operations in some runs
    if r.random() < 0.5:
        for k in list(w):
            if r.random() < 0.3 and k not in ('_req',):
                w[k] = 0.01
    g = opsgen.OpGen(r, H, w, neg=neg)
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': g.history(nops)}


def fingerprint(files):
    out = {}
    for f in files:
        with open(f, 'rb') as fh:
            out[f] = hashlib.sha256(fh.read()).hexdigest()
    return out


def build(plan, ctx):
    """Simulate the facility and write the run directory.

    Sources or aggregators dropped by the shrinker are tolerated."""
    fac = plan['fac']
    names = {s['name'] for s in fac['sources']}
    fac = dict(fac, aggs=[dict(a, sources=[s for s in a['sources'] if s in names])
                          for a in fac['aggs']])
    fac['aggs'] = [a for a in fac['aggs'] if a['sources']]
    H = facility.simulate(fac, ctx)
    if not H.files:
        return None
    facility.write_run(H)
    return H


def make_world(plan, ctx):
    from .. import collops
    H = build(plan, ctx)
    if H is None:
        return None
    return collops.World(ctx, H)


def execute(plan, ctx):
    W = make_world(plan, ctx)
    if W is None:
        return None
    before = fingerprint([f.path for f in W.H.files])
    ctx.armed = True
    last = []
    for op in plan['ops']:
        W.step(op)
        last = (last + [op['op']])[-3:]
        ctx.state(last, len(W.iters), len(W.colls))
    check(fingerprint([f.path for f in W.H.files]) == before, 'data-modified',
          'a data file was changed by reading it')
    return W
