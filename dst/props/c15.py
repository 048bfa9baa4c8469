"""C15: virtual files and virtual datasets show exactly the selected data."""
from .. import facility, writeops
from ..core import rng
from . import base

PROP = 'C15'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['stages', 'stages.0.ops', 'stages.0.reads', 'stages.1.ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Chains of selecting from a simulated run and making virtual files or virtual datasets, or real copies of virtual '
        'files, in a part of the runs first by a process whose storage fails or which crashes.')
STATES = 'kind of write x trains x sources x files x fault x generation'
REAL = ['karabo_data (reader, writer, validation; unmodified)', 'h5py and the system libhdf5 (all I/O through the seam)']
STUB = ['the data acquisition (dst/facility.py)', 'failures of storage (I/O seam dst/shim.c)']
ASSUMES = ['storage that fails while writing goes on failing until the writer has ended', 'the original files stay in place', 'libhdf5 may abort the process when writing fails while it closes a file']
warm = base.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r, strings=True)
    facility.gen_reconf(fac, .2)
    facility.gen_spread(r, fac)
    return {'listseed': r.getrandbits(63), 'fac': fac, 'rel': r.random() < .25,
            'stages': writeops.gen_chain(r, fac, ['virtual', 'virtual', 'vds', 'vds', 'write'], .2)}


def execute(plan, ctx):
    W = base.make_world(plan, ctx)
    if W is None:
        return
    W.relative = bool(plan.get('rel'))
    ctx.armed = True
    writeops.Chain(ctx, plan).run(W)
