"""C14: written files round-trip the selected data; failures while writing are reported."""
from .. import facility, writeops
from ..core import rng
from . import base

PROP = 'C14'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['stages', 'stages.0.ops', 'stages.0.reads', 'stages.1.ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Chains of selecting from a simulated run, writing to a file (in a part of the runs first by a process whose storage '
        'fails or which crashes), and reading back the written file, up to three generations.')
STATES = 'kind of write x trains x sources x files x fault x generation'
REAL = ['karabo_data (reader, writer, validation; unmodified)', 'h5py and the system libhdf5 (all I/O through the seam)']
STUB = ['the data acquisition (dst/facility.py)', 'failures of storage (I/O seam dst/shim.c)']
ASSUMES = ['storage that fails while writing goes on failing until the writer has ended', 'libhdf5 may abort the process when writing fails while it closes a file']
warm = base.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r, strings=True)
    facility.gen_reconf(fac, .2)
    facility.gen_spread(r, fac)
    return {'listseed': r.getrandbits(63), 'fac': fac, 'stages': writeops.gen_chain(r, fac, ['write'], .45)}


def execute(plan, ctx):
    W = base.make_world(plan, ctx)
    if W is None:
        return
    ctx.armed = True
    writeops.Chain(ctx, plan).run(W)
