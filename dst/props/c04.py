"""C04: require_all yields exactly the trains which have all the selected data."""
from .. import facility
from ..core import rng
from . import base

PROP = 'C04'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = 'Histories of selections and complete-train iterations over runs with many lost messages.'
STATES = 'last three operations x number of live collections and iterators'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5', 'numpy, pandas, xarray']
STUB = ['the data acquisition that records the files (dst/facility.py)',
        'directory listing order, file times, temporary names (I/O seam dst/shim.c over a scratch directory)']
ASSUMES = ['sequence files are well formed: contiguous indexes, increasing train IDs',
           'the reference model dst/model.py states what users rely on']
warm = base.warm
WEIGHTS = {'open': 1, 'select': 4, 'deselect': 2, 'select_trains': 2, 'union': 1.5, 'iter_open': 6, 'iter_next': 5,
           'iter_rest': 8, 'close': .3, '_req': .85}


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r, faults=False)
    fac['faults'] = facility.gen_faults(r, fac, rate=r.choice([0, 0.05, 0.15, 0.3, 0.5]))
    if not any(f.tids for f in facility.simulate(fac).files):
        fac['faults'] = []
    return base.gen_plan(r, WEIGHTS, nops=r.randint(6, 36), fac=fac)


def execute(plan, ctx):
    W = base.execute(plan, ctx)
