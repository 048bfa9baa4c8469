"""C03: selections, train ranges and unions follow set algebra; parents never change."""
from ..core import rng
from . import base

PROP = 'C03'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = 'Histories of select / deselect / select_trains / union on simulated runs, old collections rechecked.'
STATES = 'last three operations x number of live collections and iterators'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5', 'numpy, pandas, xarray']
STUB = ['the data acquisition that records the files (dst/facility.py)',
        'directory listing order, file times, temporary names (I/O seam dst/shim.c over a scratch directory)']
ASSUMES = ['sequence files are well formed: contiguous indexes, increasing train IDs',
           'the reference model dst/model.py states what users rely on']
warm = base.warm
WEIGHTS = {'open': 1.2, 'select': 7, 'deselect': 6, 'select_trains': 6, 'union': 5, 'keys': 2, 'train_id': 1.5,
           'iter_open': 1, 'iter_next': 1, 'iter_rest': 1, 'counts': .6, 'array': .6, 'recheck': 2}


def gen(seed, tier):
    r = rng(PROP, seed)
    plan = base.gen_plan(r, WEIGHTS, nops=r.randint(8, 45), neg=0.08)
    for op in plan['ops']:
        if op['op'] == 'select' and r.random() < .03:
            op['odd'] = 1
    return plan


def execute(plan, ctx):
    base.execute(plan, ctx)
