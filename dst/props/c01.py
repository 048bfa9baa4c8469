"""C01: train-oriented reads return exactly what was recorded."""
from .. import facility, opsgen
from ..core import rng
from . import base

PROP = 'C01'
RUNS = {'quick': 960, 'thorough': 60000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = 'Histories of reading by ID, by position and by interleaved iterations over collections derived from a simulated run.'
STATES = 'last three operations x number of live collections and iterators'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5', 'numpy, pandas, xarray']
STUB = ['the data acquisition that records the files (dst/facility.py)',
        'directory listing order, file times, temporary names (I/O seam dst/shim.c over a scratch directory)']
ASSUMES = ['sequence files are well formed: contiguous indexes, increasing train IDs',
           'the reference model dst/model.py states what users rely on']
warm = base.warm
WEIGHTS = {'open': 1, 'select': 2, 'deselect': 1, 'select_trains': 2, 'union': 1, 'train_id': 6,
           'train_ix': 3, 'iter_open': 4, 'iter_next': 8, 'iter_rest': 2, 'close': 0.4, 'keys': 0.5}


def gen(seed, tier):
    r = rng(PROP, seed)
    return base.gen_plan(r, WEIGHTS, nops=r.randint(6, 40))


def execute(plan, ctx):
    base.execute(plan, ctx)
