"""C02: whole-source reads agree with what was recorded."""
from ..core import rng
from . import base

PROP = 'C02'
RUNS = {'quick': 960, 'thorough': 60000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = 'Histories of whole-source reads (array, ROI, dask, series, table, counts) over collections derived from a simulated run.'
STATES = 'last three operations x number of live collections and iterators'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5', 'numpy, pandas, xarray']
STUB = ['the data acquisition that records the files (dst/facility.py)',
        'directory listing order, file times, temporary names (I/O seam dst/shim.c over a scratch directory)']
ASSUMES = ['sequence files are well formed: contiguous indexes, increasing train IDs',
           'the reference model dst/model.py states what users rely on']
WEIGHTS = {'open': 1, 'select': 1, 'deselect': .6, 'select_trains': 3, 'union': 1.2, 'array': 8,
           'series': 6, 'dataframe': 3, 'dask': 3, 'counts': 4, 'train_id': .5, 'close': .3}
warm = base.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    return base.gen_plan(r, WEIGHTS, nops=r.randint(6, 36))


def execute(plan, ctx):
    base.execute(plan, ctx)
