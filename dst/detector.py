"""Simulated multi-module detectors, and a reference model of their combined data."""
import re

import numpy as np

from . import facility
from .core import check
from .model import MColl, describe

DETS = {'AGIPD1M': ['SPB_DET_AGIPD1M-1', 'MID_DET_AGIPD1M-1'], 'LPD1M': ['FXE_DET_LPD1M-1'], 'DSSC1M': ['SCS_DET_DSSC1M-1']}


def keys_for(kind, layout, ss, fs):
    if layout == 'raw':
        ng = 2 if kind == 'AGIPD1M' else 1
        return [['image.pulseId', 'u8', [1], 'pulseId'], ['image.cellId', 'u2', [1], 'cellId'],
                ['image.trainId', 'u8', [1], 'trainId'], ['image.status', 'u2', [1]], ['image.length', 'u4', [1]],
                ['image.data', 'u2', [ng, ss, fs]], ['header.trainId', 'u8', [], 'trainId'],
                ['header.pulseCount', 'u8', []], ['detector.trainId', 'u8', [], 'trainId'],
                ['trailer.status', 'u4', []]]
    one = [1] if layout == 'proc1' else []
    return [['image.pulseId', 'u8', one, 'pulseId'], ['image.cellId', 'u2', one, 'cellId'],
            ['image.trainId', 'u8', one, 'trainId'], ['image.data', 'f4', [ss, fs]], ['image.gain', 'u1', [ss, fs]],
            ['image.mask', 'u4', [ss, fs]], ['header.pulseCount', 'u8', []], ['header.trainId', 'u8', [], 'trainId']]


def gen_det(r, second=0.15, shape=None, faults=True, nmods=None):
    """A run with a detector: each module is recorded by an aggregator of its own."""
    n = r.randint(2, 10)
    kind = r.choice(['AGIPD1M', 'AGIPD1M', 'LPD1M', 'DSSC1M'])
    layout = r.choice(['raw', 'raw', 'proc', 'proc1'])
    ss, fs = shape or r.choice([(3, 4), (2, 3), (4, 2)])
    t0 = r.choice([10000, 142844490, 1 << 33])
    dir = '/gpfs/exfel/exp/SPB/201901/p002012/%s/r%04d' % ('raw' if layout == 'raw' else 'proc', r.randint(1, 30))
    sources, aggs = [], []
    dets = [(kind, DETS[kind][0])]
    if kind == 'AGIPD1M' and r.random() < second:
        dets.append((kind, DETS[kind][1]))
    for j, (kd_, name) in enumerate(dets):
        k = r.choice([1, 2, 3, 4, 5])
        pulses = sorted(r.sample(range(0, 16), k))
        vary = r.choice([0, 0, 0, 2, 3])
        mods = sorted(r.sample(range(16), nmods or r.choice([1, 2, 3, 4, 4, 6])))
        keys = keys_for(kd_, layout, ss, fs)
        if r.random() < .15:      # corrected, but without the gain stages
            keys = [x for x in keys if x[0] not in ('image.gain', 'image.mask')]
        if r.random() < .15:
            dt = r.choice(['f4', 'f8', 'i4', 'u2', 'i2'])
            keys = [[x[0], dt] + x[2:] if x[0] == 'image.data' else x for x in keys]
        if r.random() < .3:
            keys = [x for x in keys if x[0].startswith('image.p') or x[0] in ('image.data', 'image.gain', 'image.cellId') or r.random() < .5]
        groups = sorted({x[0].partition('.')[0] for x in keys})
        for m in mods:
            src = '%s/DET/%dCH0:xtdf' % (name, m)
            sources.append({'name': src, 'cat': 'i', 'keys': keys, 'freq': {g: (k if g == 'image' else 1) for g in groups},
                            'pulses': pulses, 'vary': vary, 'det': name})
            a = facility.gen_agg(r, '%s%02d' % (kd_[:-2] + (str(j) if j else ''), m), [src], n)
            a['prefix'] = 'RAW' if layout == 'raw' else 'CORR'
            aggs.append(a)
    if r.random() < .4:
        c = facility.gen_source_control(r, facility.CTRL_NAMES[0])
        sources.append(c)
        aggs.append(facility.gen_agg(r, 'DA01', [c['name']], n))
    plan = {'dir': dir, 'run': dir[-5:], 'prop': 'p002012', 't0': t0, 'n': n, 'sources': sources, 'aggs': aggs,
            'faults': [], 'det': {'kind': kind, 'names': [x[1] for x in dets], 'layout': layout}}
    if faults:
        plan['faults'] = [f for f in facility.gen_faults(r, plan) if f['k'] != 'count']
        if r.random() < .05:      # one module counts differently: must be refused
            s = r.choice([s for s in sources if s.get('det')])
            plan['faults'].append({'k': 'count', 'src': s['name'], 'grp': 'image', 't': r.randrange(n), 'n': 6})
    if not any(f.tids for f in facility.simulate(plan).files):
        plan['faults'] = []
    return plan


def odd_module(r, fac):
    """One module's data is of another type."""
    s = r.choice([s for s in fac['sources'] if s.get('det')])
    was = next(k[1] for k in s['keys'] if k[0] == 'image.data')
    dt = r.choice([x for x in ('f4', 'f8', 'i4', 'u2', 'i2', 'u1') if x != was])
    s['keys'] = [[k[0], dt] + k[2:] if k[0] == 'image.data' else k for k in s['keys']]


class DetModel:
    """What a detector interface on a collection (MColl) has to provide."""
    def __init__(self, m, name=None, modules=None, min_modules=1):
        self.error = None
        dets = {re.match(r'(.+)/DET/', s).group(1) for s in m.sel if '/DET/' in s}
        if name is None:
            if not dets:
                self.error = ['SourceNameError', 'KeyError']
                return
            if len(dets) > 1:
                self.error = ['ValueError']
                return
            name = dets.pop()
        self.name = name
        self.mods = {}
        for s in m.sel:
            g = re.match(re.escape(name) + r'/DET/(\d+)CH', s)
            if g and (modules is None or int(g.group(1)) in modules):
                self.mods[s] = int(g.group(1))
        if not self.mods:
            self.error = ['SourceNameError', 'KeyError']
            return
        m = m.with_sources({s: m.sel[s] for s in self.mods})
        self.tids, counts = [], set()
        for t in m.tids:
            here = [m.count(s, 'image.data', t) for s in self.mods if t in m.may_tids(s)]
            counts |= set(here) - {0}
            if sum(c > 0 for c in here) >= min_modules:
                self.tids.append(t)
        if len(counts) != 1 or not self.tids:
            self.error = ['ValueError']
            return
        self.fpt = counts.pop()
        self.m = m.select_trains(['id_list', self.tids])
        self.mods = {s: no for s, no in self.mods.items() if s in self.m.sel}

    def has(self, s, key, t):
        return self.m.count(s, key, t) if s in self.m.sel and t in self.m.may_tids(s) else 0

    def complete(self, t):
        return all(self.has(s, k, t) for s in self.m.sel for k in self.m.sel[s])

    def present(self, t):
        return {no for s, no in self.mods.items() if self.has(s, 'image.data', t)}

    def frames(self, s, key, t, pulses):
        """Selected frames of one module in one train: [(pulse ID, sample)]."""
        src = self.m.src(s)
        out = []
        n = self.has(s, key, t)
        for i in range(n):
            p = src.pulse_id(t, i)
            if chosen(pulses, i, p):
                a = src.sample(key, t, i)
                out.append((p, a[0] if a.ndim and a.shape[0] == 1 else a))
        return out


def chosen(pulses, i, p):
    kind, v = pulses
    x = p if kind == 'id' else i
    if isinstance(v, dict):
        a, b, c = v['s']
        a, b, c = a or 0, 2700 if b is None else b, c or 1
        return a <= x < b and (x - a) % c == 0
    if isinstance(v, int):
        return x == v
    return x in v


def real_pulses(pulses):
    from karabo_data import by_id, by_index
    kind, v = pulses
    if kind == 'wrong':
        return [5, slice(0, 2), [1, 2], by_index[0.5:2.0], by_id[::-1], by_id[::0], by_index[3:0:-1]][v]
    by = by_id if kind == 'id' else by_index
    if isinstance(v, dict):
        return by[slice(*v['s'])]
    if isinstance(v, list) and v and len(v) % 2:
        return by[np.array(v, dtype='i8' if min(v) < 0 else 'u8')]
    return by[v]


def gen_pulses(r, src):
    kind = r.choice(['id', 'ix'])
    hi = max(src['pulses']) + 4 if kind == 'id' else len(src['pulses']) + 2
    if r.random() < .04:
        return [kind, r.choice([-1, [-1], [-2, 1], [0, -1], {'s': [-2, None, None]}, {'s': [None, -1, None]}])]
    if r.random() < .03:
        return ['wrong', r.randrange(7)]
    k = r.choice(['all', 'all', 'slice', 'slice', 'step', 'int', 'list', 'list', 'empty', 'far'])
    if k == 'all':
        return [kind, {'s': [None, None, None]}]
    if k == 'int':
        return [kind, r.randrange(hi) if r.random() < .4 or kind == 'ix' else r.choice(src['pulses'])]
    if k == 'list':
        pool = list(range(hi)) if r.random() < .5 or kind == 'ix' else src['pulses']
        return [kind, sorted(r.sample(pool, r.randint(1, min(4, len(pool)))))]
    if k == 'empty':
        return [kind, {'s': [0, 0, None]}]
    if k == 'far':
        return [kind, {'s': [r.randint(1, 40), r.choice([None, 50]), None]}]
    a, b = sorted([r.randrange(hi + 1), r.randrange(hi + 1)])
    return [kind, {'s': [r.choice([a, None]), r.choice([b, b, None]), r.choice([2, 3]) if k == 'step' else r.choice([None, 1])]}]


def expected(D, key, pulses, mods, tids, ps, shape):
    e = np.full((len(mods), len(tids), len(ps)) + shape, np.nan)
    mi, ti, pi = ({x: i for i, x in enumerate(l)} for l in (mods, tids, ps))
    for s, no in D.mods.items():
        for t in D.tids if tids is None else tids:
            for p, a in D.frames(s, key, t, pulses):
                e[mi[no], ti[t], pi[p]] = a
    return e


def check_frames(D, key, pulses, arr, tids, what):
    """An array with axes module, train, pulse (and those of a frame)."""
    src = next(iter(D.mods))
    k = D.m.H.sources[src].keys[key]
    shape = k.shape[1:] if k.shape and k.shape[0] == 1 else k.shape
    want = {}
    for s, no in D.mods.items():
        for t in tids:
            for p, a in D.frames(s, key, t, pulses):
                want[(no, t, p)] = a
    pulse_any = {p for (_, _, p) in want}
    check(arr.dims[:3] == ('module', 'train', 'pulse'), 'wrong-axes', '%s: axes %s', what, arr.dims)
    if not want:
        check(arr.size == 0 or bool(np.isnan(arr.values.astype('f8')).all()), 'invented-data',
              '%s: no frame is selected, got %s', what, describe(arr.values))
        return 0
    check(arr.shape[3:] == shape, 'wrong-shape', '%s: frames have shape %s, recorded %s', what, arr.shape[3:], shape)
    mods, ts, ps = ([int(x) for x in arr.coords[c].values] for c in ('module', 'train', 'pulse'))
    for nm, l, allowed, need in (('module', mods, set(D.mods.values()), {a for a, _, _ in want}),
                                 ('train', ts, set(tids), {b for _, b, _ in want}), ('pulse', ps, pulse_any, pulse_any)):
        check(len(set(l)) == len(l), 'wrong-labels', '%s: %s labels %s repeat', what, nm, l)
        check(set(l) <= allowed, 'wrong-labels', '%s: %s labels %s, allowed %s', what, nm, l, sorted(allowed))
        check(need <= set(l), 'lost-data', '%s: %s labels %s lack some of %s', what, nm, l, sorted(need))
    exp = np.full((len(mods), len(ts), len(ps)) + shape, np.nan)
    mi, ti, pi = ({x: i for i, x in enumerate(l)} for l in (mods, ts, ps))
    for (no, t, p), a in want.items():
        exp[mi[no], ti[t], pi[p]] = a
    got = arr.values.astype('f8')
    bad = ~((got == exp) | (np.isnan(got) & np.isnan(exp)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        check(False, 'wrong-frame', '%s: module %d train %d pulse %d: got %s at %s, recorded %s', what, mods[i[0]], ts[i[1]],
              ps[i[2]], got[i], i[3:], exp[i])
    types = {D.m.H.sources[s].keys[key].dtype for s in D.mods}
    if len(types) == 1 and len(want) == exp.size // max(1, int(np.prod(shape))):
        check(arr.dtype == k.dtype, 'wrong-type', '%s: %s, recorded %s', what, arr.dtype, k.dtype)
    return len(want)


def check_slow(D, key, arr, tids, what, train_axis=True):
    """Per-train data: axes module and trainId (or only module)."""
    src = next(iter(D.mods))
    k = D.m.H.sources[src].keys[key]
    want = {}
    for s, no in D.mods.items():
        for t in tids:
            if D.has(s, key, t):
                want[(no, t)] = D.m.H.sources[s].sample(key, t, 0)
    mods = [int(x) for x in arr.coords['module'].values]
    check(set(mods) <= set(D.mods.values()) and len(set(mods)) == len(mods), 'wrong-labels', '%s: modules %s', what, mods)
    if train_axis:
        check(arr.dims[:2] == ('module', 'trainId'), 'wrong-axes', '%s: axes %s', what, arr.dims)
        ts = [int(x) for x in arr.coords['trainId'].values]
    else:
        check(arr.dims[:1] == ('module',), 'wrong-axes', '%s: axes %s', what, arr.dims)
        ts = [tids[0]]
    check(set(ts) <= set(tids), 'wrong-labels', '%s: trains %s, allowed %s', what, ts, tids)
    got = arr.values.astype('f8')
    if not train_axis:
        got = got[:, None]
    exp = np.full((len(mods), len(ts)) + k.shape, np.nan)
    for (no, t), a in want.items():
        check(no in mods and t in ts, 'lost-data', '%s: module %d train %d is recorded but not included', what, no, t)
        exp[mods.index(no), ts.index(t)] = a
    check(got.shape == exp.shape, 'wrong-shape', '%s: shape %s, expected %s', what, got.shape, exp.shape)
    check(bool(((got == exp) | (np.isnan(got) & np.isnan(exp))).all()), 'wrong-value', '%s: got %s, recorded %s',
          what, describe(got), describe(exp))
    return len(want)
