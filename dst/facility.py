"""Simulated data-acquisition facility.

Devices emit one message per train (10 Hz, virtual time) towards aggregators,
each of which writes a series of sequence files.  The plan's explicit fault
list loses messages, stops and restarts aggregators, and so on.  The result is
a run directory in the European XFEL file format plus the complete recorded
history: which samples of which source were written for which train.
"""
import os
import random
import zlib

import h5py
import numpy as np

from .core import EPOCH0, TRAIN_RATE, HarnessError

DET_SHAPES = {'AGIPD': (512, 128), 'LPD': (256, 256), 'DSSC': (128, 512)}


def value(source, key, tid, pulse, dtype, shape):
    """The sample produced by a source for one entry: a pure function."""
    dt = np.dtype(dtype)
    size = int(np.prod(shape)) if shape else 1
    if dt.kind in 'OS':
        h = zlib.crc32(('%s|%s|%d|%d' % (source, key, tid, pulse)).encode())
        text = [b'', b'ON', b'ERROR', b'INIT', b'caf\xc3\xa9', b'MOVING-%d' % (h % 997)][(h >> 8) % 6]
        return np.array(text, dtype=dt)
    h = zlib.crc32(('%s|%s|%d|%d' % (source, key, tid, pulse)).encode())
    v = (h + np.arange(size, dtype=np.uint64) * np.uint64(2654435761)) % np.uint64(1 << 32)
    if dt.kind == 'f':
        a = ((v % np.uint64(1 << 20)).astype(np.int64) - (1 << 19)) / 16.0
        a = a.astype(dt)
    elif dt.kind == 'b':
        a = (v % np.uint64(2)).astype(dt)
    elif dt.kind == 'i':
        bits = min(8 * dt.itemsize, 32)
        a = ((v % np.uint64(1 << bits)).astype(np.int64) - (1 << (bits - 1))).astype(dt)
    else:
        bits = min(8 * dt.itemsize, 32)
        a = (v % np.uint64(1 << bits)).astype(dt)
    return a.reshape(shape)


class Key:
    __slots__ = ('name', 'dtype', 'shape', 'special')

    def __init__(self, name, dtype, shape, special=None):
        self.name, self.dtype, self.shape = name, np.dtype('O' if dtype == 'str' else dtype), tuple(shape)
        self.special = special


class Source:
    def __init__(self, d):
        self.name = d['name']
        self.control = d['cat'] == 'c'
        self.keys = {k[0]: Key(*k) for k in d['keys']}
        self.freq = d.get('freq', {})       # group -> entries per train
        self.pulses = d.get('pulses')       # pulse ids, for pulse-resolved groups
        self.det = d.get('det')
        self.vary = d.get('vary')           # the pulse pattern moves from train to train
        self.later = {}                     # key -> [(train ID, Key)]: the device was reconfigured

    def group(self, key):
        return '' if self.control else key.partition('.')[0]

    @property
    def groups(self):
        return sorted({self.group(k) for k in self.keys})

    def pulse_id(self, tid, i):
        p = self.pulses[i] if i < len(self.pulses) else 50 + i
        return p + (tid % self.vary if self.vary else 0)

    def key_at(self, key, tid):
        k = self.keys[key]
        for t, k2 in self.later.get(key, ()):
            if tid >= t:
                k = k2
        return k

    def sample(self, key, tid, i):
        k = self.key_at(key, tid)
        if k.special == 'pulseId':
            return np.full(k.shape, self.pulse_id(tid, i), k.dtype)
        if k.special == 'trainId':
            return np.full(k.shape, tid, k.dtype)
        if k.special == 'cellId':
            return np.full(k.shape, i + 1, k.dtype)
        return value(self.name, key, tid, i, k.dtype, k.shape)


class FileRec:
    """One sequence file as recorded."""
    def __init__(self, path, agg, seq):
        self.path, self.agg, self.seq = path, agg, seq
        self.opened = 0       # train ID when the file was created
        self.tids = []
        self.counts = {}      # (source, group) -> [count per train]

    @property
    def name(self):
        return os.path.basename(self.path)


class History:
    """Ground truth of a simulated run directory."""
    def __init__(self, plan):
        self.plan = plan
        self.dir = plan['dir']
        self.sources = {d['name']: Source(d) for d in plan['sources']}
        self.files = []

    def file_sources(self, f):
        return self.plan_aggs[f.agg]['sources']

    @property
    def plan_aggs(self):
        return {a['id']: a for a in self.plan['aggs']}

    def array(self, source, key, tid, count):
        """Samples recorded for a train: shape (count,) + entry shape."""
        s = self.sources[source]
        k = s.key_at(key, tid)
        if count == 0:
            return np.empty((0,) + k.shape, k.dtype)
        return np.stack([s.sample(key, tid, i) for i in range(count)])


def expand_faults(faults):
    by = {}
    for f in faults:
        by.setdefault(f['k'], []).append(f)
    return by


def new_file(H, plan, a, seq, t):
    path = '%s/%s-%s-%s-S%05d.h5' % (plan['dir'], a.get('prefix', 'RAW'), plan['run'].upper(), a.get('fid', a['id']), seq)
    f = FileRec(path, a['id'], seq)
    f.opened = plan['t0'] + t
    H.files.append(f)
    for s in a['sources']:
        for g in H.sources[s].groups:
            f.counts[(s, g)] = []
    return f


def simulate(plan, ctx=None):
    """Run the DAQ for plan['n'] trains; returns the History (no I/O)."""
    H = History(plan)
    by = expand_faults(plan.get('faults', []))
    lost_trains = {(f['agg'], t) for f in by.get('outage', ()) for t in range(f['t0'], f['t1'])}
    lost_trains |= {(f['agg'], f['t']) for f in by.get('drop_train', ())}
    skipped = {f['t'] for f in by.get('skip_tid', ())}
    lost_msgs = {(f['src'], f['grp'], f['t']) for f in by.get('drop_src', ())}
    restarts = {(f['agg'], f['t']) for f in by.get('restart', ())}
    extra = {(f['src'], f['grp'], f['t']): f['n'] for f in by.get('count', ())}
    bursts = {}
    for f in sorted(by.get('frames', ()), key=lambda f: f['t']):
        # the machine or the device is set to other numbers of pulses from now on
        bursts.setdefault((f['src'], f['grp']), []).append((f['t'], f['n']))
        if ctx:
            ctx.fault('pulses_changed')
    empties = {(f['agg'], f['t']) for f in by.get('empty_file', ())}
    reconf = set()
    for f in sorted(by.get('reconf', ()), key=lambda f: f['t']):
        if f['src'] in H.sources and f['key'] in H.sources[f['src']].keys:
            # a device sends other data from now on: aggregators start new files
            H.sources[f['src']].later.setdefault(f['key'], []).append(
                (plan['t0'] + f['t'], Key(f['key'], f['dtype'], f['shape'])))
            reconf.add((f['src'], f['t']))
            if ctx:
                ctx.fault('device_reconfigured')

    for a in plan['aggs']:
        cur, seq = None, 0
        for t in range(a.get('start', 0), a.get('stop', plan['n'])):
            if any((s, t) in reconf for s in a['sources']):
                cur = None
            if (a['id'], t) in empties:
                # the aggregator opened a sequence file and got nothing to write
                if ctx:
                    ctx.fault('daq_empty_file')
                new_file(H, plan, a, seq, t)
                seq += 1
                cur = None
            if t in skipped:
                continue
            if (a['id'], t) in restarts:
                if ctx:
                    ctx.fault('daq_restart')
                cur = None
            if (a['id'], t) in lost_trains:
                if ctx:
                    ctx.fault('daq_train_lost')
                continue
            if cur is not None and len(cur.tids) >= a['per_file']:
                cur = None
            if cur is None:
                cur = new_file(H, plan, a, seq, t)
                seq += 1
            cur.tids.append(plan['t0'] + t)
            for s in a['sources']:
                src = H.sources[s]
                for g in src.groups:
                    if src.control:
                        n = 1
                    elif (s, g, t) in lost_msgs:
                        n = 0
                        if ctx:
                            ctx.fault('daq_message_lost')
                    else:
                        n = src.freq.get(g, 1)
                        for t1, n1 in bursts.get((s, g), ()):
                            if t >= t1:
                                n = n1
                        n = extra.get((s, g, t), n)
                    cur.counts[(s, g)].append(n)
    if ctx:
        ctx.advance(plan['n'] / TRAIN_RATE)
    if plan.get('second') is not None or plan.get('shuffle') is not None:
        spread(H, plan)
    return H


def spread(H, plan):
    """Recording went on in a second run directory; sequence numbers need not follow the trains."""
    r = random.Random(plan.get('shuffle') or 0)
    by = {}
    for f in H.files:
        second = plan.get('second') is not None and f.tids and f.tids[0] - plan['t0'] >= plan['second']
        f.dir = plan['dir2'] if second else plan['dir']
        by.setdefault((f.dir, f.agg), []).append(f)
    aggs = {a['id']: a for a in plan['aggs']}
    for (d, a), files in by.items():
        seqs = list(range(len(files)))
        if plan.get('shuffle') is not None:
            r.shuffle(seqs)
        run = plan['run'] if d == plan['dir'] else plan['run2']
        for f, q in zip(files, seqs):
            a = aggs[f.agg]
            f.path = '%s/%s-%s-%s-S%05d.h5' % (d, a.get('prefix', 'RAW'), run.upper(), a.get('fid', a['id']), q)


class _Chunked:
    """Writes datasets in the chunked layout, as files written train by train have."""
    def __init__(self, h, n):
        self.h, self.n = h, n

    def __setitem__(self, name, a):
        a = np.asarray(a)
        dt = VLEN if a.dtype.kind == 'O' else a.dtype
        kw = {}
        if self.n:
            kw = dict(maxshape=(None,) + a.shape[1:], chunks=(max(1, min(self.n, len(a))),) + a.shape[1:])
        ds = self.h.create_dataset(name, a.shape, dtype=dt, **kw)
        if a.size:
            ds[:] = a


VLEN = h5py.special_dtype(vlen=bytes)


def write_file(H, f, agg, path=None):
    """Write one sequence file in the European XFEL format."""
    plan = H.plan
    new_fmt = agg.get('fmt', '1.0') != '0.5'
    old_idx = agg.get('idx') == 'old'
    pad = agg.get('pad', 0)
    n = len(f.tids)
    N = n + pad

    def padded(a, fill=0):
        a = np.asarray(a)
        if not pad:
            return a
        if a.dtype.kind in 'OS':
            fill = b''
        return np.concatenate([a, np.full((pad,) + a.shape[1:], fill, a.dtype)])

    chunk = agg.get('chunk', 0)

    with h5py.File(path or f.path, 'w') as h0:
        h = _Chunked(h0, chunk)
        h['INDEX/trainId'] = padded(np.array(f.tids, dtype='u8'))
        ids = []
        for s in agg['sources']:
            src = H.sources[s]
            for g in src.groups:
                counts = np.array(f.counts[(s, g)], dtype='u8')
                firsts = np.zeros(n, 'u8')
                if n:
                    firsts[1:] = np.cumsum(counts)[:-1]
                ip = 'INDEX/%s/%s' % (s, g) if g else 'INDEX/' + s
                h[ip + '/first'] = padded(firsts)
                if old_idx:
                    last = firsts.copy()
                    nz = counts > 0
                    last[nz] = firsts[nz] + counts[nz] - np.uint64(1)
                    h[ip + '/last'] = padded(last)
                    h[ip + '/status'] = padded(nz.astype('i4'))
                else:
                    h[ip + '/count'] = padded(counts)
                ids.append(('CONTROL/' + s) if src.control else
                           ('INSTRUMENT/%s/%s' % (s, g)))
            for key in src.keys:
                k = src.key_at(key, f.opened)
                g = src.group(key)
                counts = f.counts[(s, g)]
                if src.control:
                    data = [src.sample(key, t, 0) for t in f.tids]
                    data = np.stack(data) if data else np.empty((0,) + k.shape, k.dtype)
                    data = padded(data)
                    h['CONTROL/%s/%s' % (s, key.replace('.', '/'))] = data
                    h['RUN/%s/%s' % (s, key.replace('.', '/'))] = data[:1]
                else:
                    parts = [src.sample(key, t, i) for t, c in zip(f.tids, counts)
                             for i in range(c)]
                    m = len(parts)
                    data = np.stack(parts) if parts else np.empty((0,) + k.shape, k.dtype)
                    dpad = agg.get('dpad', 0)
                    if dpad:
                        data = np.concatenate([data, np.zeros((dpad,) + k.shape, k.dtype)])
                    h['INSTRUMENT/%s/%s' % (s, key.replace('.', '/'))] = data
        pre = 'METADATA/dataSources' if new_fmt else 'METADATA'
        vlen = h5py.special_dtype(vlen=bytes)
        idpad = ids + [''] * agg.get('idpad', 0)
        for nm, vals in (('dataSourceId', idpad),
                         ('root', [i.partition('/')[0] for i in idpad]),
                         ('deviceId', [i.partition('/')[2] for i in idpad])):
            ds = h0.create_dataset('%s/%s' % (pre, nm), (len(idpad),), dtype=vlen,
                                  maxshape=(None,))
            if idpad:
                ds[:] = [v.encode() for v in vals]
        if new_fmt:
            h['METADATA/dataFormatVersion'] = np.array([b'1.0'])


def make_tree(plan, links, scratch):
    """Directories of a proposal as at European XFEL: raw and proc are links to bulk storage."""
    exp = os.path.dirname(os.path.dirname(plan['dir']))           # .../exp/INSTR/CYCLE/PROP
    inst, cycle, prop = exp.split('/')[-3:]
    os.makedirs(exp, exist_ok=True)
    if links:
        for kind in ('raw', 'proc'):
            os.makedirs('/gpfs/exfel/d/%s/%s/%s/%s' % (kind, inst, cycle, prop), exist_ok=True)
            if not os.path.lexists(exp + '/' + kind):
                os.symlink('../../../../d/%s/%s/%s/%s' % (kind, inst, cycle, prop), exp + '/' + kind)
    if scratch:
        os.makedirs(exp + '/scratch', exist_ok=True)
    os.makedirs(plan['dir'], exist_ok=True)
    return exp


def write_run(H, ctx=None):
    os.makedirs(H.dir, exist_ok=True)
    aggs = H.plan_aggs
    for i, f in enumerate(H.files):
        os.makedirs(os.path.dirname(f.path), exist_ok=True)
        write_file(H, f, aggs[f.agg])
        stamp(f.path, i)


def stamp(path, i, when=EPOCH0):
    """Give a file a deterministic modification time from the virtual clock."""
    t = int((when + i) * 1e9) + 123456000 * (i % 7)
    os.utime(path, ns=(t, t))


# ------------------------------------------------------------------
# Plan generation

CTRL_NAMES = ['SA1_XTD2_XGM/DOOCS/MAIN', 'SPB_XTD9_XGM/DOOCS/MAIN', 'SPB_IRU_CAM/CAM/SIDEMIC',
              'FXE_XAD_GEC/MOTOR/X', 'SA3_XTD10_VAC/TSENS/S30100K', 'MID_EXP/PUMP/1', 'MID_EXP/PUMP/10']
INST_NAMES = ['SA1_XTD2_XGM/XGM/DOOCS:output', 'SPB_EXP_ADC/ADC/1:network', 'FXE_XAD_GEC/CAM/CAMERA:daqOutput',
              'SCS_CDIFFT/CAM/BPM:daqOutput', 'SA3_PES/ADC/1:network']
CTRL_KEYS = ['beamPosition.ixPos', 'beamPosition.iyPos', 'pressure', 'x.y.actualPosition', 'pulseEnergy.photonFlux',
             'current']
INST_KEYS = ['intensityTD', 'adc', 'image.pixels', 'xTD', 'meta.flag', 'samples']
DTYPES = ['f4', 'f8', 'u1', 'u2', 'u4', 'u8', 'i2', 'i4', 'i8']


def gen_source_control(r, name, strings=False):
    keys = []
    if strings and r.random() < .5:
        keys.append(['state.value', r.choice(['str', 'str', 'S12']), []])
    for kn in r.sample(CTRL_KEYS, r.randint(1, 3)):
        shape = r.choice([[], [], [], [], [3], [2, 3]])
        keys.append([kn + '.value', r.choice(DTYPES), shape])
        if r.random() < 0.7:
            keys.append([kn + '.timestamp', 'u8', []])
    return {'name': name, 'cat': 'c', 'keys': keys}


def gen_source_inst(r, name):
    """Instrument source with one or two groups; each group has its own index."""
    keys, freq, pulses = [], {}, None
    for g in r.sample(['data', 'image', 'raw', 'data2'], r.choice([1, 1, 2])):
        f = r.choice([1, 1, 1, 0, 2, 3])
        freq[g] = f
        for kn in r.sample(INST_KEYS, r.randint(1, 3)):
            shape = r.choice([[], [], [4], [2, 3], [3, 2, 2]])
            keys.append(['%s.%s' % (g, kn), r.choice(DTYPES), shape])
        if r.random() < 0.6:
            keys.append(['%s.trainId' % g, 'u8', [], 'trainId'])
    return {'name': name, 'cat': 'i', 'keys': keys, 'freq': freq}


def gen_source_pulsed(r, name):
    """Pulse-resolved source in raw detector layout: (n, 1) columns + pulseId."""
    k = r.choice([1, 2, 3, 4, 4])
    keys = [['image.pulseId', 'u8', [1], 'pulseId'], ['image.cellId', 'u2', [1], 'cellId'],
            ['image.status', 'u2', [1]], ['image.trainId', 'u8', [1], 'trainId'],
            ['image.data', 'u2', [1, 3, 4]], ['header.trainId', 'u8', [], 'trainId'],
            ['header.pulseCount', 'u8', []]]
    return {'name': name, 'cat': 'i', 'keys': keys, 'freq': {'image': k, 'header': 1},
            'pulses': sorted(r.sample(range(0, 20), 8))}


def gen_run(r, dir=None, size='m', pulsed=0.4, faults=True, strings=False):
    n = r.randint(2, 8) if size == 's' else r.randint(4, 24)
    t0 = r.choice([10000, 10000, 142844490, 1 << 33])
    prop, run = 'p%06d' % r.randint(2000, 2020), 'r%04d' % r.randint(1, 30)
    inst = r.choice(['SPB', 'FXE', 'SCS'])
    dir = dir or '/gpfs/exfel/exp/%s/201901/%s/raw/%s' % (inst, prop, run)
    nctrl = r.choice([0, 1, 1, 2, 3])
    ninst = r.choice([0, 1, 1, 2, 2]) if nctrl else r.choice([1, 2])
    sources = [gen_source_control(r, nm, strings) for nm in r.sample(CTRL_NAMES, nctrl)]
    inst_names = r.sample(INST_NAMES, ninst)
    if inst_names and r.random() < .35:
        # one device often has both properties and output channels
        dev = inst_names[0].partition(':')[0]
        if r.random() < .8:
            sources.append(gen_source_control(r, dev, strings))
        if r.random() < .4:
            inst_names.append(dev + ':' + r.choice(['out', 'output2', 'network1']))
    sources += [gen_source_inst(r, nm) for nm in inst_names]
    if r.random() < pulsed:
        for m in range(r.choice([1, 1, 2])):
            sources.append(gen_source_pulsed(r, 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf' % m))
    r.shuffle(sources)
    names = [s['name'] for s in sources]
    naggs = r.choice([1, 2, 2, 3])
    aggs = []
    for i in range(naggs):
        mine = names[i::naggs]
        if not mine:
            continue
        aggs.append(gen_agg(r, 'DA%02d' % (i + 1), mine, n))
    plan = {'dir': dir, 'run': run, 'prop': prop, 't0': t0, 'n': n,
            'sources': sources, 'aggs': aggs, 'faults': []}
    if faults:
        plan['faults'] = gen_faults(r, plan)
    # Guarantee at least one recorded train
    if not any(f.tids for f in simulate(plan).files):
        plan['faults'] = []
    return plan


def gen_spread(r, plan):
    """Names out of train order, and files spread over two run directories."""
    if r.random() < .3:
        plan['shuffle'] = r.randrange(1000)
    if r.random() < .3 and plan['n'] > 3:
        run2 = 'r%04d' % r.choice([int(plan['run'][1:]) + 1, max(0, int(plan['run'][1:]) - 1), 99])
        plan.update(second=r.randint(1, plan['n'] - 1), run2=r.choice([run2, plan['run']]),
                    dir2=os.path.dirname(plan['dir']) + '/' + run2)
        H = simulate(plan)
        for d in (plan['dir'], plan['dir2']):
            if not any(f.tids for f in H.files if os.path.dirname(f.path) == d):
                del plan['second']
                break


def gen_reconf(plan, rate=.15):
    """A device may be configured anew during the run: other data type or size of its data."""
    r = random.Random(repr((plan['dir'], plan['t0'], plan['n'], plan['sources'], plan['faults'])))
    if r.random() < rate and plan['n'] > 2:
        gen_frames(r, plan)
    if r.random() >= rate or plan['n'] < 3:
        return
    for _ in range(r.choice([1, 1, 2])):
        s = r.choice(plan['sources'])
        ks = [k for k in s['keys'] if len(k) == 3 and k[1] not in ('str', 'S12') and not k[0].endswith('.timestamp')]
        if not ks or s.get('pulses') or s.get('det'):
            continue
        k = r.choice(ks)
        shape, dtype = list(k[2]), k[1]
        x = r.random()
        if x < .45 or not shape:
            dtype = r.choice([d for d in DTYPES if d != dtype])
        elif x < .75:
            shape = shape[::-1] if len(set(shape)) > 1 and r.random() < .6 else [d + r.choice([0, 1, 2]) for d in shape]
        else:
            shape = r.choice([shape + [2], shape[1:]])
        plan['faults'].append({'k': 'reconf', 'src': s['name'], 'key': k[0], 't': r.randint(1, plan['n'] - 1),
                               'dtype': dtype, 'shape': shape})


def gen_frames(r, plan, sources=None):
    """The number of pulses per train changes, once or twice."""
    ss = [s for s in sources or plan['sources'] if s.get('pulses')] or [s for s in plan['sources'] if s.get('freq')]
    if not ss:
        return
    ss = ss if sources or r.random() < .5 else [r.choice(ss)]
    g = 'image' if 'image' in ss[0]['freq'] else r.choice(sorted(ss[0]['freq']))
    for _ in range(r.choice([1, 1, 2])):
        t, n = r.randint(0, plan['n'] - 1), r.choice([1, 1, 2, 3, 4])
        for s in ss:
            if g in s['freq']:
                plan['faults'].append({'k': 'frames', 'src': s['name'], 'grp': g, 't': t, 'n': n})


def gen_agg(r, id, sources, n):
    start = r.choice([0, 0, 0, 0, 1, 2]) % n
    stop = n - (r.choice([0, 0, 0, 0, 1, 2]) if n > 5 else 0)
    if stop <= start:
        start, stop = 0, n
    return {'id': id, 'sources': sources, 'prefix': 'RAW',
            'fmt': r.choice(['1.0', '1.0', '0.5']), 'idx': r.choice(['new', 'new', 'old']),
            'per_file': r.choice([100, max(1, n // 2), max(1, n // 3), r.randint(1, n)]),
            'chunk': r.choice([0, 1, 2, 5]), 'pad': r.choice([0, 0, 0, 1, 4]), 'dpad': r.choice([0, 0, 3]),
            'idpad': r.choice([0, 0, 2]), 'start': start, 'stop': stop}


def gen_faults(r, plan, rate=None):
    n = plan['n']
    out = []
    rate = rate if rate is not None else r.choice([0, 0.03, 0.1, 0.3])
    kinds = set(r.sample(['outage', 'drop_train', 'skip_tid', 'drop_src', 'restart', 'count',
                          'empty_file'], r.randint(1, 7)))
    for a in plan['aggs']:
        if 'outage' in kinds and r.random() < 0.3:
            s = r.randrange(n)
            out.append({'k': 'outage', 'agg': a['id'], 't0': s, 't1': min(n, s + r.randint(1, 4))})
        for t in range(n):
            if 'drop_train' in kinds and r.random() < rate / 2:
                out.append({'k': 'drop_train', 'agg': a['id'], 't': t})
            if 'restart' in kinds and r.random() < rate / 4:
                out.append({'k': 'restart', 'agg': a['id'], 't': t})
            if 'empty_file' in kinds and r.random() < rate / 4:
                out.append({'k': 'empty_file', 'agg': a['id'], 't': t})
    for t in range(n):
        if 'skip_tid' in kinds and r.random() < rate / 3:
            out.append({'k': 'skip_tid', 't': t})
    for s in plan['sources']:
        if s['cat'] != 'i':
            continue
        # one source may be silent for a whole stretch
        for g in sorted({k[0].partition('.')[0] for k in s['keys']}):
            if 'drop_src' in kinds and r.random() < 0.15:
                a0 = r.randrange(n)
                for t in range(a0, min(n, a0 + r.randint(1, n))):
                    out.append({'k': 'drop_src', 'src': s['name'], 'grp': g, 't': t})
            for t in range(n):
                if 'drop_src' in kinds and r.random() < rate:
                    out.append({'k': 'drop_src', 'src': s['name'], 'grp': g, 't': t})
                if 'count' in kinds and not s.get('det') and r.random() < rate:
                    out.append({'k': 'count', 'src': s['name'], 'grp': g, 't': t,
                                'n': r.randint(0, 4)})
    return out
