"""Chains of written files: a run is selected, written, opened, selected, written again ..."""
import errno
import json
import os
import signal

from . import collops, facility, opsgen
from .core import HarnessError, Violation, check
from .model import MColl, describe, equal_values, same
from .props import base
from .shim import (A_CRASH, A_QUOTA, A_SHORT, A_TORN, CLOSE, FTRUNC, OPEN_R, OPEN_W, READ, WRITE)

READS = {'train_id': 3, 'train_ix': 1, 'iter_open': 2, 'iter_next': 3, 'iter_rest': 2, 'array': 6, 'series': 3,
         'dataframe': 1, 'counts': 3, 'dask': 1, 'keys': 1, 'select': 2, 'select_trains': 2, 'deselect': 1, '_req': .4}
MAKE = {'select': 5, 'deselect': 2, 'select_trains': 5, 'union': 1.5, 'open': 1, 'train_id': .5, 'array': .5}
OPS = {'open': OPEN_W, 'write': WRITE, 'trunc': FTRUNC, 'close': CLOSE, 'any': OPEN_W | WRITE | FTRUNC, 'read': READ}


def writable(m):
    return bool(m.tids and m.sel) and all(m.exact(s) for s in m.sel)


def as_recorded(m, s, k):
    now = m.keyrec(s, k[0])
    was = m.src(s).keys[k[0]]
    if (now.dtype, now.shape) == (was.dtype, was.shape):
        return k
    return [k[0], now.dtype.str, list(now.shape)] + list(k[3:])


def mixed_stage(st, m):
    """Does the stage write data of a source that was reconfigured in between?"""
    if st['mode'] == 'vds':
        return st['s'] in m.sel and st['k'] in m.sel[st['s']] and m.mixed(st['s'], st['k'])
    return any(m.mixed(s, k) for s in m.sel for k in m.sel[s])


def written(m, path, lazy=False):
    """History of a file into which the collection m has been written.

    lazy: only what is known to be in a virtual file (keys with any data)."""
    H = m.H
    srcs = []
    for s in sorted(m.sel):
        d = next(x for x in H.plan['sources'] if x['name'] == s)
        keys = [as_recorded(m, s, k) for k in d['keys'] if k[0] in m.sel[s]]
        if lazy:
            keys = [k for k in keys if any(m.count(s, k[0], t) for t in m.may_tids(s))]
        if keys:
            srcs.append(dict(d, keys=keys))
    plan = {'dir': os.path.dirname(path), 'sources': srcs, 't0': H.plan['t0'], 'n': H.plan['n'],
            'aggs': [{'id': 'W', 'sources': [d['name'] for d in srcs]}]}
    H2 = facility.History(plan)
    f = facility.FileRec(path, 'W', 0)
    f.tids = list(m.tids)
    for d in srcs:
        s = d['name']
        have = set(m.may_tids(s))
        for g in H2.sources[s].groups:
            k = next(k for k in H2.sources[s].keys if H2.sources[s].group(k) == g)
            f.counts[(s, g)] = [m.count(s, k, t) if t in have else 0 for t in m.tids]
    H2.files.append(f)
    return H2


def gen_chain(r, fac, modes, fault_p, depth=None):
    """Stages: operations on the collections of a stage, then one of them is written."""
    H = facility.simulate(fac)
    stages = []
    files = None
    for i in range(depth or r.choice([1, 1, 1, 2, 2, 3])):
        g = opsgen.OpGen(r, H, READS if i and r.random() < .5 else MAKE, files=files, neg=.02)
        ops = g.history(r.randint(1, 10 if i == 0 else 6))
        names = [n for n, m in g.m.items() if writable(m)]
        if not names:
            return stages
        c = r.choice(names[-3:])
        m = g.m[c]
        mode = r.choice(modes)
        st = {'ops': ops, 'c': c, 'mode': mode, 'name': 'out%d.h5' % i, 'old': r.random() < .25,
              'close': r.random() < .4, 'fault': None}
        if mode == 'vds':
            s = r.choice(sorted(m.sel))
            st.update(s=s, k=r.choice(sorted(m.sel[s])), temp=r.random() < .4)
        if r.random() < .15:
            st['own'] = {'i': r.randrange(20), 'how': r.choice(['same', 'same', 'rel', 'link', 'hard']),
                         'close': r.random() < .7}
        if r.random() < fault_p:
            st['fault'] = gen_fault(r)
            if i and st['fault']['on'] == 'read':
                # (libhdf5 shows the fill value where it can't read behind a virtual dataset)
                st['fault'].update(on='write', count=-1)
        stages.append(st)
        if mode == 'vds' or mixed_stage(st, m):
            break
        H = written(m, '/gpfs/out/' + st['name'], lazy=mode == 'virtual')
        if not H.sources:
            break
        files = None
        if i + 1 == 1 or r.random() < .6:
            g2 = opsgen.OpGen(r, H, READS, neg=.02)
            st['reads'] = g2.history(r.randint(2, 12))
    return stages


def gen_fault(r):
    k = r.choice(['err', 'err', 'err', 'quota', 'quota', 'short', 'crash', 'torn'])
    f = {'k': k, 'on': r.choice(['write', 'write', 'write', 'any', 'open', 'trunc', 'close', 'read']),
         'skip': r.choice([0, 0, 1, 2, 3, 5, 8, 13, 21, 34]), 'count': r.choice([1, 1, 2, -1]),
         'err': r.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EROFS, errno.EFBIG, errno.ENOMEM]),
         'bytes': r.choice([0, 100, 1000, 3000, 8000, 20000])}
    if f['on'] != 'read':
        # libhdf5 and h5py lose track of a single failed write while a dataset is being closed;
        # storage which fails goes on failing until the writer has ended
        f['count'] = -1
    return f


def faulty_child(ctx, f, path, fn, src='/RAW-'):
    """Run fn() in another process while storage fails, or it crashes.

    Returns what came of it - 'ok', 'error' or 'died' - and how often the fault struck."""
    sh = ctx.shim
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = {'out': 'harness'}
        try:
            os.close(r)
            signal.alarm(100)
            pat = os.path.basename(path) if f['on'] != 'read' else src
            ops = OPS[f['on']]
            if f['k'] == 'err':
                rid = sh.rule(ops, pat, skip=f['skip'], count=f['count'], err=f['err'])
            elif f['k'] == 'quota':
                rid = sh.rule(WRITE | OPEN_W, os.path.basename(path), count=-1, action=A_QUOTA, arg=f['bytes'])
            elif f['k'] == 'short':
                rid = sh.rule(WRITE | READ, '.', count=-1, action=A_SHORT)
            elif f['k'] == 'crash':
                rid = sh.rule(OPEN_W | WRITE | FTRUNC, os.path.basename(path), skip=f['skip'], action=A_CRASH)
            else:
                rid = sh.rule(WRITE, os.path.basename(path), skip=f['skip'], action=A_TORN, arg=f['bytes'])
            try:
                with sh.live():
                    fn()
                res = {'out': 'ok', 'fired': sh.fired(rid)}
            except Exception as e:
                # the caller has its error; whether libhdf5 survives closing the file is its own matter
                os.write(w, json.dumps({'out': 'error', 'fired': sh.fired(rid), 'exc': type(e).__name__}).encode())
                os._exit(0)
        finally:
            os.write(w, json.dumps(res).encode())
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 4096)
        if not d:
            break
        data += d
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(stt)
    res = json.loads(data) if data else {'out': 'died', 'fired': 1}
    if res['out'] == 'harness':
        raise HarnessError('fault child failed')
    ctx.ev('faulty', f, res, code)
    if res['fired']:
        ctx.fault('write_%s_%s' % (f['k'], f['on']) if f['k'] == 'err' else 'write_' + f['k'],
                  1 if f['k'] in ('crash', 'torn') else res['fired'])
    if res['out'] == 'died':
        # a crash we asked for, or libhdf5 aborting on a failed write while closing
        ctx.probe('writer_died')
        check(code in (137, -6, -11) and not (code != 137 and f['k'] in ('short',)), 'process-died',
              'writing died with %d', code)
    elif res['out'] == 'error':
        check(res['fired'] > 0, 'unexpected-error', 'writing raised %s without any failure of storage', res.get('exc'))
        ctx.probe('write_error_reported')
    else:
        ctx.probe('write_ok_despite_fault' if res['fired'] else 'write_fault_not_reached')
    return res['out'], res['fired']


class Chain:
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        os.makedirs('/gpfs/out', exist_ok=True)
        self.nfaults = 0

    def run(self, W):
        ctx = self.ctx
        for n, st in enumerate(self.plan['stages']):
            for op in st['ops']:
                if op['op'] != 'open' or not n:
                    W.step(op)
            if st['c'] not in W.colls:
                continue
            real, m = W.colls[st['c']]
            if not writable(m):
                continue
            path = '/gpfs/out/%d-%s' % (n, st['name'])
            orig = [f.path for f in m.files]
            before = base.fingerprint([f.path for f in W.H.files])
            if st['old']:
                with open(path, 'wb') as f:     # will be overwritten
                    f.write(b'\x89HDF\r\n\x1a\n' + b'old contents' * 4000)
            if mixed_stage(st, m):
                self.mixed(W, st, real, m, path)
                check(base.fingerprint(list(before)) == before, 'data-modified', 'a data file was changed by writing %s',
                      os.path.basename(path))
                return self.orig_usable(W, st)
            if st.get('own'):
                self.own(W, st, real, before)
            if st['fault']:
                self.faulty(W, st, real, m, path)
            out = self.make(W, st, real, m, path)
            check(base.fingerprint(list(before)) == before, 'data-modified', 'a data file was changed by writing %s',
                  os.path.basename(path))
            self.orig_usable(W, st)
            if st['close']:
                for c, _ in W.colls.values():
                    for f in c.files:
                        f.close()
            if st['mode'] == 'vds':
                self.check_vds(W, st, m, out)
                if out is None:
                    return
                path = self.vds_path
                out.file.close()
            W2 = self.reopen(st, m, path)
            if W2 is None:
                return
            ctx.state(st['mode'], len(m.tids), len(m.sel), sorted(len(f.tids) for f in m.files),
                      st['fault'] and st['fault']['k'], n)
            for op in st.get('reads', ()):
                if op['op'] != 'open':
                    W2.step(op)
            # drop what reads made; the next stage starts from the file itself
            W2.colls = {'c0': W2.colls['c0']}
            W2.iters = {}
            W = W2

    # ---------------------------------------------------------------- writing
    def do(self, st, real, path):
        if st['mode'] == 'write':
            return real.write(path)
        if st['mode'] == 'virtual':
            return real.write_virtual(path)
        return real.get_virtual_dataset(st['s'], st['k'], filename=None if st['temp'] else path)

    def mixed(self, W, st, real, m, path):
        """One array can not hold data of different kinds: refused, or every value is still as recorded."""
        import karabo_data as kd
        ctx = self.ctx
        try:
            with ctx.shim.live():
                out = self.do(st, real, path)
        except Exception as e:
            ctx.ev('refused', st['mode'], type(e).__name__)
            ctx.probe('mixed_refused')
            return
        ctx.probe('mixed_accepted')
        if st['mode'] == 'vds':
            m = m.with_sources({st['s']: {st['k']}})
            path = str(out.file.filename)
            W.check_mixed('get_virtual_dataset(%s, %s)' % (st['s'], st['k']), m, st['s'], st['k'], W.call('reading', lambda: out[:]))
            out.file.close()
        got = W.call('H5File (written from mixed data)', kd.H5File, path)
        for t in m.tids:
            _, d = W.call('train_from_id', got.train_from_id, t)
            for s in sorted(m.sel):
                for k in sorted(m.sel[s]):
                    want = m.entry(s, k, t) if t in m.may_tids(s) else None
                    have = d.get(s, {}).get(k)
                    ctx.evals += 1
                    check((have is None) == (want is None) and (want is None or equal_values(have, want)), 'wrong-data',
                          'written file, train %d: %s %s is %s, recorded %s', t, s, k, describe(have), describe(want))

    def own(self, W, st, real, before):
        """A file can't be written onto one of the files its data comes from."""
        o = st['own']
        files = sorted(f.filename for f in real.files)
        path = files[o['i'] % len(files)]
        what = 'writing onto %s' % os.path.basename(path)
        extra = '/gpfs/out/link-%d.h5' % o['i']
        if os.path.lexists(extra):
            os.unlink(extra)
        if o['how'] == 'rel':
            path = os.path.relpath(path)
        elif o['how'] == 'link':
            os.symlink(path, extra)
            path = extra
        elif o['how'] == 'hard':
            os.link(path, extra)
            path = extra
        if o['close']:
            for c, _ in W.colls.values():
                for f in c.files:
                    f.close()
        try:
            with self.ctx.shim.live():
                self.do(dict(st, temp=False), real, path)
        except Exception as e:
            self.ctx.ev('own', o, type(e).__name__)
        else:
            check(False, 'data-modified', '%s (%s), from which the data comes, is not refused', what, o['how'])
        check(base.fingerprint(list(before)) == before, 'data-modified', '%s (%s) has changed it', what, o['how'])
        self.ctx.probe('own_file_refused')
        self.orig_usable(W, st)

    def empty_vds(self, st, m):
        return st['mode'] == 'vds' and not any(m.count(st['s'], st['k'], t) for t in m.may_tids(st['s']))

    def make(self, W, st, real, m, path):
        what = {'write': 'write', 'virtual': 'write_virtual', 'vds': 'get_virtual_dataset'}[st['mode']]
        if st['mode'] == 'vds' and (st['s'] not in m.sel or st['k'] not in m.sel[st['s']]):
            W.expect_error(what, ['KeyError'], self.do, st, real, path)
            return None
        if self.empty_vds(st, m):
            # no data to link to: anything but a dataset with data is acceptable
            try:
                with self.ctx.shim.live():
                    ds = self.do(st, real, path)
            except Exception:
                return None
            check(ds.shape[0] == 0, 'phantom-data', 'virtual dataset with %d entries, none recorded', ds.shape[0])
            return None
        return W.call(what, self.do, st, real, path)

    def faulty(self, W, st, real, m, path):
        """Another process writes the same file and storage fails, or it crashes."""
        f = st['fault']
        if st['mode'] == 'vds' and (st['temp'] or self.empty_vds(st, m)):
            return
        out, fired = faulty_child(self.ctx, f, path, lambda: self.do(st, real, path))
        if out == 'ok' and st['mode'] != 'vds':
            # the caller was told that the data has been written: it has to be there, all of it
            self.reopen(st, m, path, 'written with storage failing (%d times) without an error' % fired)

    def orig_usable(self, W, st):
        W.check_meta(st['c'], 'after writing')
        real, m = W.colls[st['c']]
        t = m.tids[len(m.tids) // 2]
        got, d = W.call('train_from_id(%d)' % t, real.train_from_id, t)
        W.check_train('train_from_id(%d) after writing' % t, m, t, got, d)

    # ---------------------------------------------------------------- reading back
    def reopen(self, st, m, path, how='written'):
        """The file holds exactly the collection m."""
        import karabo_data as kd
        from karabo_data.validation import FileValidator
        lazy = st['mode'] != 'write'
        if st['mode'] == 'vds':
            m = m.with_sources({st['s']: {st['k']}})
        H2 = written(m, path, lazy)
        W2 = collops.World(self.ctx, H2)
        real = W2.call('H5File (%s)' % how, kd.H5File, path)
        if lazy:
            # fields without any data may or may not be there
            full = written(m, path)
            extra = set(real.all_sources) - set(H2.sources)
            if extra and extra <= set(full.sources):
                H2 = full
            else:
                for s in set(real.all_sources) & set(H2.sources):
                    if set(real.keys_for_source(s)) - set(H2.sources[s].keys):
                        H2 = full
            W2 = collops.World(self.ctx, H2)
        m2 = MColl(W2.rec)
        if not H2.sources:
            check(not real.all_sources, 'phantom-data', 'file with sources %s, no data selected', sorted(real.all_sources))
            return None
        W2.add('c0', real, m2, how)
        probs = W2.call('FileValidator', lambda: FileValidator(real.files[0]).run_checks())
        check(not probs, 'invalid-file', 'the %s file fails validation: %s', how, [p['msg'] for p in probs])
        W2.call('METADATA (%s)' % how, self.check_metadata, real.files[0].file, how)
        for s in sorted(m2.sel):
            W2.check_keys('c0', s)
            for k in sorted(m2.sel[s]):
                W2.step({'op': 'array', 'c': 'c0', 's': s, 'k': k})
                W2.step({'op': 'counts', 'c': 'c0', 's': s, 'k': k})
        W2.step({'op': 'iter_open', 'c': 'c0', 'it': 'all'})
        if 'all' in W2.iters:
            W2.step({'op': 'iter_rest', 'it': 'all'})
        return W2

    @staticmethod
    def check_metadata(f, how):
        """The table of contents names root and device of each data source, as in files from the DAQ."""
        a, b, c = ([x.decode() if isinstance(x, bytes) else x for x in f['METADATA/' + n][:]]
                   for n in ('dataSourceId', 'root', 'deviceId'))
        check(a == ['%s/%s' % x for x in zip(b, c)] and len(a) == len(b) == len(c), 'wrong-metadata',
              '%s file: data sources %s have roots %s and devices %s', how, a, b, c)

    def check_vds(self, W, st, m, ds):
        if ds is None:
            return
        ctx = self.ctx
        s, k = st['s'], st['k']
        what = 'get_virtual_dataset(%s, %s)' % (s, k)
        self.vds_path = str(ds.file.filename)
        v = W.call(what + '[:]', lambda: ds[:])
        W.check_array(what, m, s, k, v)
        cat = 'CONTROL' if m.src(s).control else 'INSTRUMENT'
        check(ds.name == '/%s/%s/%s' % (cat, s, k.replace('.', '/')), 'wrong-name', '%s is called %s', what, ds.name)
        tids = [int(t) for t in ds.file['INDEX/trainId'][:]]
        check(tids == m.tids, 'wrong-trains', '%s: INDEX/trainId %s, expected %s', what, tids, m.tids)
        n = len(v)
        if n:
            i = n // 2
            W.call(what, lambda: ds[i])
            check(same(ds[i:i + 1], v[i:i + 1]), 'wrong-data', '%s: entry %d differs when read alone', what, i)
