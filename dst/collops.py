"""Drives real DataCollection objects and the reference model side by side."""
import contextlib
import io
import os

import numpy as np

from .core import Violation, check, digest
from .model import MColl, Recorded, describe, dir_model, equal_values, model_tr, same, tr_error

import karabo_data as kd
from karabo_data import by_id, by_index


class Refused(Exception):
    """An operation on the real code raised; carries the exception."""
    def __init__(self, exc):
        super().__init__('%s: %s' % (type(exc).__name__, exc))
        self.exc = exc


def real_tr(tr):
    kind, val = tr
    if kind == 'id_slice':
        return by_id[slice(*val)]
    if kind == 'ix_slice':
        return by_index[slice(*val)]
    if kind == 'id_list':
        return by_id[list(val)]
    if kind == 'id_arr':
        return by_id[np.array(val, dtype=np.uint64)]
    if kind == 'ix_arr':
        return by_index[np.array(val, dtype=np.int64)]
    if kind == 'wrong':
        return [slice(0, 3), [0, 1], 2, by_id[5], by_index[0], 'all'][val]
    return by_index[list(val)]


def real_spec(spec, as_args=False):
    if isinstance(spec, dict):
        return {s: set(k) for s, k in spec.items()}
    return [tuple(x) for x in spec]


def roi_obj(roi):
    """roi: list of int | [start, stop, step] | '...'  ->  tuple"""
    out = []
    for x in roi:
        out.append(Ellipsis if x == '...' else slice(*x) if isinstance(x, list) else x)
    return tuple(out)


def file_model(rec, f):
    H = rec.H
    srcs = H.plan_aggs[f.agg]['sources']
    return MColl(rec, {s: set(H.sources[s].keys) for s in srcs}, sorted(f.tids),
                 {s: set(f.tids) for s in srcs}, [f])


class World:
    def __init__(self, ctx, H, files=None):
        self.ctx = ctx
        self.H = H
        self.rec = Recorded(H, files if files is not None else H.files)
        self.colls = {}      # name -> (real, MColl)
        self.iters = {}      # name -> dict
        self.snap = {}       # name -> metadata snapshot, to detect changed parents
        self.tolerate = None  # callable(exc) -> bool: failures allowed under faults
        self.errors = 0
        self.relative = False

    # ------------------------------------------------------------ calling
    def call(self, what, fn, *a, **k):
        """Run one library call with faults armed."""
        try:
            with self.ctx.shim.live():
                return fn(*a, **k)
        except (Violation, KeyboardInterrupt):
            raise
        except Exception as e:
            if self.tolerate is not None and self.tolerate(e):
                self.errors += 1
                self.ctx.ev('fail', what, type(e).__name__)
                raise Refused(e)
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = next(('%s:%s' % (os.path.basename(t.filename), t.name) for t in reversed(tb)
                          if 'karabo_data' in t.filename), '?')
            raise Violation('unexpected-error',
                            '%s raised %s: %s (in %s)' % (what, type(e).__name__, e, where))

    def expect_error(self, what, names, fn, *a, **k):
        try:
            with self.ctx.shim.live():
                r = fn(*a, **k)
        except Exception as e:
            cls = {c.__name__ for c in type(e).__mro__}
            if self.tolerate is not None and self.tolerate(e):
                self.ctx.ev('fail', what, type(e).__name__)
                return
            check(cls & set(names), 'wrong-error', '%s raised %s, expected one of %s',
                  what, type(e).__name__, names)
            self.ctx.ev('refused', what, type(e).__name__)
            return
        raise Violation('missing-error', '%s was accepted (returned %s), expected %s'
                        % (what, type(r).__name__, names))

    # ------------------------------------------------------------ opening
    def open_run(self, include='*', dir=None):
        dir = dir or self.H.dir
        if self.relative:
            # opened by a relative path; the working directory changes afterwards
            os.chdir(self.ctx.shim.real + dir)
            try:
                return self.call('RunDirectory', kd.RunDirectory, '.', include)
            finally:
                os.chdir('/')
        return self.call('RunDirectory', kd.RunDirectory, dir, include)

    def open_file(self, path):
        if self.relative:
            os.chdir(self.ctx.shim.real + os.path.dirname(path))
            try:
                return self.call('H5File', kd.H5File, './' + os.path.basename(path))
            finally:
                os.chdir('/')
        return self.call('H5File', kd.H5File, path)

    def add(self, name, real, model, what):
        self.colls[name] = (real, model)
        self.check_meta(name, what)
        self.snap[name] = self.meta(real)

    @staticmethod
    def meta(real):
        return ([int(t) for t in real.train_ids], sorted(real.all_sources),
                sorted(real.control_sources), sorted(real.instrument_sources))

    def check_meta(self, name, what):
        real, m = self.colls[name]
        tids, alls, ctrl, inst = self.meta(real)
        self.ctx.evals += 1
        check(tids == m.tids, 'wrong-trains', '%s: train IDs %s, expected %s', what, tids, m.tids)
        check(alls == sorted(m.sources), 'wrong-sources', '%s: sources %s, expected %s', what,
              alls, sorted(m.sources))
        check(ctrl == sorted(m.control), 'wrong-sources', '%s: control sources %s', what, ctrl)
        check(inst == sorted(m.instrument), 'wrong-sources', '%s: instrument sources %s', what, inst)
        det = sorted(self.call('detector_sources', lambda: real.detector_sources))
        exp = sorted(s for s in m.instrument if '/DET/' in s)
        check(det == exp, 'wrong-sources', '%s: detector sources %s, expected %s', what, det, exp)

    def check_keys(self, name, source):
        real, m = self.colls[name]
        got = sorted(self.call('keys_for_source(%s)' % source, real.keys_for_source, source))
        self.ctx.evals += 1
        check(got == sorted(m.sel[source]), 'wrong-keys', 'keys of %s in %s: %s, expected %s',
              source, name, got, sorted(m.sel[source]))

    def check_parent(self, name):
        real, m = self.colls[name]
        check(self.meta(real) == self.snap[name], 'parent-changed',
              'collection %s changed by an operation on it', name)

    # ------------------------------------------------------------ train data
    def check_train(self, what, m, tid, got_tid, got, all_keys=True):
        self.ctx.evals += 1
        may = {s: set(m.may_tids(s)) for s in m.sel}
        check(int(got_tid) == tid, 'wrong-train', '%s returned train %s, expected %s', what, got_tid, tid)
        check(set(got) <= m.sources, 'wrong-sources', '%s train %d: sources %s, expected %s', what,
              tid, sorted(got), sorted(m.sources))
        for s in sorted(m.sources):
            if s not in got:
                check(not any(m.entry(s, k, tid) is not None for k in m.sel[s]), 'missing-data',
                      '%s train %d: source %s missing', what, tid, s)
                continue
            data = got[s]
            md = data.get('metadata')
            check(md is not None and md.get('source') == s and md.get('timestamp.tid') == tid,
                  'wrong-metadata', '%s train %d %s: metadata %r', what, tid, s, md)
            certain = tid in m.must.get(s, ())
            for k in sorted(m.sel[s]):
                want = m.entry(s, k, tid) if tid in may[s] else None
                if want is None:
                    check(k not in data, 'phantom-data', '%s train %d: %s %s has %s but nothing was '
                          'recorded', what, tid, s, k, describe(data.get(k)))
                elif k not in data:
                    check(not certain, 'missing-data', '%s train %d: %s %s missing, recorded %s',
                          what, tid, s, k, describe(want))
                else:
                    check(same(data[k], want), 'wrong-data', '%s train %d: %s %s is %s, recorded %s',
                          what, tid, s, k, describe(data[k]), describe(want))
            extra = set(data) - m.sel[s] - {'metadata'}
            check(not extra, 'extra-keys', '%s train %d: %s has unselected keys %s', what, tid, s,
                  sorted(extra))

    # ------------------------------------------------------------ arrays
    def expected_rows(self, m, s, key, tids):
        rows, labels = [], []
        for t in tids:
            n = m.count(s, key, t)
            if n:
                rows.append(m.H.array(s, key, t, n) if not m.src(s).control
                            else m.src(s).sample(key, t, 0)[np.newaxis])
                labels += [t] * n
        k = m.keyrec(s, key)
        a = np.concatenate(rows) if rows else np.empty((0,) + k.shape, k.dtype)
        return a, labels

    def mixed_call(self, what, m, s, key, fn, *a, **kw):
        """A source was reconfigured, its files hold different kinds of data: reading it as one
        array is refused, or gives exactly what was recorded."""
        try:
            with self.ctx.shim.live():
                v = fn(*a, **kw)
        except Exception as e:
            self.ctx.ev('refused', what, type(e).__name__)
            self.ctx.probe('mixed_refused')
            raise Refused(e)
        self.ctx.probe('mixed_accepted')
        return v

    def check_mixed(self, what, m, s, key, values, labels=None, roi=None):
        self.ctx.evals += 1
        v = np.asarray(values)
        tids = m.must_tids(s)
        if labels is not None and not m.exact(s):
            got = set(int(x) for x in labels)
            tids = [t for t in m.may_tids(s) if t in got or t in m.must.get(s, ())]
        rows, wl = [], []
        for t in tids:
            n = m.count(s, key, t)
            for i in range(n):
                row = m.src(s).sample(key, t, i)
                rows.append(row if roi is None else row[roi])
                wl.append(t)
        if labels is not None:
            gl = [int(x) for x in labels]
            check(gl == wl, 'wrong-labels', '%s: train labels %s, expected %s', what, gl[:40], wl[:40])
        check(len(v) == len(rows), 'wrong-shape', '%s: %d entries, recorded %d', what, len(v), len(rows))
        for i, w in enumerate(rows):
            check(equal_values(v[i], w), 'wrong-data', '%s: entry %d (train %s) is %s, recorded %s', what, i, wl[i],
                  describe(v[i]), describe(w))

    def check_array(self, what, m, s, key, values, labels=None, roi=None):
        """values (and train labels) returned for a whole source."""
        self.ctx.evals += 1
        v = np.asarray(values)
        tids = m.must_tids(s)
        if not m.exact(s) and labels is not None:
            got = set(int(x) for x in labels)
            tids = [t for t in m.may_tids(s) if t in got or t in m.must.get(s, ())]
        want, wl = self.expected_rows(m, s, key, tids)
        if roi is not None:
            want = want[(slice(None),) + roi]
        if labels is not None:
            gl = [int(x) for x in labels]
            check(gl == wl, 'wrong-labels', '%s: train labels %s, expected %s', what, gl[:40], wl[:40])
        check(v.dtype == want.dtype, 'wrong-dtype', '%s: dtype %s, recorded %s', what, v.dtype, want.dtype)
        check(v.shape == want.shape, 'wrong-shape', '%s: shape %s, expected %s', what, v.shape, want.shape)
        if not same(v, want):
            bad = [i for i in range(len(v)) if not same(v[i], want[i])]
            raise Violation('wrong-data', '%s: entry %d (train %s) is %s, recorded %s' % (
                what, bad[0], wl[bad[0]], describe(v[bad[0]]), describe(want[bad[0]])))

    def series_kind(self, m, s, key):
        """'flat', 'pulsed' or None if the key is outside what get_series accepts."""
        src = m.src(s)
        k = m.keyrec(s, key)
        if any(v.shape != () for v in m.variants(s, key)) and m.mixed(s, key):
            return None
        if src.control:
            return 'flat' if k.shape == () else None
        g = src.group(key)
        files = {id(f): f for f in m.rec.at.get(s, {}).values()}.values()
        counts = [[c for c in f.counts[(s, g)]] for f in files]
        if k.shape == () and all(c <= 1 for cs in counts for c in cs):
            return 'flat'
        if (k.shape == (1,) and g + '.pulseId' in src.keys
                and any(sum(cs) for cs in counts)):
            return 'pulsed'
        return None

    def expected_series(self, m, s, key):
        tids = m.must_tids(s)
        a, labels = self.expected_rows(m, s, key, tids)
        kind = self.series_kind(m, s, key)
        if kind == 'pulsed':
            g = m.src(s).group(key)
            p, _ = self.expected_rows(m, s, g + '.pulseId', tids)
            labels = list(zip(labels, [int(x) for x in p[:, 0]]))
            a = a[:, 0]
        return a, labels

    def check_series(self, what, m, s, key, ser):
        self.ctx.evals += 1
        a, labels = self.expected_series(m, s, key)
        if len(a) == 0:
            check(len(ser) == 0, 'phantom-data', '%s: %d entries, none recorded', what, len(ser))
            return
        got = [tuple(int(y) for y in x) if isinstance(x, tuple) else int(x) for x in ser.index]
        check(got == labels, 'wrong-labels', '%s: index %s, expected %s', what, got[:20], labels[:20])
        if m.mixed(s, key):
            check(equal_values(ser.values, a), 'wrong-data', '%s: %s, recorded %s', what, describe(ser.values), describe(a))
            return
        check(same(ser.values, a), 'wrong-data', '%s: %s, recorded %s', what, describe(ser.values), describe(a))

    def check_dataframe(self, what, m, df, timestamps):
        self.ctx.evals += 1
        cols = {}
        for s in m.sources:
            for k in m.sel[s]:
                if not timestamps and k.endswith('.timestamp'):
                    continue
                nm = s + '/' + k
                cols[nm[:-6] if nm.endswith('.value') else nm] = (s, k)
        check(sorted(df.columns) == sorted(cols), 'wrong-columns', '%s: columns %s, expected %s', what,
              sorted(df.columns), sorted(cols))
        union = set()
        for nm, (s, k) in cols.items():
            a, labels = self.expected_series(m, s, k)
            union |= set(labels)
            col = df[nm]
            col = col[~col.isna()]
            got = [int(x) for x in col.index]
            check(got == labels if list(df.index) == sorted(df.index) else sorted(got) == labels,
                  'wrong-labels', '%s column %s: index %s, expected %s', what, nm, got[:20], labels[:20])
            d = dict(zip(got, col.values))
            for t, w in zip(labels, a):
                ok = d[t] == w if a.dtype.kind in 'OS' else float(d[t]) == float(w)
                check(ok, 'wrong-data', '%s column %s train %d: %r, recorded %r',
                      what, nm, t, d[t], w)
        check(sorted(int(x) for x in df.index) == sorted(union), 'wrong-labels',
              '%s: rows %s, expected %s', what, list(df.index)[:20], sorted(union)[:20])

    # ------------------------------------------------------------ one step
    def step(self, op):
        """Execute one operation of the plan; unknown references are skipped."""
        fn = getattr(self, 'op_' + op['op'])
        for ref in ('c', 'c2'):
            if ref in op and op[ref] not in self.colls:
                return False
        if 'it' in op and op['op'] != 'iter_open' and op['it'] not in self.iters:
            return False
        try:
            fn(op)
        except Refused:
            pass
        self.ctx.ev('op', op)
        if 'c' in op and op['c'] in self.colls:
            self.check_parent(op['c'])
        return True

    def op_open(self, op):
        if op.get('file') is not None:
            fs = [f for f in self.H.files if op['file'] in (f.name, f.path)]
            if not fs:
                return
            real = self.open_file(fs[0].path)
            model = file_model(self.rec, fs[0])
        elif op.get('dir'):
            if not any(os.path.dirname(f.path) == op['dir'] and f.tids for f in self.H.files):
                return
            real = self.open_run(dir=op['dir'])
            model = dir_model(self.rec, op['dir'])
        else:
            real = self.open_run()
            model = MColl(self.rec)
        self.add(op['out'], real, model, 'open')

    def op_select(self, op):
        real, m = self.colls[op['c']]
        new = m.select(op['spec'])
        what = 'select(%r)' % (op['spec'],)
        spec = real_spec(op['spec'])
        if new is None:
            return self.expect_error(what, ['ValueError', 'KeyError'], real.select, spec)
        if op.get('odd') and isinstance(spec, list):
            # neither a list nor a dict: refused, or understood in full
            try:
                r = real.select(tuple(map(tuple, spec)))
            except Exception as e:
                self.ctx.ev('refused', what, type(e).__name__)
                return
            return self.add(op['out'], r, new, what + ' as a tuple')
        if op.get('plain') and isinstance(spec, list) and len(spec) == 1:
            r = self.call(what, real.select, *spec[0])
        else:
            r = self.call(what, real.select, spec)
        self.add(op['out'], r, new, what)

    def op_deselect(self, op):
        real, m = self.colls[op['c']]
        new = m.deselect(op['spec'])
        what = 'deselect(%r)' % (op['spec'],)
        spec = real_spec(op['spec'])
        if new is None:
            return self.expect_error(what, ['ValueError', 'KeyError'], real.deselect, spec)
        if not new.sel or any(not (keys - (m.expand(op['spec']).get(s) or set()))
                              and not self.whole(op['spec'], s, m) for s, keys in m.sel.items()):
            return   # removing a source key by key: not specified
        if op.get('plain') and isinstance(spec, list) and len(spec) == 1:
            r = self.call(what, real.deselect, *spec[0])
        else:
            r = self.call(what, real.deselect, spec)
        self.add(op['out'], r, new, what)

    @staticmethod
    def whole(spec, s, m):
        import fnmatch
        if isinstance(spec, dict):
            return s in spec and not spec[s]
        return any(fnmatch.fnmatchcase(s, g) and k == '*' for g, k in spec)

    def op_select_trains(self, op):
        real, m = self.colls[op['c']]
        if not m.tids:
            return
        what = 'select_trains(%s)' % (op['tr'],)
        err = tr_error(op['tr'], len(m.tids))
        if err:
            if err != 'unclear':
                self.expect_error(what, [err], real.select_trains, real_tr(op['tr']))
            return
        new = m.select_trains(model_tr(op['tr']))
        if new is None:
            return self.expect_error(what, ['ValueError'], real.select_trains, real_tr(op['tr']))
        r = self.call(what, real.select_trains, real_tr(op['tr']))
        if not new.tids:
            check(len(r.train_ids) == 0, 'wrong-trains', '%s: trains %s, expected none', what, r.train_ids)
            return
        self.add(op['out'], r, new, what)

    def op_union(self, op):
        real, m = self.colls[op['c']]
        parts = [self.colls[c] for c in op['cs'] if c in self.colls]
        if not parts:
            return
        r = self.call('union', real.union, *[p[0] for p in parts])
        self.add(op['out'], r, m.union(*[p[1] for p in parts]), 'union')
        for c in op['cs']:
            if c in self.colls:
                self.check_parent(c)

    def sub(self, m, op):
        """Apply the devices / train range arguments of reading methods."""
        if op.get('dev') is not None:
            m = m.select(op['dev'])
        if op.get('tr') is not None and m and m.tids and tr_error(op['tr'], len(m.tids)):
            return None
        if m is not None and m.tids and op.get('tr') is not None:
            m = m.select_trains(model_tr(op['tr']))
        return m

    def op_keys(self, op):
        real, m = self.colls[op['c']]
        for s in ([op['s']] if op['s'] in m.sel else []):
            self.check_keys(op['c'], s)

    def op_recheck(self, op):
        """Everything visible of an older collection is still as it was."""
        real, m = self.colls[op['c']]
        self.check_meta(op['c'], 'later')
        for s in sorted(m.sel):
            self.check_keys(op['c'], s)
        for t in (m.tids[0], m.tids[-1]):
            got, d = self.call('train_from_id(%d)' % t, real.train_from_id, t)
            self.check_train('train_from_id(%d)' % t, m, t, got, d)

    def op_train_id(self, op):
        real, m = self.colls[op['c']]
        tid = op['tid']
        m = self.sub(m, op)
        kw = {'devices': real_spec(op['dev'])} if op.get('dev') is not None else {}
        what = 'train_from_id(%d)' % tid
        if m is None:
            return self.expect_error(what, ['ValueError', 'KeyError'], real.train_from_id, tid, **kw)
        if tid not in m.tids:
            return self.expect_error(what, ['KeyError'], real.train_from_id, tid, **kw)
        t, d = self.call(what, real.train_from_id, tid, **kw)
        self.check_train(what, m, tid, t, d)

    def op_train_ix(self, op):
        real, m = self.colls[op['c']]
        m = self.sub(m, op)
        if m is None or not m.tids:
            return
        kw = {'devices': real_spec(op['dev'])} if op.get('dev') is not None else {}
        i = op['i']
        if not -len(m.tids) <= i < len(m.tids):
            return self.expect_error('train_from_index', ['IndexError'], real.train_from_index, i, **kw)
        t, d = self.call('train_from_index(%d)' % i, real.train_from_index, i, **kw)
        self.check_train('train_from_index(%d)' % i, m, m.tids[i], t, d)

    def op_iter_open(self, op):
        real, m = self.colls[op['c']]
        m2 = self.sub(m, op)
        if m2 is None or not m2.tids:
            return
        kw = {}
        if op.get('dev') is not None:
            kw['devices'] = real_spec(op['dev'])
        if op.get('tr') is not None:
            kw['train_range'] = real_tr(op['tr'])
        if op.get('req'):
            kw['require_all'] = True
        it = self.call('trains', real.trains, **kw)
        self.iters[op['it']] = {'it': it, 'm': m2, 'pos': 0, 'req': bool(op.get('req')), 'c': op['c']}

    def next_train(self, st):
        m = st['m']
        sentinel = object()
        try:
            r = self.call('trains() iteration', next, st['it'], sentinel)
        except Refused:
            st['dead'] = True      # a generator that raised is finished
            raise
        if r is sentinel:
            rest = m.tids[st['pos']:]
            if st['req']:
                rest = [t for t in rest if m.complete(t)]
            check(not rest, 'missing-trains', 'iteration ended without trains %s', rest[:20])
            return None
        tid, data = r
        check(tid in m.tids[st['pos']:], 'wrong-train-order', 'iteration returned train %s after '
              'position %d of %s', tid, st['pos'], m.tids[:60])
        i = m.tids.index(tid)
        skipped = m.tids[st['pos']:i]
        if st['req']:
            lost = [t for t in skipped if m.complete(t)]
            check(not lost, 'missing-trains', 'require_all skipped complete trains %s', lost[:20])
            check(m.complete(tid, must=False), 'incomplete-train', 'require_all returned train %d which '
                  'lacks selected data', tid)
            if skipped:
                self.ctx.probe('require_all_skipped', len(skipped))
        else:
            check(not skipped, 'missing-trains', 'iteration skipped trains %s', skipped[:20])
        st['pos'] = i + 1
        self.check_train('trains()%s' % ('[require_all]' if st['req'] else ''), m, tid, tid, data)
        return tid

    def op_iter_next(self, op):
        st = self.iters[op['it']]
        if st.get('dead'):
            return
        for _ in range(op.get('n', 1)):
            if self.next_train(st) is None:
                del self.iters[op['it']]
                return

    def op_iter_rest(self, op):
        st = self.iters.pop(op['it'])
        if st.get('dead'):
            return
        while self.next_train(st) is not None:
            pass

    def op_close(self, op):
        """Leave the context manager of an opened collection, or close its files."""
        real, m = self.colls[op['c']]
        if not real.ctx_closes:
            return
        def cycle():
            with real:
                pass
        self.call('close', cycle)
        self.iters.clear()       # iterators do not survive closing their files
        check(self.ctx.shim.open_fds('.h5') == self.other_fds(real), 'files-left-open',
              'data files still open after leaving the context')

    def other_fds(self, real):
        return self.ctx.shim.open_fds('.h5') if len({id(c[0]) for c in self.colls.values()
                                                     if c[0].ctx_closes}) > 1 else 0

    def op_array(self, op):
        real, m = self.colls[op['c']]
        s, key = op['s'], op['k']
        what = 'get_array(%s, %s, roi=%s)' % (s, key, op.get('roi'))
        if s not in m.sel or key not in m.sel[s]:
            return self.expect_error(what, ['KeyError'], real.get_array, s, key)
        kw, roi = {}, None
        if op.get('roi') is not None:
            roi = roi_obj(op['roi'])
            kw['roi'] = by_index[roi if len(roi) != 1 else roi[0]]
        if m.mixed(s, key):
            a = self.mixed_call(what, m, s, key, real.get_array, s, key, **kw)
            return self.check_mixed(what, m, s, key, a.values, a.coords['trainId'].values, roi)
        k = m.keyrec(s, key)
        if roi is not None and s in self.H.sources and k.shape != self.H.sources[s].keys[key].shape:
            return       # the region was made for data of another size
        if op.get('dims'):
            nd = len(k.shape) if roi is None else None
            if nd is not None:
                kw['extra_dims'] = ['ax%d' % i for i in range(nd)]
        a = self.call(what, real.get_array, s, key, **kw)
        check(a.dims[0] == 'trainId', 'wrong-labels', '%s: first dimension %r', what, a.dims)
        if 'extra_dims' in kw:
            check(list(a.dims[1:]) == kw['extra_dims'], 'wrong-labels', '%s: dimensions %r', what, a.dims)
        labels = a.coords['trainId'].values if 'trainId' in a.coords else []
        self.check_array(what, m, s, key, a.values, labels, roi)

    def op_dask(self, op):
        real, m = self.colls[op['c']]
        s, key = op['s'], op['k']
        what = 'get_dask_array(%s, %s)' % (s, key)
        if s not in m.sel or key not in m.sel[s] or not m.exact(s):
            return
        if m.mixed(s, key):
            v = self.mixed_call(what, m, s, key, lambda: real.get_dask_array(s, key).compute(scheduler=DaskSim(op.get('seed', 0))))
            return self.check_mixed(what, m, s, key, v)
        a = self.call(what, real.get_dask_array, s, key)
        v = self.call(what + '.compute', a.compute, scheduler=DaskSim(op.get('seed', 0)))
        self.check_array(what, m, s, key, v)
        sl = op.get('slice')
        if sl is not None:
            want, _ = self.expected_rows(m, s, key, m.must_tids(s))
            v = self.call(what + '[%s]' % sl, lambda: a[slice(*sl)].compute(scheduler=DaskSim(1)))
            check(same(v, want[slice(*sl)]), 'wrong-data', '%s sliced %s: %s, recorded %s', what, sl,
                  describe(v), describe(want[slice(*sl)]))

    def op_series(self, op):
        real, m = self.colls[op['c']]
        s, key = op['s'], op['k']
        what = 'get_series(%s, %s)' % (s, key)
        if s not in m.sel or key not in m.sel[s]:
            return self.expect_error(what, ['KeyError'], real.get_series, s, key)
        if self.series_kind(m, s, key) is None or not m.exact(s):
            return
        ser = self.call(what, real.get_series, s, key)
        nm = s + '/' + key
        check(ser.name == (nm[:-6] if nm.endswith('.value') else nm), 'wrong-labels', '%s: name %r', what, ser.name)
        self.check_series(what, m, s, key, ser)

    def op_counts(self, op):
        real, m = self.colls[op['c']]
        s, key = op['s'], op['k']
        what = 'get_data_counts(%s, %s)' % (s, key)
        if s not in m.sel or key not in m.sel[s]:
            return self.expect_error(what, ['KeyError'], real.get_data_counts, s, key)
        if not m.exact(s):
            return
        ser = self.call(what, real.get_data_counts, s, key)
        self.ctx.evals += 1
        got = [(int(t), int(n)) for t, n in ser.items()]
        want = [(t, m.count(s, key, t)) for t in m.must_tids(s)]
        check(got == want, 'wrong-counts', '%s: %s, expected %s', what, got[:20], want[:20])

    def op_dataframe(self, op):
        real, m = self.colls[op['c']]
        if op.get('dev') is not None:
            m = m.select(op['dev'])
            if m is None:
                return self.expect_error('get_dataframe', ['ValueError', 'KeyError'], real.get_dataframe,
                                         real_spec(op['dev']))
        ts = bool(op.get('ts'))
        n = 0
        for s in m.sources:
            if not m.exact(s):
                return
            for k in m.sel[s]:
                if not ts and k.endswith('.timestamp'):
                    continue
                n += 1
                if self.series_kind(m, s, k) != 'flat':
                    return
        if not n:
            return
        args = (real_spec(op['dev']),) if op.get('dev') is not None else ()
        df = self.call('get_dataframe', real.get_dataframe, *args, timestamps=ts)
        self.check_dataframe('get_dataframe(%s)' % (op.get('dev'),), m, df, ts)

    def op_info(self, op):
        real, m = self.colls[op['c']]
        out = io.StringIO()
        def run():
            with contextlib.redirect_stdout(out):
                real.info()
        self.call('info', run)
        self.check_info(m, out.getvalue())

    def check_info(self, m, text):
        self.ctx.evals += 1
        lines = [l.rstrip() for l in text.splitlines()]
        flat = {}
        for l in lines:
            if ':' in l and not l.startswith(' '):
                a, _, b = l.partition(':')
                flat[a.strip()] = b.strip()
        check(flat.get('# of trains') == str(len(m.tids)), 'wrong-report', 'info(): %r trains, expected %d',
              flat.get('# of trains'), len(m.tids))
        check(flat.get('First train ID') == str(m.tids[0]) and flat.get('Last train ID') == str(m.tids[-1]),
              'wrong-report', 'info(): trains %s..%s, expected %d..%d', flat.get('First train ID'),
              flat.get('Last train ID'), m.tids[0], m.tids[-1])
        det = {s for s in m.instrument if '/DET/' in s}
        items = [l.strip()[2:] for l in lines if l.strip().startswith('- ')]
        check(items == sorted(m.instrument - det) + sorted(m.control), 'wrong-report',
              'info(): lists sources %s', items)
        import datetime
        span = str(datetime.timedelta(seconds=(m.tids[-1] - m.tids[0]) / 10))
        check(flat.get('Duration') == span, 'wrong-report', 'info(): duration %r, expected %r',
              flat.get('Duration'), span)
        check(any(l.startswith('%d detector modules' % len(det)) for l in lines), 'wrong-report',
              'info(): detector module count, expected %d', len(det))


class DaskSim:
    """Deterministic dask scheduler: runs ready tasks one at a time in seeded order."""
    def __init__(self, seed):
        import random
        self.r = random.Random(seed)

    def __call__(self, dsk, keys, **kw):
        from dask.core import get_dependencies, istask, flatten
        dsk = dict(dsk)
        deps = {k: get_dependencies(dsk, k) for k in dsk}
        done = {}

        def ev(x):
            if isinstance(x, list):
                return [ev(i) for i in x]
            if istask(x):
                return x[0](*[ev(i) for i in x[1:]])
            try:
                if x in done:
                    return done[x]
            except TypeError:
                pass
            return x
        while len(done) < len(dsk):
            ready = sorted((k for k in dsk if k not in done and all(d in done for d in deps[k])), key=str)
            # names contain uuids: choose by structure, not by name order alone
            k = ready[self.r.randrange(len(ready))]
            done[k] = ev(dsk[k])

        def pick(x):
            return [pick(i) for i in x] if isinstance(x, list) else done[x]
        return pick(keys)
