"""Executable reference model of a collection of recorded trains.

The model knows only the recorded history (facility.History) and the algebra of
selections; it never looks at files.
"""
import fnmatch
import os

import numpy as np


class Recorded:
    """Which sources have an entry (possibly with zero samples) for which train."""
    def __init__(self, history, files):
        self.H = history
        self.files = list(files)
        self.at = {}            # source -> {tid: FileRec}
        self.ix = {}            # (source, tid) -> position in the file
        aggs = history.plan_aggs
        for f in self.files:
            for s in aggs[f.agg]['sources']:
                d = self.at.setdefault(s, {})
                for i, t in enumerate(f.tids):
                    d[t] = f
                    self.ix[(s, t)] = i

    @property
    def tids(self):
        return sorted({t for f in self.files for t in f.tids})

    def count(self, source, group, tid):
        f = self.at.get(source, {}).get(tid)
        if f is None:
            return 0
        return f.counts[(source, group)][self.ix[(source, tid)]]


class MColl:
    """Model of a collection: selection, trains, and guaranteed data.

    A source is visible in a collection if it was selected and at least one
    sequence file recording it covers one of the collection's trains."""
    def __init__(self, rec, sel=None, tids=None, must=None, files=None):
        self.rec = rec
        self.H = rec.H
        self.files = list(rec.files if files is None else files)
        self.allsel = sel if sel is not None else {
            s: set(self.H.sources[s].keys) for s in rec.at}
        here = self.file_sources()
        self.sel = {s: k for s, k in self.allsel.items() if s in here}
        self.tids = list(rec.tids if tids is None else tids)
        # source -> trains for which the data must be included
        self.must = must if must is not None else {
            s: set(rec.at.get(s, {})) for s in self.sel}

    def file_sources(self, files=None):
        aggs = self.H.plan_aggs
        return {s for f in (self.files if files is None else files) for s in aggs[f.agg]['sources']}

    def with_sources(self, sel):
        files = [f for f in self.files if self.file_sources([f]) & set(sel)]
        return MColl(self.rec, sel, self.tids, {s: self.must.get(s, set()) for s in sel}, files)

    # ---- queries
    @property
    def sources(self):
        return set(self.sel)

    def src(self, s):
        return self.H.sources[s]

    @property
    def control(self):
        return {s for s in self.sel if self.src(s).control}

    @property
    def instrument(self):
        return {s for s in self.sel if not self.src(s).control}

    def must_tids(self, s):
        m = self.must.get(s, set())
        return [t for t in self.tids if t in m]

    def may_tids(self, s):
        m = self.rec.at.get(s, {})
        return [t for t in self.tids if t in m and m[t] in self.files]

    def exact(self, s):
        return self.must_tids(s) == self.may_tids(s)

    def count(self, s, key, tid):
        return self.rec.count(s, self.src(s).group(key), tid)

    def variants(self, s, key):
        """The data types and sizes in the files of this collection."""
        src = self.src(s)
        ks = {}
        for f in self.files:
            if s in self.H.plan_aggs[f.agg]['sources']:
                k = src.key_at(key, f.opened)
                ks[(k.dtype, k.shape)] = k
        return list(ks.values())

    def keyrec(self, s, key):
        """What the data of this key is like in this collection (if it is all alike)."""
        v = self.variants(s, key)
        return v[0] if v else self.src(s).keys[key]

    def mixed(self, s, key):
        return len(self.variants(s, key)) > 1

    def entry(self, s, key, tid):
        """What a train-oriented read returns, or None if there is no data."""
        n = self.count(s, key, tid)
        if n == 0:
            return None
        if self.src(s).control:
            return self.src(s).sample(key, tid, 0)
        a = self.H.array(s, key, tid, n)
        return a[0] if n == 1 else a

    def complete(self, tid, must=True):
        """Does this train have data for every selected source and key?"""
        for s, keys in self.sel.items():
            if must:
                if tid not in self.must.get(s, ()):
                    return False
            elif self.rec.at.get(s, {}).get(tid) not in self.files:
                return False
            for k in keys:
                if self.count(s, k, tid) == 0:
                    return False
        return True

    # ---- algebra
    def match(self, src_glob, key_glob):
        out = {}
        for s, keys in self.sel.items():
            if not fnmatch.fnmatchcase(s, src_glob):
                continue
            m = {k for k in keys if fnmatch.fnmatchcase(k, key_glob)}
            if self.src(s).control and not key_glob.endswith(('.value', '*')):
                m |= {k for k in keys if fnmatch.fnmatchcase(k, key_glob + '.value')}
            if m:
                out[s] = m
        return out

    def expand(self, spec):
        """spec: list of [src_glob, key_glob] or dict of source -> list of keys.

        Returns {source: keys}, or None if the specification must be refused."""
        if isinstance(spec, dict):
            out = {}
            for s, keys in spec.items():
                if s not in self.sel:
                    return None
                if keys and not set(keys) <= self.sel[s]:
                    return None
                out[s] = set(keys) or set(self.sel[s])
            return out
        out = {}
        for sg, kg in spec:
            m = self.match(sg, kg)
            if not m:
                return None
            for s, k in m.items():
                out.setdefault(s, set()).update(k)
        return out

    def select(self, spec):
        e = self.expand(spec)
        if e is None:
            return None
        return self.with_sources({s: set(k) for s, k in e.items()})

    def deselect(self, spec):
        e = self.expand(spec)
        if e is None:
            return None
        sel = {}
        for s, keys in self.allsel.items():
            left = keys - e.get(s, set())
            if left:
                sel[s] = left
        return self.with_sources(sel)

    def select_trains(self, tr):
        kind, val = tr
        if kind == 'id_slice':
            a, b, step = val
            if a is not None and a > self.tids[-1]:
                return None
            if b is not None and b < self.tids[0]:
                return None
            t = [x for x in self.tids if (a is None or x >= a) and (b is None or x < b)]
            t = t[::step] if step else t
        elif kind == 'ix_slice':
            t = self.tids[slice(*val)]
        elif kind == 'id_list':
            t = sorted(set(self.tids) & set(val))
            if not t:
                return None
        else:
            t = sorted(self.tids[i] for i in val)
        files = [f for f in self.files if set(f.tids) & set(t)]
        return MColl(self.rec, self.allsel, t, self.must, files)

    def union(self, *others):
        sel, must, tids, files = {}, {}, set(), []
        for c in (self,) + others:
            tids |= set(c.tids)
            files += [f for f in c.files if f not in files]
            for s, k in c.allsel.items():
                sel.setdefault(s, set()).update(k)
                must.setdefault(s, set()).update(set(c.must.get(s, ())) & set(c.tids))
        return MColl(self.rec, sel, sorted(tids), must, files)


def model_tr(tr):
    return [{'id_arr': 'id_list', 'ix_arr': 'ix_list'}.get(tr[0], tr[0]), tr[1]]


def tr_error(tr, n):
    """Why these trains can't be selected from n of them; 'unclear' if that's not specified"""
    if tr[0] == 'wrong':
        return 'TypeError'
    if tr[0] in ('ix_list', 'ix_arr'):
        if any(not -n <= i < n for i in tr[1]):
            return 'IndexError'
        if len({i % n for i in tr[1]}) < len(tr[1]):
            return 'unclear'


def dir_model(rec, d):
    """The collection of the files in one directory."""
    files = [f for f in rec.files if os.path.dirname(f.path) == d]
    aggs = rec.H.plan_aggs
    must = {}
    for f in files:
        for s in aggs[f.agg]['sources']:
            must.setdefault(s, set()).update(f.tids)
    return MColl(rec, {s: set(rec.H.sources[s].keys) for s in must}, sorted({t for f in files for t in f.tids}), must, files)


def same(got, want):
    """Identical dtype, shape and bytes."""
    g, w = np.asarray(got), np.asarray(want)
    if w.dtype.kind in 'OS':
        if w.shape == () or w.dtype.kind == 'O' and g.dtype.kind == 'O':
            return g.shape == w.shape and g.dtype.kind in 'OS' and g.tolist() == w.tolist()
    return g.dtype == w.dtype and g.shape == w.shape and g.tobytes() == w.tobytes()


def equal_values(got, want):
    """The same numbers in the same shape, of whatever type."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return False
    if w.dtype.kind in 'OS' or g.dtype.kind in 'OS':
        return g.tolist() == w.tolist()
    return all(int(a) == int(b) if float(b).is_integer() and float(a).is_integer() else float(a) == float(b)
               for a, b in zip(g.ravel().tolist(), w.ravel().tolist()))


def describe(x):
    if x is None:
        return 'nothing'
    a = np.asarray(x)
    if a.dtype.kind in 'OS':
        return '%s%s %r' % (a.dtype, list(a.shape), a.ravel()[:6].tolist())
    return '%s%s %s' % (a.dtype, list(a.shape), np.array2string(a.ravel()[:6], separator=','))
