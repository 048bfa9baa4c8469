"""A run directory that changes over time, for the checks of the run cache."""
import copy
import json
import os

from . import facility
from .core import EPOCH0
from .model import MColl, Recorded


def gen_versions(r, nver, size='s', naggs=None):
    """A facility plan whose aggregators exist in several versions (re-recordings)."""
    fac = facility.gen_run(r, size=size, pulsed=0.15, faults=False)
    base = list(fac['aggs'])
    n = fac['n']
    allaggs = []
    for v in range(nver):
        for a in base:
            b = copy.deepcopy(a)
            if v:
                b['id'] = '%s@%d' % (a['id'], v)
                b['fid'] = a['id']
                k = r.random()
                if k < 0.4:      # other trains
                    b['start'] = r.randrange(n)
                    b['stop'] = r.randint(b['start'] + 1, n)
                elif k < 0.6:    # other sequence split
                    b['per_file'] = r.randint(1, n)
                elif k < 0.8 and len(b['sources']) > 1:   # other sources
                    b['sources'] = r.sample(b['sources'], r.randint(1, len(b['sources']) - 1))
                else:            # same data, other layout
                    b['pad'] = r.randint(0, 5)
                    b['dpad'] = r.randint(0, 5)
                    b['fmt'] = r.choice(['1.0', '0.5'])
            allaggs.append(b)
    fac['aggs'] = allaggs
    fac['faults'] = facility.gen_faults(r, fac, rate=r.choice([0, 0.05, 0.15]))
    if not any(f.tids and '@' not in f.agg for f in facility.simulate(fac).files):
        fac['faults'] = []
    return fac


class RunDir:
    """The files currently on disk, changed through operations of the plan."""
    def __init__(self, ctx, fac, links=False, scratch=False):
        self.ctx = ctx
        self.exp = facility.make_tree(fac, links, scratch)
        names = {s['name'] for s in fac['sources']}
        fac = dict(fac, aggs=[dict(a, sources=[s for s in a['sources'] if s in names]) for a in fac['aggs']])
        fac['aggs'] = [a for a in fac['aggs'] if a['sources']]
        self.H = facility.simulate(fac)
        self.aggs = self.H.plan_aggs
        self.dir = fac['dir']
        self.versions = {}          # name -> {version: FileRec}
        for f in self.H.files:
            v = int((f.agg.split('@') + ['0'])[1])
            self.versions.setdefault(f.name, {})[v] = f
        self.disk = {}              # name -> FileRec now on disk
        self.clock = 0
        self.stamps = set()

    @property
    def names(self):
        return sorted(self.versions)

    def write_tmp(self, f):
        tmp = '/gpfs/tmp/incoming.h5'
        facility.write_file(self.H, f, self.aggs[f.agg], path=tmp)
        return tmp

    def put(self, name, ver, keep_mtime=False):
        """Record or replace a file.  Its size or its modification time always changes."""
        vs = self.versions.get(name)
        if not vs or ver not in vs:
            return False
        path = self.dir + '/' + name
        f = vs[ver]
        tmp = self.write_tmp(f)
        self.clock += 1
        old = os.stat(path) if os.path.exists(path) else None
        new = os.stat(tmp)
        if old is not None and keep_mtime and (old.st_size != new.st_size):
            os.utime(tmp, ns=(old.st_mtime_ns, old.st_mtime_ns))
            self.ctx.probe('replaced_same_mtime')
        else:
            self.stamp(tmp)
        os.rename(tmp, path)
        self.disk[name] = f
        return True

    def stamp(self, path):
        self.clock += 1
        # steps of a second, with occasional steps of a few ms, never repeating
        t = int(EPOCH0 * 1e9) + (self.clock // 3) * 1000000000 + (self.clock % 3) * 5000000
        while t in self.stamps:
            t += 5000000
        self.stamps.add(t)
        os.utime(path, ns=(t, t))

    def delete(self, name):
        if name in self.disk:
            os.unlink(self.dir + '/' + name)
            del self.disk[name]

    def copy_as(self, name, ix):
        """FileRec of a file under another name."""
        f = self.disk[name]
        c = facility.FileRec(self.dir + '/' + ix, f.agg, f.seq)
        c.tids, c.counts = f.tids, f.counts
        return c

    def rename(self, a, b):
        if a in self.disk:
            c = self.copy_as(a, b)
            os.rename(self.dir + '/' + a, self.dir + '/' + b)
            del self.disk[a]
            self.disk[b] = c

    def swap(self, a, b):
        if a in self.disk and b in self.disk and a != b:
            ca, cb = self.copy_as(b, a), self.copy_as(a, b)
            t = self.dir + '/x.tmp'
            os.rename(self.dir + '/' + a, t)
            os.rename(self.dir + '/' + b, self.dir + '/' + a)
            os.rename(t, self.dir + '/' + b)
            self.disk[a], self.disk[b] = ca, cb

    def touch(self, name):
        if name in self.disk:
            self.stamp(self.dir + '/' + name)

    def expected(self, inc='*', disk=None):
        import fnmatch
        return [f for n, f in sorted((self.disk if disk is None else disk).items())
                if fnmatch.fnmatchcase(n, inc)]

    # ---- cache files, wherever they may be
    def cache_paths(self):
        out = [self.dir + '/karabo_data_map.json']
        sc = self.exp + '/scratch/.karabo_data_maps'
        if os.path.isdir(sc):
            out += [sc + '/' + n for n in sorted(os.listdir(sc)) if n.endswith('.json')]
        return [p for p in out if os.path.isfile(p)]

    def read_cache(self):
        out = []
        for p in self.cache_paths():
            with open(p, 'rb') as f:
                out.append((p, f.read()))
        return out

    def leftovers(self):
        """Anything in the places of the cache that is neither data nor a complete cache."""
        out = []
        known = set(self.disk)
        for n in sorted(os.listdir(self.dir)):
            if n not in known and not n.endswith('.h5') and n != 'karabo_data_map.json':
                out.append(self.dir + '/' + n)
        sc = self.exp + '/scratch/.karabo_data_maps'
        if os.path.isdir(sc):
            out += [sc + '/' + n for n in sorted(os.listdir(sc)) if not n.endswith('.json')]
        return out


def conflict(H, files):
    seen = set()
    for f in files:
        for s in H.plan_aggs[f.agg]['sources']:
            for t in f.tids:
                if (s, t) in seen:
                    return (s, t)
                seen.add((s, t))
    return None


def check_collection(W, name, run, files, deep=True):
    """A collection over exactly these files must be served, in full."""
    m = MColl(W.rec)
    W.add(name, run, m, 'RunDirectory')
    for s in sorted(m.sel):
        W.check_keys(name, s)
    if deep:
        for t in m.tids:
            got, d = W.call('train_from_id', run.train_from_id, t)
            W.check_train('train_from_id(%d)' % t, m, t, got, d)
        for s in sorted(m.sel):
            if interleaved(m, s):
                continue     # trains alternating between files: order of whole-source reads not specified
            W.step({'op': 'array', 'c': name, 's': s, 'k': sorted(m.sel[s])[0]})
            W.step({'op': 'counts', 'c': name, 's': s, 'k': sorted(m.sel[s])[-1]})
    elif m.tids:
        W.step({'op': 'recheck', 'c': name})


def interleaved(m, s):
    spans = sorted((f.tids[0], f.tids[-1]) for f in m.files
                   if f.tids and s in m.H.plan_aggs[f.agg]['sources'])
    return any(b[0] <= a[1] for a, b in zip(spans, spans[1:]))


def is_complete_cache(data):
    try:
        return isinstance(json.loads(data.decode()), (list, dict))
    except ValueError:
        return False
