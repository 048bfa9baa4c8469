"""Helper for demonstrations: writes small EuXFEL format files."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import h5py
import numpy as np

VB = h5py.special_dtype(vlen=bytes)


def mkfile(path, tids, ctrl=None, inst=None):
    """ctrl: {source: {key: values per train}}
    inst: {'dev:chan': {'grp.key': {tid: array of entries}}} (missing tids: no entries)"""
    tids = list(tids)
    with h5py.File(path, 'w') as f:
        f['INDEX/trainId'] = np.array(tids, dtype='u8')
        names = []
        for s, keys in (ctrl or {}).items():
            names.append('CONTROL/' + s)
            f['INDEX/%s/first' % s] = np.arange(len(tids), dtype='u8')
            f['INDEX/%s/count' % s] = np.ones(len(tids), dtype='u8')
            for k, v in keys.items():
                f['CONTROL/%s/%s' % (s, k.replace('.', '/'))] = np.asarray(v)
        for s, keys in (inst or {}).items():
            groups = {}
            for k, d in keys.items():
                groups.setdefault(k.split('.')[0], []).append((k, d))
            for g, l in groups.items():
                names.append('INSTRUMENT/%s/%s' % (s, g))
                cnt = np.array([len(l[0][1].get(t, ())) for t in tids], dtype='u8')
                first = np.zeros(len(tids), dtype='u8')
                first[1:] = np.cumsum(cnt)[:-1]
                f['INDEX/%s/%s/first' % (s, g)] = first
                f['INDEX/%s/%s/count' % (s, g)] = cnt
                for k, d in l:
                    rows = [np.asarray(d[t]) for t in tids if t in d and len(d[t])]
                    f['INSTRUMENT/%s/%s' % (s, k.replace('.', '/'))] = (
                        np.concatenate(rows) if rows else np.zeros((0,), dtype='f4'))
        N = len(names)
        for n, v in (('dataSourceId', names), ('root', [n.split('/')[0] for n in names]),
                     ('deviceId', [n.split('/', 1)[1] for n in names])):
            d = f.create_dataset('METADATA/' + n, (N,), dtype=VB, maxshape=(None,))
            d[:] = [x.encode() for x in v]


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='kddemo')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
