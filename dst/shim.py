"""Control of the LD_PRELOAD I/O seam (shim.c) from Python."""
import ctypes
import errno as _errno
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

OPEN_R, OPEN_W, READ, WRITE, STAT, LIST, RENAME, UNLINK, MKDIR, FSYNC, CLOSE, \
    FTRUNC, META = (1 << i for i in range(13))
OPNAMES = ['open_r', 'open_w', 'read', 'write', 'stat', 'listdir', 'rename',
           'unlink', 'mkdir', 'fsync', 'close', 'ftruncate', 'meta']
MUTATING = OPEN_W | WRITE | RENAME | UNLINK | MKDIR | FTRUNC | META
A_ERRNO, A_SHORT, A_CRASH, A_TORN, A_QUOTA, A_DEAD = 1, 2, 3, 4, 5, 6


def build(out_dir):
    """Compile the shim into out_dir; returns the path of the library."""
    so = os.path.join(out_dir, 'kdshim.so')
    tmp = tempfile.mktemp(dir=out_dir, suffix='.so')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp,
                    os.path.join(HERE, 'shim.c'), '-ldl'], check=True,
                   env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
    os.replace(tmp, so)
    return so


class Shim:
    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            lib.kd_present
        except AttributeError:
            raise RuntimeError("I/O seam is not preloaded")
        self.lib = lib
        lib.kd_set_root.argtypes = [ctypes.c_char_p]
        lib.kd_add_rule.argtypes = [ctypes.c_uint, ctypes.c_char_p, ctypes.c_long,
                                    ctypes.c_long, ctypes.c_int, ctypes.c_int,
                                    ctypes.c_long]
        for n in ('kd_rule_fired', 'kd_rule_seen', 'kd_opcount', 'kd_mutseq'):
            getattr(lib, n).restype = ctypes.c_long
        lib.kd_set_listseed.argtypes = [ctypes.c_uint64]
        self.YIELD = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)
        self._cb = None

    def set_root(self, real):
        self.real = real
        os.makedirs(real + '/gpfs', exist_ok=True)
        self.lib.kd_set_root(real.encode())

    def live(self):
        """Context manager: the code under test is running (faults armed)."""
        return _Live(self)

    def quiet(self, q=True):
        self.lib.kd_quiet(1 if q else 0)

    def rule(self, ops, pat='', skip=0, count=1, action=A_ERRNO, err=_errno.EIO, arg=0):
        return self.lib.kd_add_rule(ops, pat.encode(), skip, count, action, err, arg)

    def rule_off(self, i):
        self.lib.kd_rule_off(i)

    def fired(self, i):
        return self.lib.kd_rule_fired(i)

    def seen(self, i):
        return self.lib.kd_rule_seen(i)

    def clear(self):
        self.lib.kd_clear_rules()

    def listseed(self, s):
        self.lib.kd_set_listseed(s & 0xFFFFFFFFFFFFFFFF)

    def dead(self, d=None):
        if d is None:
            return bool(self.lib.kd_get_dead())
        self.lib.kd_set_dead(1 if d else 0)

    def mutseq(self):
        return self.lib.kd_mutseq()

    def reset_counts(self):
        self.lib.kd_reset_counts()

    def opcounts(self):
        return {n: self.lib.kd_opcount(i) for i, n in enumerate(OPNAMES)}

    def open_fds(self, pat):
        return self.lib.kd_open_fds(pat.encode())

    def set_yield(self, fn):
        if fn is None:
            self._cb = None
            self.lib.kd_set_yield(ctypes.cast(None, self.YIELD))
        else:
            self._cb = self.YIELD(fn)
            self.lib.kd_set_yield(self._cb)

    def trace(self, path):
        self.lib.kd_trace((path or '').encode())


class _Live:
    def __init__(self, shim):
        self.shim = shim

    def __enter__(self):
        self.shim.quiet(False)

    def __exit__(self, *a):
        self.shim.quiet(True)
