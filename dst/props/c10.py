"""C10: trouble with the run cache never prevents opening a run, and leaves nothing partial behind."""
import errno
import os
import signal

from .. import facility, rundir
from ..core import Violation, check, rng
from ..shim import (A_CRASH, A_QUOTA, A_SHORT, A_TORN, CLOSE, FSYNC, MKDIR, OPEN_R, OPEN_W, READ, RENAME, STAT, UNLINK,
                    WRITE)
from . import base

PROP = 'C10'
RUNS = {'quick': 800, 'thorough': 50000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Opens of a run with every kind of failing, short, torn or crashing file system operation on the cache, and '
        'with garbage in its place.')
STATES = 'fault operation x errno x position x cache before x cache after'
REAL = ['karabo_data (unmodified, imported from /repo)', 'json, tempfile, os of CPython (system calls go through the seam)']
STUB = ['the data acquisition (dst/facility.py)', 'failures of the file system holding the cache (I/O seam dst/shim.c)']
ASSUMES = ['data files and the run directory itself can be read']
warm = base.warm
OPS = {'open_r': OPEN_R, 'read': READ, 'open_w': OPEN_W, 'write': WRITE, 'rename': RENAME, 'mkdir': MKDIR, 'close': CLOSE,
       'stat': STAT, 'fsync': FSYNC, 'any_write': OPEN_W | WRITE | RENAME | MKDIR, 'all': OPEN_R | READ | OPEN_W | WRITE |
       RENAME | MKDIR | CLOSE}
ERR = {'open_r': ['EACCES', 'EPERM', 'EIO', 'ESTALE', 'ELOOP', 'ENFILE', 'ETIMEDOUT'],
       'read': ['EIO', 'ESTALE', 'ENOMEM'],
       'open_w': ['EACCES', 'EROFS', 'ENOSPC', 'EDQUOT', 'EIO', 'EPERM', 'EMFILE', 'ENOENT', 'ENAMETOOLONG'],
       'write': ['ENOSPC', 'EDQUOT', 'EIO', 'EFBIG'], 'rename': ['EACCES', 'EROFS', 'EPERM', 'EIO', 'EXDEV', 'EBUSY', 'ESTALE'],
       'mkdir': ['EACCES', 'EROFS', 'ENOSPC', 'EDQUOT', 'EMLINK', 'ENOTDIR'], 'close': ['EIO', 'ENOSPC', 'EDQUOT'],
       'stat': ['EACCES', 'EIO', 'ESTALE'], 'fsync': ['EIO'], 'any_write': ['EROFS', 'EDQUOT', 'EACCES', 'EIO'],
       'all': ['EIO', 'ESTALE', 'EACCES']}
GARBAGE = ['', '{', '[', 'null', 'true', '17', '"text"', '{}', '{"a": 1}', '[null]', '[1, 2]', '["a.h5"]', '[[]]', '[{}]',
           '[{"filename": 3}]', '[{"filename": null, "mtime": 0, "size": 0}]', '\x00\x00\x00\x00', 'NOT JSON', '<html></html>',
           '[{"filename": "%(f)s"}]', '[{"filename": "%(f)s", "mtime": "x", "size": null}]',
           '[{"filename": "%(f)s", "mtime": %(m)r, "size": %(s)d}]',
           '[{"filename": "%(f)s", "mtime": %(m)r, "size": %(s)d, "train_ids": 5, "control_sources": [], '
           '"instrument_sources": []}]',
           '[{"filename": "%(f)s", "mtime": %(m)r, "size": %(s)d, "train_ids": ["a"], "control_sources": {}, '
           '"instrument_sources": null}]', '[' * 3000, 'BIN', 'UTF16', 'DIR', 'LINK', 'NUL']


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r, size='s', pulsed=0.15)
    ops = []
    for _ in range(r.randint(1, 5)):
        k = r.choice(['fault', 'fault', 'fault', 'fault', 'quota', 'crash', 'torn', 'short', 'place', 'place', 'drop', 'new'])
        if k == 'fault':
            on = r.choice(sorted(OPS))
            ops.append({'op': k, 'on': on, 'err': r.choice(ERR[on]), 'skip': r.choice([0, 0, 0, 1, 2, 3]),
                        'count': r.choice([1, 1, 2, -1, -1]),
                        'where': r.choice(['both', 'both', 'run', 'scratch'])})
        elif k == 'quota':
            ops.append({'op': k, 'bytes': r.choice([0, 1, 100, 5000])})
        elif k in ('crash', 'torn'):
            ops.append({'op': k, 'skip': r.randrange(9), 'x': r.randrange(1, 200)})
        elif k == 'short':
            ops.append({'op': k})
        elif k == 'place':
            ops.append({'op': k, 'what': r.randrange(len(GARBAGE)), 'where': r.choice(['run', 'run', 'scratch'])})
        else:
            ops.append({'op': k})
        if k in ('fault', 'short', 'quota') and r.random() < .3:
            continue             # combine with the next one
        ops.append({'op': 'open', 'deep': r.random() < .4})
    ops.append({'op': 'heal'})
    ops.append({'op': 'open', 'deep': True})
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops, 'links': r.random() < 0.7, 'scratch': r.random() < 0.7}


def execute(plan, ctx):
    from .. import collops
    import karabo_data as kd
    D = rundir.RunDir(ctx, plan['fac'], plan['links'], plan['scratch'])
    for n in D.names:
        D.put(n, 0)
    if not D.disk:
        return
    sh = ctx.shim
    ctx.armed = True
    rules, crashed, unclean, odd = [], False, False, False
    shown = []

    def settle():
        nonlocal unclean
        for rid, name in rules:
            ctx.fault(name, sh.fired(rid))
            if 'close' in name and sh.fired(rid) or ('all' in name and sh.fired(rid)):
                pass
        sh.clear()
        rules.clear()
    for op in plan['ops']:
        k = op['op']
        pat = {'both': 'karabo_data_map', 'run': '/karabo_data_map.json', 'scratch': '/.karabo_data_maps'}[op.get('where', 'both')]
        if k == 'fault':
            if op['on'] == 'stat' and pat == 'karabo_data_map':
                pat = '/scratch'
            rid = sh.rule(OPS[op['on']], pat, skip=op['skip'], count=op['count'], err=getattr(errno, op['err']))
            rules.append((rid, 'cache_%s_%s' % (op['on'], op['err'])))
            shown.append((op['on'], op['err'], op['skip']))
        elif k == 'quota':
            rules.append((sh.rule(WRITE | OPEN_W | MKDIR, 'karabo_data_map', count=-1, action=A_QUOTA, arg=op['bytes']),
                          'cache_disk_full'))
        elif k == 'short':
            rules.append((sh.rule(WRITE | READ, 'karabo_data_map', count=-1, action=A_SHORT, arg=7), 'cache_short_io'))
        elif k == 'heal':
            settle()
        elif k == 'drop':
            for p in D.cache_paths():
                os.unlink(p)
        elif k == 'new':
            n = D.names[0]
            D.put(n, 0)
        elif k == 'place':
            place(ctx, D, op)
            odd = True
        elif k in ('crash', 'torn'):
            # another process opens the run and dies in the middle of a cache operation
            settle()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(60)
                    if k == 'crash':
                        sh.rule(OPEN_W | WRITE | RENAME | MKDIR | UNLINK, 'karabo_data_map', skip=op['skip'], action=A_CRASH)
                    else:
                        sh.rule(WRITE, 'karabo_data_map', skip=op['skip'] % 3, action=A_TORN, arg=op['x'])
                    with sh.live():
                        kd.RunDirectory(D.dir)
                except BaseException:
                    os._exit(7)
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            ctx.ev('child', k, code)
            check(code in (0, 137), 'run-refused', 'opening the run failed in another process (exit %d)', code)
            if code == 137:
                ctx.fault('crash_writing_cache')
                crashed = True
        elif k == 'open':
            before = D.read_cache()
            left0 = set(D.leftovers())
            W = collops.World(ctx, D.H, files=D.expected())
            run = W.call('RunDirectory with cache trouble %s' % [n for _, n in rules], kd.RunDirectory, D.dir)
            with run:
                rundir.check_collection(W, 'c', run, D.expected(), op['deep'])
            W.colls.clear()
            left = set(D.leftovers()) - left0
            check(not left, 'leftovers', 'opening left %s behind', sorted(left))
            if not odd:
                for p, data in D.read_cache():
                    check(rundir.is_complete_cache(data), 'partial-cache', '%s holds an incomplete cache: %r', p, data[:80])
            odd = odd and bool(D.cache_paths())
            ctx.state(shown[-2:], bool(before), len(D.cache_paths()), crashed)
            shown = []
            settle()
        ctx.ev('op', op)


def place(ctx, D, op):
    n = D.names[0]
    st = os.stat(D.dir + '/' + n)
    text = GARBAGE[op['what']]
    if op['where'] == 'scratch':
        if not os.path.isdir(D.exp + '/scratch'):
            return
        d = D.exp + '/scratch/.karabo_data_maps'
        os.makedirs(d, exist_ok=True)
        p = d + '/raw_%s.json' % os.path.basename(D.dir)
        q = D.dir + '/karabo_data_map.json'
        if os.path.isfile(q):
            os.unlink(q)
    else:
        p = D.dir + '/karabo_data_map.json'
    if os.path.isdir(p):
        return
    if os.path.lexists(p):
        os.unlink(p)
    if text == 'DIR':
        os.mkdir(p)
    elif text == 'LINK':
        os.symlink('karabo_data_map.json', p)       # a link to itself
    else:
        if text == 'BIN':
            data = bytes(range(256)) * 4
        elif text == 'UTF16':
            data = '[{"filename": "x"}]'.encode('utf-16')
        elif text == 'NUL':
            data = b'[{"filename": "a\\u0000b", "mtime": 1.0, "size": 2, "train_ids": [1], "control_sources": [], ' \
                   b'"instrument_sources": []}]'
        else:
            data = (text % {'f': n, 'm': st.st_mtime, 's': st.st_size} if '%(' in text else text).encode()
        with open(p, 'wb') as f:
            f.write(data)
    ctx.fault('cache_garbage')
