"""C24: a detector geometry means the same in files, in threads and however often it is used."""
import errno
import os
import random
import re

from .. import sched, stream      # before karabo_data
from ..sched import Sched

import h5py
import numpy as np

from .. import geom, writeops
from ..core import check, rng
from ..model import describe
from ..shim import A_SHORT, OPEN_R, READ

PROP = 'C24'
RUNS = {'quick': 700, 'thorough': 30000}
SHRINK = ['ops', 'threads', 'switches']
RULE = ('Geometries are made from positions and files, written while storage fails or the writer crashes, loaded again, and used - '
        'by one thread and several - to find positions and to assemble images, over and over and into used arrays.')
STATES = 'detector x how it was made x operations so far x type of data x switches between threads'
REAL = ['karabo_data.geometry2 (unmodified)', 'cfelpyutils, h5py, libhdf5, numpy, matplotlib (figures are made, not drawn)']
STUB = ['failures of storage (I/O seam dst/shim.c)', 'thread scheduling (dst/sched.py)']
ASSUMES = ['camera length and ADU are given when a file is loaded with cfelpyutils, which requires them',
           'pixels covered by several tiles, and positions which round either way, are not judged',
           'coordinates are inside their module', 'a file left by a crashed writer is not used']


def warm():
    import karabo_data.geometry2, cfelpyutils.crystfel_utils   # noqa
    import matplotlib.pyplot   # noqa


# --------------------------------------------------------------------------- plans
QUADS = {'AGIPD': [(-.105, .125), (-.11, -.002), (.104, -.032), (.1085, .095)],
         'LPD': [(.0114, .299), (-.0115, .008), (.2545, -.016), (.2785, .275)],
         'DSSC': [(-.13, .005), (-.13, -.125), (.005, -.125), (.005, .005)]}


def gen(seed, tier):
    r = rng(PROP, seed)
    geoms = []
    for _ in range(r.choice([1, 2, 2])):
        k = geoms[0]['kind'] if geoms and r.random() < .6 else r.choice(['AGIPD', 'AGIPD', 'LPD', 'DSSC'])
        how = r.choice({'AGIPD': ['quads', 'geom'], 'LPD': ['quads', 'geom', 'h5'], 'DSSC': ['geom', 'h5']}[k])
        geoms.append({'kind': k, 'how': how, 'seed': r.getrandbits(40), 'shift': r.choice([0, 0, 3, 30]), 'move': r.choice([0, 1, 4]),
                      'turn': r.choice([0, 0, 1e-5, 1e-3, 1e-2]), 'z': r.choice([0, 0, 1e-3]), 'unit': r.choice([None, 1e-3, 1, 2e-4, 5e-5]),
                      'gaps': r.random() < .5, 'tilt': r.choice([0, 0, 1e-4]), 'fault': gen_read_fault(r) if r.random() < .3 else None})
    ops = [gen_op(r, geoms) for _ in range(r.randint(1, 5))]
    threads = []
    if r.random() < .3:
        for _ in range(r.randint(2, 3)):
            threads.append([gen_op(r, geoms, True) for _ in range(r.randint(1, 2))])
        if r.random() < .6:      # the threads are the first to use it
            ops = []
            for t in threads:
                t[0].update(op='fast', g=0)
    return {'listseed': r.getrandbits(63), 'geoms': geoms, 'ops': ops, 'threads': threads,
            'sched': {'seed': r.getrandbits(40), 'rates': r.choice([{'line': .02, 'spawn': .5}, {'line': .2, 'spawn': .5}, {'line': .6, 'spawn': .5}])}}


def gen_read_fault(r):
    return {'on': r.choice([OPEN_R, READ, READ, READ]), 'skip': r.choice([0, 0, 1, 2, 3, 5, 9]), 'count': r.choice([1, 1, -1]),
            'err': r.choice([errno.EIO, errno.ESTALE, errno.EMFILE]), 'short': r.random() < .2}


def gen_op(r, geoms, thread=False):
    op = r.choice(['fast', 'fast', 'fast', 'coords', 'pixels', 'distortion'] + ([] if thread else ['write', 'write', 'write', 'plot', 'inspect', 'compare', 'invert', 'tiles']))
    if not thread and r.random() < .008:
        op = 'interpolate'
    elif not thread and r.random() < .05:
        op = 'old'
    return {'op': op, 'g': r.randrange(len(geoms)), 'seed': r.getrandbits(40), 'dtype': r.choice(['f4', 'f4', 'f8', 'u2', 'i4', 'u1']),
            'extra': r.choice([[], [], [], [2], [1], [0]]), 'out': r.choice([None, None, 'new', 'again', 'again', 'wider', 'shape', 'narrow']),
            'view': r.choice([0, 0, 1]), 'centre': r.random() < .5, 'neg': r.random() < .5,
            'fault': writeops.gen_fault(r) if op in ('write', 'invert') and r.random() < .5 else None,
            'dims': r.choice([None, None, ['frame', 'modno', 0, 'ss', 'fs'], ['frame', 'ss', 'fs'], ['frame', 'modno', 1, 'fs', 'ss'], ['modno', 'frame', 'ss', 'fs'], ['modno', 'ss', 'fs']]),
            'opts': r.random() < .6, 'units': r.choice(['px', 'm']), 'old': r.random() < .3, 'same': r.random() < .4}


# --------------------------------------------------------------------------- making geometries
def reference(g):
    r = random.Random(g['seed'])
    k = g['kind']
    px = geom.KINDS[k][4]
    quads = [(x + r.uniform(-1, 1) * g['shift'] * px, y + r.uniform(-1, 1) * g['shift'] * px) for x, y in QUADS[k]]
    asic = r.choice([2, 2.5, 4]) * px if g['gaps'] else {'AGIPD': 2, 'LPD': 4, 'DSSC': 2}[k] * px
    panel = r.choice([10, 29, 7.25]) * px if g['gaps'] else {'AGIPD': 29, 'LPD': 4, 'DSSC': 10}[k] * px
    if g['how'] == 'quads' and k == 'AGIPD':
        quads = [(round(x / px * 4) * px / 4, round(y / px * 4) * px / 4) for x, y in quads]
    ref = geom.base(k, quads, asic, panel)
    ref.quads, ref.asic, ref.panel = quads, asic, panel
    if g['how'] != 'quads':
        for m in range(16):
            ref.corner[m, :, :2] += [r.uniform(-1, 1) * g['move'] * px, r.uniform(-1, 1) * g['move'] * px]
            if g['how'] != 'geom':
                continue
            th = r.uniform(-1, 1) * g['turn']
            c, s = np.cos(th), np.sin(th)
            rot = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
            o = ref.corner[m, 0].copy()
            ref.corner[m] = (ref.corner[m] - o) @ rot.T + o
            ref.corner[m, :, 2] += r.uniform(-1, 1) * g['z']
            ref.ss[m], ref.fs[m] = ref.ss[m] @ rot.T, ref.fs[m] @ rot.T
            for v in (ref.ss, ref.fs):
                v[m, :, 2] += r.uniform(-1, 1) * g['tilt'] * px
    return ref


def make(ctx, W, g, i):
    """A geometry object from what a user has: numbers or a file."""
    import karabo_data.geometry2 as g2
    ref = reference(g)
    cls = getattr(g2, geom.KINDS[g['kind']][0])
    r = random.Random(g['seed'] + 1)
    if g['how'] == 'quads':
        unit = g['unit']
        u = unit or {'AGIPD': ref.px, 'LPD': 1e-3}[g['kind']]
        kw = {} if unit is None else {'unit': unit}
        if g['gaps'] or (unit and g['kind'] == 'AGIPD'):
            kw.update(asic_gap=ref.asic / u, panel_gap=ref.panel / u)
        quads = [(x / u, y / u) for x, y in ref.quads]
        what = '%s.from_quad_positions(%s, %s)' % (cls.__name__, quads, kw)
        return W(what, lambda: cls.from_quad_positions(quads if r.random() < .5 else np.array(quads), **kw)), ref, what
    if g['how'] == 'geom':
        path = '/gpfs/in/g.geom'        # replaces the file of another one
        with open(path, 'w') as f:
            f.write(geom.write_crystfel(ref, r))
        what = '%s.from_crystfel_geom (%s)' % (cls.__name__, {k: g[k] for k in ('turn', 'z', 'tilt')})
        return faulty_read(ctx, W, g['fault'], '.geom', what, lambda: cls.from_crystfel_geom(path)), ref, what
    path = '/gpfs/in/g.h5'
    u = g['unit'] or 1e-3
    quads = xfel_file(path, ref, r, u)
    kw = {} if g['unit'] is None else {'unit': u}
    what = '%s.from_h5_file_and_quad_positions(%s, %s)' % (cls.__name__, quads, kw)
    return faulty_read(ctx, W, g['fault'], '.h5', what, lambda: cls.from_h5_file_and_quad_positions(path, quads, **kw)), ref, what


def xfel_file(path, ref, r, u):
    """An XFEL geometry file; returns the positions of the quadrants."""
    at = geom.offsets(ref) / u
    quads = [(r.uniform(-.2, .2) / u, r.uniform(-.2, .2) / u) for _ in range(4)]
    with h5py.File(path, 'w') as f:
        d = f.create_dataset('DetectorDescribtion', data=np.array([b'LPD'], dtype='S20'))
        d.attrs['detectorID'] = 'x1'
        for m in range(16):
            q, n = divmod(m, 4)
            p = 'Q%d/M%d' % (q + 1, n + 1)
            mo = np.array([r.uniform(-.1, .1) / u, r.uniform(-.1, .1) / u])
            z = [0.] if r.random() < .3 else []
            f[p + '/Position'] = np.array(list(mo) + z)
            for t in range(ref.nt):
                f['%s/T%02d/Position' % (p, t + 1)] = np.array(list(at[m, t] - mo - quads[q]) + z)
    return quads


def faulty_read(ctx, W, fault, pat, what, fn):
    if fault:
        rid = ctx.shim.rule(fault['on'], pat, skip=fault['skip'], count=fault['count'],
                            **({'action': A_SHORT} if fault['short'] else {'err': fault['err']}))
        try:
            with ctx.shim.live():
                got = fn()
        except Exception:
            got = None
            check(ctx.shim.fired(rid) > 0 and not fault['short'], 'unexpected-error', '%s failed without any failure of storage', what)
            ctx.probe('load_failed')
        n = ctx.shim.fired(rid)
        ctx.shim.rule_off(rid)
        ctx.fault('storage_short_read' if fault['short'] else 'storage_err_read', n)
        if got is not None:
            return got
    return W(what, fn)


def judge(ctx, g, ref, what):
    """The geometry object holds exactly these tiles."""
    ctx.evals += 1
    check(len(g.modules) == 16 and all(len(m) == ref.nt for m in g.modules), 'wrong-tiles', '%s: %s tiles', what, [len(m) for m in g.modules])
    for m in range(16):
        for t in range(ref.nt):
            f = g.modules[m][t]
            for nm, a, b, tol in (('corner', f.corner_pos, ref.corner[m, t], 1e-10), ('ss step', f.ss_vec, ref.ss[m, t], 1e-13), ('fs step', f.fs_vec, ref.fs[m, t], 1e-13)):
                check(np.shape(a) == (3,) and np.allclose(a, b, rtol=1e-9, atol=tol), 'wrong-position',
                      '%s: %s of module %d tile %d is %s, expected %s', what, nm, m, t, a, b)
            check((f.ss_pixels, f.fs_pixels) == ref.tile, 'wrong-tiles', '%s: module %d tile %d has %sx%s pixels', what, m, t, f.ss_pixels, f.fs_pixels)


# --------------------------------------------------------------------------- the run
def execute(plan, ctx):
    os.makedirs('/gpfs/in', exist_ok=True)
    os.makedirs('/gpfs/out', exist_ok=True)
    ctx.armed = True

    def W(what, fn):
        try:
            with ctx.shim.live():
                return fn()
        except Exception as e:
            check(False, 'unexpected-error', '%s: %s: %s', what, type(e).__name__, e)
    geoms = []
    for i, g in enumerate(plan['geoms']):
        obj, ref, what = make(ctx, W, g, i)
        judge(ctx, obj, ref, what)
        geoms.append({'obj': obj, 'ref': ref, 'what': what, 'outs': {}})
        ctx.state(g['kind'], g['how'])
        ctx.ev('made', i, g['kind'], g['how'])
    last = []
    for n, op in enumerate(plan['ops']):
        G = geoms[op['g']]
        before = len(ctx.probes)
        OPS[op['op']](ctx, W, G, op, 'op %d: %s of %s' % (n, op['op'], G['what']))
        last = (last + [op['op']])[-3:]
        ctx.state(G['ref'].kind, last, op['dtype'], op['out'], op['fault'] and op['fault']['k'])
        ctx.ev('op', n, op['op'])
    if plan['threads']:
        with Sched(ctx, plan) as s:
            for i, ops in enumerate(plan['threads']):
                def body(i=i, ops=ops):
                    for n, op in enumerate(ops):
                        G = dict(geoms[op['g']], outs={}, kept=geoms[op['g']].setdefault('kept', []))       # arrays of its own
                        OPS[op['op']](ctx, W, G, op, 'thread %d op %d: %s of %s' % (i, n, op['op'], G['what']))
                s.go(body, name='user-%d' % i)
            s.block(lambda: all(t.done for t in s.threads if t.ix), None, 'the threads')
            ctx.probe('threads', len(plan['threads']))
            ctx.fault('preempted', len(s.out))
    for G in geoms:
        for what, a, b in G.get('kept', []):
            check(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'), 'result-changed', '%s: the result has changed later', what)
        judge(ctx, G['obj'], G['ref'], G['what'] + ' (after use)')


def values(shape, dtype, seed):
    """Every pixel tells where it is from."""
    n = int(np.prod(shape))
    a = (np.arange(n, dtype='u8') * 2654435761 + seed) >> 7
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        a = (a % 1000003).astype(dt) / 8
    else:
        a = a.astype(dt)
    return a.reshape(shape)


def op_fast(ctx, W, G, op, what):
    g, ref = G['obj'], G['ref']
    extra = tuple(op['extra'])
    data = values(extra + (16,) + ref.mod, op['dtype'], op['seed'] % 100000)
    if op['view']:
        data = np.ascontiguousarray(data.swapaxes(-1, -2)).swapaxes(-1, -2)
    keep = data.copy()
    exp = ref.assemble(data)
    if exp is None:
        return
    img, centre, cover = exp
    key = (extra, op['dtype'])
    what += ' (%s%s, out=%s)' % (op['dtype'], list(extra), op['out'])
    o = op['out']
    kw, prev = {}, None
    if o in ('new', 'again', 'wider'):
        dt = np.dtype('f8') if o == 'wider' else np.dtype(op['dtype'])
        key = (extra, dt.str)
        if o == 'new' or key not in G['outs']:
            out = W(what + ' output array', lambda: g.output_array_for_position_fast(extra, dt))
            check(out.shape == img.shape and out.dtype == dt, 'wrong-shape', '%s: output array %s, expected %s %s', what, describe(out), dt, img.shape)
            G['outs'][key] = out
        out = G['outs'][key]
        prev = out.copy()
        kw['out'] = out
    elif o == 'shape':
        bad(ctx, what, (AssertionError, ValueError), lambda: g.position_modules_fast(data, out=np.zeros(extra + (img.shape[-2] + 1, img.shape[-1]), data.dtype)))
    elif o == 'narrow':
        bad(ctx, what, (TypeError,), lambda: g.position_modules_fast(data, out=np.zeros(img.shape, 'i1' if op['dtype'] != 'u1' else '?')))
    fn = g.position_all_modules if op['view'] and op['neg'] else g.position_modules_fast
    got, c = W(what, lambda: fn(data, **kw))
    check(np.array_equal(data, keep), 'input-changed', '%s changed the data', what)
    if kw:
        check(got is kw['out'], 'wrong-array', '%s: the result is not the array given', what)
        img = ref.assemble(data, prev.copy())[0]
        ctx.probe('array_used_again', o == 'again')
    compare_image(ctx, got, img, cover, what)
    check(tuple(int(x) for x in c) == tuple(int(x) for x in centre), 'wrong-centre', '%s: centre %s, expected %s', what, c, centre)
    if not kw:
        mine(ctx, G, op, what, got)
    if op['neg']:
        mine(ctx, G, op, what + ' centre', c)


def mine(ctx, G, op, what, got):
    """A result belongs to the caller, who may keep it or change it."""
    if op['same']:
        got[...] = 77
        ctx.probe('result_overwritten')
    elif len(G.setdefault('kept', [])) < 3:
        G['kept'].append((what, got, got.copy()))


def compare_image(ctx, got, img, cover, what):
    ctx.evals += 1
    check(got.shape == img.shape, 'wrong-shape', '%s: image %s, expected %s', what, got.shape, img.shape)
    check(got.dtype == img.dtype, 'wrong-type', '%s: image %s, expected %s', what, got.dtype, img.dtype)
    d = got != img
    if img.dtype.kind == 'f':
        d &= ~(np.isnan(got) & np.isnan(img))
    d &= cover < 2
    if d.any():
        i = tuple(int(x) for x in np.argwhere(d)[0])
        check(False, 'wrong-pixel', '%s: %d pixels differ, at %s: got %s, expected %s (covered by %d tiles)', what, d.sum(), i, got[i], img[i], cover[i[-2:]])


def bad(ctx, what, errors, fn):
    try:
        fn()
    except errors:
        ctx.probe('refused')
        return
    except Exception as e:
        check(False, 'wrong-error', '%s: %s: %s', what, type(e).__name__, e)
    check(False, 'not-refused', '%s: accepted', what)


def op_coords(ctx, W, G, op, what):
    g, ref = G['obj'], G['ref']
    if ref.kind == 'DSSC':
        return      # not offered for DSSC
    r = np.random.RandomState(op['seed'] % 2 ** 32)
    n = 24
    m = r.randint(0, 16, n)
    ss, fs = r.uniform(0, ref.mod[0], n), r.uniform(0, ref.mod[1], n)
    if op['centre']:        # also at edges of tiles
        ss, fs = np.floor(ss), np.floor(fs)
        ss[::3] -= ss[::3] % ref.tile[0]
        fs[::4] -= fs[::4] % ref.tile[1]
    exp = ref.positions(m, ss, fs)
    sh = (4, 6) if op['neg'] else (n,)
    args = m.reshape(sh).astype(r.choice(['i4', 'i8', 'u2'])), ss.reshape(sh), fs.reshape(sh)
    keep = [x.copy() for x in args]
    got = W(what, lambda: g.data_coords_to_positions(*args))
    check(all(np.array_equal(a, b) for a, b in zip(args, keep)), 'input-changed', '%s changed the coordinates', what)
    check(got.shape == sh + (3,), 'wrong-shape', '%s: shape %s, expected %s', what, got.shape, sh + (3,))
    got = got.reshape(n, 3)
    for i in range(n):
        check(np.allclose(got[i], exp[i], rtol=1e-9, atol=1e-10), 'wrong-position', '%s: module %d, %s, %s is at %s, expected %s', what, m[i], ss[i], fs[i], got[i], exp[i])
    mine(ctx, G, op, what, got)
    ctx.evals += 1


def some(ref, seed):
    r = np.random.RandomState(seed % 2 ** 32)
    n = 40
    m, s, f = r.randint(0, 16, n), r.randint(0, ref.mod[0], n), r.randint(0, ref.mod[1], n)
    s[:6] -= s[:6] % ref.tile[0]
    f[3:8] -= f[3:8] % ref.tile[1]
    s[8:12] = s[8:12] - s[8:12] % ref.tile[0] + ref.tile[0] - 1
    return list(zip(m.tolist(), s.tolist(), f.tolist()))


def op_pixels(ctx, W, G, op, what):
    g, ref = G['obj'], G['ref']
    what += ' (centre=%s)' % op['centre']
    got = W(what, lambda: g.get_pixel_positions(centre=op['centre']))
    check(got.shape == (16,) + ref.mod + (3,), 'wrong-shape', '%s: shape %s', what, got.shape)
    for m, s, f in some(ref, op['seed']):
        e = ref.pixel(m, s, f, op['centre'])
        check(np.allclose(got[m, s, f], e, rtol=1e-9, atol=1e-10), 'wrong-position', '%s: module %d pixel %d, %d is at %s, expected %s', what, m, s, f, got[m, s, f], e)
    # all of them, in a way that sees any one out of place
    a = np.zeros(3)
    h, w = ref.tile
    for m in range(16):
        for t in range(ref.nt):
            p, q = geom.tile_start(ref.kind, t)
            i, j = np.arange(h)[:, None], np.arange(w)[None, :]
            dj = -.5 * (i % 2) if ref.kind == 'DSSC' else 0 * i
            ci, cj = (2 / 3 if ref.kind == 'DSSC' else .5, .5) if op['centre'] else (0, 0)
            e = ref.corner[m, t] + (i + ci + 0 * j)[..., None] * ref.ss[m, t] + (j + dj + cj)[..., None] * ref.fs[m, t]
            check(np.allclose(got[m, p:p + h, q:q + w], e, rtol=1e-9, atol=1e-10), 'wrong-position', '%s: module %d tile %d', what, m, t)
    mine(ctx, G, op, what, got)
    ctx.evals += 1


def op_distortion(ctx, W, G, op, what):
    g, ref = G['obj'], G['ref']
    what += ' (allow_negative_xy=%s)' % op['neg']
    got = W(what, lambda: g.to_distortion_array(allow_negative_xy=op['neg']))
    nc = 6 if ref.kind == 'DSSC' else 4
    check(got.shape == (16 * ref.mod[0], ref.mod[1], nc, 3), 'wrong-shape', '%s: shape %s', what, got.shape)
    check(got.dtype == np.float32, 'wrong-type', '%s: %s', what, got.dtype)
    if ref.kind == 'DSSC':
        offs = [(0, .5), (1 / 3, 1), (1, 1), (4 / 3, .5), (1, 0), (1 / 3, 0)]
    else:
        offs = [(0, 0), (1, 0), (1, 1), (0, 1)]
    shift = np.zeros(3)
    if not op['neg']:
        low = got[..., 1:].min(axis=(0, 1, 2))
        check(bool((np.abs(low) < 1e-7).all()), 'wrong-origin', '%s: least y, x are %s', what, low)
        pos = np.stack([ref.corner[m, t] + (i + o[0]) * ref.ss[m, t] + (j + o[1]) * ref.fs[m, t]
                        for m in range(16) for t in range(ref.nt) for i, j in edges(ref) for o in offs])
        shift[:2] = pos[:, :2].min(axis=0)
    for m, s, f in some(ref, op['seed']):
        c = ref.pixel(m, s, f, False)
        t, _, _ = ref.in_tile(s, f)
        for n, (a, b) in enumerate(offs):
            e = c + a * ref.ss[m, t] + b * ref.fs[m, t] - shift
            v = got[m * ref.mod[0] + s, f, n]
            check(np.allclose(v[::-1], e, rtol=1e-5, atol=2e-7), 'wrong-position', '%s: module %d pixel %d, %d corner %d is at (z, y, x) %s, expected (x, y, z) %s', what, m, s, f, n, v, e)
    mine(ctx, G, op, what, got)
    ctx.evals += 1


def edges(ref):
    """First corners of the outermost pixels of a tile: (steps in ss, in fs)."""
    h, w = ref.tile
    odd = .5 if ref.kind == 'DSSC' else 0
    return [(i, j - odd * (i % 2)) for i in (0, 1, h - 2, h - 1) for j in (0, w - 1)]


def op_tiles(ctx, W, G, op, what):
    g, ref = G['obj'], G['ref']
    data = values((2,) + ref.mod, 'f4', op['seed'] % 1000)
    got = W(what, lambda: g.split_tiles(data))
    check(len(got) == ref.nt, 'wrong-tiles', '%s: %d tiles', what, len(got))
    for t in range(ref.nt):
        p, q = geom.tile_start(ref.kind, t)
        check(np.array_equal(got[t], data[:, p:p + ref.tile[0], q:q + ref.tile[1]]), 'wrong-pixel', '%s: tile %d', what, t)
    ctx.evals += 1


def op_write(ctx, W, G, op, what):
    g, ref = G['obj'], G['ref']
    path = '/gpfs/out/%s.geom' % ('x' if op['same'] else op['seed'])
    kw = {'clen': 5.5, 'adu_per_ev': .0075}
    if op['opts']:
        kw.update(photon_energy=9300, data_path='/entry_1/data_1/data', mask_path='/entry_1/data_1/mask')
    dims = op['dims']
    if dims:
        kw['dims'] = tuple(dims)
    fn = lambda: g.write_crystfel_geom(path, **kw)
    if dims and 'frame' not in dims:
        bad(ctx, what, (ValueError,), fn)
        return
    if op['old'] and not os.path.exists(path):
        with open(path, 'w') as f:
            f.write('p0a0/corner_x = 12\n' * 60000)
    if op['fault']:
        out, fired = writeops.faulty_child(ctx, op['fault'], path, fn, src='/in/')
        if out == 'ok':
            read_back(ctx, W, g, ref, path, kw, what + ' (storage failed %d times, no error)' % fired)
    W(what, fn)
    read_back(ctx, W, g, ref, path, kw, what)
    # and again, by way of the file
    g2 = W(what + ' loaded', lambda: type(g).from_crystfel_geom(path))
    judge(ctx, g2, ref, what + ' loaded')
    if op['neg']:
        G['obj'], G['outs'] = g2, {}        # used from here on
        ctx.probe('used_from_file')


def read_back(ctx, W, g, ref, path, kw, what):
    """The file by the documentation of CrystFEL."""
    with open(path) as f:
        top, panels = geom.read_crystfel(f.read())
    check(len(panels) == 16 * ref.nt, 'wrong-tiles', '%s: %d panels', what, len(panels))
    exp = {'clen': kw['clen'], 'adu_per_eV': kw['adu_per_ev'], 'photon_energy': kw.get('photon_energy')}
    for k, v in exp.items():
        if v is not None:
            check(k in top and float(top[k]) == v, 'wrong-entry', '%s: %s is %s, expected %s', what, k, top.get(k), v)
    check(top.get('data') == kw.get('data_path', '/entry_1/instrument_1/detector_1/data'), 'wrong-entry', '%s: data is %s', what, top.get('data'))
    check(top.get('mask') == kw.get('mask_path'), 'wrong-entry', '%s: mask is %s', what, top.get('mask'))
    dims = kw.get('dims', ('frame', 'modno', 'ss', 'fs'))
    for m in range(16):
        for t in range(ref.nt):
            nm = 'p%da%d' % (m, t)
            check(nm in panels, 'wrong-tiles', '%s: no panel %s', what, nm)
            p = panels[nm]
            for i, d in enumerate(dims):
                v = p.get('dim%d' % i, top.get('dim%d' % i))
                e = {'frame': '%', 'modno': str(m)}.get(d, str(d))
                check(v == e, 'wrong-entry', '%s: %s/dim%d is %s, expected %s', what, nm, i, v, e)
            try:
                res = float(p.get('res', top.get('res')))
                x, y, z = float(p['corner_x']) / res, float(p['corner_y']) / res, float(p.get('coffset', 0))
                s, f = np.array(geom.vector(p['ss'])) / res, np.array(geom.vector(p['fs'])) / res
                lim = [int(p[k]) for k in ('min_ss', 'max_ss', 'min_fs', 'max_fs')]
            except (KeyError, ValueError, TypeError) as e:
                check(False, 'invalid-file', '%s: panel %s %s: %r', what, nm, p, e)
            for k, a, b, tol in (('corner', (x, y, z), ref.corner[m, t], 1e-10), ('ss', s, ref.ss[m, t], 1e-13), ('fs', f, ref.fs[m, t], 1e-13)):
                check(np.allclose(a, b, rtol=1e-9, atol=tol), 'wrong-position', '%s: %s of %s is %s, expected %s', what, k, nm, a, b)
            a, b = geom.tile_start(ref.kind, t)
            a += 0 if 'modno' in dims else m * ref.mod[0]
            e = [a, a + ref.tile[0] - 1, b, b + ref.tile[1] - 1]
            check(lim == e, 'wrong-entry', '%s: %s covers %s of the data, expected %s', what, nm, lim, e)
    ctx.evals += 1


def op_plot(ctx, W, G, op, what):
    import matplotlib.pyplot as plt
    g, ref = G['obj'], G['ref']
    data = values((16,) + ref.mod, op['dtype'], op['seed'] % 100000)
    exp = ref.assemble(data)
    if exp is None:
        return
    ax = W(what, lambda: g.plot_data_fast(data, axis_units=op['units'], frontview=op['neg'], colorbar=op['centre']))
    img = ax.get_images()
    check(len(img) == 1, 'no-image', '%s: %d images', what, len(img))
    a = img[0].get_array()
    d = np.ma.getdata(a)
    if np.ma.getmaskarray(a).any():
        d = np.where(np.ma.getmaskarray(a), np.nan, d.astype('f8')) if d.dtype.kind == 'f' else d
    compare_image(ctx, d.astype(data.dtype), exp[0], exp[2], what)
    lo, hi = ax.get_xlim()
    check((lo > hi) == op['neg'], 'wrong-view', '%s: x axis from %s to %s, frontview=%s', what, lo, hi, op['neg'])
    plt.close('all')
    ctx.evals += 1


def op_inspect(ctx, W, G, op, what):
    import matplotlib.pyplot as plt
    g, ref = G['obj'], G['ref']
    ax = W(what, lambda: g.inspect(axis_units=op['units'], frontview=op['neg']))
    scale = 1 if op['units'] == 'm' else 1 / ref.px
    got = [p.vertices for c in ax.collections if type(c).__name__ == 'PatchCollection' for p in c.get_paths()]
    check(len(got) == 16 * ref.nt, 'wrong-tiles', '%s: %d tiles drawn', what, len(got))
    for i, v in enumerate(got):
        m, t = divmod(i, ref.nt)
        c, s, f = (x[m, t][:2] for x in (ref.corner, ref.ss, ref.fs))
        h, w = ref.tile
        e = np.array([c, c + w * f, c + h * s + w * f, c + h * s]) * scale
        dist = np.abs(v[:4][:, None] - e[None]).max(axis=2)
        check(len(v) >= 4 and bool((dist.min(axis=0) < 1e-6 * scale).all()), 'wrong-position', '%s: module %d tile %d drawn at %s, expected %s', what, m, t, v[:4], e)
    # labels and the marks for the first pixels in the data
    size = np.array([np.abs(ref.tile[0] * ref.ss[0, 0]).max(), np.abs(ref.tile[1] * ref.fs[0, 0]).max()]).max() * scale
    mid = (ref.corner + ref.tile[0] / 2 * ref.ss + ref.tile[1] / 2 * ref.fs)[:, :, :2] * scale
    found = set()
    for x in ax.texts:
        nm, at = x.get_text(), np.array(x.get_position())
        mt = re.match(r'Q(\d)M(\d)$', nm)
        if mt:
            m = int(mt.group(1)) * 4 + int(mt.group(2)) - 5
            check(0 <= m < 16 and bool((np.abs(mid[m] - at).max(axis=1) < size).any()), 'wrong-label', '%s: %s drawn at %s', what, nm, at)
            found.add(m)
        elif re.match(r'T\d+$', nm):
            t = int(nm[1:]) - 1
            check(t < ref.nt and bool((np.abs(mid[:, t] - at).max(axis=1) < size / 2).any()), 'wrong-label', '%s: tile %s drawn at %s', what, nm, at)
    check(found == set(range(16)), 'wrong-label', '%s: modules %s are named', what, sorted(found))
    t0 = next(t for t in range(ref.nt) if tuple(geom.tile_start(ref.kind, t)) == (0, 0))
    marks = [np.asarray(c.get_offsets()) for c in ax.collections if type(c).__name__ == 'PathCollection']
    check(len(marks) == 1 and np.allclose(marks[0], ref.corner[:, t0, :2] * scale, atol=1e-6 * scale), 'wrong-label',
          '%s: first pixels are marked at %s', what, marks)
    plt.close('all')
    ctx.evals += 1


def op_compare(ctx, W, G, op, what):
    """Two AGIPD geometries in one plot, with arrows from where a tile is to where it is in the other."""
    import karabo_data.geometry2 as g2
    import matplotlib.pyplot as plt
    g, ref = G['obj'], G['ref']
    if ref.kind != 'AGIPD':
        return
    r = random.Random(op['seed'])
    p2 = {'kind': 'AGIPD', 'how': 'quads', 'seed': op['seed'], 'shift': 3, 'gaps': False, 'move': 0, 'turn': 0, 'z': 0, 'tilt': 0}
    ref2 = ref if op['same'] else reference(p2)
    other = g if op['same'] else g2.AGIPD_1MGeometry.from_quad_positions([(x / ref.px, y / ref.px) for x, y in ref2.quads])
    scale = r.choice([1, 1, 5, 20.])
    ax = W(what, lambda: g.compare(other, scale=scale) if scale != 1 else g.compare(other))
    patches = [c for c in ax.collections if type(c).__name__ == 'PatchCollection']
    tiles = [p.vertices for p in patches[0].get_paths()]
    arrows = [p.vertices for p in patches[1].get_paths()] if len(patches) > 1 else []
    check(len(tiles) == 16 * 8, 'wrong-tiles', '%s: %d tiles drawn', what, len(tiles))
    h, w = ref.tile

    def corners(x, m, t):
        c, s, f = (v[m, t][:2] for v in (x.corner, x.ss, x.fs))
        return np.array([c, c + w * f, c + h * s + w * f, c + h * s]) / ref.px
    lim = np.array([sorted(ax.get_xlim()), sorted(ax.get_ylim())])
    n = 0
    for i, v in enumerate(tiles):
        m, t = divmod(i, 8)
        e = corners(ref, m, t)
        dist = np.abs(v[:4][:, None] - e[None]).max(axis=2)
        check(bool((dist.min(axis=0) < 1e-6).all()), 'wrong-position', '%s: module %d tile %d drawn at %s, expected %s', what, m, t, v[:4], e)
        check(bool((e > lim[:, 0]).all() and (e < lim[:, 1]).all()), 'not-in-view', '%s: module %d tile %d is outside the plot', what, m, t)
        for a, b in zip(e[[0, 2]], corners(ref2, m, t)[[0, 2]]):
            d = (b - a) * scale
            length = np.hypot(*d)
            if length < 1e-6:
                continue
            n += 1
            # some arrow points from the corner in this direction, about this far
            for ar in arrows:
                rel = ar - a
                along, off = rel @ d / length, np.abs(rel @ [-d[1], d[0]]) / length
                if abs(along.min()) < 1 and off.max() < 64 and length - 1 < along.max() < length + 32 and off[along.argmax()] < 1e-3:
                    break
            else:
                check(False, 'wrong-arrow', '%s: no arrow for the shift of module %d tile %d by %s pixels from %s', what, m, t, d, a)
    if op['same']:
        check(not arrows, 'wrong-arrow', '%s with itself: %d arrows', what, len(arrows))
    plt.close('all')
    ctx.probe('compared', n)
    ctx.evals += 1


def op_invert(ctx, W, G, op, what):
    """The first LPD files had their coordinates the other way round."""
    import karabo_data.geometry2 as g2
    g = {'kind': 'LPD', 'how': 'h5', 'seed': op['seed'], 'shift': 3, 'move': 2, 'turn': 0, 'z': 0, 'unit': 1e-3, 'gaps': True, 'tilt': 0}
    ref = reference(g)
    src, dst = '/gpfs/in/inv-%d.h5' % op['seed'], '/gpfs/out/inv-%d.h5' % op['seed']
    if os.path.exists(src):
        return
    quads = xfel_file(src, ref, random.Random(op['seed']), 1e-3)
    with h5py.File(src, 'r+') as f:
        ps = []
        f.visititems(lambda n, o: ps.append(n) if n.endswith('Position') else None)
        for p in ps:
            f[p][...] = -f[p][...]
    what = 'invert_xfel_lpd_geom'
    if op['fault']:
        out, fired = writeops.faulty_child(ctx, op['fault'], dst, lambda: g2.invert_xfel_lpd_geom(src, dst), src='inv-')
        if out != 'ok' and os.path.exists(dst):
            bad(ctx, what + ' over an existing file', (OSError, ValueError), lambda: g2.invert_xfel_lpd_geom(src, dst))
            os.unlink(dst)
    if not os.path.exists(dst):
        W(what, lambda: g2.invert_xfel_lpd_geom(src, dst))
    obj = W(what + ' loaded', lambda: g2.LPD_1MGeometry.from_h5_file_and_quad_positions(dst, quads))
    judge(ctx, obj, ref, what + ' loaded')


def op_interpolate(ctx, W, G, op, what):
    """Slow: the interpolated image has the pixels within one pixel of where they are."""
    g, ref = G['obj'], G['ref']
    if ref.kind != 'AGIPD':
        return
    h, w = ref.tile
    base = (np.arange(16 * 8) + 1) * 1000.
    i, j = np.meshgrid(np.arange(h), np.arange(w), indexing='ij')
    data = np.zeros((16,) + ref.mod, 'f4')
    for m in range(16):
        for t in range(8):
            data[m, 64 * t:64 * t + 64] = base[m * 8 + t] + i + 2 * j
    img, centre = W(what, lambda: g.position_modules_interpolate(data))
    for m, s, f in some(ref, op['seed']):
        t, a, b = ref.in_tile(s, f)
        if not (8 <= a < h - 8 and 8 <= b < w - 8):
            a, b = 8 + a % (h - 16), 8 + b % (w - 16)
        pos = (ref.corner[m, t] + (a + .5) * ref.ss[m, t] + (b + .5) * ref.fs[m, t])[:2] / ref.px
        x, y = (int(np.floor(p + c)) for p, c in zip(pos, centre[::-1]))
        check(0 <= y < img.shape[0] and 0 <= x < img.shape[1], 'wrong-shape', '%s: %s is outside of %s', what, (y, x), img.shape)
        e = base[m * 8 + t] + a + 2 * b
        check(abs(img[y, x] - e) < 4, 'wrong-pixel', '%s: module %d tile %d pixel %d, %d at %s is %s, expected %s', what, m, t, a, b, (y, x), img[y, x], e)
    ctx.probe('interpolated')
    ctx.evals += 1


def op_old(ctx, W, G, op, what):
    """The older LPD geometry (karabo_data.geometry): y downwards, tiles turned by half a circle."""
    from karabo_data.geometry import LPDGeometry
    r = random.Random(op['seed'])
    px = 5e-4
    unit = r.choice([None, 1e-3, 1, 5e-4])
    u = unit or 1e-3
    quads = [(x / u, -y / u) for x, y in QUADS['LPD']]
    path = '/gpfs/in/old%d.h5' % op['seed']
    at = np.zeros((16, 16, 2))
    with h5py.File(path, 'w') as f:
        for m in range(16):
            q, n = divmod(m, 4)
            mo = np.array([(n in (2, 3)) * 258, (n in (0, 3)) * 270]) * px + [r.uniform(0, 2) * px, r.uniform(0, 2) * px]
            p = 'Q%d/M%d' % (q + 1, n + 1)
            f[p + '/Position'] = mo / u
            for t in range(16):
                to = np.array([(t >= 8) * 130, (t if t < 8 else 15 - t) * 33]) * px
                f['%s/T%02d/Position' % (p, t + 1)] = to / u
                at[m, t] = np.array(quads[q]) * u + mo + to
    at_px = at / px
    if (np.abs(at_px - np.rint(at_px)) < 1e-4).any():
        return
    what = 'LPDGeometry.from_h5_file_and_quad_positions(unit=%s)' % unit
    def load():
        with h5py.File(path, 'r') as f:
            return LPDGeometry.from_h5_file_and_quad_positions(f, quads, **({} if unit is None else {'unit': unit}))
    g = W(what, load)
    for m in range(16):
        for t in range(16):
            got = W(what, lambda: g.find_offset(('Q%d' % (m // 4 + 1), 'M%d' % (m % 4 + 1), 'T%02d' % (t + 1))))
            check(np.allclose(got, at[m, t], rtol=1e-9, atol=1e-10), 'wrong-position', '%s: module %d tile %d is at %s, expected %s', what, m, t, got, at[m, t])
    data = values((1,) * (op['seed'] % 2) + (16, 256, 256), 'f4', op['seed'] % 1000)
    for i in range(1 + op['seed'] % 2):
        img, (cx, cy) = W(what + ' image', lambda: g.position_all_modules(data))
    exp = np.full(img.shape, np.nan, 'f4')
    cover = np.zeros(img.shape[-2:], 'i2')
    for m in range(16):
        for t in range(16):
            p, q = geom.tile_start('LPD', t)
            x, y = np.floor(at_px[m, t]).astype(int) + [cx, cy]
            check(x >= 0 and y >= 0, 'wrong-shape', '%s: tile outside of the image', what)
            exp[..., y:y + 32, x:x + 128] = data[..., m, p:p + 32, q:q + 128][..., ::-1, ::-1]
            cover[y:y + 32, x:x + 128] += 1
    check(cover.sum() == 16 * 16 * 32 * 128, 'wrong-shape', '%s: tiles outside of the image %s', what, img.shape)
    compare_image(ctx, img, exp, cover, what)


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}
