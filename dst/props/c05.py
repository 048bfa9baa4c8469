"""C05: the same source recorded twice for a train is refused, and only that."""
import os
import shutil

from .. import facility
from ..core import check, rng
from ..model import MColl, Recorded
from . import base

PROP = 'C05'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['ops', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Runs where some sources move between aggregators, aggregators re-record trains, files are copied, '
        'or a second run repeats sources; opened and joined in random orders.')
STATES = 'conflict kind x operation x whether it conflicts'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5']
STUB = ['the data acquisition (dst/facility.py)', 'directory listing order (I/O seam)']
ASSUMES = ['sequence files are well formed']
warm = base.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    fac = facility.gen_run(r, pulsed=0.2)
    n = fac['n']
    dup = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        k = r.choice(['rerecord', 'rerecord', 'copy', 'move', 'move', 'share_train'])
        a = r.choice(fac['aggs'])
        if k == 'copy':
            dup.append({'k': 'copy', 'agg': a['id'], 'ix': r.randrange(4)})
            continue
        # another aggregator records some sources of this one
        cut = r.randint(a['start'] + 1, max(a['start'] + 1, a['stop'] - 1)) if a['stop'] > a['start'] + 1 else a['stop']
        srcs = r.sample(a['sources'], r.randint(1, len(a['sources'])))
        b = facility.gen_agg(r, 'DA%02d' % (20 + len(fac['aggs'])), srcs, n)
        if k == 'move':       # takes over cleanly: no conflict
            b['start'], b['stop'], a['stop'] = cut, n, cut
            if b['start'] >= b['stop']:
                continue
        elif k == 'rerecord':
            b['start'], b['stop'] = max(0, cut - r.randint(1, 3)), n
            a['stop'] = cut
        else:                  # exactly one shared train
            b['start'], b['stop'] = cut - 1, n
            a['stop'] = cut
        fac['aggs'].append(b)
        dup.append({'k': k})
    H = facility.simulate(fac)
    if not any(f.tids for f in H.files):
        fac['faults'] = []
        H = facility.simulate(fac)
    names = [f.name for f in H.files]
    copies = []
    for d in dup:
        if d['k'] == 'copy':
            mine = [f.name for f in H.files if f.agg == d['agg']]
            if mine:
                src = mine[d['ix'] % len(mine)]
                # in the same directory under another name, or in another one under the same name
                copies.append([src, src.replace('-S', '-X').replace('.h5', '-%d.h5' % len(copies))] if r.random() < .6 else
                              [src, '../copy-%d/%s' % (len(copies), src)])
    ops = []
    allnames = names + [c[1] for c in copies]
    for _ in range(r.randint(2, 6)):
        k = r.choice(['open_run', 'include', 'union', 'union', 'union'])
        if k == 'open_run':
            ops.append({'op': 'open', 'inc': '*'})
        elif k == 'include':
            ops.append({'op': 'open', 'inc': r.choice(['*-DA0*', '*S0000[01]*', '*-X0*', '*' + r.choice(fac['aggs'])['id'] + '*'])})
        else:
            pick = r.sample(allnames, r.randint(1, len(allnames)))
            ops.append({'op': 'union', 'files': pick, 'how': r.choice(['nary', 'fold', 'tree']),
                        'reads': r.getrandbits(16)})
    return {'listseed': r.getrandbits(63), 'fac': fac, 'copies': copies, 'ops': ops,
            'kinds': sorted({d['k'] for d in dup})}


def conflicts(H, files):
    seen = {}
    for f in files:
        for s in H.plan_aggs[f.agg]['sources']:
            for t in f.tids:
                if (s, t) in seen:
                    return (s, t)
                seen[(s, t)] = f
    return None


def execute(plan, ctx):
    import fnmatch
    import karabo_data as kd
    from .. import collops
    H = base.build(plan, ctx)
    if H is None:
        return
    byname = {f.name: f for f in H.files}
    for src, dst in plan['copies']:
        if src in byname:
            to = os.path.normpath(H.dir + '/' + dst)
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copyfile(byname[src].path, to)
            c = facility.FileRec(to, byname[src].agg, 90)
            c.tids, c.counts = list(byname[src].tids), byname[src].counts
            byname[dst] = c
            ctx.fault('file_duplicated')
    ctx.armed = True
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'open':
            files = [f for n, f in sorted(byname.items()) if '/' not in n and fnmatch.fnmatchcase(n, op['inc'])]
        else:
            files = [byname[n] for n in op['files'] if n in byname]
        if not files:
            continue
        W = collops.World(ctx, H, files=files)
        clash = conflicts(H, files)
        what = '%s of %s' % (op['op'], [f.name for f in files])
        ctx.state(plan['kinds'], op['op'], op.get('how'), bool(clash), len(files) > 3)
        if op['op'] == 'open':
            fn = lambda: kd.RunDirectory(H.dir, include=op['inc'])
        else:
            parts = []
            for f in files:
                d = W.open_file(f.path)
                m = collops.file_model(W.rec, f)
                if f.tids and op['reads'] >> (len(parts) % 16) & 1:
                    t, data = W.call('train_from_index', d.train_from_index, 0)
                    check(int(t) == min(f.tids), 'wrong-train', 'train_from_index(0) of %s: %s', f.name, t)
                parts.append(d)
            fn = lambda: join(parts, op['how'])
        if clash:
            ctx.probe('conflict')
            W.expect_error(what + ' (%s recorded twice for train %d)' % clash, ['ValueError'], fn)
            ctx.evals += 1
        else:
            ctx.probe('no_conflict')
            real = W.call(what, fn)
            W.add('c', real, MColl(W.rec), what)
            for t in W.colls['c'][1].tids:
                got, d = W.call('train_from_id', real.train_from_id, t)
                W.check_train('train_from_id(%d)' % t, W.colls['c'][1], t, got, d)
        ctx.ev('op', i, bool(clash))


def join(parts, how):
    if how == 'nary' or len(parts) < 3:
        return parts[0].union(*parts[1:])
    if how == 'fold':
        x = parts[0]
        for p in parts[1:]:
            x = x.union(p)
        return x
    h = len(parts) // 2
    return join(parts[:h], how).union(join(parts[h:], how))
