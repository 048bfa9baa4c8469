"""C23: a run is found by proposal and run number, and never mistaken for another."""
import errno
import os
import shutil

from .. import facility
from ..core import check, rng
from ..shim import LIST, META, OPEN_R, READ, STAT
from . import base

PROP = 'C23'
RUNS = {'quick': 1500, 'thorough': 120000}
SHRINK = ['steps', 'runs', 'decoys']
RULE = ('A facility tree of instruments, cycles, proposals and runs with confusingly similar numbers; runs are opened by '
        'number in any accepted spelling while the tree changes, directories can not be listed and storage fails.')
STATES = 'spelling of proposal x spelling of run x data kind x there or not x fault'
REAL = ['karabo_data (unmodified, imported from /repo)', 'glob, os.path of Python', 'h5py and the system libhdf5']
STUB = ['the facility file system (scratch directory behind the I/O seam)', 'listing order and storage failures (dst/shim.c)']
ASSUMES = ['a proposal is in one place', 'entries called like a proposal at its level of the tree are directories']
warm = base.warm
EXP = '/gpfs/exfel/exp'


def similar(r, n, hi):
    s = str(n)
    c = r.choice([n + 1, n * 10, n // 10, int(s[::-1]), int(s + s[-1:]), n + 100, n + 1000, int('1' + s)])
    return min(max(1, c), hi)


def gen(seed, tier):
    r = rng(PROP, seed)
    insts = r.sample(['SPB', 'FXE', 'SCS', 'MID', 'HED', 'SQS', 'XMPL', 'DETLAB'], r.randint(1, 6))
    cycles = r.sample(['201701', '201802', '201901', '202130', '000000'], r.randint(1, 3))
    props, n = {}, r.choice([2012, 2001, 12, 700000, 900052, 8, 20120])
    for _ in range(r.randint(1, 6)):
        props.setdefault(n, [r.choice(insts), r.choice(cycles)])
        n = similar(r, r.choice(sorted(props)), 999999)
    runs = []
    seen = set()
    for p in sorted(props):
        q = r.choice([1, 1, 3, 10, 24, 100, 243, 1000, 9999])
        for _ in range(r.randint(1, 4)):
            kinds = r.sample(['raw', 'proc'], r.randint(1, 2))
            for kind in kinds:
                if (p, q, kind) not in seen:
                    seen.add((p, q, kind))
                    runs.append([p, q, kind])
            q = similar(r, q, 20000)
    r.shuffle(runs)
    later = [x for x in runs if r.random() < .2]
    steps = []
    for _ in range(r.randint(4, 12)):
        k = r.choice(['open'] * 8 + ['add', 'remove', 'move'])
        p, q, kind = r.choice(runs)
        if k == 'open' and r.random() < .2:
            p, q, kind = r.choice([(similar(r, p, 999999), q, kind), (p, similar(r, q, 20000), kind),
                                   (p, q, 'proc' if kind == 'raw' else 'raw'), (r.choice(sorted(props)), q, kind)])
        s = {'op': k, 'p': p, 'q': q, 'kind': kind, 'ps': r.choice(['int', 'str', 'str', 'zeros', 'p', 'path', 'path/']),
             'qs': r.choice(['int', 'str', 'zeros', 'r']), 'inc': r.choice([None] * 6 + ['*DA01*', '*DA02*', 'nothing*']),
             'plain': r.random() < .5}
        if k == 'move':
            s['to'] = [r.choice(insts), r.choice(cycles)]
        if k == 'open' and r.random() < .3:
            s['fault'] = {'where': r.choice(['exp', 'inst', 'inst', 'cycle', 'cycle', 'prop', 'run', 'file', 'far', 'far', 'far', 'far', 'far', 'far']),
                          'x': r.random(), 'op': r.choice(['list', 'list', 'stat', 'open', 'read']), 'skip': r.choice([0, 0, 0, 1, 2]),
                          'count': r.choice([-1, -1, 1]), 'err': r.choice([errno.EACCES, errno.EIO, errno.ESTALE, errno.ENOENT])}
        steps.append(s)
    return {'listseed': r.getrandbits(63), 'insts': insts, 'cycles': cycles, 'props': [[p] + v for p, v in sorted(props.items())],
            'runs': [x for x in runs if x not in later], 'later': later, 'links': r.random() < .6,
            'decoys': [[r.choice(['deeper', 'higher', 'suffix', 'prefix', 'hidden', 'beside', 'beside', 'file']), r.choice(runs), r.choice(insts),
                        r.choice(cycles)] for _ in range(r.choice([0, 1, 3, 5]))], 'steps': steps}


class Tree:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.n = 0
        self.props = {p: '%s/%s/%s/p%06d' % (EXP, i, c, p) for p, i, c in plan['props']}
        self.there = {}          # (p, q, kind) -> History
        for i in plan['insts']:
            for c in plan['cycles']:
                os.makedirs('%s/%s/%s' % (EXP, i, c), exist_ok=True)
        for p, d in self.props.items():
            for k in ('raw', 'proc'):
                bulk = d.replace('/exp/', '/d/%s/' % k)
                if plan['links']:
                    os.makedirs(bulk)
                    os.makedirs(d, exist_ok=True)
                    os.symlink('../../../../d/%s/%s' % (k, '/'.join(d.split('/')[-3:])), d + '/' + k)
                else:
                    os.makedirs(d + '/' + k)
        for x in plan['runs']:
            self.add(*x)
        for k, x, i, c in plan['decoys']:
            self.decoy(k, x, i, c)

    def record(self, d, q):
        """Any two directories hold different trains and sources."""
        self.n += 1
        src = {'name': 'SIM_%d/CTRL/%d' % (self.n, self.n), 'cat': 'c', 'keys': [['value.value', 'f8', []]]}
        src2 = dict(src, name='SIM_%d/MOTOR/B' % self.n)
        agg = {'id': 'DA01', 'sources': [src['name']], 'per_file': 10, 'chunk': 1}
        H = facility.simulate({'dir': d, 'run': 'r%04d' % q, 't0': 10000 + 10 * self.n, 'n': 2, 'sources': [src, src2],
                               'aggs': [agg, dict(agg, id='DA02', sources=[src2['name']])]})
        facility.write_run(H)
        return H

    def add(self, p, q, kind):
        if (p, q, kind) in self.there or p not in self.props:
            return
        d = '%s/%s/r%04d' % (self.props[p], kind, q)
        self.there[(p, q, kind)] = self.record(d, q)

    def remove(self, p, q, kind):
        if (p, q, kind) in self.there:
            shutil.rmtree('%s/%s/r%04d' % (self.props[p], kind, q))
            del self.there[(p, q, kind)]

    def move(self, p, to):
        """The proposal gets another place in the tree."""
        new = '%s/%s/%s/p%06d' % (EXP, to[0], to[1], p)
        if p in self.props and not os.path.lexists(new):
            os.rename(self.props[p], new)
            self.props[p] = new
            self.ctx.probe('proposal_moved')

    def decoy(self, k, x, i, c):
        p, q, kind = x
        name = 'p%06d' % p
        top = {'deeper': '%s/%s/%s/GROUP/%s' % (EXP, i, c, name), 'higher': '%s/%s/%s' % (EXP, i, name),
               'suffix': '%s/%s/%s/%s_old' % (EXP, i, c, name), 'prefix': '%s/%s/%s/x%s' % (EXP, i, c, name),
               'hidden': '%s/.snapshots/%s/%s' % (EXP, c, name)}.get(k)
        if top:
            d = '%s/%s/r%04d' % (top, kind, q)
            if not os.path.exists(d):
                self.record(d, q)
        elif k == 'file':
            f = '%s/%s/%s' % (EXP, i, 'README')
            open(f, 'w').close()
        else:       # similar names next to the run
            for nm in ('r%d' % q, 'r%05d' % q, 'r%04d_old' % q, 'R%04d' % q):
                d = '%s/%s/%s' % (self.props[p], kind, nm)
                if nm != 'r%04d' % q and not os.path.exists(d):
                    self.record(d, q)

    def spelled(self, s):
        p, q = s['p'], s['q']
        a = {'int': p, 'str': str(p), 'zeros': '%06d' % p, 'p': 'p%06d' % p}.get(s['ps'])
        if a is None:
            a = self.props.get(p, EXP + '/SPB/201701/p%06d' % p) + ('/' if s['ps'] == 'path/' else '')
        return a, {'int': q, 'str': str(q), 'zeros': '%04d' % q, 'r': 'r%04d' % q}[s['qs']]

    def place(self, s):
        """Path for a storage fault, and whether it concerns the run opened."""
        f = s['fault']
        d = self.props.get(s['p'], EXP + '/SPB/201701/p%06d' % s['p'])
        inst, cyc = os.path.dirname(os.path.dirname(d)), os.path.dirname(d)
        w = f['where']
        if w == 'far':
            far = ['%s/%s' % (EXP, i) for i in self.plan['insts']]
            far += ['%s/%s/%s' % (EXP, i, c) for i in self.plan['insts'] for c in self.plan['cycles']]
            far = [x for x in far if not d.startswith(x + '/')]
            if far:
                return far[int(f['x'] * len(far))], False
            w = 'inst'
        run = '%s/%s/r%04d' % (d, s['kind'], s['q'])
        return {'exp': EXP, 'inst': inst, 'cycle': cyc, 'prop': d, 'run': os.path.realpath(run),
                'file': '-S00000.h5'}[w], True


def execute(plan, ctx):
    import karabo_data as kd
    T = Tree(plan, ctx)
    ctx.armed = True
    for i, s in enumerate(plan['steps']):
        key = (s['p'], s['q'], s['kind'])
        if s['op'] == 'add':
            T.add(*key)
            continue
        if s['op'] == 'remove':
            T.remove(*key)
            continue
        if s['op'] == 'move':
            T.move(s['p'], s['to'])
            continue
        a, b = T.spelled(s)
        args = {'data': s['kind']} if s['kind'] != 'raw' or not s['plain'] else {}
        if s['inc']:
            args['include'] = s['inc']
        what = 'step %d: open_run(%r, %r%s)' % (i, a, b, ''.join(', %s=%r' % x for x in args.items()))
        H = T.there.get(key)
        files = [f for f in H.files if s['inc'] in (None, '*%s*' % f.agg)] if H else []
        f, rid, near = s.get('fault'), None, False
        for again in (False, True):
            if f and not again:
                path, near = T.place(s)
                ops = {'list': LIST, 'stat': STAT, 'open': OPEN_R, 'read': READ}[f['op']]
                rid = ctx.shim.rule(ops, path, skip=f['skip'], count=f['count'], err=f['err'])
                # a directory that can't be listed has no bearing on what is elsewhere
            try:
                with ctx.shim.live():
                    run = kd.open_run(a, b, **args)
                    tids, srcs = [int(t) for t in run.train_ids], set(run.all_sources)
                    got = [v['value.value'] for s2 in sorted(srcs) for v in [run.train_from_id(tids[0])[1][s2]]] if files else []
                err = None
            except Exception as e:
                err, run = e, None
            fired = ctx.shim.fired(rid) if rid is not None and not again else 0
            if rid is not None and not again:
                ctx.fault('storage_' + f['op'] + ('' if near else '_elsewhere'), fired)
                ctx.shim.rule_off(rid)
            if err is not None:
                check(not files or (fired and near), 'not-opened', '%s: %s: %s, but it is there: %s', what, type(err).__name__,
                      err, H.dir if H else None)
                if files:
                    ctx.probe('refused_by_fault')
                else:
                    ctx.probe('nothing_there')
            else:
                check(files, 'wrong-run', '%s: there is no such run, opened one with trains %s sources %s', what, tids, srcs)
                want = set().union(*(H.plan_aggs[x.agg]['sources'] for x in files))
                ok = srcs == want
                if fired and near and not ok:
                    ok = bool(srcs) and srcs < want        # unreadable files are left out
                check(ok and tids == files[0].tids, 'wrong-run', '%s: opened a run with trains %s, sources %s; %s has %s, %s', what,
                      tids, sorted(srcs), H.dir, files[0].tids, sorted(want))
                exp = [float(H.sources[x].sample('value.value', tids[0], 0)) for x in sorted(srcs)]
                check([float(x) for x in got] == exp, 'wrong-data', '%s: data %s, recorded %s', what, got, exp)
                ctx.probe('opened')
            ctx.evals += 1
            ctx.state(s['ps'], s['qs'], s['kind'], bool(files), f['op'] + f['where'] if f and not again else '', err is None)
            ctx.ev('open', i, again, err is None)
            if not fired:
                break
