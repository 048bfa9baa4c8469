"""C21: printed reports describe the recorded run."""
import contextlib
import datetime
import errno
import io
import os
import re

from .. import collops, detector, facility, opsgen
from ..core import check, rng
from ..model import MColl
from ..shim import LIST, OPEN_R, READ
from . import base

PROP = 'C21'
RUNS = {'quick': 900, 'thorough': 60000}
SHRINK = ['ops', 'reports', 'fac.faults', 'fac.aggs', 'fac.sources']
RULE = ('Simulated runs, some with detectors, whose recording lost trains, messages and files, are read through a history '
        'of selections and unions; then every collection, random trains, sources, files, run directories and proposal '
        'directories are reported on, some while storage fails.')
STATES = 'kind of report x detector or not x trains, lost data or none x storage fault'
REAL = ['karabo_data (unmodified, imported from /repo)', 'h5py and the system libhdf5']
STUB = ['the data acquisition (dst/facility.py, dst/detector.py)', 'storage failures and listing order (I/O seam)']
ASSUMES = ['the number of frames per train of a detector is estimated from one file, as documented',
           'the number of trains in the one-line summary of a run is that of any one group of sequence files, as documented']
warm = base.warm
WEIGHTS = {'open': 2, 'select': 4, 'deselect': 3, 'select_trains': 5, 'union': 3, 'train_id': .7}


def gen(seed, tier):
    r = rng(PROP, seed)
    det = r.random() < .45
    fac = detector.gen_det(r, second=.05) if det else facility.gen_run(r, strings=True)
    if r.random() < .15:
        facility.gen_frames(r, fac, [s for s in fac['sources'] if s.get('det')] or None)
    if not det:
        facility.gen_spread(r, fac)
    for a in fac['aggs']:
        a['chunk'] = max(1, a['chunk'])
    H = facility.simulate(fac)
    g = opsgen.OpGen(r, H, WEIGHTS, neg=.02)
    ops = g.history(r.randint(2, 9))
    colls = sorted(g.m)
    reports = []

    def fault():
        return {'file': r.randrange(50), 'op': r.choice(['open', 'read', 'read', 'list']), 'skip': r.choice([0, 0, 1, 3, r.randrange(20)]),
                'count': r.choice([1, -1]), 'err': r.choice([errno.EIO, errno.ESTALE, errno.EACCES])} if r.random() < .15 else None
    for _ in range(r.randint(4, 10)):
        k = r.choice(['info', 'info', 'train', 'train', 'detector', 'none', 'ls', 'ls', 'ls', 'lsmany', 'openfile', 'index'])
        o = {'k': k, 'c': r.choice(colls), 'x': r.random(), 'y': r.random(), 'fault': fault()}
        if k in ('ls', 'lsmany'):
            o['paths'] = [[r.choice(['run', 'run', 'file', 'file', 'file', 'proposal', 'exp', 'other', 'text', 'missing', 'dir']),
                           r.random(), r.random() < .3] for _ in range(1 if k == 'ls' else r.randint(2, 5))]
        reports.append(o)
    extra = [{'run': 'r%04d' % n, 'seed': r.getrandbits(30)} for n in r.sample(range(31, 99), r.choice([0, 1, 2, 3]))]
    return {'listseed': r.getrandbits(63), 'fac': fac, 'ops': ops, 'reports': reports, 'extra': extra,
            'bare': r.choice([None, None, None, 'r0600', 'r0001', 'r0044']), 'bare_file': r.choice([None, 'notes.txt', 'my-data.h5']),
            'clutter': r.sample(['notes.txt', 'junk.h5', 'x.h5.part', 'plots/'], r.choice([0, 0, 1, 2])),
            'other': r.choice(['out.h5', 'my-data.h5', 'RAW-R0001-XYZ01-S00000.h5', 'virtual-r0004-2.h5', 'RAW-R0003-LPD00.h5'])}


def span(tids):
    return str(datetime.timedelta(seconds=(tids[-1] - tids[0]) / 10))


def frames_of(m, s):
    """Numbers of frames per train which may be stated for a detector source, from one of its files."""
    out = set()
    for f in m.files:
        if s in m.H.plan_aggs[f.agg]['sources']:
            out |= (set(f.counts[(s, 'image')]) - {0}) or {0}
    return out


def dims_of(m, s):
    return m.H.sources[s].keys['image.data'].shape[-2:]


def det_sources(m):
    return sorted(s for s in m.instrument if re.match(r'.+/DET/\d+CH', s))


def wrong_info(m, text):
    """What is wrong in the overview of a collection, or None."""
    lines = [' '.join(l.split()) for l in text.splitlines()]
    flat = {}
    for l in lines:
        a, s, b = l.partition(':')
        if s and not a.startswith('- '):
            flat.setdefault(a.strip(), b.strip())
    t = m.tids
    if flat.get('# of trains') != str(len(t)):
        return '%r trains, expected %d' % (flat.get('# of trains'), len(t))
    have = [flat.get('First train ID'), flat.get('Last train ID'), flat.get('Duration')]
    if t and have != [str(t[0]), str(t[-1]), span(t)]:
        return 'first, last train, duration %s, expected %s' % (have, [t[0], t[-1], span(t)])
    if not t and any(re.search(r'\d', x or '') for x in have):
        return 'first, last train, duration %s of no trains' % have
    dets = det_sources(m)
    others = sorted(m.instrument - set(dets))
    items = [l[2:] for l in lines if l.startswith('- ')]
    if items != others + sorted(m.control):
        return 'sources %s, expected %s' % (items, others + sorted(m.control))
    for n, what in ((len(dets), 'detector modules'), (len(others), 'instrument sources'), (len(m.control), 'control sources')):
        if not any(l.startswith('%d %s' % (n, what)) for l in lines):
            return 'number of %s, expected %d' % (what, n)
    if dets:
        names = {re.match(r'(.+)/DET/', s).group(1) for s in dets}
        head = next(l for l in lines if 'detector modules' in l)
        if set(re.search(r'\((.*)\)', head).group(1).split(',')) != names:
            return '%r, detectors are %s' % (head, names)
        named = [l for l in lines if l in dets]
        if len(named) != 1:
            return 'no module is shown as example'
        s = named[0]
        name, no = re.match(r'(.+)/DET/(\d+)CH', s).groups()
        want = 'module %s %s : %s pixels' % (name, no, ' x '.join(str(d) for d in dims_of(m, s)))
        if not any(l.endswith(want) for l in lines):
            return 'module, expected %r' % want
        got = [re.match(r'(\d+) frames per train, up to (\d+) frames total$', l) for l in lines]
        got = [tuple(map(int, g.groups())) for g in got if g]
        if len(got) != 1 or got[0] not in {(n, n * len(t)) for n in frames_of(m, s)}:
            return 'frames %s, expected %s per train in %d trains' % (got, frames_of(m, s), len(t))
    return None


def wrong_train(m, tid, text):
    part, got = None, {'Instruments': [], 'Controls': []}
    for l in text.splitlines():
        l = l.strip()
        if l in got:
            part = l
        elif l.startswith('- ') and part:
            got[part].append(l[2:])
    if str(tid) not in text.splitlines()[0]:
        return 'headed %r' % text.splitlines()[0]
    for part, all in (('Instruments', m.instrument), ('Controls', m.control)):
        may = {s for s in all if tid in m.may_tids(s)}
        must = {s for s in all if tid in m.must_tids(s)}
        g = got[part]
        if len(set(g)) != len(g) or not must <= set(g) <= may:
            return '%s %s, recorded %s' % (part, g, sorted(must))
    return None


def describe_name(base_n):
    """Words that have to be in the description of a file, from its name."""
    p = base_n[:-3].split('-')
    m = re.match(r'(AGIPD|LPD|DSSC|DA)(\d+)', p[2]) if len(p) == 4 else None
    if not m:
        return ['Unknown']
    if m.group(1) == 'DA':
        return ['Aggregated']
    return [{'RAW': 'Raw', 'CORR': 'Corrected'}[p[0]], m.group(1), 'module ' + m.group(2)]


def is_det(base_n):
    return describe_name(base_n)[0] in ('Raw', 'Corrected')


class Out:
    """Expected outcome of lsxfel for one path."""
    def __init__(self, judge, code=0):
        self.judge, self.code = judge, code


def file_report(H, rec, f, base_n, many):
    m = collops.file_model(rec, f)
    n = len(f.tids)

    def judge(lines):
        head = lines.pop(0) if lines else ''
        if not (head.startswith(base_n + ' : ') and all(w in head for w in describe_name(base_n))):
            return 'headed %r, expected %s: %s' % (head, base_n, describe_name(base_n))
        if is_det(base_n):
            s = det_sources(m)[0]
            a, b = dims_of(m, s)
            if many:
                want = ['%d trains, %d frames/train, %d total frames' % (n, c, c * n) for c in frames_of(m, s)]
            else:
                want = ['%d trains / %d × %d pixels / %d frames per train, %d total' % (n, a, b, c, c * n) for c in frames_of(m, s)]
            k = 1 if many else 3
        elif many:
            want, k = ['%d trains, %d sources' % (n, len(m.sel))], 1
        else:
            l = ['%d trains' % n, '%d instrument sources' % len(m.instrument)] + ['- ' + s for s in sorted(m.instrument)]
            l += ['%d control sources' % len(m.control)] + ['- ' + s for s in sorted(m.control)]
            want, k = [' / '.join(l)], len(l)
        got = ' / '.join(lines[:k])
        del lines[:k]
        return None if got in want else 'says %r, expected %s' % (got, want)
    return judge


def run_line(H, d, files):
    """The one-line summary of a run."""
    groups = {}
    for f in files:
        groups.setdefault(f.name.rpartition('-S')[0], set()).update(f.tids)
    ndet = sum(is_det(f.name) for f in files)
    want = {'%s : Run of %d trains, with %d detector files and %d others' % (os.path.basename(d), len(g), ndet, len(files) - ndet)
            for g in groups.values()}

    def judge(lines):
        got = lines.pop(0) if lines else ''
        return None if got in want else 'says %r, expected one of %s' % (got, sorted(want))
    return judge


def no_run(name):
    def judge(lines):
        got = lines.pop(0) if lines else ''
        return None if re.match(re.escape(name) + r'\b(?!.*\d trains)', got) else 'says %r, expected %s without data' % (got, name)
    return judge


def seq(*judges):
    def judge(lines):
        for j in judges:
            w = j(lines)
            if w:
                return w
    return judge


def line(*words):
    def judge(lines):
        got = lines.pop(0) if lines else ''
        return None if all(w in got for w in words) else 'says %r, expected %s' % (got, words)
    return judge


def any_order(judges, fixed):
    """Runs are summarised one per line."""
    def judge(lines):
        left = list(judges)
        for _ in judges:
            for j in left:
                if lines and j(lines[:1]) is None:
                    left.remove(j)
                    lines.pop(0)
                    break
            else:
                return 'says %r, which matches no run' % (lines[:1],)
    return judge


def table(path):
    import h5py
    out = []

    def walk(g, at):
        for n in g:
            p = at + n
            x = g.get(n)
            if isinstance(x, h5py.Group):
                walk(x, p + '/')
            else:
                out.append([p, str(x.shape), x.dtype.str])
    with h5py.File(path, 'r') as h:
        walk(h, '')
    return sorted(out)


class Reports:
    def __init__(self, plan, ctx, W, H):
        self.plan, self.ctx, self.W, self.H = plan, ctx, W, H
        self.rec = W.rec
        self.dirs = {}
        for f in H.files:
            self.dirs.setdefault(os.path.dirname(f.path), []).append(f)
        self.kind_dir = os.path.dirname(H.dir)            # raw or proc
        self.exp = os.path.dirname(self.kind_dir)

    def make_extra(self):
        p = self.plan
        for e in p['extra']:
            r = rng('extra', e['seed'])
            d = self.kind_dir + '/' + e['run']
            src = self.dirs[self.H.dir] if self.H.dir in self.dirs else self.H.files
            fs = r.sample(src, r.randint(1, len(src)))
            os.makedirs(d)
            for f in fs:
                os.link(f.path, d + '/' + f.name)
            self.dirs[d] = fs
        for d in sorted(self.dirs):
            for n in p['clutter']:
                if n.endswith('/'):
                    os.mkdir(d + '/' + n[:-1])
                else:
                    with open(d + '/' + n, 'w') as fh:
                        fh.write('nothing\n')
        self.bare = []
        if p.get('bare') and not os.path.exists(self.kind_dir + '/' + p['bare']):
            # a run without any (recognised) data files: nothing recorded, or moved away
            os.mkdir(self.kind_dir + '/' + p['bare'])
            self.bare.append(p['bare'])
            if p['bare_file']:
                with open('%s/%s/%s' % (self.kind_dir, p['bare'], p['bare_file']), 'w') as fh:
                    fh.write('nothing\n')
            self.ctx.probe('bare_run')
        with open(self.kind_dir + '/README.txt', 'w') as fh:
            fh.write('text\n')
        with open(self.kind_dir + '/r0500', 'w') as fh:
            fh.write('not a run\n')
        os.mkdir(self.kind_dir + '/analysis')
        self.other = '/gpfs/tmp/' + p['other']
        self.of = self.H.files[p['listseed'] % len(self.H.files)]
        with open(self.of.path, 'rb') as a, open(self.other, 'wb') as b:
            b.write(a.read())

    def expect(self, what, x, slash, many):
        """(path, Out) for one argument of lsxfel."""
        H, rec = self.H, self.rec
        sl = '/' if slash else ''
        dirs = sorted(self.dirs)
        d = dirs[int(x * len(dirs))]
        if what == 'run':
            if many:
                return d + sl, Out(run_line(H, d, self.dirs[d]))
            files = self.dirs[d]

            def judge(lines, text):
                head = lines.pop(0)
                if not head.startswith(os.path.basename(d) + ' : Run directory'):
                    return 'headed %r' % head
                body = text.partition('\n')[2]
                ms = [self.files_model(files)] + [self.files_model([f for f in files if f is not b]) for b in self.broken if b in files]
                ws = [wrong_info(m, body) for m in ms if m.files]
                del lines[:]
                return ws[0] if ws and all(ws) else None
            o = Out(judge)
            o.text = True
            return d + sl, o
        if what == 'file':
            f = self.H.files[int(x * len(self.H.files))]
            return f.path, Out(file_report(H, rec, f, f.name, many))
        if what == 'other':
            return self.other, Out(file_report(H, rec, self.of, os.path.basename(self.other), many))
        if what == 'proposal' or (what == 'exp' and (many or not self.kind_dir.endswith('raw'))):
            runs = any_order([run_line(H, k, self.dirs[k]) for k in dirs] + [no_run(b) for b in self.bare], not many)
            return self.kind_dir + sl, Out(seq(line(os.path.basename(self.kind_dir), 'Proposal'), runs))
        if what == 'exp':
            runs = any_order([run_line(H, k, self.dirs[k]) for k in dirs] + [no_run(b) for b in self.bare], True)
            b = os.path.basename(self.exp)
            return self.exp + sl, Out(seq(line(b, 'Proposal directory'), line(b + '/raw/'), runs))
        if what == 'text':
            return self.kind_dir + '/README.txt', Out(line('README.txt', 'Unrecognised file'), 2)
        if what == 'missing':
            p = self.kind_dir + '/r7777'
            return p, Out(line(p, 'not found'), 2)
        p = self.kind_dir + '/analysis'
        return p, Out(line('analysis', 'Unrecognised directory'), 2 if many else None)

    def files_model(self, files):
        aggs, must = self.H.plan_aggs, {}
        for f in files:
            for s in aggs[f.agg]['sources']:
                must.setdefault(s, set()).update(f.tids)
        return MColl(self.rec, {s: set(self.H.sources[s].keys) for s in must}, sorted({t for f in files for t in f.tids}),
                     must, list(files))

    def printed(self, what, fn, *a):
        out, err = io.StringIO(), io.StringIO()

        def go():
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                return fn(*a)
        ret = self.W.call(what, go)
        return out.getvalue(), ret

    def ls(self, o):
        from karabo_data import lsxfel
        many = len(o['paths']) > 1
        exps = [self.expect(w, x, s, many) for w, x, s in o['paths']]
        what = 'lsxfel ' + ' '.join(p for p, _ in exps)
        text, ret = self.printed(what, lsxfel.main, [p for p, _ in exps])
        lines = [' '.join(l.split()) for l in text.splitlines()]
        lines = [l for l in lines if l]
        for p, e in exps:
            if getattr(e, 'text', False):
                w = e.judge(lines, text)
            else:
                w = e.judge(lines)
            check(not w, 'wrong-report', '%s: for %s it %s', what, p, w)
            self.ctx.evals += 1
        check(not lines, 'wrong-report', '%s: also says %r', what, lines[:5])
        codes = [e.code for _, e in exps]
        if None not in codes:
            check((ret or 0) == max(codes), 'exit-code', '%s returned %r', what, ret)
        self.ctx.state('ls', sorted({w for w, _, _ in o['paths']}), many, bool(self.broken))

    def index(self, o):
        """The table of the datasets in a file."""
        import csv
        import sys
        import h5py
        from karabo_data import h5index
        f = self.H.files[int(o['x'] * len(self.H.files))]
        want = self.tables[f.path]
        what = 'h5index of ' + f.name
        if o['y'] < .5:
            def go():
                with h5py.File(f.path, 'r') as h:
                    h5index.hdf5_datasets(h)
        else:
            def go():
                was, sys.argv = sys.argv, ['h5index', f.path]
                try:
                    h5index.main()
                finally:
                    sys.argv = was
        text, _ = self.printed(what, go)
        got = list(csv.reader(io.StringIO(text)))
        check(got[:1] == [['path', 'shape', 'dtype']], 'wrong-report', '%s: headed %s', what, got[:1])
        check(got[1:] == want, 'wrong-report', '%s: %s, the file has %s', what, [x for x in got[1:] if x not in want][:3] or len(got),
              [x for x in want if x not in got][:3] or len(want))
        self.ctx.evals += 1
        self.ctx.probe('h5index')

    def report(self, o):
        W, ctx = self.W, self.ctx
        k = o['k']
        if k in ('ls', 'lsmany'):
            return self.ls(o)
        if k == 'index':
            return self.index(o)
        if k == 'openfile':
            f = self.H.files[int(o['x'] * len(self.H.files))]
            real, m = W.open_file(f.path), collops.file_model(self.rec, f)
        elif o['c'] not in W.colls:
            return
        else:
            real, m = W.colls[o['c']]
        if k == 'none':
            from karabo_data import by_index
            real = real.select_trains(by_index[0:0])
            m = MColl(self.rec, m.allsel, [], m.must, [])
            ctx.probe('no_trains')
        ctx.state(k, bool(det_sources(m)), min(len(m.tids), 2), len(m.files) > 3, bool(self.broken), len(m.sel) < len(self.H.sources))
        if k in ('info', 'none', 'openfile'):
            text, _ = self.printed('info', real.info)
            w = wrong_info(m, text)
            check(not w, 'wrong-report', 'info() of %s: %s\n%s', o['c'], w, text)
        elif k == 'train':
            hi, lo = m.tids[-1], m.tids[0]
            tid = m.tids[int(o['x'] * len(m.tids))] if o['y'] < .8 else int(lo - 3 + o['x'] * (hi - lo + 6))
            if tid not in m.tids:
                W.expect_error('train_info(%d)' % tid, ['ValueError'], real.train_info, tid)
                ctx.probe('no_such_train')
            else:
                text, _ = self.printed('train_info', real.train_info, tid)
                w = wrong_train(m, tid, text)
                check(not w, 'wrong-report', 'train_info(%d) of %s: %s\n%s', tid, o['c'], w, text)
        elif k == 'detector':
            for s in det_sources(m):
                d = W.call('detector_info(%s)' % s, real.detector_info, s)
                n = d['frames_per_train']
                check(tuple(d['dims']) == tuple(dims_of(m, s)), 'wrong-report', 'detector_info(%s): %s', s, d)
                check(n in frames_of(m, s) and d['total_frames'] == n * len(m.tids), 'wrong-report',
                      'detector_info(%s): %s, recorded %s frames in %d trains', s, d, frames_of(m, s), len(m.tids))
                ctx.evals += 1
                ctx.probe('detector_info')
        ctx.evals += 1


def execute(plan, ctx):
    W = base.make_world(plan, ctx)
    if W is None:
        return
    H = W.H
    R = Reports(plan, ctx, W, H)
    R.broken = []
    R.make_extra()
    R.tables = {f.path: table(f.path) for f in H.files}
    before = base.fingerprint([f.path for f in H.files])
    ctx.armed = True
    for op in plan['ops']:
        W.step(op)
    for o in plan['reports']:
        ft = o['fault']
        rid = None
        if ft:
            f = H.files[ft['file'] % len(H.files)]
            R.broken = [f]
            ops = {'open': OPEN_R, 'read': READ, 'list': LIST}[ft['op']]
            pat = '/' + f.name if ft['op'] != 'list' else os.path.dirname(f.path)
            rid = ctx.shim.rule(ops, pat, skip=ft['skip'], count=ft['count'], err=ft['err'])
            W.tolerate = lambda e: ctx.shim.fired(rid) > 0
        try:
            R.report(o)
        except collops.Refused:
            ctx.probe('report_refused')
        if rid is not None:
            ctx.fault('storage_' + ft['op'], ctx.shim.fired(rid))
            ctx.shim.rule_off(rid)
            R.broken = []
            W.tolerate = None
            if ctx.shim.fired(rid):      # repeat it once storage is well again
                R.report(o)
                ctx.probe('repeated')
        ctx.ev('report', o['k'])
    check(base.fingerprint([f.path for f in H.files]) == before, 'data-modified', 'reporting changed a data file')
