"""Generates concrete operation histories by running the reference model."""
from .core import weighted
from .model import MColl, Recorded, dir_model, model_tr, tr_error


class OpGen:
    def __init__(self, r, H, weights, files=None, neg=0.05):
        self.r, self.H, self.w, self.neg = r, H, weights, neg
        self.rec = Recorded(H, files if files is not None else H.files)
        self.m = {}          # coll name -> model
        self.opened = []
        self.iters = {}      # iterator name -> coll name
        self.n = 0
        fac = H.plan
        self.dirs = [fac['dir'], fac['dir2']] if fac.get('second') is not None else []

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- pieces
    def coll(self):
        names = list(self.m)
        # favour recent collections, keep old ones alive
        return self.r.choice(names[-4:] if self.r.random() < 0.6 else names)

    def glob_src(self, m):
        r = self.r
        s = r.choice(sorted(m.sel))
        return r.choice(['*', s, s, s[:4] + '*', '*' + s[-4:], '*/' + s.split('/', 1)[1],
                         s.replace(s[2], '?'), '*[' + s[-1] + ']', '*/DET/*', '*_XGM/*', '*[!' + s[-1] + ']', '[!' + s[0] + ']*',
                         s.partition(':')[0], s.partition(':')[0] + '*', s.rstrip('0123456789') + '[0-9]'])

    def glob_key(self, m, sg):
        r = self.r
        keys = sorted({k for ks in m.sel.values() for k in ks})
        k = r.choice(keys)
        opts = ['*', '*', k, k.split('.')[0] + '.*', '*.' + k.split('.')[-1], '*' + k[2:], k[:-1] + '?', '[!' + k[0] + ']*',
                k.split('.')[0] + '*', '*[!' + k[-1] + ']']
        if k.endswith('.value'):
            opts += [k[:-6], k[:-6], '*' + k[-9:-6]]
        return r.choice(opts)

    def hidden(self, m):
        """A key which is recorded, but not selected in this collection."""
        out = [(s, k) for s in sorted(m.sel) for k in sorted(set(m.src(s).keys) - m.sel[s])]
        return self.r.choice(out) if out else None

    def spec(self, m, deselect=False):
        r = self.r
        if r.random() < 0.35:
            srcs = r.sample(sorted(m.sel), r.randint(1, min(3, len(m.sel))))
            d = {}
            for s in srcs:
                d[s] = [] if r.random() < 0.3 else sorted(
                    r.sample(sorted(m.sel[s]), r.randint(1, len(m.sel[s]))))
            if r.random() < self.neg:
                d['NOT/A/SOURCE'] = []
            elif not deselect and r.random() < 2 * self.neg:
                h = self.hidden(m)
                if h:
                    d[h[0]] = [h[1]]
            return d
        n = r.choice([1, 1, 1, 2, 3])
        out = []
        for _ in range(n):
            sg = self.glob_src(m)
            kg = self.glob_key(m, sg)
            if not m.match(sg, kg) and r.random() > self.neg:
                sg, kg = '*', '*'
                s = r.choice(sorted(m.sel))
                sg, kg = s, r.choice(['*', r.choice(sorted(m.sel[s]))])
            if r.random() < self.neg / 2:       # patterns are case-sensitive
                sg, kg = r.choice([(sg.swapcase(), kg), (sg, kg.swapcase())])
            out.append([sg, kg])
        return out

    def tr(self, m):
        r, t = self.r, m.tids
        lo, hi = t[0], t[-1]
        k = r.choice(['id_slice', 'id_slice', 'ix_slice', 'id_list', 'id_arr', 'ix_list'])
        if k == 'id_slice':
            if r.random() < self.neg:
                return [k, r.choice([[hi + 1, hi + 5, None], [lo - 5, lo - 1, None], [None, lo - 3, None]])]
            a = r.choice([None, r.randint(lo - 2, hi), r.choice(t)])
            b = r.choice([None, r.randint(max(lo, a or lo), hi) + r.choice([0, 1, 3]),
                          r.choice(t) + r.choice([0, 1])])
            if b is not None and a is not None and b <= a:
                b = a + r.randint(1, 6)
            if b is not None and b <= lo:
                b = lo + 1
            return [k, [a, b, r.choice([None, None, None, 1, 2, 3])]]
        if k == 'ix_slice':
            n = len(t)
            a, b = r.choice([None, r.randint(-n, n)]), r.choice([None, r.randint(-n, n + 2)])
            return [k, [a, b, r.choice([None, None, 1, 2, 3])]]
        if k == 'ix_list':
            n = len(t)
            ix = sorted(r.sample(range(n), r.randint(1, n)), reverse=r.random() < 0.2)
            if r.random() < .3:      # from the end
                ix = [i - n if r.random() < .5 else i for i in ix]
            if r.random() < self.neg:
                ix[r.randrange(len(ix))] = r.choice([n, n + 3, -n - 1])
            return [r.choice([k, k, 'ix_arr']), ix]
        if r.random() < self.neg / 3:
            return ['wrong', r.randrange(6)]
        vals = r.sample(range(lo - 2, hi + 3), r.randint(1, min(8, hi - lo + 5)))
        if r.random() > self.neg and not set(vals) & set(t):
            vals.append(r.choice(t))
        if r.random() < .1:
            vals.append(r.choice(vals))
        return [k, vals]

    def dev(self, m, p=0.3):
        return self.spec(m) if self.r.random() < p else None

    def field(self, m, flat=False):
        r = self.r
        if r.random() < self.neg:
            return self.hidden(m) or r.choice([('NOT/A/SOURCE', 'x.value'), (r.choice(sorted(m.sel)), 'not.a.key')])
        s = r.choice(sorted(m.sel))
        return s, r.choice(sorted(m.sel[s]))

    # ---- operations
    def open(self, out=None, file=None, dir=None):
        out = out or self.name('c')
        op = {'op': 'open', 'out': out}
        if self.dirs and dir is None:
            dir = self.r.choice(self.dirs)
        if dir and not file:
            op['dir'] = dir
            model = dir_model(self.rec, dir)
        elif file:
            op['file'] = file.path if self.dirs else file.name
            srcs = self.H.plan_aggs[file.agg]['sources']
            model = MColl(self.rec, {s: set(self.H.sources[s].keys) for s in srcs}, sorted(file.tids),
                          {s: set(file.tids) for s in srcs}, [file])
        else:
            model = MColl(self.rec)
        self.m[out] = model
        self.opened.append(out)
        return op

    def derive(self, op, new):
        if new is None or not new.tids or not new.sel:
            op['out'] = self.name('x')
            return op
        op['out'] = self.name('c')
        self.m[op['out']] = new
        return op

    def gen(self):
        r = self.r
        kind = weighted(r, {k: w for k, w in self.w.items() if k[0] != "_"})
        if kind == 'open':
            if r.random() < 0.4:
                return self.open(file=r.choice([f for f in self.rec.files if f.tids]))
            return self.open()
        if not self.m:
            return None
        c = self.coll()
        m = self.m[c]
        if kind == 'select':
            op = {'op': 'select', 'c': c, 'spec': self.spec(m), 'plain': r.random() < 0.5}
            return self.derive(op, m.select(op['spec']))
        if kind == 'deselect':
            op = {'op': 'deselect', 'c': c, 'spec': self.spec(m, True), 'plain': r.random() < 0.5}
            new = m.deselect(op['spec'])
            if new is not None and (len(new.sel) == 0):
                return None
            return self.derive(op, new)
        if kind == 'select_trains':
            op = {'op': 'select_trains', 'c': c, 'tr': self.tr(m)}
            tr = op['tr']
            return self.derive(op, None if tr_error(tr, len(m.tids)) else m.select_trains(model_tr(tr)))
        if kind == 'union':
            cs = [self.coll() for _ in range(r.choice([1, 1, 2]))]
            op = {'op': 'union', 'c': c, 'cs': cs}
            return self.derive(op, m.union(*[self.m[x] for x in cs]))
        if kind == 'train_id':
            dev = self.dev(m)
            tid = r.choice(m.tids) if r.random() > self.neg else r.choice([m.tids[0] - 1, m.tids[-1] + 1])
            return {'op': kind, 'c': c, 'tid': tid, 'dev': dev}
        if kind == 'train_ix':
            i = r.randrange(-len(m.tids), len(m.tids)) if r.random() > self.neg else len(m.tids) + 2
            return {'op': kind, 'c': c, 'i': i, 'dev': self.dev(m)}
        if kind == 'iter_open':
            it = self.name('it')
            dev = self.dev(m)
            m2 = m.select(dev) if dev is not None else m
            if m2 is None:
                return None
            op = {'op': kind, 'c': c, 'it': it, 'dev': dev,
                  'tr': self.tr(m2) if r.random() < 0.3 else None, 'req': r.random() < self.w.get('_req', 0.25)}
            self.iters[it] = c
            return op
        if kind in ('iter_next', 'iter_rest'):
            if not self.iters:
                return None
            it = r.choice(sorted(self.iters))
            if kind == 'iter_rest':
                del self.iters[it]
                return {'op': kind, 'it': it}
            return {'op': kind, 'it': it, 'n': r.choice([1, 1, 2, 5])}
        if kind == 'close':
            self.iters.clear()
            return {'op': 'close', 'c': r.choice(self.opened)} if self.opened else None
        if kind == 'keys':
            return {'op': 'keys', 'c': c, 's': r.choice(sorted(m.sel))}
        if kind == 'recheck':
            return {'op': 'recheck', 'c': r.choice(sorted(self.m))}
        if kind == 'info':
            return {'op': 'info', 'c': c}
        if kind == 'dataframe':
            return {'op': kind, 'c': c, 'dev': self.dev(m, 0.8), 'ts': r.random() < 0.3}
        s, k = self.field(m)
        if kind == 'series':
            # favour 1D fields
            for _ in range(4):
                src = self.H.sources.get(s)
                if src and k in src.keys and src.keys[k].shape in ((), (1,)):
                    break
                s, k = self.field(m)
            return {'op': kind, 'c': c, 's': s, 'k': k}
        if kind == 'counts':
            return {'op': kind, 'c': c, 's': s, 'k': k}
        if kind == 'array':
            op = {'op': kind, 'c': c, 's': s, 'k': k, 'dims': r.random() < 0.2}
            src = self.H.sources.get(s)
            if src and k in src.keys and src.keys[k].shape and r.random() < 0.5:
                op['roi'] = self.roi(src.keys[k].shape)
            return op
        if kind == 'dask':
            n = 1 + r.randrange(6)
            return {'op': kind, 'c': c, 's': s, 'k': k, 'seed': r.randrange(1000),
                    'slice': [r.randrange(3), n] if r.random() < 0.4 else None}
        raise ValueError(kind)

    def roi(self, shape):
        r = self.r
        if r.random() < 0.15:
            return ['...']
        out = []
        for d in shape[:r.randint(1, len(shape))]:
            x = r.random()
            if x < 0.3:
                out.append(r.randrange(d))
            else:
                a = r.randrange(d)
                out.append(r.choice([[None, None, None], [a, None, None], [None, a + 1, None],
                                     [a, r.randint(a + 1, d), None], [None, None, 2]]))
        return out

    def history(self, n):
        ops = [self.open('c0')]
        if self.dirs:
            # a run in two directories: usually joined first
            for d in self.dirs:
                ops.append(self.open('c0' + d[-2:], dir=d))
            op = {'op': 'union', 'c': ops[1]['out'], 'cs': [ops[2]['out']]}
            if self.r.random() < .3:
                op['c'], op['cs'] = op['cs'][0], [op['c']]
            ops.append(self.derive(op, self.m[op['c']].union(*[self.m[x] for x in op['cs']])))
        tries = 0
        while len(ops) < n and tries < 6 * n:
            tries += 1
            op = self.gen()
            if op is not None:
                ops.append(op)
        for it in sorted(self.iters):
            if self.r.random() < 0.5:
                ops.append({'op': 'iter_rest', 'it': it})
        if self.w.get('recheck', 0) >= 1:
            ops += [{'op': 'recheck', 'c': c} for c in sorted(self.m)]
        return ops
