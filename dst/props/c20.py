"""C20: generated timestamps are consistent and the caller's data stays as it was."""
import random

from .. import stream
from ..core import EPOCH0, check, rng

PROP = 'C20'
RUNS = {'quick': 2000, 'thorough': 150000}
SHRINK = ['feeders', 'jumps', 'switches']
RULE = ('Items with and without metadata, given separately or in the data or reused between feeds, fed while the clock '
        'jumps and drifts.')
STATES = 'hash of the sequence of thread switches'
REAL = ['karabo_data.export (unmodified)', 'karabo_bridge.Client', 'msgpack, msgpack_numpy']
STUB = ['ZeroMQ and the network (dst/simzmq.py)', 'locks, thread start and clock (dst/sched.py)']
ASSUMES = ['the clock reads at least one second and less than 10^15 s', 'metadata given covers every source']
warm = stream.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    total = r.choice([1, 2, 4, 8])
    how = r.choice(['arg', 'inline', 'some', None])
    feeders = [{'name': 'feeder-0', 'items': [
        {'id': i, 'seed': r.getrandbits(40), 'how': how, 'wait': round(r.choice([0, 0, .001, .1, 1]) * r.random(), 5)}
        for i in range(total)]}]
    jumps = []
    for _ in range(r.choice([0, 0, 1, 3])):
        jumps.append([round(2 * r.random(), 5), r.choice([-3600, -1e-3, 1e-6, .5, 7200, 86400 * 365 * 10])])
    base = r.choice([0, 0, 0, -EPOCH0 + 1, -EPOCH0 + 1000.5, 1e10, 3e8])
    whole = r.random() < .25        # the clock has whole seconds only
    return {'sched': stream.gen_sched(r), 'net': stream.gen_net(r), 'feeders': feeders, 'jumps': jumps, 'base': base,
            'whole': whole, 'reuse': r.random() < .3,
            'server': {'maxlen': r.choice([1, 10]), 'protocol_version': r.choice(['2.2', '1.0']),
                       'dummy_timestamps': r.random() < .85}}


class Stamps(stream.Stream):
    def feeder(self, name, items, keep=None):
        shared = {}
        for it in items:
            if it.get('wait'):
                self.s.sleep(it['wait'])
            data, meta = stream.make_item(it)
            if self.plan['reuse']:
                # the caller keeps one metadata dict per source and updates it for every train
                src = {s: shared.setdefault(s, dict(m)) for s, m in (meta or {}).items()}
                for s in src:
                    src[s]['timestamp.tid'] = meta[s]['timestamp.tid']
                if meta is not None:
                    meta = src
            rec = {'tag': it['id'], 'by': name, 'start': self.tick(), 'end': None, 'meta': meta, 'data': data}
            self.fed.append(rec)
            before = stream.snapshot([data, meta])
            want = stream.expected_meta(data, meta)
            rec['want'] = {s: dict(want[s]) for s in data}
            lo = self.s.now + self.s.offset
            rec['clock'] = [lo, None]
            self.clock_low = lo
            self.ctx.ev('feed', it['id'], lo)
            self.lows = [lo]
            self.highs = [lo]
            if meta is not None:
                self.server.feed(data, meta)
            else:
                self.server.feed(data)
            hi = self.s.now + self.s.offset
            rec['clock'] = [min(self.lows + [hi]), max(self.highs + [hi])]
            rec['end'] = self.tick()
            check(stream.snapshot([data, meta]) == before, 'caller-data-changed',
                  'feeding item %d changed the data or metadata of the caller', it['id'])
            self.ctx.evals += 1

    def jump(self, dt):
        old = self.s.now + self.s.offset
        if old + dt < 1 or old + dt > 1e15:
            return
        self.s.offset += dt
        new = old + dt
        if hasattr(self, 'lows'):
            self.lows += [old, new]
            self.highs += [old, new]
        self.ctx.fault('clock_jump')
        self.ctx.ev('jump', dt)


def check_stamp(m, want, clock, dummy, where):
    extra = {k: v for k, v in m.items() if k not in want}
    for k in want:
        check(k in m and m[k] == want[k] and type(m[k]) is type(want[k]), 'metadata-altered', '%s: %r became %r', where,
              {k: want[k]}, m.get(k))
    if not dummy or 'timestamp' in want:
        check(not extra, 'unwanted-timestamp', '%s: %s was added', where, extra)
        return
    check(set(m) >= {'timestamp', 'timestamp.sec', 'timestamp.frac'}, 'no-timestamp', '%s: has only %s', where, sorted(m))
    check(set(extra) <= {'timestamp', 'timestamp.sec', 'timestamp.frac'}, 'metadata-altered', '%s: %s was added', where, extra)
    ts, sec, frac = m['timestamp'], m['timestamp.sec'], m['timestamp.frac']
    check(type(ts) is float, 'timestamp-type', '%s: timestamp %r', where, ts)
    check(type(sec) is str and sec.isdigit() and type(frac) is str and frac.isdigit() and len(frac) == 18,
          'timestamp-parts', '%s: parts %r %r', where, sec, frac)
    both = int(sec) + int(frac) / 1e18
    check(abs(both - ts) <= 2e-7 * max(1, abs(ts) / 1e9), 'timestamp-parts', '%s: %r is not %s + 0.%s', where, ts, sec, frac)
    check(clock[0] - 1e-3 <= ts <= clock[1] + 1e-3, 'timestamp-wrong', '%s: %r, but it was fed between %r and %r', where, ts,
          clock[0], clock[1])


def execute(plan, ctx):
    ctx.armed = True
    st = Stamps(ctx, plan)
    total = sum(len(f['items']) for f in plan['feeders'])
    dummy = plan['server']['dummy_timestamps']
    with st.s:
        st.s.offset = plan['base']
        if plan['whole']:
            st.s.wall = lambda: float(int(st.s.now + st.s.offset) + .0)
        srv = st.streamer(**plan['server'])
        srv.start()
        for t, dt in plan['jumps']:
            st.s.at(t, lambda dt=dt: st.jump(dt))
        for f in plan['feeders']:
            st.s.go(st.feeder, f['name'], f['items'], name=f['name'])
        st.start_client({'name': 'client-last', 'seed': 1, 'think': 0, 'start': 0, 'n': None})
        st.wait_for(lambda: all(t.done for t in st.threads_named('feeder')) and len(st.net.sent) >= total, 3600,
                    'delivering everything that was fed')
        st.settle()
        got = st.got.get('client-last', [])
        check(len(got) == total, 'lost', '%d items fed, %d received', total, len(got))
        recs = {f['tag']: f for f in st.fed}
        for _, data, meta in got:
            tag = st.tag_of(data)
            rec = recs[tag]
            lo, hi = rec['clock']
            if plan['whole']:
                lo, hi = lo - 1, hi + 1
            check(set(meta) == set(rec['want']), 'metadata-sources', 'item %d: metadata for %s', tag, sorted(meta))
            for s in sorted(rec['want']):
                check_stamp(meta[s], rec['want'][s], (lo, hi), dummy, 'item %d, %s' % (tag, s))
                ctx.evals += 1
            for s, v in data.items():      # the data itself is untouched
                orig = stream.make_item(next(i for f in plan['feeders'] for i in f['items'] if i['id'] == tag))[0][s]
                a = {k: x for k, x in v.items() if k != 'metadata'}
                b = {k: x for k, x in orig.items() if k != 'metadata'}
                d = stream.same(a, b, s, st.proto)
                check(d is None, 'altered', 'item %d: %s', tag, d)
