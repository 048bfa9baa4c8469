"""Simulated streaming: a streamer, feeders, karabo_bridge clients and a network."""
from . import sched, simzmq          # before karabo_data and karabo_bridge
from .sched import Killed, Sched

import copy
import functools
import math
import random

import numpy as np

from .core import EPOCH0, HarnessError, Violation, check

RATES = [{'line': .02, 'lock': .1, 'unlock': .1, 'clock': .05, 'zmq': .2, 'spawn': .3},
         {'line': .2, 'lock': .3, 'unlock': .3, 'clock': .2, 'zmq': .5, 'spawn': .5},
         {'line': 0, 'lock': .02, 'unlock': .02, 'clock': 0, 'zmq': .05, 'spawn': .5},
         {'line': .6, 'lock': .5, 'unlock': .5, 'clock': .5, 'zmq': .5, 'spawn': .5},
         {'line': .05, 'lock': 0, 'unlock': 0, 'clock': 0, 'zmq': 0, 'spawn': 0}]


def gen_sched(r):
    return {'seed': r.getrandbits(40), 'rates': r.choice(RATES), 'stall': r.choice([0, 0, 0, .001, .01])}


def gen_net(r):
    return {'seed': r.getrandbits(40), 'delay': r.choice([1e-5, 1e-3, 1e-3, .03, .5]), 'jitter': r.choice([0, 0, .5, 1.5])}


# ---------------------------------------------------------------- items

DTYPES = ['u1', 'i1', 'u2', 'i2', '<u4', '>i4', '<i8', 'u8', 'f2', '<f4', '>f4', 'f8', '?', 'c8', 'c16']


def make_array(r, big=False):
    dt = np.dtype(r.choice(DTYPES))
    nd = r.choice([0, 1, 1, 1, 2, 2, 3, 4])
    shape = tuple(r.choice([1, 1, 2, 3, 5, 16]) for _ in range(nd))
    if big:
        shape = (4, 64, 32)
    n = int(np.prod(shape)) if shape else 1
    raw = np.random.RandomState(r.getrandbits(31))
    if dt.kind in 'ui':
        a = raw.randint(0, 1 << 30, n).astype(dt)
    elif dt.kind == 'b':
        a = raw.randint(0, 2, n).astype(dt)
    elif dt.kind == 'c':
        a = (raw.randint(-999, 999, n) + 1j * raw.randint(-999, 999, n)).astype(dt)
    else:
        a = (raw.randint(-1024, 1024, n) / 8).astype(dt)
        if n and r.random() < .1:
            a[0] = r.choice([np.nan, np.inf, -np.inf])
    a = a.reshape(shape)
    k = r.random()
    if nd >= 2 and k < .15:
        a = np.asfortranarray(a)
    elif nd >= 1 and k < .3:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif nd >= 1 and k < .4:
        a = a[::-1]
    elif nd >= 2 and k < .5:
        a = a.swapaxes(0, -1)
    if r.random() < .1:
        a.flags.writeable = False
    return a


def make_value(r, depth=0):
    k = r.randrange(15 if depth < 2 else 11)
    if k == 0:
        return r.choice([0, 1, -1, 127, 128, 255, 256, -129, 65536, 2 ** 31, -2 ** 31, 2 ** 63 - 1, 2 ** 64 - 1, -2 ** 63])
    if k == 1:
        return r.choice([0.0, -0.0, 1.5, 1e300, -1e-300, math.inf, 0.1])
    if k == 2:
        return r.choice([True, False])
    if k == 3:
        return None
    if k in (4, 5):
        return r.choice(['', 'a', 'scan', 'üñí', '日本', 'x' * 40, 'line\nbreak', 'True'])
    if k == 6:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 300])))
    if k in (7, 8) and depth == 0:
        t = r.choice([np.uint8, np.int32, np.uint64, np.float32, np.float64, np.int64, np.float16, np.int8])
        return t(r.choice([0, 1, 2, 100]))
    if k in (9, 10):
        return r.randrange(1000)
    if k in (11, 12):
        v = [make_value(r, depth + 1) for _ in range(r.randrange(4))]
        return tuple(v) if r.random() < .3 else v
    return {r.choice('abcdef'): make_value(r, depth + 1) for _ in range(r.randrange(3))}


SOURCES = ['SPB_DET_AGIPD1M-1/DET/0CH0:xtdf', 'SPB_DET_AGIPD1M-1/DET/10CH0:xtdf', 'SA1_XTD2_XGM/DOOCS/MAIN', 'a', 'Z', 'üx',
           'SPB_XTD9_XGM/DOOCS/MAIN:output']
KEYS = ['image.data', 'image.pulseId', 'data.intensityTD', 'beamPosition.ixPos.value', 'x', 'timestamp', 'content', 'source',
        'path', 'header.trainId', 'ünit']


def make_item(spec):
    """An item to feed: (data, metadata or None); a pure function of the spec."""
    r = random.Random('item:%s' % spec['seed'])
    data, meta = {}, {}
    srcs = r.sample(SOURCES, r.choice([1, 1, 2, 2, 3, 5]))
    for s in srcs:
        d = {}
        for k in r.sample(KEYS, r.choice([0, 1, 2, 3, 5])):
            d[k] = make_array(r, r.random() < .03) if r.random() < .45 else make_value(r)
        m = {'source': s, 'timestamp.tid': 10000 + spec['id']}
        if r.random() < .3:
            m.update({'timestamp': 1.5e9 + spec['id'], 'timestamp.sec': str(1500000000 + spec['id']),
                      'timestamp.frac': '0' * 18})
        if spec.get('how') == 'inline' or (spec.get('how') == 'some' and r.random() < .5):
            d['metadata'] = m
        meta[s] = m
        data[s] = d
    first = data[srcs[0]]
    first['tag'] = spec['id']
    return data, (meta if spec.get('how') == 'arg' else None)


def expected_meta(data, meta):
    if meta:
        return meta
    return {s: v.get('metadata', {}) for s, v in data.items()}


def same(got, want, where, proto):
    """None, or what differs."""
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray):
            return '%s: not an array but %r' % (where, type(got))
        if got.dtype != want.dtype or got.shape != want.shape:
            return '%s: %s%s became %s%s' % (where, want.dtype, want.shape, got.dtype, got.shape)
        if want.tobytes() != got.tobytes():
            return '%s: array values differ' % where
        return None
    if isinstance(want, np.number):
        w = want.item()
        if isinstance(got, np.generic):
            got = got.item()
        if type(got) is not type(w) or not (got == w or (got != got and w != w)):
            return '%s: %r became %r' % (where, want, got)
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return '%s: %r became %r' % (where, want, got)
        for i, (g, w) in enumerate(zip(got, want)):
            d = same(g, w, '%s[%d]' % (where, i), proto)
            if d:
                return d
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return '%s: keys %s became %s' % (where, sorted(want), sorted(got) if isinstance(got, dict) else got)
        for k in want:
            d = same(got[k], want[k], '%s[%r]' % (where, k), proto)
            if d:
                return d
        return None
    if type(got) is not type(want) or not (got == want or (got != got and want != want)):
        return '%s: %r became %r' % (where, want, got)
    return None


def snapshot(x):
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return (type(x).__name__, repr(x))


# ---------------------------------------------------------------- actors

class Stream:
    """One simulated deployment: streamer, feeders, clients and their recorded history."""
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.s = Sched(ctx, plan)
        self.net = simzmq.Network(self.s, plan.get('net', {}))
        self.fed = []            # (tag, feeder, start event, end event or None)
        self.seq = 0
        self.got = {}            # client name -> [(time, data, meta)]
        self.crashed = {}        # client name -> virtual time
        self.waiting = {}        # client name -> waiting for a reply since
        self.feeding = {}        # feeder -> record now inside feed()
        self.server = None
        self.ended = False
        self.errors = []

    def tick(self):
        self.seq += 1
        return self.seq

    def streamer(self, **kw):
        from karabo_data import ZMQStreamer
        self.server = ZMQStreamer(kw.pop('port', 4545), **kw)
        self.proto = kw.get('protocol_version', '2.2')
        return self.server

    # -- feeder
    def feeder(self, name, items, keep=None):
        for it in items:
            if it.get('wait'):
                self.s.sleep(it['wait'])
            if it.get('bad'):
                self.feed_bad(it)
            data, meta = make_item(it)
            before = snapshot([data, meta]) if keep is None else None
            rec = {'tag': it['id'], 'by': name, 'start': self.tick(), 'end': None, 't0': self.s.now, 't1': None}
            self.fed.append(rec)
            self.feeding[name] = rec
            self.ctx.ev('feed', name, it['id'])
            if meta is not None:
                self.server.feed(data, meta)
            else:
                self.server.feed(data)
            rec['end'] = self.tick()
            rec['t1'] = self.s.now
            del self.feeding[name]
            self.ctx.ev('fed', name, it['id'], round(self.s.now - EPOCH0, 6))
            if before is not None and snapshot([data, meta]) != before:
                raise Violation('caller-data-changed', 'feeding item %d changed the data or metadata of the caller' % it['id'])
            self.after_feed(rec)

    def feed_bad(self, it):
        """Data which cannot be sent: feed() fails, and what is fed before and after is not affected."""
        data, meta = make_item(dict(it, id=-1 - it['id']))
        r = random.Random('bad:%s' % it['seed'])
        data[r.choice(sorted(data))]['bad.value'] = r.choice([{1, 2}, object(), 2 ** 70, '\ud800'])
        try:
            self.server.feed(data, *([] if meta is None else [meta]))
        except Exception as e:
            self.ctx.ev('refused', it['id'], type(e).__name__)
            self.ctx.probe('feed_refused')
        else:
            raise Violation('bad-accepted', 'data which cannot be sent were accepted')

    def after_feed(self, rec):
        pass

    # -- client
    def client(self, c):
        """A karabo_bridge client: asks `n` times (None: for ever), thinking between requests."""
        import karabo_bridge
        import msgpack
        import msgpack_numpy
        name = c['name']
        self.got[name] = []
        if c.get('start'):
            self.s.sleep(c['start'])
        tmo = c.get('timeout')
        cl = karabo_bridge.Client('tcp://localhost:%d' % c.get('port', 4545), timeout=tmo)
        if self.proto == '1.0':
            cl.unpack = functools.partial(msgpack.loads, raw=False, max_bin_len=0x7fffffff, strict_map_key=False,
                                          object_hook=msgpack_numpy.decode)
        n = c.get('n')
        r = random.Random('think:%s' % c.get('seed', 0))
        while n is None or n > 0:
            self.waiting[name] = self.s.now
            try:
                data, meta = cl.next()
            except TimeoutError:
                self.ctx.probe('client_timeout')
                if self.ended:
                    break
                continue
            except simzmq.ZMQError as e:
                self.ctx.ev('client-error', name, repr(e))
                break
            del self.waiting[name]
            self.got[name].append((self.s.now, data, meta))
            self.ctx.ev('got', name, len(data), round(self.s.now - EPOCH0, 6))
            if n is not None:
                n -= 1
            if c.get('think'):
                self.s.sleep(c['think'] * r.random())

    def start_client(self, c):
        t = self.s.go(self.client, c, name=c['name'])
        if c.get('crash') is not None:
            self.s.at(c['crash'], lambda: self.crash(c['name'], t))
        return t

    def crash(self, name, t):
        if t.done:
            return
        self.ctx.ev('crash', name)
        self.ctx.fault('client_crash')
        self.crashed[name] = self.s.now
        self.s.kill(t)
        simzmq.end_process(name)

    def threads_named(self, prefix):
        return [t for t in self.s.threads if t.name.startswith(prefix)]

    def wait_for(self, cond, limit, what, cls='no-progress'):
        if not self.s.block(cond, limit, what):
            self.s.fail(cls, '%s did not happen within %s simulated seconds: %s; %d fed, %d replies' % (
                what, limit, self.s.report(), len(self.fed), len(self.net.sent)))

    def settle(self, dt=60):
        """Let everything in flight arrive."""
        def quiet():
            return not self.s.timers and not any(t.stalled > self.s.now for t in self.s.threads if not t.done) and \
                not any(x.outq for x in self.net.sockets if x.kind == simzmq.REP) and \
                not any(x.inbox for x in self.net.sockets if x.kind == simzmq.REQ and not x.closed)
        self.s.stall_rate = 0
        for _ in range(5):
            self.s.block(quiet, dt, 'settle')
            self.s.sleep(.05)
            if quiet():
                break

    # -- checks over the history
    def check_requests(self):
        """No reply without a request, replies alternate with requests per client."""
        nreq, nrep = {}, {}
        for _, c in self.net.requests:
            nreq[c] = nreq.get(c, 0) + 1
        for _, _, c, _ in self.net.sent:
            nrep[c] = nrep.get(c, 0) + 1
        for c in nrep:
            check(nrep[c] <= nreq.get(c, 0), 'reply-without-request', 'client %s: %d requests, %d replies',
                  c, nreq.get(c, 0), nrep[c])

    def decode(self, frames):
        """The tag of a message, read independently of the code under test."""
        import msgpack
        import msgpack_numpy
        if len(frames) == 1:
            d = msgpack.loads(frames[0], raw=False, strict_map_key=False, object_hook=msgpack_numpy.decode)
            return [v['tag'] for v in d.values() if 'tag' in v]
        tags = []
        for h, p in zip(frames[::2], frames[1::2]):
            hd = msgpack.loads(h, raw=False)
            if hd['content'] == 'msgpack':
                b = msgpack.loads(p, raw=False, strict_map_key=False)
                if 'tag' in b:
                    tags.append(b['tag'])
        return tags

    def sent_tags(self):
        out = []
        for _, _, _, frames in self.net.sent:
            t = self.decode(frames)
            check(len(t) == 1, 'garbled-message', 'a reply holds items %s', t)
            out.append(t[0])
        return out

    def check_delivery(self, everything=True):
        """Exactly once, in the order fed, unaltered."""
        ctx = self.ctx
        self.check_requests()
        tags = self.sent_tags()
        ctx.ev('sent', tags)
        check(len(set(tags)) == len(tags), 'delivered-twice', 'items were sent more than once: %s', tags)
        recs = {f['tag']: f for f in self.fed}
        for t in tags:
            check(t in recs, 'never-fed', 'item %s was sent but not fed', t)
        # order: if one feed ended before another began, it is sent first
        for i, a in enumerate(tags):
            for b in tags[i + 1:]:
                check(recs[b]['end'] is None or recs[b]['end'] > recs[a]['start'], 'order',
                      'item %s was sent before %s, which was fed earlier', a, b)
        if everything:
            missing = [f['tag'] for f in self.fed if f['end'] is not None and f['tag'] not in set(tags)]
            check(not missing, 'lost', 'items %s were fed but never sent', missing)
        else:
            # what was not sent was fed after everything that was sent
            left = [f for f in self.fed if f['tag'] not in set(tags) and f['end'] is not None]
            for f in left:
                for t in tags:
                    check(recs[t]['end'] is None or f['end'] > recs[t]['start'], 'order', 'item %s was skipped', f['tag'])
        ctx.evals += len(tags) + 1
        # content, per client
        per = {}
        for (_, _, c, _), t in zip(self.net.sent, tags):
            per.setdefault(c, []).append(t)
        specs = {it['id']: it for fd in self.plan['feeders'] for it in fd['items']}
        for c, want in per.items():
            got = [self.tag_of(d) for _, d, _ in self.got.get(c, [])]
            if c in self.crashed:
                check(got == want[:len(got)] and len(want) - len(got) <= 1, 'client-missed',
                      'crashed client %s received %s of %s', c, got, want)
                if len(want) > len(got):
                    ctx.probe('reply_lost_with_client')
            else:
                check(got == want, 'client-missed', 'client %s received %s, but %s were sent to it', c, got, want)
            for (_, data, meta), tag in zip(self.got.get(c, []), want):
                self.check_content(specs[tag], data, meta)

    def tag_of(self, data):
        t = [v['tag'] for v in data.values() if 'tag' in v]
        check(len(t) == 1, 'garbled-message', 'a message holds items %s', t)
        return t[0]

    def check_content(self, spec, data, meta):
        want, m = make_item(spec)
        wm = expected_meta(want, m)
        if self.proto == '1.0' and m:
            want = {s: dict(v, metadata=m[s]) if m[s] else v for s, v in want.items()}
        d = same(data, want, 'data', self.proto)
        check(d is None, 'altered', 'item %s: %s', spec['id'], d)
        if not self.plan['server'].get('dummy_timestamps'):
            d = same(meta, wm, 'metadata', self.proto)
            check(d is None, 'altered-metadata', 'item %s: %s', spec['id'], d)
        self.ctx.evals += 1


def warm():
    import karabo_data
    import karabo_bridge
    import msgpack_numpy   # noqa
    from karabo_data import export
    if simzmq.sys.modules['zmq'].Socket is not simzmq.Socket or karabo_bridge.client.zmq is not simzmq.sys.modules['zmq']:
        raise RuntimeError('the simulated ZeroMQ is not in use')
