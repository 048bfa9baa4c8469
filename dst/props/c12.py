"""C12: feeding is bounded by the configured limit and always makes progress."""
from .. import stream
from ..core import Violation, check, rng

PROP = 'C12'
RUNS = {'quick': 2000, 'thorough': 150000}
SHRINK = ['feeders', 'clients', 'switches']
RULE = ('Feeders running ahead of clients that pause, stall, crash or ask only a few times; the queue bound is checked '
        'at every finished feed and whenever the system is idle.')
STATES = 'hash of the sequence of thread switches'
REAL = ['karabo_data.export (unmodified)', 'karabo_bridge.Client', 'queue, threading.Thread/Event/Condition of CPython',
        'msgpack, msgpack_numpy']
STUB = ['ZeroMQ and the network (dst/simzmq.py)', 'locks, thread start and clock (dst/sched.py)']
ASSUMES = ['limits of at least one item', 'clients follow the protocol']
warm = stream.warm
GRACE = 1.0          # simulated seconds within which a feed must resume


def gen(seed, tier):
    r = rng(PROP, seed)
    maxlen = r.choice([1, 1, 2, 3, 5, 10, None])
    lim = maxlen or 10
    total = r.choice([lim - 1, lim, lim + 1, lim + 2, 2 * lim + 3, 3 * lim, 4 * lim + 5])
    nf = r.choice([1, 1, 1, 2, 4])
    wait = r.choice([0, 0, 0, .01, 1])
    feeders = [{'name': 'feeder-%d' % i, 'items': []} for i in range(nf)]
    for i in range(max(1, total)):
        r.choice(feeders)['items'].append({'id': i, 'seed': r.getrandbits(40), 'how': r.choice(['inline', 'arg', None]),
                                           'wait': round(wait * r.random(), 5)})
    clients = []
    for i in range(r.choice([0, 0, 1, 2, 3])):
        c = {'name': 'client-%d' % i, 'seed': r.getrandbits(30), 'think': r.choice([0, .001, .2, 3]),
             'start': round(r.choice([0, 0, 2 * r.random(), 10 * r.random()]), 5), 'n': r.randint(1, lim + 2)}
        if r.random() < .3:
            c['crash'] = round(r.choice([.01, 1, 5, 20]) * r.random(), 5)
        clients.append(c)
    r.shuffle(clients)
    return {'sched': stream.gen_sched(r), 'net': stream.gen_net(r), 'feeders': feeders, 'clients': clients,
            'rescue': round(r.choice([20, 60]) * r.random() + r.choice([0, 30]), 3),
            'think_last': r.choice([0, 0, .01, 2]), 'server': {'maxlen': maxlen, 'protocol_version': r.choice(['2.2', '1.0'])}}


class Bounded(stream.Stream):
    suspect = None

    def waiting_items(self):
        """Items whose feed has finished and which were not sent."""
        return sum(1 for f in self.fed if f['end'] is not None) - len(self.net.sent)

    def after_feed(self, rec):
        fed = sum(1 for f in self.fed if f['end'] is not None)
        lim = self.maxlen + len(self.net.requests)
        if fed > lim:
            raise Violation('unbounded', '%d feeds finished with %d requests received; the limit is %d waiting items' % (
                fed, len(self.net.requests), self.maxlen))
        self.ctx.evals += 1

    def idle(self):
        """Nothing can run before the clock advances."""
        if any(t.stalled > self.s.now for t in self.s.threads if not t.done):
            self.suspect = None
            return
        blocked = [n for n, f in self.feeding.items()]
        if blocked and self.server_on:
            self.ctx.probe('feeder_blocked')
            w = self.waiting_items()
            if w < self.maxlen:
                if self.suspect is None or self.suspect[0] != len(self.net.sent):
                    self.suspect = (len(self.net.sent), self.s.now)
                elif self.s.now - self.suspect[1] > GRACE:
                    self.s.fail('blocked-early', 'feeding is blocked with %d items waiting, the limit is %d; %s' % (
                        w, self.maxlen, self.s.report()))
            else:
                self.suspect = None
                self.ctx.evals += 1
        else:
            self.suspect = None


def execute(plan, ctx):
    ctx.armed = True
    st = Bounded(ctx, plan)
    total = sum(len(f['items']) for f in plan['feeders'])
    if not total:
        return
    kw = dict(plan['server'])
    if kw['maxlen'] is None:
        del kw['maxlen']
    st.maxlen = kw.get('maxlen', 10)
    with st.s:
        srv = st.streamer(**kw)
        srv.start()
        st.server_on = True
        st.s.on_idle = st.idle
        for f in plan['feeders']:
            st.s.go(st.feeder, f['name'], f['items'], name=f['name'])
        for c in plan['clients']:
            st.start_client(c)
        # with no client that keeps asking: everything up to the limit gets in, no more
        st.s.sleep(plan['rescue'])
        ctx.probe('full' if st.feeding else 'not_full')
        if not plan['clients'] and plan['rescue'] > 15 and total > st.maxlen:
            fed = sum(1 for f in st.fed if f['end'] is not None)
            gen_time = sum(it['wait'] for f in plan['feeders'] for it in f['items'])
            if plan['rescue'] > gen_time + 12:
                check(fed == st.maxlen, 'limit', 'with no client, %d feeds finished with a limit of %d', fed, st.maxlen)
                ctx.evals += 1
        st.start_client({'name': 'client-last', 'seed': 1, 'think': plan['think_last'], 'start': 0, 'n': None})
        st.wait_for(lambda: all(t.done for t in st.threads_named('feeder')) and len(st.net.sent) >= total,
                    3600, 'feeding everything while a client keeps asking')
        st.settle()
        st.check_delivery()
