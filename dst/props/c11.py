"""C11: streaming delivers everything fed exactly once, in order, unaltered."""
from .. import stream
from ..core import rng

PROP = 'C11'
RUNS = {'quick': 2000, 'thorough': 150000}
SHRINK = ['feeders', 'clients', 'switches']
RULE = ('One or more feeders and several karabo_bridge clients (late, slow, crashing) against one streamer, over a '
        'simulated network, with preemption at every line of karabo_data and every lock and socket operation.')
STATES = 'hash of the sequence of thread switches'
REAL = ['karabo_data.export (unmodified)', 'karabo_bridge.Client', 'queue, threading.Thread/Event/Condition of CPython',
        'msgpack, msgpack_numpy']
STUB = ['ZeroMQ and the network (dst/simzmq.py)', 'locks, thread start and clock (dst/sched.py)']
ASSUMES = ['the caller does not change arrays between feeding them and their delivery',
           'clients follow the protocol (requests are b"next")',
           'a reply in flight to a client that crashes may be lost with it']
warm = stream.warm


def gen(seed, tier):
    r = rng(PROP, seed)
    total = r.choice([1, 3, 6, 12, 25] if tier == 'quick' else [1, 3, 6, 12, 25, 60])
    how = r.choice(['arg', 'inline', 'some', 'none'])
    nf = r.choice([1, 1, 1, 2, 3])
    wait = r.choice([0, 0, .001, .1, 2])
    feeders = [{'name': 'feeder-%d' % i, 'items': []} for i in range(nf)]
    for i in range(total):
        f = r.choice(feeders)
        f['items'].append({'id': i, 'seed': r.getrandbits(40), 'how': how if how != 'none' else None,
                           'wait': round(wait * r.random(), 5) if wait else 0})
        if r.random() < .04:
            f['items'][-1]['bad'] = True
    nc = r.choice([1, 1, 2, 3, 5])
    span = max(.01, total * (wait / 2 + .01))
    clients = []
    for i in range(nc):
        c = {'name': 'client-%d' % i, 'seed': r.getrandbits(30), 'think': r.choice([0, 0, .001, .05, 1]),
             'start': round(r.choice([0, 0, 0, span * r.random(), 5]), 5), 'n': r.choice([None, None, r.randint(1, 6)])}
        if r.random() < .3:
            c['crash'] = round(r.choice([span * r.random(), span * 2 * r.random(), .01 * r.random()]), 5)
        if r.random() < .15:
            c['timeout'] = r.choice([1, .05])
        clients.append(c)
    # one client which keeps asking
    clients.append({'name': 'client-last', 'seed': 1, 'think': r.choice([0, .01]), 'start': r.choice([0, 0, 1, 10]), 'n': None})
    r.shuffle(clients)
    return {'sched': stream.gen_sched(r), 'net': stream.gen_net(r), 'feeders': feeders, 'clients': clients,
            'server': {'maxlen': r.choice([1, 1, 2, 3, 10]), 'protocol_version': r.choice(['2.2', '2.2', '1.0'])},
            'prefeed': r.random() < .2}


def execute(plan, ctx):
    ctx.armed = True
    st = stream.Stream(ctx, plan)
    total = sum(len(f['items']) for f in plan['feeders'])
    clients = [c for c in plan['clients']]
    if not any(c['name'] == 'client-last' for c in clients):
        return
    with st.s:
        srv = st.streamer(**plan['server'])
        if not plan['prefeed']:
            srv.start()
        for f in plan['feeders']:
            st.s.go(st.feeder, f['name'], f['items'], name=f['name'])
        for c in clients:
            st.start_client(c)
        if plan['prefeed']:
            st.s.sleep(.5)
            srv.start()
        st.wait_for(lambda: all(t.done for t in st.threads_named('feeder')) and len(st.net.sent) >= total,
                    3600, "delivering everything that was fed")
        st.settle()
        st.check_delivery()
        ctx.probe('clients_%d' % len(clients))
