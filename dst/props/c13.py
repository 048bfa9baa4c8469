"""C13: serving files delivers all selected trains and then ends; stopping always returns."""
import fnmatch

from .. import stream, simzmq
from ..core import EPOCH0, check, rng
from . import base

PROP = 'C13'
RUNS = {'quick': 1200, 'thorough': 80000}
SHRINK = ['clients', 'fac.faults', 'fac.aggs', 'feeders', 'switches']
RULE = ('Either a simulated run served to several clients over a simulated network until it ends, or a streamer stopped '
        'at an arbitrary moment while clients wait, crash, or stay silent.')
STATES = 'hash of the sequence of thread switches'
REAL = ['karabo_data (export, reader; unmodified)', 'karabo_bridge.Client', 'h5py and libhdf5',
        'queue, threading of CPython', 'msgpack, msgpack_numpy']
STUB = ['the data acquisition (dst/facility.py)', 'ZeroMQ and the network (dst/simzmq.py)',
        'locks, thread start and clock (dst/sched.py)']
ASSUMES = ['clients follow the protocol', 'at least one client keeps asking while files are served',
           'replies leave the server within 10 s of being sent']
STOP_LIMIT = 30.0


def warm():
    base.warm()
    stream.warm()


def gen(seed, tier):
    from .. import facility
    r = rng(PROP, seed)
    plan = {'sched': stream.gen_sched(r), 'net': stream.gen_net(r), 'listseed': r.getrandbits(63)}
    if plan['net']['delay'] > .1:
        plan['net']['jitter'] = min(plan['net']['jitter'], .5)
    if r.random() < .6:
        fac = facility.gen_run(r, size='s', pulsed=.2)
        names = sorted(s['name'] for s in fac['sources'])
        keys = sorted({k[0] for s in fac['sources'] for k in s['keys']})
        s = r.choice(names)
        k = r.choice(keys)
        plan.update(mode='serve', fac=fac, src=r.choice(['*', '*', s, s[:3] + '*', '*/DET/*', '*:*', '*_*']),
                    key=r.choice(['*', '*', k, k.split('.')[0] + '.*', '*.' + k.split('.')[-1]]),
                    what=r.choice(['dir', 'dir', 'dir', 'file']), via=r.choice(['call', 'call', 'old', 'main', 'main-defaults']),
                    server={'maxlen': r.choice([1, 1, 2, 10]), 'protocol_version': r.choice(['2.2', '2.2', '1.0'])},
                    feeders=[])
        clients = []
        for i in range(r.choice([0, 0, 1, 2, 3])):
            c = {'name': 'client-%d' % i, 'seed': r.getrandbits(30), 'think': r.choice([0, .001, .2, 1]),
                 'start': round(r.choice([0, 0, 2 * r.random()]), 5), 'n': r.choice([None, r.randint(1, 5)])}
            if r.random() < .3:
                c['crash'] = round(r.choice([.01, .5, 2]) * r.random(), 5)
            clients.append(c)
        clients.append({'name': 'client-last', 'seed': 1, 'think': r.choice([0, 0, .3]), 'start': r.choice([0, 0, .5, 20]),
                        'n': None})
        plan['clients'] = clients
    else:
        total = r.choice([0, 0, 1, 2, 5, 12])
        feeders = [{'name': 'feeder-0', 'items': [
            {'id': i, 'seed': r.getrandbits(40), 'how': 'inline', 'wait': round(r.choice([0, 0, .1]) * r.random(), 5)}
            for i in range(total)]}]
        clients = []
        for i in range(r.choice([0, 1, 1, 2, 3])):
            c = {'name': 'client-%d' % i, 'seed': r.getrandbits(30), 'think': r.choice([0, .001, .2, 1]),
                 'start': round(r.choice([0, 0, r.random()]), 5), 'n': r.choice([None, None, r.randint(1, 5)])}
            if r.random() < .3:
                c['crash'] = round(r.random(), 5)
            clients.append(c)
        plan.update(mode='stop', feeders=feeders, clients=clients, stop=round(r.choice([0, .001, .1, 1, 3]) * r.random(), 6),
                    twice=r.random() < .3, server={'maxlen': r.choice([1, 2, 20]), 'protocol_version': r.choice(['2.2', '1.0'])})
    return plan


def execute(plan, ctx):
    if plan['mode'] == 'stop':
        return stop_streamer(plan, ctx)
    return serve(plan, ctx)


def stop_streamer(plan, ctx):
    ctx.armed = True
    st = stream.Stream(ctx, plan)
    with st.s:
        srv = st.streamer(**plan['server'])
        srv.start()
        n0 = len(st.s.threads)
        for f in plan['feeders']:
            st.s.go(st.feeder, f['name'], f['items'], name=f['name'])
        for c in plan['clients']:
            st.start_client(c)
        st.s.sleep(plan['stop'])
        ctx.ev('stop', bool(st.waiting))
        state = (bool(st.waiting), bool(st.feeding))
        ctx.probe('stop_%s_%s' % ('client_waits' if state[0] else 'no_client', 'feeder_blocked' if state[1] else 'free'))
        done = []
        t0 = st.s.now

        def stopper():
            srv.stop()
            if plan['twice']:
                srv.stop()
            done.append(st.s.now)
        st.s.go(stopper, name='stopper')
        st.s.stall_rate = 0
        st.wait_for(lambda: done, STOP_LIMIT + max([0] + [t.stalled - t0 for t in st.s.threads]), 'stop() returning',
                    'stop-hangs')
        st.settle(200)
        check(not simzmq.NET.bound, 'port-kept', 'the port is still in use after stop() returned')
        replies = len(st.net.sent)
        st.s.sleep(5)
        check(len(st.net.sent) == replies, 'still-serving', 'a reply was sent after stop() returned')
        check(all(t.done for t in st.s.threads[1:2]), 'thread-left', 'the server thread is still running')
        st.check_delivery(everything=False)
        ctx.evals += 3


def serve(plan, ctx):
    from .. import collops
    from ..model import MColl, Recorded
    H = base.build(plan, ctx)
    if H is None:
        return
    if not any(c['name'] == 'client-last' for c in plan['clients']):
        return
    path = H.dir
    files = H.files
    if plan['what'] == 'file':
        files = [sorted(H.files, key=lambda f: f.path)[0]]
        path = files[0].path
    m = MColl(Recorded(H, files))
    src, key = plan['src'], plan['key']
    if plan['via'] == 'main-defaults':
        src = key = '*'
    sel = m.select([[src, key]])
    if sel is None:
        src = key = '*'
        sel = m.select([[src, key]])
    before = base.fingerprint([f.path for f in H.files])
    W = collops.World(ctx, H, files=files)
    ctx.armed = True
    st = stream.Stream(ctx, dict(plan))
    st.s.plan = plan
    st.s.trace_only = 'export.py'
    st.proto = plan['server']['protocol_version']
    import karabo_data
    from karabo_data import export
    if plan['via'].startswith('main'):
        st.proto = '2.2'
    ended = []

    def server():
        with ctx.shim.live():
            if plan['via'] == 'main':
                export.main([path, '4545', '--source', src, '--key', key])
            elif plan['via'] == 'main-defaults':
                export.main([path, '4545'])
            elif plan['via'] == 'old':       # the deprecated import
                karabo_data.serve_files(path, 4545, src, key, **plan['server'])
            else:
                export.serve_files(path, 4545, src, key, **plan['server'])
        ended.append(st.s.now)
        ctx.ev('served')
        # the server process now exits; what its contexts still hold may leave until their linger ends
        def ctxs():
            return {id(x.context): x.context for x in st.net.sockets if x.owner.startswith('thread-') or x.owner == 'server'}
        for c in list(ctxs().values()):
            c.term()
        st.exited = st.s.now
    st.exited = None
    with st.s:
        st.s.go(server, name='server')
        for c in plan['clients']:
            st.start_client(c)
        st.wait_for(lambda: bool(ended), 3600, 'the end of serve_files', 'does-not-end')
        last = st.net.sent[-1][0] if st.net.sent else EPOCH0
        check(ended[0] - last <= STOP_LIMIT + 20 or not st.net.sent, 'ends-late', 'ended %.1f s after the last reply',
              ended[0] - last)
        st.settle(300)
        st.check_requests()
        tids = list(sel.tids)
        # replies in order, one per train
        per = {}
        order = []
        for _, _, c, frames in st.net.sent:
            tid = tid_of(frames)
            order.append(tid)
            per.setdefault(c, []).append(tid)
        check(order == tids, 'wrong-trains', 'sent trains %s, the data has %s', order, tids)
        for c, want in per.items():
            got = []
            for _, data, meta in st.got.get(c, []):
                t = {v['metadata']['timestamp.tid'] for v in data.values()}
                check(len(t) == 1, 'garbled-message', 'a message holds trains %s', t)
                tid = t.pop()
                got.append(tid)
                check_data(ctx, W, sel, tid, data, st.proto)
                for s in data:
                    check(meta[s].get('timestamp.tid') == tid and meta[s].get('source') == s, 'wrong-metadata',
                          'train %d %s: metadata %s', tid, s, meta[s])
            if c in st.crashed:
                check(got == want[:len(got)] and len(want) - len(got) <= 1, 'client-missed',
                      'crashed client %s received %s of %s', c, got, want)
            else:
                check(got == want, 'client-missed', 'client %s received trains %s, but %s were sent to it', c, got, want)
        ctx.evals += len(tids) + 2
        ctx.probe('served_%s_%s' % (plan['what'], plan['via']))
    check(base.fingerprint([f.path for f in H.files]) == before, 'data-modified', 'a data file was changed by serving it')


def tid_of(frames):
    import msgpack
    import msgpack_numpy
    if len(frames) == 1:
        d = msgpack.loads(frames[0], raw=False, strict_map_key=False, object_hook=msgpack_numpy.decode)
        t = {v['metadata']['timestamp.tid'] for v in d.values()}
    else:
        t = set()
        for h in frames[::2]:
            hd = msgpack.loads(h, raw=False)
            if hd['content'] == 'msgpack':
                t.add(hd['metadata']['timestamp.tid'])
    check(len(t) == 1, 'garbled-message', 'a reply holds trains %s', t)
    return t.pop()


def check_data(ctx, W, m, tid, data, proto):
    import numpy as np
    check(set(data) == m.sources, 'wrong-sources', 'train %d: sources %s, selected %s', tid, sorted(data), sorted(m.sources))
    for s in sorted(m.sources):
        got = {k: v for k, v in data[s].items() if k != 'metadata'}
        for k in sorted(m.sel[s]):
            want = m.entry(s, k, tid) if tid in m.may_tids(s) else None
            if want is None:
                check(k not in got, 'phantom-data', 'train %d: %s %s has data, nothing was recorded', tid, s, k)
                continue
            if k not in got:
                check(tid not in m.must.get(s, ()), 'missing-data', 'train %d: %s %s is missing', tid, s, k)
                continue
            want = np.asarray(want)
            v = got.pop(k)
            if want.shape == () and not isinstance(v, (np.ndarray, np.generic)):
                ok = v == want.item() and type(v) is type(want.item())
            else:
                v = np.asarray(v)
                ok = v.dtype == want.dtype and v.shape == want.shape and v.tobytes() == want.tobytes()
            check(ok, 'wrong-data', 'train %d: %s %s is %r, recorded %r', tid, s, k, v, want)
        check(not got, 'extra-keys', 'train %d: %s has unselected keys %s', tid, s, sorted(got))
    ctx.evals += 1
