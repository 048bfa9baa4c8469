"""Simulated ZeroMQ (REQ/REP over TCP, PAIR in-process) under dst.sched.

Modelled after libzmq: asynchronous connects and sends, fair queueing of
requests at a REP socket, state errors, reply routing to the requesting peer,
replies to vanished peers dropped, messages still in the sender's queue dropped
when the socket is closed with LINGER 0 or when its process dies.
"""
import errno as _errno
import sys
import types

from . import sched as _sched
from .core import HarnessError

NET = None        # the simulated network of this run


class ZMQBaseError(Exception):
    pass


class ZMQError(ZMQBaseError):
    def __init__(self, errno=None, msg=None):
        self.errno = errno
        self.strerror = msg or 'zmq error %s' % errno
        super().__init__(self.strerror)


class Again(ZMQError):
    def __init__(self, errno=_errno.EAGAIN, msg='Resource temporarily unavailable'):
        super().__init__(errno, msg)


class ContextTerminated(ZMQError):
    def __init__(self, errno=156384765, msg='Context was terminated'):
        super().__init__(errno, msg)


EFSM, ETERM, ENOTSUP = 156384763, 156384765, _errno.ENOTSUP
PAIR, PUB, SUB, REQ, REP, DEALER, ROUTER, PULL, PUSH = range(9)
LINGER, RCVTIMEO, SNDTIMEO, TYPE, LAST_ENDPOINT, RCVHWM, SNDHWM, SUBSCRIBE, RCVMORE, IDENTITY = \
    17, 27, 28, 16, 32, 24, 23, 6, 13, 5
IMMEDIATE, TCP_KEEPALIVE, HWM, EVENTS, REQ_RELAXED, REQ_CORRELATE = 39, 34, 1, 15, 53, 52
NOBLOCK = DONTWAIT = 1
SNDMORE = 2
POLLIN, POLLOUT, POLLERR = 1, 2, 4


class Network:
    """Message timing and peer state; decisions come from the plan."""
    def __init__(self, s, plan):
        global NET
        self.s = s
        self.r = __import__('random').Random('net:%s' % plan.get('seed', 0))
        self.delay = plan.get('delay', 0.001)       # typical one-way delay (s)
        self.jitter = plan.get('jitter', 0)
        self.bound = {}          # endpoint key -> socket
        self.pending = {}        # endpoint key -> connecting sockets
        self.sockets = []
        self.sent = []           # replies handed to the transport: (time, endpoint, peer name, frames)
        self.requests = []       # requests taken by a REP socket
        self.delivered = []
        NET = self

    def latency(self):
        d = self.delay
        if self.jitter:
            d *= 10 ** self.r.uniform(-self.jitter, self.jitter)
        return d


def _key(endpoint):
    if endpoint.startswith('inproc://'):
        return endpoint
    if not endpoint.startswith('tcp://') or ':' not in endpoint[6:]:
        raise ZMQError(_errno.EINVAL, 'Invalid argument (%r)' % endpoint)
    port = endpoint.rsplit(':', 1)[1]
    if not port.isdigit() or not 0 < int(port) < 65536:
        raise ZMQError(_errno.EINVAL, 'Invalid argument (%r)' % endpoint)
    return 'tcp:' + str(int(port))


def _freeze(frame, copy):
    if isinstance(frame, Frame):
        frame = frame.bytes
    if isinstance(frame, str):
        raise TypeError('unicode not allowed, use send_string')
    mv = memoryview(frame)
    if not mv.c_contiguous:
        raise BufferError('memoryview: underlying buffer is not C-contiguous')
    return mv.tobytes() if copy else mv


class Frame:
    def __init__(self, data=b''):
        self.bytes = bytes(data)
        self.buffer = memoryview(self.bytes)
        self.more = False

    def __len__(self):
        return len(self.bytes)

    def __bytes__(self):
        return self.bytes


class Context:
    _instance = None

    def __init__(self, io_threads=1, **kw):
        self.closed = False
        self.sockets = []
        self.linger = None
        self.owner = NET.s.me().name if NET else None

    @classmethod
    def instance(cls, io_threads=1):
        if cls._instance is None or cls._instance.closed:
            cls._instance = cls()
        return cls._instance

    def socket(self, kind, **kw):
        if self.closed:
            raise ZMQError(ETERM, 'Context was terminated')
        s = Socket(self, kind)
        if self.linger is not None:
            s.opts[LINGER] = self.linger
        self.sockets.append(s)
        return s

    def setsockopt(self, opt, value):
        if opt == LINGER:
            self.linger = value
    set = setsockopt

    def term(self):
        if self.closed:
            return
        self.closed = True
        for s in self.sockets:
            s.wake_term = True
        # blocks until all sockets are closed and lingering messages have left
        NET.s.block(lambda: all(s.closed and not s.leaving() for s in self.sockets), None, 'zmq context term')

    def destroy(self, linger=None):
        for s in self.sockets:
            s.close(linger)
        self.term()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()


class Peer:
    """One connection, seen from the bound side."""
    def __init__(self, sock):
        self.sock = sock
        self.inbox = []
        self.alive = True
        self.inflight = 0


class Socket:
    def __init__(self, ctx, kind):
        if kind not in (REQ, REP, PAIR):
            raise HarnessError('socket type %s is not simulated' % kind)
        self.context, self.kind = ctx, kind
        self.TYPE = self.socket_type = kind
        self.opts = {LINGER: -1, RCVTIMEO: -1, SNDTIMEO: -1, TYPE: kind, LAST_ENDPOINT: b''}
        self.closed = False
        self.wake_term = False
        self.key = None
        self.bound = False
        self.peers = []          # bound side
        self.turn = 0
        self.remote = None       # connecting side: Peer record at the bound socket
        self.connected = None
        self.inbox = []
        self.outq = []           # messages which have not left this process: [frames, what]
        self.state = 'send' if kind == REQ else 'recv'
        self.replyto = None
        self.parts = []
        self.more = []
        self.owner = NET.s.me().name
        NET.sockets.append(self)

    # -- options
    def setsockopt(self, opt, value):
        self.check()
        self.opts[opt] = value

    def getsockopt(self, opt):
        self.check()
        if opt == RCVMORE:
            return int(bool(self.more))
        if opt == EVENTS:
            return (POLLIN if self.can_recv() else 0) | (POLLOUT if self.can_send() else 0)
        return self.opts.get(opt, 0)
    set, get = setsockopt, getsockopt

    def getsockopt_string(self, opt, encoding='utf-8'):
        v = self.getsockopt(opt)
        return v.decode(encoding) if isinstance(v, bytes) else v
    get_string = getsockopt_string

    def set_hwm(self, v):
        self.opts[RCVHWM] = self.opts[SNDHWM] = v
    hwm = property(lambda s: s.opts.get(RCVHWM, 1000), set_hwm)
    linger = property(lambda s: s.opts[LINGER], lambda s, v: s.setsockopt(LINGER, v))
    rcvtimeo = RCVTIMEO_ = property(lambda s: s.opts[RCVTIMEO], lambda s, v: s.setsockopt(RCVTIMEO, v))
    sndtimeo = property(lambda s: s.opts[SNDTIMEO], lambda s, v: s.setsockopt(SNDTIMEO, v))

    def __setattr__(self, name, value):
        if name in ('LINGER', 'RCVTIMEO', 'SNDTIMEO'):
            return self.setsockopt(globals()[name], value)
        object.__setattr__(self, name, value)

    def check(self):
        if self.closed:
            raise ZMQError(_errno.ENOTSOCK, 'Socket operation on non-socket')
        if self.context.closed or self.wake_term:
            raise ContextTerminated()

    # -- endpoints
    def bind(self, endpoint):
        NET.s.point('zmq')
        self.check()
        k = _key(endpoint)
        if k in NET.bound:
            raise ZMQError(_errno.EADDRINUSE, 'Address already in use')
        NET.bound[k] = self
        self.key, self.bound = k, True
        self.opts[LAST_ENDPOINT] = endpoint.encode()
        for c in NET.pending.pop(k, []):
            if not c.closed:
                NET.s.at(NET.latency(), lambda c=c: c.attach())
        return None

    def bind_to_random_port(self, addr, **kw):
        p = 50000
        while 'tcp:%d' % p in NET.bound:
            p += 1
        self.bind('%s:%d' % (addr, p))
        return p

    def unbind(self, endpoint):
        NET.bound.pop(_key(endpoint), None)
        self.bound = False

    def connect(self, endpoint):
        NET.s.point('zmq')
        self.check()
        self.key = _key(endpoint)
        self.opts[LAST_ENDPOINT] = endpoint.encode()
        if self.key.startswith('inproc:'):
            self.attach()
        else:
            NET.s.at(NET.latency(), self.attach)

    def disconnect(self, endpoint):
        self.drop()

    def attach(self):
        """The connection is established (or waits for the other side to bind)."""
        if self.closed:
            return
        srv = NET.bound.get(self.key)
        if srv is None or srv.closed:
            NET.pending.setdefault(self.key, []).append(self)
            return
        self.remote = Peer(self)
        srv.peers.append(self.remote)
        self.connected = srv
        NET.s.ctx.ev('connect', self.owner, srv.owner)
        self.flush()
        if srv.kind == PAIR:
            srv.flush()

    def drop(self):
        if self.remote is not None:
            self.remote.alive = False
            self.remote = None
            self.connected = None

    def leaving(self):
        return bool(self.outq)

    def lost_server(self):
        """The bound side went away: libzmq reconnects in the background."""
        self.drop()
        NET.pending.setdefault(self.key, []).append(self)

    def flush(self):
        """Schedule queued messages to leave this process, in order."""
        for m in self.outq:
            if not m['timed']:
                m['timed'] = True
                NET.s.at(0 if self.key and self.key.startswith('inproc:') else NET.latency(), lambda m=m: self.leave(m))

    def leave(self, m):
        if m not in self.outq:
            return
        if self.kind == REQ or (self.kind == PAIR and not self.bound):
            if self.remote is None:
                m['timed'] = False
                return
        if self.outq[0] is not m:       # keep the order on one connection
            same = [x for x in self.outq if x['to'] is m['to']]
            if same and same[0] is not m:
                NET.s.at(1e-6, lambda: self.leave(m))
                return
        self.outq.remove(m)
        frames = [bytes(f) if not isinstance(f, memoryview) else f.tobytes() for f in m['frames']]
        inproc = self.key.startswith('inproc:')
        d = 0 if inproc else NET.latency()
        if self.kind == REQ or (self.kind == PAIR and not self.bound):
            p, srv = self.remote, self.connected
            NET.s.at(d, lambda: self.arrive(srv, p, frames))
        else:
            peer = m['to']
            peer.inflight += 1
            NET.s.at(d, lambda: self.deliver(peer, frames))

    def arrive(self, srv, peer, frames):
        if srv.closed:
            return
        peer.inbox.append(frames)

    def deliver(self, peer, frames):
        c = peer.sock
        peer.inflight -= 1
        if c.closed or not peer.alive:
            NET.s.ctx.probe('reply_to_dead_client')
            return
        c.inbox.append(frames)

    # -- traffic
    def can_recv(self):
        if self.kind == PAIR and self.bound or self.kind == REP:
            return self.state == 'recv' and any(p.inbox for p in self.peers) or bool(self.more)
        if self.kind == REQ and self.state != 'recv':
            return False
        return bool(self.inbox or self.more)

    def can_send(self):
        return self.kind == PAIR or self.state == 'send'

    def poll(self, timeout=None, flags=POLLIN):
        NET.s.point('zmq')
        self.check()

        def ev():
            return (POLLIN if flags & POLLIN and self.can_recv() else 0) | \
                (POLLOUT if flags & POLLOUT and self.can_send() else 0)
        if not ev() and timeout != 0:
            NET.s.block(lambda: ev() or self.wake_term or self.closed, None if timeout is None or timeout < 0
                        else timeout / 1000, 'poll')
        self.check()
        return ev()

    def recv_multipart(self, flags=0, copy=True, track=False):
        NET.s.point('zmq')
        self.check()
        if self.kind in (REQ, REP) and self.state != 'recv':
            raise ZMQError(EFSM, 'Operation cannot be accomplished in current state')
        if not self.can_recv():
            if flags & NOBLOCK:
                raise Again()
            tmo = self.opts[RCVTIMEO]
            if tmo == 0:
                raise Again()
            NET.s.block(lambda: self.can_recv() or self.wake_term or self.closed,
                        None if tmo is None or tmo < 0 else tmo / 1000, 'recv')
            self.check()
            if not self.can_recv():
                raise Again()
        if self.more:
            frames, self.more = self.more, []
        elif self.kind == REP or (self.kind == PAIR and self.bound):
            n = len(self.peers)
            for i in range(n):
                p = self.peers[(self.turn + i) % n]
                if p.inbox:
                    break
            self.turn = (self.turn + i + 1) % n
            frames = p.inbox.pop(0)
            self.replyto = p
            if self.kind == REP:
                NET.requests.append((NET.s.now, p.sock.owner))
                NET.s.ctx.ev('request', p.sock.owner)
        else:
            frames = self.inbox.pop(0)
        if self.kind == REP:
            self.state = 'send'
        elif self.kind == REQ:
            self.state = 'send'
            NET.delivered.append((NET.s.now, self.owner, frames))
        NET.s.point('zmq')
        return [f if copy else Frame(f) for f in frames]

    def recv(self, flags=0, copy=True, track=False):
        if self.more:
            f = self.more.pop(0)
            return f if copy else Frame(f)
        frames = self.recv_multipart(flags)
        self.more = frames[1:]
        return frames[0] if copy else Frame(frames[0])

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        NET.s.point('zmq')
        self.check()
        frames = [_freeze(f, copy) for f in list(msg_parts)]
        if self.kind in (REQ, REP) and self.state != 'send':
            raise ZMQError(EFSM, 'Operation cannot be accomplished in current state')
        if not frames:
            raise ZMQError(_errno.EINVAL, 'empty message')
        m = {'frames': frames, 'to': self.replyto, 'timed': False}
        if self.kind == REP:
            self.state = 'recv'
            NET.sent.append((NET.s.now, self.key, self.replyto.sock.owner,
                             [f.tobytes() if isinstance(f, memoryview) else f for f in frames]))
            NET.s.ctx.ev('reply', self.replyto.sock.owner, len(frames))
            if not self.replyto.alive:
                NET.s.ctx.probe('reply_to_dead_client')
                return
        elif self.kind == REQ:
            self.state = 'recv'
        elif self.bound:
            m['to'] = self.peers[-1] if self.peers else None
        self.outq.append(m)
        if self.kind != PAIR or self.remote is not None or self.peers:
            if self.kind != REQ or self.remote is not None:
                self.flush()
        NET.s.point('zmq')

    def send(self, data, flags=0, copy=True, track=False, **kw):
        data = _freeze(data, copy)
        if flags & SNDMORE:
            if self.kind in (REQ, REP) and self.state != 'send':
                raise ZMQError(EFSM, 'Operation cannot be accomplished in current state')
            self.parts.append(data)
            NET.s.point('zmq')
            return
        parts, self.parts = self.parts + [data], []
        self.send_multipart(parts, flags, copy)

    def send_string(self, s, flags=0, copy=True, encoding='utf-8', **kw):
        self.send(s.encode(encoding), flags, copy)

    def recv_string(self, flags=0, encoding='utf-8'):
        return self.recv(flags).decode(encoding)

    def close(self, linger=None):
        if self.closed:
            return
        NET.s.point('zmq')
        if linger is not None:
            self.opts[LINGER] = linger
        self.shut(self.opts[LINGER])

    def shut(self, linger):
        self.closed = True
        if self.bound and NET.bound.get(self.key) is self:
            del NET.bound[self.key]
        if linger == 0:
            if self.outq:
                NET.s.ctx.probe('dropped_by_linger', len(self.outq))
            self.outq = []
        elif linger is not None and linger > 0:
            def expire():
                if self.outq:
                    NET.s.ctx.probe('linger_expired')
                self.outq = []
            NET.s.at(linger / 1000, expire)
        if self.kind == REQ:
            self.drop()
        else:
            def gone():
                # the connection ends in order: after everything sent through it
                if self.outq or any(p.inflight for p in self.peers):
                    NET.s.at(0.001, gone)
                    return
                for p in self.peers:
                    if p.alive and not p.sock.closed and p.sock.kind == REQ and p.sock.connected is self:
                        p.sock.lost_server()
            NET.s.at(NET.latency() * 2 + 0.001, gone)

    def die(self):
        """The process owning this socket crashed."""
        self.outq = []
        self.shut(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Poller:
    def __init__(self):
        self.socks = {}

    def register(self, sock, flags=POLLIN | POLLOUT):
        self.socks[sock] = flags

    def unregister(self, sock):
        self.socks.pop(sock, None)
    modify = register

    def poll(self, timeout=None):
        NET.s.point('zmq')

        def ev():
            out = []
            for s, f in self.socks.items():
                e = (POLLIN if f & POLLIN and s.can_recv() else 0) | (POLLOUT if f & POLLOUT and s.can_send() else 0)
                if e:
                    out.append((s, e))
            return out
        if not ev() and timeout != 0:
            NET.s.block(lambda: ev() or any(s.wake_term for s in self.socks), None if timeout is None or timeout < 0
                        else timeout / 1000, 'poll')
        for s in self.socks:
            s.check()
        return ev()


def end_process(owner):
    """All sockets of a simulated process vanish."""
    for s in NET.sockets:
        if s.owner == owner and not s.closed:
            s.die()


def install():
    zmq = types.ModuleType('zmq')
    zmq.__path__ = []
    err = types.ModuleType('zmq.error')
    for n, v in list(globals().items()):
        if not n.startswith('_') and n not in ('sys', 'types', 'NET', 'Network', 'install', 'HarnessError'):
            setattr(zmq, n, v)
            if n in ('ZMQError', 'Again', 'ContextTerminated', 'ZMQBaseError'):
                setattr(err, n, v)
    zmq.error = err
    zmq.proxy = None
    zmq.zmq_version = lambda: '4.3.4'
    zmq.pyzmq_version = lambda: '25.0.0'
    zmq.__version__ = '25.0.0'
    sys.modules['zmq'] = zmq
    sys.modules['zmq.error'] = err
    for sub in ('green', 'asyncio', 'utils', 'backend', 'sugar'):
        pass
    return zmq


install()
