"""A simulated network and clock for the node: sockets, peers, select, time.

``World`` is active for the length of a case (``with World() as w``).  The
node under test is driven with ``w.poll(node)``, one round of the event loop.
"""
import errno, os, socket as _s, sys, time
from .core import HarnessError, Fail

WORLD = None
_real_time, _real_mono, _real_sleep = time.time, time.monotonic, time.sleep


def _time():
    return WORLD.now if WORLD is not None else _real_time()


def _mono():
    return WORLD.now if WORLD is not None else _real_mono()


def _sleep(s):
    if WORLD is None:
        return _real_sleep(s)
    WORLD.now += s


def install():
    "make `import asyncore` and the clock ours; before nbc.node is imported"
    shim = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim')
    if sys.path[0] != shim:
        sys.path.insert(0, shim)
    time.time, time.monotonic, time.sleep = _time, _mono, _sleep
    import asyncore
    if os.path.dirname(os.path.abspath(asyncore.__file__)) != shim:
        raise HarnessError('another asyncore is in use')


def world():
    if WORLD is None:
        raise HarnessError('a socket was used outside a simulated world')
    return WORLD


def socket(family=_s.AF_INET, type=_s.SOCK_STREAM, *a):
    w = world()
    if w.socket_errors:
        e = w.socket_errors.pop(0)
        if e:
            raise OSError(e, os.strerror(e))
    return Socket(w, family)


def select(r, w, e):
    W = world()
    for fd in list(r) + list(w) + list(e):
        if fd is None or fd not in W.fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
    return [f for f in r if W.fds[f].can_read()], [f for f in w if W.fds[f].can_write()], []


def tick():
    world().tick()


def uncaught(obj, exc):
    "default error handling of asyncore: the node itself met an error"
    world().errors.append((type(obj).__name__, repr(exc)))


class Socket(object):
    "the side of the node"
    def __init__(self, w, family=_s.AF_INET):
        self.w, self.family = w, family
        self.fd = w.new_fd(self)
        self.peer = None          # a Peer
        self.listening = False
        self.bound = None
        self.pending = []
        self.state = 'new'        # new, connecting, connected, failed
        self.err = 0
        self.closed = False

    def fileno(self):
        return self.fd if not self.closed else -1

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        self.check()
        if opt == _s.SO_ERROR:
            e, self.err = self.err, 0
            return e
        return 0

    def check(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def bind(self, addr):
        self.check()
        host, port = addr
        if port == 0:
            port = self.w.next_port
            self.w.next_port += 1
        if (host, port) in self.w.listeners:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.bound = (host, port)

    def listen(self, n):
        self.check()
        self.listening = True
        self.w.listeners[self.bound] = self

    def getsockname(self):
        return self.bound or ('10.0.0.1', 40000 + self.fd)

    def getpeername(self):
        self.check()
        if self.peer is None or self.state != 'connected':
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.peer.address

    def accept(self):
        self.check()
        if not self.pending:
            raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
        if self.w.accept_errors:
            e = self.w.accept_errors.pop(0)
            if e:
                raise OSError(e, os.strerror(e))
        p = self.pending.pop(0)
        if p == 'aborted':
            raise OSError(errno.ECONNABORTED, 'aborted')
        s = Socket(self.w)
        s.state, s.peer, p.sock = 'failed' if p.reset else 'connected', p, s
        p.accepted = True
        return s, p.address

    def connect(self, address):
        e = self.connect_ex(address)
        if e:
            raise OSError(e, os.strerror(e))

    def connect_ex(self, address):
        self.check()
        how = self.w.reach(address)
        p = Peer(self.w, address)
        p.sock = self
        self.w.dialed.append((self.w.now, tuple(address), how))
        self.peer = p
        if how == 'ok':
            self.state = 'connected'
            self.w.out.append(p)
            return 0
        if how in ('slow', 'never', 'refused'):
            self.state = 'connecting'
            p.outcome = how
            self.w.out.append(p)
            return errno.EINPROGRESS
        if how == 'gaierror':
            raise _s.gaierror(-9, 'Address family for hostname not supported')
        if how == 'odd':         # a name that is none
            raise UnicodeError('label empty or too long')
        if how == 'overflow':
            raise OverflowError('connect(): port must be 0-65535')
        self.state = 'failed'
        return {'sync-refused': errno.ECONNREFUSED, 'unreachable': errno.ENETUNREACH}[how]

    def finish(self):
        if self.state == 'connecting' and self.peer.outcome == 'slow':
            self.state = 'connected'
        elif self.state == 'connecting' and self.peer.outcome == 'refused':
            self.state, self.err = 'failed', errno.ECONNREFUSED

    def can_read(self):
        if self.listening:
            return bool(self.pending)
        return self.state == 'failed' or self.state == 'connected' and bool(self.peer.inbox)

    def can_write(self):
        if self.listening:
            return False
        return self.state == 'failed' or self.state == 'connected' and self.peer.writable()

    def recv(self, n, *a):
        self.check()
        if self.state != 'connected':
            raise OSError(errno.ENOTCONN, 'not connected')
        box = self.peer.inbox
        if not box:
            raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
        x = box[0]
        if x == 'eof':
            return b''
        if isinstance(x, int):
            box.pop(0)
            raise OSError(x, os.strerror(x))
        out, rest = x[:n], x[n:]
        if rest:
            box[0] = rest
        else:
            box.pop(0)
        self.peer.taken += len(out)
        return out

    def send(self, data, *a):
        self.check()
        data = bytes(data)
        if self.state != 'connected':
            raise OSError(errno.ENOTCONN if self.state != 'failed' else errno.EPIPE, 'not connected')
        return self.peer.take(data)

    def sendall(self, data):
        raise HarnessError('sendall on a non-blocking socket')

    def shutdown(self, how):
        self.check()

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.w.fds.pop(self.fd, None)
        if self.listening:
            self.w.listeners.pop(self.bound, None)
        if self.peer is not None:
            self.peer.dropped = self.w.now

    def __bool__(self):
        return True


class Peer(object):
    "the other end of a connection"
    def __init__(self, w, address):
        self.w, self.address = w, tuple(address)
        self.inbox = []           # chunks, 'eof' or an errno for the node to read
        self.taken = 0            # bytes the node has read
        self.got = b''            # bytes the node has written
        self.plan = []            # what the next writes of the node meet: a size or an errno
        self.sock = None
        self.accepted = False
        self.dropped = None       # time the node closed its socket
        self.outcome = 'ok'
        self.sends = 0
        self.last_got = None
        self.blocked = False
        self.broken = False       # a write has failed
        self.reset = False        # gone before it is accepted

    def say(self, data, cut=()):
        for c in cut:
            if c > 0 and data:
                self.inbox.append(data[:c])
                data = data[c:]
        if data:
            self.inbox.append(data)

    def hang_up(self):
        self.inbox.append('eof')

    def fail(self, e):
        self.inbox.append(e)

    def writable(self):
        return not self.blocked

    def take(self, data):
        self.sends += 1
        n = len(data)
        if self.plan:
            x = self.plan.pop(0)
            if isinstance(x, tuple):            # an error
                self.broken = self.broken or x[0] not in (errno.EAGAIN, errno.EWOULDBLOCK, errno.EINTR)
                raise OSError(x[0], os.strerror(x[0]))
            n = min(n, x)
        elif self.blocked:
            raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
        self.got += data[:n]
        if n:
            self.last_got = self.w.now
        return n

    @property
    def open(self):
        return self.dropped is None


class World(object):
    def __init__(self, now=1500000000.0):
        self.now = float(now)
        self.fds = {}
        self.listeners = {}
        self.next_port = 50000
        self.out = []             # peers of connections the node opened
        self.dialed = []          # (time, address, outcome)
        self.policy = {}          # address or ip -> outcome of a connection attempt
        self.default = 'ok'
        self.socket_errors = []
        self.accept_errors = []   # what the next attempts to accept meet: an errno, or 0
        self.errors = []
        self.ticks = []
        self.peers = []

    def __enter__(self):
        global WORLD
        if WORLD is not None:
            raise HarnessError('two worlds')
        install()
        WORLD = self
        return self

    def __exit__(self, *a):
        global WORLD
        WORLD = None

    def new_fd(self, sock):
        fd = 10
        while fd in self.fds:
            fd += 1
        self.fds[fd] = sock
        return fd

    def reach(self, address):
        host, port = address[0], address[1]
        if ':' in host:
            return 'gaierror'
        return self.policy.get((host, port), self.policy.get(host, self.default))

    def tick(self):
        for f in self.ticks:
            f()

    def settle(self):
        "finish connection attempts under way"
        for s in list(self.fds.values()):
            s.finish()

    def incoming(self, node_address, address):
        "somebody connects to the node; the Peer, before it is accepted"
        l = self.listeners.get(tuple(node_address))
        p = Peer(self, address)
        self.peers.append(p)
        if l is None:
            p.dropped = self.now
            return p
        l.pending.append(p)
        return p

    def poll(self, node, rounds=1):
        import asyncore
        for _ in range(rounds):
            asyncore.poll(0, node)

    def live(self):
        "the sockets that are open, other than listening ones"
        return [s for s in self.fds.values() if not s.listening]
