"""A tiny stand-in for asyncore and its sockets, so a demonstration can run a
node without any network: every socket is a pair of byte buffers."""
import errno
import os
import sys
import types

sys.path.insert(0, os.getcwd())


class Sock(object):
    count = 100

    def __init__(self):
        Sock.count += 1
        self.fd = Sock.count
        self.inbox = []          # chunks to be received
        self.sent = b''
        self.caps = []           # how much each send takes (None: everything)
        self.closed = False

    def fileno(self):
        return self.fd

    def close(self):
        self.closed = True


class dispatcher(object):
    accepting = False

    def __init__(self, sock=None, map=None):
        self._map = map
        self.socket = None
        if sock is not None:
            self._use(sock)

    def _use(self, sock):
        self.socket = sock
        self._fileno = sock.fileno()
        self._map[self._fileno] = self

    def create_socket(self, family=None, kind=None):
        self._use(Sock())

    def set_reuse_addr(self):
        pass

    def bind(self, address):
        pass

    def listen(self, n):
        self.accepting = True

    def connect(self, address):
        pass

    def getsockname(self):
        return ('127.0.0.1', 40000)

    def accept(self):
        return self.pending.pop(0) if self.pending else None

    pending = []

    def send(self, data):
        cap = self.socket.caps.pop(0) if self.socket.caps else None
        n = len(data) if cap is None else min(cap, len(data))
        self.socket.sent += data[:n]
        return n

    def recv(self, n):
        if not self.socket.inbox:
            return b''
        chunk = self.socket.inbox[0]
        self.socket.inbox[0] = chunk[n:]
        if not self.socket.inbox[0]:
            self.socket.inbox.pop(0)
        return chunk[:n]

    def close(self):
        if self.socket is not None and not self.socket.closed:
            self._map.__delitem__(self._fileno)
            self.socket.close()


asyncore = types.ModuleType('asyncore')
asyncore.dispatcher = dispatcher
sys.modules['asyncore'] = asyncore

import builtins
_print = builtins.print
builtins.print = lambda *a, **k: None      # the node talks a lot

from nbc.node import basenode, connection       # noqa: E402
from nbc import protocol, coins                 # noqa: E402

builtins.print = _print
MAGIC = coins.Newbitcoin.magic


class Clock(object):
    def __init__(self):
        self.now = 1700000000.0

    def time(self):
        return self.now

    def sleep(self, n):
        self.now += n


clock = Clock()
basenode.time = clock
connection.time = clock


def node(**kw):
    basenode.print = connection.print = lambda *a, **k: None
    kw.setdefault('address', ('127.0.0.1', 20303))
    kw.setdefault('bootstrap', False)
    return basenode.BaseNode(data_dir='/nonexistent', log=None, **kw)


def accept(n, ip, port=5000):
    """An incoming connection; its Connection, or None when refused."""
    s = Sock()
    n.pending = [(s, (ip, port))]
    n.handle_accept()
    return (None if s.closed else n.get(s.fd)), s


def version(me='9.9.9.9'):
    a = protocol.NetworkAddress(1, 1, me, 1)
    b = protocol.NetworkAddress(1, 1, '8.8.8.8', 1)
    return protocol.Version(60002, 1, 1, a, b, b'12345678', b'/x/', 5, 1).binary(MAGIC)


def messages(data):
    out = []
    while data:
        n = protocol.Message.first_msg_len(data)
        out.append(protocol.Message.parse(data[:n], MAGIC))
        data = data[n:]
    return out


def feed(conn, data):
    conn.socket.inbox.append(data)
    while conn.socket.inbox:
        conn.handle_read()
