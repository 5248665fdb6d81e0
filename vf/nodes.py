"""Helpers of the node checks: a recording node, reading what it sent."""
import io
from hypothesis import strategies as st
from .core import Fail, expect, same, short
from . import gen, proto, sim

OWN = ('10.0.0.1', 20303)
MAGIC = b'\xf9nbc'


class Log(object):
    "a log stream that takes text only"
    def __init__(self):
        self.lines = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('log line is %r' % type(s))
        self.lines.append(s)

    def flush(self):
        pass


def node_class():
    from nbc.node import raw

    class Node(raw.RawNode):
        "records every command and heartbeat, then does what the node does"
        def heartbeat(self):
            self.beats.append(sim.world().now)
            for f in self.on_beat:
                f()
            raw.RawNode.heartbeat(self)
            for f in self.after_beat:
                f()

    def recorder(name, cmd):
        base = getattr(raw.RawNode, 'command_' + name, None)

        def method(self, peer, **kw):
            self.record.append((peer, cmd, tuple(proto.see_val(ft, kw[n]) for n, ft in proto.MSGS[cmd]), len(kw)))
            hook = getattr(self, 'hook', None)
            if hook:
                hook(peer, cmd)
            if base:
                base(self, peer, **kw)
        return method
    for cmd, name in proto.NAMES.items():
        setattr(Node, 'command_' + name, recorder(name, cmd))
    return Node


_cls = []


def make(w, address=OWN, log=None, level=None, seek=0, limit=125, bootstrap=False, coin=None, height=0):
    sim.install()
    if not _cls:
        _cls.append(node_class())
    Node = _cls[0]
    Node.beats, Node.record, Node.on_beat, Node.after_beat = [], [], [], []
    kw = {}
    if coin is not None:
        kw['coin'] = coin
    n = Node(address=address, seek_peers=seek, max_peers=limit, bootstrap=bootstrap, log=log, **kw)
    n.beats, n.record, n.on_beat, n.after_beat = list(Node.beats), [], [], []
    n.blockchain_height = height
    if level is not None:
        n.log_level = level
    return n


def conn_of(node, address):
    l = [p for p in node.peers if tuple(p.address) == tuple(address)]
    return l[0] if l else None


def frames(data):
    "(list of whole frames, rest): cut a stream by the lengths in its headers"
    out = []
    while len(data) >= 24:
        n = 24 + int.from_bytes(data[16:20], 'little')
        if n > len(data):
            break
        out.append(data[:n])
        data = data[n:]
    return out, data


def read_frame(f, magic=MAGIC):
    "('cmd', values) of a valid frame, else None"
    if f[:4] != magic or proto.checksum(f[24:]) != f[20:24]:
        return None
    cmd = f[4:16].rstrip(b'\0').decode('latin-1')
    if cmd not in proto.MSGS:
        return None
    r = proto.rd_payload(cmd, f[24:])
    return None if r is None else (cmd, r[0])


def said(peer, what='node'):
    "the messages the node has sent to a peer, all of which must be valid"
    fs, rest = frames(peer.got)
    out = []
    for f in fs:
        m = read_frame(f)
        expect(m is not None, '%s sent a bad frame %s', what, short(f))
        out.append(m)
    return out, rest


def address(i, port=None):
    "the i-th peer address, spread over the space"
    return '%d.%d.%d.%d' % (11 + i % 7, i // 7 % 256, i // 1792 % 256, 1 + i % 250), (8333 if port is None else port)


def connect(w, n, addr, how='in', settle=True):
    """connect a peer; returns (sim.Peer, Connection or None)"""
    if how == 'in':
        p = w.incoming(n.address, addr)
        w.poll(n)
    else:
        k = len(w.out)
        n.add_peer(addr)
        p = w.out[-1] if len(w.out) > k else None
        if settle:
            w.settle()
    return p, conn_of(n, addr)


def deliver(w, n, p, data, cut=(), limit=10000):
    p.say(data, cut)
    while p.inbox and p.open and limit:
        w.poll(n)
        limit -= 1
    expect(limit, 'the node does not read')
    w.poll(n)


def msg(cmd, *vals):
    return ('msg', cmd, vals)


def say(w, n, p, m):
    deliver(w, n, p, proto.binary(m, MAGIC))


def alive(w, n):
    expect(not w.errors, 'the node met an error: %r', w.errors)
    expect(any(s.listening for s in w.fds.values()), 'the node stopped listening')


def na(addr, services=1, timestamp=0):
    return ('NA', timestamp, services, addr[0], addr[1])


def version(ip='10.0.0.1', port=20303, services=1, agent=b'/peer/', height=5, v=70002, relay=None, nonce=b'n' * 8, ts=1500000000):
    return msg('version', v, services, ts, na((ip, port)), na(('1.2.3.4', 8333)), nonce, agent, height, relay)


VERACK, GETADDR, = msg('verack'), msg('getaddr')
LEVELS = [None, 0, 1, 2, 3, 4]
cutting = st.one_of(st.just([]), st.lists(st.integers(1, 60), max_size=30), st.lists(st.sampled_from([1, 4, 16, 19, 20, 23, 24, 25, 100, 8191, 8192, 8193]), max_size=20),
                    st.tuples(st.integers(1, 3), st.integers(10, 200)).map(lambda a: [a[0]] * a[1]))
