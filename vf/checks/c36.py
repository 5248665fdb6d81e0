from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C36', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py)', 'pings and address requests the node sends on its own are C40 and C41',
                                'fewer than 2500 addresses are announced (the limit is C38); no external address is reported by peers while connecting (C42)'])
MAGIC = nodes.MAGIC
PEERS = 4
peer = st.integers(0, PEERS - 1)
ts = st.one_of(st.integers(0, 2**32 - 1), st.integers(1499990000, 1500010000), st.sampled_from([0, 1, 2**31, 2**32 - 1, 1500000000]))
services = st.one_of(st.sampled_from([0, 1, 2, 5, 2**63, 2**64 - 1]), gen.ints(0, 2**64 - 1))
entry = st.tuples(st.one_of(st.integers(0, 30).map(nodes.address), st.tuples(proto.ips, st.sampled_from([0, 1, 8333, 65535])), st.integers(0, PEERS - 1).map(lambda i: nodes.address(i, 1000 + i))), services, ts)
OTHER = ['pong', 'inv', 'getdata', 'notfound', 'getblocks', 'getheaders', 'tx', 'headers', 'reject', 'alert', 'mempool']
other = st.sampled_from(OTHER).flatmap(proto.message).filter(lambda m: len(repr(m)) < 1500)
details = st.fixed_dictionaries({'v': proto.numbers('i'), 'services': services, 'agent': gen.data(30), 'height': proto.numbers('i'), 'relay': st.sampled_from([None, 0, 1, 255]),
                                 'ip': st.one_of(st.just('10.0.0.1'), proto.ips), 'port': st.sampled_from([0, 8333, 65535]), 'ts': proto.numbers('q')}).map(lambda d: tuple(sorted(d.items())))
op = st.one_of(
    st.tuples(st.just('in'), peer), st.tuples(st.just('out'), peer), st.tuples(st.just('slow'), peer),
    st.tuples(st.just('version'), peer, details), st.tuples(st.just('version'), peer, details), st.tuples(st.just('verack'), peer), st.tuples(st.just('verack'), peer),
    st.tuples(st.just('ping'), peer, gen.blob(8)), st.tuples(st.just('ping'), peer, gen.blob(8)),
    st.tuples(st.just('getaddr'), peer), st.tuples(st.just('getaddr'), peer), st.tuples(st.just('getaddr'), peer),
    st.tuples(st.just('addr'), peer, st.lists(entry, max_size=5).map(tuple)), st.tuples(st.just('addr'), peer, st.lists(entry, max_size=5).map(tuple)),
    st.tuples(st.just('flood'), peer, st.integers(0, 2000), st.one_of(st.integers(1, 60), st.integers(400, 1000), st.just(1000)), st.integers(0, 3)),
    st.tuples(st.just('other'), peer, other), st.tuples(st.just('time'), st.sampled_from([0.25, 1, 7, 11, 60, 600])),
    st.tuples(st.just('close'), peer))
setting = st.tuples(st.one_of(st.none(), proto.ips), st.one_of(st.none(), st.text(alphabet='abc/:.0(', min_size=1, max_size=20)), gen.ints(-2**31, 2**31 - 1), st.sampled_from([20303, 1, 65535, 8333]))


DEFAULT = (('agent', b'/p/'), ('height', 1), ('ip', '10.0.0.1'), ('port', 1), ('relay', 1), ('services', 1), ('ts', 0), ('v', 70002))


class Model(object):
    def __init__(self, w, n):
        self.w, self.n = w, n
        self.book = {}            # (normal ip, port) -> (timestamp, services or None)
        self.live = {}            # i -> [sim.Peer, Connection, expected messages, details]

    def key(self, a):
        return proto.ip_value(proto.ip_bytes(a[0])), a[1]

    def say(self, i, m):
        p, conn = self.live[i][:2]
        nodes.say(self.w, self.n, p, m)
        self.w.poll(self.n, 2)

    def check(self, i):
        p, conn, want, det, own = self.live[i]
        got, rest = nodes.said(p)
        same(rest, b'', 'an incomplete message sent to peer %d' % i)
        got = [g for g in got if g[0] != 'ping']
        # requests of the heartbeat may stand anywhere
        got = [g for g in got if g[0] != 'getaddr']
        same(len(got), len(want), 'number of messages sent to peer %d: %s' % (i, short([g[0] for g in got])))
        for g, x in zip(got, want):
            if callable(x):
                x(g)
            else:
                same(g, x, 'message sent to peer %d' % i)
        d = dict(services=None, start_height=None, user_agent=None, version=None, relay=None, external_ip=None, verack=False)
        d.update(det)
        for name in sorted(d):
            got = getattr(conn, name)
            if name == 'external_ip' and got is not None:
                got = proto.ip_value(proto.ip_bytes(got))
            if name == 'user_agent' and isinstance(got, str):
                got = got.encode('latin-1')
            same(got, d[name], 'recorded %s of peer %d' % (name, i))

    def announced(self, addr, ip, agent, height, port):
        now = self.w.now

        def f(g):
            v = g[1]
            same(g[0], 'version', 'first message')
            same(v[0], self.n.coin.protocol_version, 'announced protocol version')
            same(v[1], 1, 'announced services')
            same(v[2], int(now), 'announced time')
            same(v[3], ('NA', 0, 1) + (self.key(addr)[0], addr[1]), 'address of the receiver')
            same(v[4], ('NA', 0, 1) + (self.key((ip, port))[0], port), 'announced own address')
            same(len(v[5]), 8, 'length of the nonce')
            same(v[6], agent.encode('latin-1'), 'announced user agent')
            same(v[7], height, 'announced height')
            same(v[8], 0, 'announced relay flag')
        return f

    def listing(self):
        book = {a: (int(v[0]), v[1]) for a, v in self.book.items() if v[1] is not None}

        def f(g):
            same(g[0], 'addr', 'answer to an address request')
            l = [((x[3], x[4]), (x[1], x[2])) for x in g[1][0]]
            same(len(l), min(1000, len(book)), 'number of addresses handed out of %d' % len(book))
            d = dict(l)
            same(len(d), len(l), 'number of distinct addresses')
            for a, v in l:
                same(v, book.get(a), 'time and services of %r' % (a,))
            times = [v[0] for a, v in l]
            expect(all(x >= y for x, y in zip(times, times[1:])), 'the addresses are not ordered by time: %s', short(times))
            if len(l) < len(book):
                best = max(v[0] for a, v in book.items() if a not in d)
                expect(times[-1] >= best, 'an address seen at %r is left out for one seen at %r', best, times[-1])
        return f


@PROP.sub('protocol', gen=st.tuples(setting, st.lists(op, min_size=4, max_size=25), st.sampled_from([None, 0, 2]), st.sampled_from([None] * 6 + [2**31 - 3, 2**31, 4 * 10**9, 1])), quick=900, thorough=60000, cpu=60,
          rule='histories of up to four peers connecting in and out (at once or later), announcing versions and addresses, asking, pinging, sending messages without action, leaving, with time passing; after each step every message sent and every recorded detail equals the model; non-trivial with an answered address request and a version')
def protocol(c, t):
    (ip, agent, height, port), ops, level, start = (c + (None,))[:4]
    own = ('10.0.0.1', port)
    with sim.World() as w:
        if start:                # also another year
            w.now = start
        n = nodes.make(w, own, log=nodes.Log() if level is not None else None, level=level)
        if ip is not None:
            n.external_ip = ip
        if agent is not None:
            n.user_agent = agent
        n.blockchain_height = height
        m = Model(w, n)
        did = set()
        def join(i, k):
            a = nodes.address(i, 1000 + i)
            first = m.announced(a, n.external_ip, n.user_agent, height, port)
            w.policy[a] = 'slow' if k == 'slow' else 'ok'
            p, conn = nodes.connect(w, n, a, 'in' if k == 'in' else 'out', settle=False)
            expect(p is not None and conn is not None, 'peer %d was not connected', i)
            if k == 'slow':
                w.poll(n, 2)
                same(p.got, b'', 'bytes sent before the connection is made')
                w.settle()
            same(conn.incoming, k == 'in', 'direction of the connection')
            w.poll(n, 2)
            m.live[i] = [p, conn, [first], {}, a]

        for o in ops:
            k, i = o[0], o[1]
            if k in ('in', 'out', 'slow'):
                if i not in m.live:
                    join(i, k)
            elif k == 'time':
                w.now += o[1]
                w.poll(n, 2)
            elif k == 'close' and i not in m.live:
                continue
            elif k == 'close':
                m.live[i][0].hang_up()
                w.poll(n, 2)
                expect(not m.live[i][0].open, 'the connection of peer %d is not closed', i)
                m.book.pop(m.key(m.live[i][4]), None)
                del m.live[i]
            else:
                if i not in m.live:
                    join(i, ('in', 'out', 'slow')[i % 3])
                want, det = m.live[i][2:4]
                if k == 'version':
                    d = dict(o[2])
                    det.update(services=d['services'], start_height=d['height'], user_agent=d['agent'], version=d['v'], relay=1 if d['relay'] is None else d['relay'],
                               external_ip=m.key((d['ip'], 0))[0])
                    want.append(('verack', ()))
                    m.say(i, nodes.version(**d))
                    did.add('version')
                elif k == 'verack':
                    det.update(verack=True)
                    m.say(i, nodes.VERACK)
                    m.book[m.key(m.live[i][4])] = (w.now, det.get('services'))
                elif k == 'ping':
                    want.append(('pong', (o[2],)))
                    m.say(i, nodes.msg('ping', o[2]))
                elif k == 'getaddr':
                    want.append(m.listing())
                    m.say(i, nodes.GETADDR)
                    did.add('getaddr' if any(v[1] is not None for v in m.book.values()) else 'empty')
                elif k in ('addr', 'flood'):
                    l = o[2]
                    if k == 'flood':
                        if len(m.book) + o[3] > 2450:
                            continue
                        f = [lambda x: 1500000000 + x, lambda x: 1500000000 - x, lambda x: 77, lambda x: x * 2654435761 % 2**32][o[4]]
                        l = [(nodes.address(x), 1 + x % 3, f(x)) for x in range(o[2], o[2] + o[3])]
                        did.add('many' if len(m.book) > 1000 else 'flood')
                    m.say(i, nodes.msg('addr', [nodes.na(x[0], x[1], x[2]) for x in l]))
                    for x in l:
                        m.book[m.key(x[0])] = (x[2], x[1])
                else:
                    m.say(i, o[2])
                    did.add('other')
            nodes.alive(w, n)
            for i in m.live:
                m.check(i)
        w.poll(n, 2)
        for i in m.live:
            m.check(i)
            expect(m.live[i][0].open, 'peer %d was dropped', i)
        t.nontrivial({'version', 'getaddr'} <= did)
        t.label(*did)


@PROP.sub('listing', gen=st.tuples(st.lists(st.tuples(st.integers(0, 2300), st.integers(1, 1000), st.integers(0, 3)), min_size=1, max_size=4), st.lists(st.booleans(), min_size=1, max_size=3)), quick=60, thorough=3000, cpu=60,
          rule='books of up to 2450 addresses (overlapping announcements), handed out 1000 at a time, newest first; class many when over 1000 are known')
def listing(c, t):
    floods, hand = c
    ops = [('in', 0), ('version', 0, DEFAULT)] + ([('verack', 0)] if hand[0] else [])
    ops += [('flood', 0, a, k, f) for a, k, f in floods] + [('in', 1)] + [('getaddr', 0)] * len(hand)
    protocol(((None, None, 0, 20303), ops, None), t)


@PROP.sub('full-listing', enum=lambda tier: [(k, f, asks) for k in (999, 1000, 1001, 1500, 1999, 2000, 2001, 2200, 2450) for f in range(4) for asks in (1, 2)], quick=72, cpu=60,
          rule='exhaustive: books of 999 to 2450 addresses announced oldest first, newest first, all at one time or mixed: the thousand newest are handed out, newest first')
def full_listing(c, t):
    k, f, asks = c
    ops = [('in', 0)] + [('flood', 0, a, min(1000, k - a), f) for a in range(0, k, 1000)] + [('getaddr', 0)] * asks
    protocol(((None, None, 0, 20303), ops, None), t)
    t.nontrivial(k > 1000)


@PROP.sub('agents', enum=lambda tier: [(k, f, how) for k in list(range(1, 80)) + list(range(94, 102)) + list(range(120, 132)) + [199, 200, 249, 250, 251, 252] for f in (0, 1) for how in ('in', 'out')], quick=420, cpu=60,
          rule='exhaustive: own user agents of 1 to 252 characters, announced whole to whoever connects')
def agents(c, t):
    k, f, how = c
    t.nontrivial(k > 30)
    s = ('/abcdefghijklmnopqrstuvwxyz:0.1.2(ABC)' * 8)[:k] if f else '/' + 'x' * (k - 2) + '/' * (k > 1)
    with sim.World() as w:
        n = nodes.make(w)
        n.user_agent = s
        for i in range(2):
            p, conn = nodes.connect(w, n, nodes.address(i, 1000 + i), how)
            w.poll(n, 2)
            v = [g for g in nodes.said(p)[0] if g[0] not in ('getaddr', 'ping')]
            same([g[0] for g in v], ['version'], 'messages sent')
            same(v[0][1][6], s.encode(), 'announced user agent')
            # and the peer's is recorded whole, too
            nodes.say(w, n, p, nodes.version(agent=s.encode()))
            got = conn.user_agent
            same(got.encode('latin-1') if isinstance(got, str) else got, s.encode(), 'recorded user agent')
        nodes.alive(w, n)


@PROP.sub('backlog', enum=lambda tier: [(k, wait, what) for k in (1, 50, 400, 1500, 2500, 4000) + ((20000,) if tier == 'thorough' else ()) for wait in (False, True) for what in ('ping', 'version', 'getaddr', 'all')], quick=48, cpu=120,
          rule='exhaustive: up to thousands of questions by a peer that reads nothing meanwhile (or reads all along): each is answered, in order, once it reads; another peer is answered all the time')
def backlog(c, t):
    k, wait, what = c
    t.nontrivial(k > 1000 and wait)
    with sim.World() as w:
        n = nodes.make(w)
        q, _ = nodes.connect(w, n, nodes.address(1, 1001))
        l = [(nodes.address(50 + i), 1, 5 + i) for i in range(9)]
        nodes.say(w, n, q, nodes.msg('addr', [nodes.na(*x) for x in l]))
        p, conn = nodes.connect(w, n, nodes.address(0, 1000))
        w.poll(n, 2)
        start = len([g for g in nodes.said(p)[0] if g[0] not in ('getaddr', 'ping')])
        p.blocked = wait
        ms, want = [], []
        for i in range(k):
            x = what if what != 'all' else ('ping', 'version', 'ping', 'getaddr')[i % 4]
            if x == 'ping':
                ms.append(nodes.msg('ping', b'%08d' % i))
                want.append(('pong', b'%08d' % i))
            elif x == 'version':
                ms.append(nodes.version(nonce=b'%08d' % i))
                want.append(('verack',))
            else:
                ms.append(nodes.GETADDR)
                want.append(('addr', len(l)))
        nodes.deliver(w, n, p, b''.join(proto.binary(m, MAGIC) for m in ms))
        nodes.say(w, n, q, nodes.msg('ping', b'meanwhil'))
        expect(('pong', (b'meanwhil',)) in nodes.said(q)[0], 'another peer is not answered')
        p.blocked = False
        for _ in range(20000):
            before = len(p.got)
            w.poll(n, 2)
            if len(p.got) == before:
                break
        expect(p.open, 'the peer was dropped')
        got, rest = nodes.said(p)
        same(rest, b'', 'rest')
        got = [('pong', g[1][0]) if g[0] == 'pong' else ('addr', len(g[1][0])) if g[0] == 'addr' else g[:1] for g in [g for g in got if g[0] not in ('getaddr', 'ping')][start:]]
        same(len(got), k, 'number of answers')
        same(got, want, 'answers')
        nodes.alive(w, n)
