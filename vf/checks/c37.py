import errno
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C37', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py); the clock stands still, so the node sends nothing on its own but its version'])
MAGIC = nodes.MAGIC
PEERS = 3
peer = st.integers(0, PEERS - 1)
small = proto.small_messages.filter(lambda m: len(repr(m)) < 600)
message = st.one_of(small, small, small, st.just(nodes.msg('getaddr')), st.tuples(st.integers(0, 2**32 - 1), st.sampled_from([100, 273, 1000])).map(
    lambda a: nodes.msg('addr', ('*', a[1], (nodes.na(nodes.address(a[0] % 9999), 1, a[0]), nodes.na(('1.2.3.4', 5)))))))
ERR = [errno.EPIPE, errno.ECONNRESET, errno.ETIMEDOUT, errno.ENOBUFS, errno.ECONNABORTED, errno.ESHUTDOWN, errno.EBADF, errno.EHOSTUNREACH, errno.EIO]
size = st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 4, 24, 126, 127, 128, 8192, 65536]), st.integers(0, 3000))
step = st.one_of(size, size, size, size, size, size, size, size, st.sampled_from([(errno.EAGAIN,), (errno.EWOULDBLOCK,)]))
op = st.one_of(
    st.tuples(st.just('send'), peer, message), st.tuples(st.just('send'), peer, message), st.tuples(st.just('send'), peer, message),
    st.tuples(st.just('all'), message), st.tuples(st.just('ping'), peer, gen.blob(8)),
    st.tuples(st.just('plan'), peer, st.lists(step, min_size=1, max_size=8)), st.tuples(st.just('plan'), peer, st.lists(step, min_size=1, max_size=8)),
    st.tuples(st.just('block'), peer, st.booleans()), st.tuples(st.just('poll'), st.integers(1, 6)), st.tuples(st.just('poll'), st.integers(1, 6)),
    st.tuples(st.just('error'), peer, st.sampled_from(ERR), st.lists(size, max_size=3)), st.tuples(st.just('settle')), st.tuples(st.just('hang'), peer), st.tuples(st.just('join'), peer, st.sampled_from(['in', 'out', 'slow', 'refused'])))


@PROP.sub('writes', gen=st.tuples(st.lists(st.sampled_from(['in', 'in', 'out', 'out', 'slow', 'refused', 'never']), min_size=1, max_size=PEERS), st.lists(op, min_size=3, max_size=30), st.sampled_from([None, 0])), quick=1200, thorough=80000, cpu=60,
          rule='up to three connections (ready, connecting, refused), messages of all types and sizes sent while writes are cut, blocked, delayed and failing at any point; after every round the bytes taken are a prefix of what was sent, counts agree, the connection asks to write exactly while something is unsent, and failures close that connection only; non-trivial with a cut write of a second message or a failure')
def writes(c, t):
    hows, ops, level = c
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level)
        w.poll(n)                  # the heartbeat, before anybody is connected
        VLEN = 24 + 4 + 8 + 8 + 26 + 26 + 8 + 1 + len(n.user_agent) + 4 + 1
        ps, seq, dead = {}, [0], []

        def join(i, how):
            seq[0] += 1
            a = nodes.address(i, 1000 + seq[0])
            w.policy[a] = how if how not in ('in', 'out') else 'ok'
            p, conn = nodes.connect(w, n, a, 'in' if how == 'in' else 'out', settle=False)
            expect(p is not None and conn is not None, 'peer %d was not connected', i)
            ps[i] = dict(p=p, conn=conn, how=how, want=b'', up=how in ('in', 'out'), failing=False)

        def check():
            for x in list(ps.values()) + dead:
                p, conn = x['p'], x['conn']
                got, total = p.got, VLEN + len(x['want'])
                expect(len(got) <= total, 'peer %r got %d bytes of %d', p.address, len(got), total)
                if len(got) >= VLEN:
                    m = nodes.read_frame(got[:VLEN])
                    expect(m and m[0] == 'version', 'the first message is %s', short(got[:VLEN]))
                    expect(x['want'].startswith(got[VLEN:]), 'peer %r got other bytes than were sent', p.address)
                same(conn.tx_bytes, len(got), 'bytes counted as sent to %r' % (p.address,))
                expect(not (p.broken and p.open), 'a connection is open after a write failed')
                if p.open:
                    same(bool(conn.writable()), len(got) < total, 'asks to write, with %d of %d sent' % (len(got), total))
                    expect(conn in n.peers, 'an open connection is not listed')
                else:
                    expect(conn not in n.peers, 'a closed connection is still listed')
                    expect(not conn.writable(), 'a closed connection asks to write')
            if getattr(n, '_tx_bytes', None):
                same(n._tx_bytes, sum(len(x['p'].got) for x in list(ps.values()) + dead), 'bytes sent in total')
            for i, x in list(ps.items()):
                if not x['p'].open:
                    expect(x['failing'], 'the connection of peer %d was closed', i)
                    t.nontrivial(len(x['p'].got) > 0)
                    dead.append(ps.pop(i))
            nodes.alive(w, n)
        for i, how in enumerate(hows):
            join(i, how)
        check()
        for o in ops:
            k = o[0]
            if k == 'poll':
                for _ in range(o[1]):
                    w.poll(n)
                    check()
            elif k == 'settle':
                w.settle()
                for x in ps.values():
                    if x['how'] == 'slow':
                        x['up'] = True
                    if x['how'] == 'refused':
                        x['failing'] = True
            elif k == 'all':
                obj = proto.make(o[1])
                for x in ps.values():
                    x['conn'].send_message(obj)
                    x['want'] += proto.binary(o[1], MAGIC)
            elif k == 'join':
                if o[1] not in ps:
                    join(o[1], o[2])
            elif o[1] in ps:
                x = ps[o[1]]
                p = x['p']
                if k == 'send':
                    x['conn'].send_message(proto.make(o[2]))
                    x['want'] += proto.binary(o[2], MAGIC)
                elif k == 'ping' and x['up'] and not x['failing']:
                    before = p.taken
                    nodes.deliver(w, n, p, proto.binary(nodes.msg('ping', o[2]), MAGIC))
                    if p.taken - before == 32:
                        x['want'] += proto.binary(nodes.msg('pong', o[2]), MAGIC)
                elif k == 'plan':
                    if not any(isinstance(s, tuple) and s[0] in ERR for s in p.plan):
                        p.plan = list(o[2])
                        t.nontrivial(len(x['want']) > 0 and any(isinstance(s, int) for s in o[2]))
                elif k == 'block':
                    p.blocked = o[2]
                elif k == 'error':
                    p.plan = list(o[3]) + [(o[2],)]
                    x['failing'] = True
                elif k == 'hang' and x['up']:
                    p.hang_up()
                    x['failing'] = True
            check()
        # everything open gets the rest
        for x in ps.values():
            if not x['failing']:
                x['p'].plan, x['p'].blocked = [], False
        for _ in range(80):
            w.poll(n)
            check()
        for x in ps.values():
            if x['up'] and not x['failing']:
                same(x['p'].got[VLEN:], x['want'], 'bytes received by %r' % (x['p'].address,))
            elif not x['up']:
                same(x['p'].got, b'', 'bytes sent without a connection')
        t.label(*['closed' if not x['p'].open else 'open' for x in dead + list(ps.values())])


@PROP.sub('cuts', enum=lambda tier: ((k, cuts) for k in range(3) for cuts in ([[i] for i in range(0, 140)] + [[i, j] for i in range(0, 140, 7 if tier == 'quick' else 1) for j in (0, 1, 24, 25, 60)])), quick=24,
          rule='one or two messages after the version, every position of one cut, and pairs of cuts')
def cuts(c, t):
    k, cut = c
    ms = [nodes.msg('ping', b'abcdefgh'), nodes.msg('getaddr'), nodes.msg('reject', b'x' * 30, 1, b'')][:k]
    with sim.World() as w:
        n = nodes.make(w)
        w.poll(n)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3))
        for m in ms:
            conn.send_message(proto.make(m))
        p.plan = list(cut)
        w.poll(n, len(cut) + 4)
        got, rest = nodes.said(p)
        same(rest, b'', 'rest')
        same([g[0] for g in got], ['version'] + [m[1] for m in ms], 'messages')
        same(b''.join(nodes.frames(p.got)[0][1:]), b''.join(proto.binary(m, MAGIC) for m in ms), 'bytes')
        same(conn.tx_bytes, len(p.got), 'bytes sent')
        expect(not conn.writable(), 'asks to write with nothing unsent')


@PROP.sub('backlog', gen=st.tuples(st.integers(1, 40), st.sampled_from([('addr', 1000), ('addr', 300), ('reject', 60000), ('ping', 0), ('reject', 200000)]), st.lists(st.sampled_from([0, 1, 8192, 65536, 300000, 2000000]), max_size=4), st.integers(0, 3)), quick=40, thorough=800, cpu=120,
          rule='up to 8 MB wait for a peer that takes nothing for a while, with pings to answer in between; everything arrives in order; non-trivial above 1 MB')
def backlog(c, t):
    times, (cmd, k), plan, pings = c
    with sim.World() as w:
        n = nodes.make(w)
        w.poll(n)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3))
        q, _ = nodes.connect(w, n, ('4.4.4.4', 4))
        first = len(p.got)
        p.blocked = True
        want = []
        for i in range(times):
            m = nodes.msg('ping', b'%08d' % i) if cmd == 'ping' else nodes.msg('reject', b'%d' % i, 1, b'r' * k) if cmd == 'reject' else nodes.msg('addr', ('*', k, (nodes.na(nodes.address(i), 1, i),)))
            conn.send_message(proto.make(m))
            want.append(proto.binary(m, MAGIC))
            if pings and i % 4 < pings:
                nodes.deliver(w, n, p, proto.binary(nodes.msg('ping', b'n%07d' % i), MAGIC))
                want.append(proto.binary(nodes.msg('pong', b'n%07d' % i), MAGIC))
        want = b''.join(want)
        t.nontrivial(len(want) > 1 << 20)
        same(len(p.got), first, 'bytes taken by a peer that takes nothing')
        expect(conn.writable(), 'does not ask to write')
        nodes.say(w, n, q, nodes.msg('ping', b'12345678'))
        expect(('pong', (b'12345678',)) in nodes.said(q)[0], 'another peer is not answered')
        p.blocked = False
        p.plan = list(plan)
        w.poll(n, 60)
        expect(p.open, 'the connection was closed')
        expect(p.got[first:] == want, 'the peer received %d bytes, %d were sent to it; equal up to byte %d', len(p.got) - first, len(want), next((i for i, (a, b) in enumerate(zip(p.got[first:], want)) if a != b), -1))
        same(conn.tx_bytes, len(p.got), 'bytes sent')
        expect(not conn.writable(), 'asks to write with nothing unsent')
