from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C39', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py)', 'peers are punished with punish_peer, by the test or while one of their messages is handled',
                                'the exact end of the hour, other connections already open from a banned address, and connections the node itself opens are not judged'])
IPS = ['11.0.0.1', '11.0.0.2', '11.0.0.12', '111.0.0.1', '1.0.0.1']
who = st.integers(0, 7)
op = st.one_of(
    st.tuples(st.just('join'), st.integers(0, 4), st.sampled_from([1, 2, 2000, 65535])), st.tuples(st.just('join'), st.integers(0, 1), st.sampled_from([1, 2, 2000, 65535])),
    st.tuples(st.just('dial'), st.integers(0, 4), st.sampled_from([8333, 1])),
    st.tuples(st.just('punish'), who, st.integers(1, 7)), st.tuples(st.just('punish'), who, st.sampled_from([1, 5, 6])), st.tuples(st.just('bad'), who, st.integers(1, 7)),
    st.tuples(st.just('time'), st.sampled_from([0.5, 9.5, 10.5, 10.5, 10.5, 21, 60, 600, 1800, 3589, 3599, 3599.9, 3600.1, 3601, 3700, 7300])), st.tuples(st.just('beats'), st.integers(1, 8)),
    st.tuples(st.just('quiet'), st.sampled_from([1, 9, 60, 600, 1800, 3000])), st.tuples(st.just('report'), who, st.integers(0, 4)), st.tuples(st.just('told'), who, st.integers(0, 4)),
    st.tuples(st.just('close'), who), st.tuples(st.just('chat'), who, st.sampled_from([1, 4, 15, 130, 300])), st.tuples(st.just('burst'), st.integers(0, 4)), st.tuples(st.just('shake'), who), st.tuples(st.just('greet'), who))


ops = st.lists(op, min_size=4, max_size=40)
ban = st.integers(0, 1).map(lambda i: [('join', i, 1), ('punish', 0, 6)])
back = st.tuples(st.integers(0, 1), st.sampled_from([1, 2, 65535])).map(lambda a: [('join',) + a])
late = st.lists(st.sampled_from([3589, 3599, 3599.9, 3600.1, 3601, 1800, 1799, 1801, 10.5]).map(lambda x: ('time', x)), min_size=1, max_size=2)
silent = st.tuples(st.integers(0, 1), st.sampled_from([9, 60, 600, 1800, 3000])).map(lambda a: [('join', a[0], 1), ('report', 0, 0), ('quiet', a[1]), ('punish', 0, 6)])     # banned long after its last word
chatty = st.tuples(st.integers(0, 1), st.sampled_from([15, 130, 300]), st.integers(2, 5), st.integers(1, 3), st.integers(1, 6), st.sampled_from([[], [('greet', 0)], [('shake', 0)], [('report', 0, 0), ('shake', 0)]])).map(lambda a: [('join', a[0], 1)] + a[5] + [('chat', 0, a[1]), ('punish', 0, a[2]), ('beats', a[3]), ('punish', 0, a[4])])
# two connections of one address, banned one after the other
twice = st.tuples(st.integers(0, 1), st.sampled_from([600, 1800, 3000, 3589, 3599]), st.sampled_from([600, 700, 1800, 3000, 3599, 3601]), back).map(lambda a: [('join', a[0], 1), ('join', a[0], 2), ('punish', 0, 6), ('time', a[1]), ('punish', 0, 6), ('time', a[2]), ('join', a[0], 2000)] + a[3])
history = st.one_of(st.tuples(twice, ops).map(lambda a: a[0] + a[1]), ops, st.tuples(chatty, ops).map(lambda a: a[0] + a[1]), st.tuples(silent, late, back, ops).map(lambda a: a[0] + a[1] + a[2] + a[3]), st.tuples(ban, ops).map(lambda a: a[0] + a[1]), st.tuples(ban, late, back, ops).map(lambda a: a[0] + a[1] + a[2] + a[3]),
                    st.tuples(ban, late, back, late, back, ops).map(lambda a: a[0] + a[1] + a[2] + a[3] + a[4] + a[5]))


@PROP.sub('bans', gen=st.tuples(history, st.sampled_from([None, 0])), quick=2500, thorough=80000, cpu=60,
          rule='histories of connections from five addresses and several ports (also opened by the node), punishments at any time and while handling messages, heartbeats, time around the hour; a reference score says when a peer is dropped and from when to when its address is refused; non-trivial with a refused connection')
def bans(c, t):
    ops, level = c
    t.nontrivial(False)
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level)
        live, banned, serial = [], {}, [0]

        def beat():
            for x in live:
                x['score'] = max(0, x['score'] - 1)
        n.on_beat.append(beat)

        def drop(x):
            if x in live:
                live.remove(x)

        def sync():
            for x in list(live):
                if x['score'] > 5:
                    expect(not x['p'].open, 'a peer punished over the tolerance is still connected')
                    expect(x['conn'] not in n.peers, 'a punished peer is still listed')
                    drop(x)
                    t.label('punished')
                elif not x['p'].open:
                    expect(x['loose'], 'peer %r with score %d was disconnected', x['p'].address, x['score'])
                    drop(x)
            nodes.alive(w, n)

        def ping(x):
            nodes.say(w, n, x['p'], nodes.msg('ping', b'hereiam!'))
            x['heard'] = w.now

        def punish(x):
            x['score'] += 1
            if x['score'] > 5:
                banned[x['p'].address[0]] = w.now
                for y in live:
                    if y is not x and y['p'].address[0] == x['p'].address[0]:
                        y['loose'] = True
            n.punish_peer(x['conn'])

        def join(ip, port):
            if any(x['p'].address == (ip, port) for x in live):
                return
            since = w.now - banned[ip] if ip in banned else None
            p, conn = nodes.connect(w, n, (ip, port), 'in')
            w.poll(n, 2)
            if since is not None and abs(since - 3600) < 1e-6:
                if not p.open:
                    return
            elif since is not None and since < 3600:
                expect(p.accepted and not p.open, '%s was accepted %.1f s after its ban', ip, since)
                same(p.got, b'', 'bytes sent to a banned address')
                expect(conn is None, 'a banned address is a peer')
                t.nontrivial()
                t.label('refused')
                return
            expect(p.open and conn is not None, '%s was refused %s', ip, '' if since is None else '%.1f s after its ban' % since)
            if since is not None:
                t.label('accepted again')
            live.append(dict(p=p, conn=conn, score=0, loose=False, heard=w.now))
        for o in ops:
            k = o[0]
            if k == 'join':
                join(IPS[o[1]], o[2])
            elif k == 'burst':
                # several connections arrive between two rounds
                for i in (o[1], 0):
                    for port in (3001, 3002):
                        join(IPS[i], port)
            elif k == 'dial':
                a = (IPS[o[1]], o[2])
                if not any(x['p'].address == a for x in live) and a[0] not in banned:
                    p, conn = nodes.connect(w, n, a, 'out')
                    expect(conn is not None, 'not connected to %r', a)
                    live.append(dict(p=p, conn=conn, score=0, loose=False, heard=w.now))
            elif k == 'time':
                for x in list(live):              # nobody is silent for three hours
                    if w.now + o[1] - x['heard'] > 10000:
                        ping(x)
                w.now += o[1]
                w.poll(n)
                sync()
                for x in list(live):
                    ping(x)
            elif k == 'quiet':                    # time passes in which nobody says anything
                if all(w.now + o[1] - x['heard'] < 9000 for x in live):
                    w.now += o[1]
                    w.poll(n)
                    sync()
            elif k == 'beats':
                for x in list(live):
                    if w.now - x['heard'] > 9000:
                        ping(x)
                for _ in range(o[1]):
                    w.now += 11
                    w.poll(n)
                    sync()
            elif live:
                x = live[o[1] % len(live)]
                if k == 'close':
                    x['p'].hang_up()
                    w.poll(n, 2)
                    expect(not x['p'].open, 'not closed')
                    drop(x)
                elif k == 'report':
                    nodes.say(w, n, x['p'], nodes.version(ip=IPS[o[2]]))
                elif k in ('shake', 'greet'):
                    if k == 'greet':
                        nodes.say(w, n, x['p'], nodes.version())
                    nodes.say(w, n, x['p'], nodes.msg('verack'))
                    x['heard'] = w.now
                elif k == 'chat':                 # how much was said has nothing to do with it
                    nodes.deliver(w, n, x['p'], proto.binary(nodes.msg('ping', b'chatting'), nodes.MAGIC) * o[2])
                    x['heard'] = w.now
                elif k == 'told':
                    nodes.say(w, n, x['p'], nodes.msg('addr', [nodes.na((IPS[o[2]], 1)), nodes.na((IPS[o[2]], 2000))]))
                elif k == 'punish':
                    for _ in range(o[2]):
                        if x in live:
                            punish(x)
                            sync()
                else:
                    n.hook = lambda conn, cmd: punish([y for y in live if y['conn'] is conn][0]) if cmd == 'mempool' else None
                    nodes.deliver(w, n, x['p'], proto.binary(nodes.msg('mempool'), nodes.MAGIC) * o[2], [7, 30])
                    n.hook = None
            w.poll(n)
            sync()
        for x in live:
            k = len(nodes.said(x['p'])[0])
            nodes.say(w, n, x['p'], nodes.msg('ping', b'nonce123'))
            expect(('pong', (b'nonce123',)) in nodes.said(x['p'])[0][k:], 'a connected peer is not answered')
        nodes.alive(w, n)


@PROP.sub('deaf', gen=st.tuples(st.lists(st.tuples(st.sampled_from(IPS), st.integers(1, 65535)), min_size=1, max_size=6), st.lists(st.sampled_from([1, 11, 3601]), max_size=4)), quick=100, thorough=2000,
          rule='a node that does not listen drops everybody who connects, sending nothing, and still opens connections')
def deaf(c, t):
    addrs, waits = c
    with sim.World() as w:
        n = nodes.make(w, None)
        addrs = addrs + [(n.address[0], 1), ('127.0.0.1', 7), (nodes.OWN[0], 8), ('0.0.0.0', 9)]
        expect(n.address[1] != 0, 'the address %r', n.address)
        for i, a in enumerate(addrs):
            p, conn = nodes.connect(w, n, a, 'in')
            w.poll(n, 2)
            expect(p.accepted and not p.open and conn is None, 'a node that does not listen accepted %r', a)
            same(p.got, b'', 'bytes sent')
            same(n.peers, [], 'peers')
            if i < len(waits):
                w.now += waits[i]
                w.poll(n)
        p, conn = nodes.connect(w, n, ('9.9.9.9', 9), 'out')
        w.poll(n, 2)
        expect(conn is not None and [g[0] for g in nodes.said(p)[0]][:1] == ['version'], 'a node that does not listen opens no connection')
        nodes.alive(w, n)


@PROP.sub('many', gen=st.tuples(st.one_of(st.integers(1, 60), st.sampled_from([9, 16, 33, 64, 101])), st.sampled_from([0, 1, 50, 119]), st.sampled_from([1, 600, 3000, 3500]), st.integers(1, 65535)), quick=60, thorough=2000, cpu=60,
          rule='bans of up to a hundred addresses one after the other, none forgotten within its hour and none kept after it')
def many_bans(c, t):
    k, gap, wait, port = c
    gap = min(gap, 1800 // k)
    ips = ['%d.%d.0.%d' % (20 + i % 5, i, 1 + i % 200) for i in range(k)]
    t.nontrivial(k > 8)
    with sim.World() as w:
        n = nodes.make(w)
        when = {}
        for ip in ips:
            p, conn = nodes.connect(w, n, (ip, 1000), 'in')
            expect(conn is not None, '%s was not accepted', ip)
            for _ in range(6):
                n.punish_peer(conn)
            w.poll(n, 2)
            expect(not p.open, 'a peer punished six times is still connected')
            when[ip] = w.now
            w.now += gap
        w.now += wait
        w.poll(n, 2)
        for step in (0, 3700):
            w.now += step
            for ip in ips + ['77.7.7.7']:
                p, conn = nodes.connect(w, n, (ip, port), 'in')
                w.poll(n, 2)
                age = w.now - when.get(ip, -9999)
                if abs(age - 3600) < 1e-6:
                    continue
                expect((p.open and conn is not None) == (age > 3600), '%s was %s %.1f s after its ban, with %d bans', ip, 'accepted' if p.open else 'refused', age, k)
                if p.open:
                    p.hang_up()
                    w.poll(n, 2)
        nodes.alive(w, n)


@PROP.sub('crowd', gen=st.tuples(st.integers(2, 100), st.lists(st.tuples(st.integers(0, 99), st.integers(1, 5)), min_size=1, max_size=10), st.integers(1, 5), st.integers(1, 6)), quick=60, thorough=2000, cpu=60,
          rule='up to a hundred peers, some punished, heartbeats, punished again: each is dropped exactly when its own score says so; non-trivial with more than sixty')
def crowd(c, t):
    k, first, beats, again = c
    t.nontrivial(k > 60)
    with sim.World() as w:
        n = nodes.make(w)
        ps = [nodes.connect(w, n, nodes.address(i, 1000 + i), 'in') for i in range(k)]
        score = [0] * k
        for i, m in [(i % k, m) for i, m in first] + [(k - 1, 4)]:
            if score[i] + m <= 5:
                for _ in range(m):
                    n.punish_peer(ps[i][1])
                score[i] += m
        for _ in range(beats):
            w.now += 11
            w.poll(n, 2)
            score = [max(0, v - 1) for v in score]
        same(len(n.peers), k, 'peers')
        for i in sorted({i % k for i, m in first} | {k - 1}):
            for j in range(again):
                expect(ps[i][0].open, 'peer %d of %d was dropped with score %d', i, k, score[i])
                score[i] += 1
                n.punish_peer(ps[i][1])
                if score[i] > 5:
                    break
            w.poll(n, 2)
            same(ps[i][0].open, score[i] <= 5, 'peer %d of %d connected, with score %d' % (i, k, score[i]))
        same(len(n.peers), sum(v <= 5 for v in score), 'peers at the end')
        nodes.alive(w, n)


TRIES = [(), (1,), (600,), (1800,), (3000,), (3590,), (10, 20, 30), (600, 1200, 1800, 2400, 3000), (1799, 1801, 3598)]


@PROP.sub('attempts', enum=lambda tier: [(k, gap, tries, port) for k in (1, 2, 3, 5) for gap in (0, 7, 400) for tries in TRIES for port in (1000, 2000)], quick=220, cpu=60,
          rule='exhaustive: one to five banned addresses that try to connect at several times within their hour: all refused, and none of it prolongs or shortens any ban')
def attempts(c, t):
    k, gap, tries, port = c
    ips = ['20.0.%d.1' % i for i in range(k)]
    t.nontrivial(k > 1 and bool(tries))
    with sim.World() as w:
        n = nodes.make(w)
        t0, todo = w.now, []
        for i, ip in enumerate(ips):
            p, conn = nodes.connect(w, n, (ip, 1000), 'in')
            expect(conn is not None, '%s was not accepted', ip)
            for _ in range(6):
                n.punish_peer(conn)
            w.poll(n, 2)
            expect(not p.open, 'a peer punished six times is still connected')
            todo += [(w.now + x, i) for x in tries + (3598.5, 3601.5)]
            w.now += gap
        ends = {i: t0 + gap * i + 3600 for i in range(k)}
        for when, i in sorted(todo):
            if when < w.now:
                continue
            w.now = when
            w.poll(n)
            p, conn = nodes.connect(w, n, (ips[i], port), 'in')
            w.poll(n, 2)
            expect((p.open and conn is not None) == (when > ends[i]), '%s was %s %.1f s after its ban, with %d bans and attempts at %r', ips[i], 'accepted' if p.open else 'refused', when - ends[i] + 3600, k, tries)
        nodes.alive(w, n)


@PROP.sub('moment', enum=lambda tier: [(frac, off, k) for frac in (0, .05, .25, .5, .75, .95) for off in (-30, -1, -.9, -.5, -.3, -.1, -.02, .02, .1, .3, .5, .9, 1, 30) for k in (1, 3)], quick=200, cpu=60,
          rule='exhaustive: bans that begin between two seconds, and attempts right before and right after the end of their hour')
def moment(c, t):
    frac, off, k = c
    t.nontrivial(off < 0)
    with sim.World() as w:
        n = nodes.make(w)
        w.now = int(w.now) + 5 + frac
        ends = []
        for i in range(k):
            p, conn = nodes.connect(w, n, ('20.0.%d.1' % i, 1000), 'in')
            expect(conn is not None, 'not accepted')
            for _ in range(6):
                n.punish_peer(conn)
            ends.append(w.now + 3600)
            w.poll(n, 2)
            expect(not p.open, 'a peer punished six times is still connected')
            w.now += .31
        for i in range(k):
            w.now = ends[i] + off
            p, conn = nodes.connect(w, n, ('20.0.%d.1' % i, 1001), 'in')
            w.poll(n, 2)
            expect((p.open and conn is not None) == (off > 0), '%s %.2f s %s the end of its ban', 'accepted' if p.open else 'refused', abs(off), 'before' if off < 0 else 'after')
        nodes.alive(w, n)
