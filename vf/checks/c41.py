import errno
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C41', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py)',
                                'a heartbeat may now and then (one attempt in two hundred) do something else, so only four idle heartbeats in a row are an alarm',
                                'which known address is tried is not specified; an address is known from its announcement until a connection with it fails or ends; asking for more is expected up to 40 and not from 60 known addresses'])
OWN = nodes.OWN
POOL = [nodes.address(i) for i in range(12)]
# some share the host or the port with another one or with the node itself
POOL[7:] = [(POOL[0][0], 1), (POOL[1][0], 8334), (OWN[0], 8333), ('10.0.0.2', OWN[1]), (POOL[0][0], OWN[1])]
idx = st.integers(0, len(POOL) - 1)
SEEDS = [(), (('55.0.0.1', 8333),), (('55.0.0.1', 8333), ('55.0.0.2', 8333)), (('seed.example', 8333),), (('seed.example', 8333), ('55.0.0.1', 8333), ('55.0.0.3', 1)), (OWN,), (OWN, ('55.0.0.1', 8333))]     # its own address, too, may be among the seeds
outcome = st.sampled_from(['ok', 'ok', 'slow', 'never', 'refused', 'refused', 'sync-refused', 'unreachable', 'odd', 'overflow'])
op = st.one_of(
    st.tuples(st.just('addr'), st.lists(st.one_of(idx, idx, idx, st.just(-1)), min_size=1, max_size=6).map(tuple)), st.tuples(st.just('addr'), st.lists(st.one_of(idx, idx, idx, st.just(-1)), min_size=1, max_size=6).map(tuple)),
    st.tuples(st.just('more'), st.integers(0, 500), st.sampled_from([5, 30, 39, 60, 100])),
    st.tuples(st.just('time'), st.sampled_from([0.5, 5, 9.9, 10.1, 10.5, 11, 20, 30])), st.tuples(st.just('beats'), st.integers(1, 8)), st.tuples(st.just('beats'), st.integers(1, 8)), st.tuples(st.just('beats'), st.integers(1, 8)),
    st.tuples(st.just('in'), st.one_of(idx.map(lambda i: POOL[i]), st.integers(0, 5).map(lambda i: nodes.address(900 + i // 3, 5000 + i % 3)))), st.tuples(st.just('leave'), st.integers(0, 20), st.sampled_from(['eof', 'reset', 'remove'])),
    st.tuples(st.just('policy'), idx, outcome), st.tuples(st.just('default'), outcome), st.tuples(st.just('settle')), st.tuples(st.just('settle')),
    st.tuples(st.just('add'), st.one_of(idx, st.just(-1)), st.booleans()), st.tuples(st.just('emfile'), st.lists(st.sampled_from([0, errno.EMFILE, errno.ENOBUFS]), min_size=1, max_size=3)))
conf = st.tuples(st.sampled_from([0, 1, 2, 3, 5, 8, 16]), st.sampled_from([1, 2, 3, 5, 8, 125]), st.integers(0, len(SEEDS) - 1), st.sampled_from([None, 0]))
start = st.lists(st.one_of(idx, idx, idx, st.just(-1)), max_size=8).map(lambda l: [('addr', tuple(l))] if l else [])
# several connections from one host, of which one is taken away
guests = st.tuples(st.permutations([5000, 5001, 5002]), st.lists(st.tuples(st.just('leave'), st.integers(0, 20), st.sampled_from(['remove', 'remove', 'eof'])), min_size=1, max_size=3)).map(lambda a: [('in', (nodes.address(900)[0], x)) for x in a[0]] + a[1])
start = st.one_of(start, start, start, st.tuples(start, guests).map(lambda a: a[0] + a[1]))


def coin(seeds):
    from nbc import coins
    return type('C', (coins.Newbitcoin,), {'dns_seeds': list(seeds)})


@PROP.sub('seeking', gen=st.tuples(conf, st.tuples(start, st.lists(op, min_size=4, max_size=30)).map(lambda a: a[0] + a[1])), quick=1500, thorough=80000, cpu=60,
          rule='all settings of sought peers, limit and seeds; announcements (own address among them), peers coming and going, connection attempts that succeed at once or later, hang, are refused at once or later, or get no socket; every heartbeat is judged by what it dialled, every step by the sockets left open; non-trivial with a failed attempt or a heartbeat that has to connect')
def seeking(c, t):
    t.nontrivial(False)
    (seek, limit, si, level), ops = c
    seeds = SEEDS[si]
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level, seek=seek, limit=limit, bootstrap=bool(seeds), coin=coin(seeds))
        known, lost, starve, gone, beats = set(), 0, 0, set(), []
        state = {}

        def text(a):
            return a[0], a[1]

        def open_addrs():
            return {tuple(p.address) for p in n.peers}

        def sync():
            "forget addresses whose connection failed or ended"
            for p in w.out + w.peers:
                if id(p) not in gone and not p.open:
                    gone.add(id(p))
                    known.discard(p.address)
                    state.pop(p.address, None)
            same(sorted(tuple(s.peer.address) for s in w.live() if s.peer), sorted(open_addrs()), 'open sockets and peers')
            same(len(w.live()), len(n.peers), 'open sockets')
            same(len(open_addrs()), len(n.peers), 'distinct peers')
            expect(all(p.writable() or s.peer.got for p in n.peers for s in w.live() if s.peer and s.peer.address == tuple(p.address)), 'the socket of a failed attempt is kept: nothing was or will be sent on it')
            nodes.alive(w, n)

        def dials(k, before, limited=None):
            "judge the connection attempts made since number k"
            busy = set(before)
            for when, a, how in w.dialed[k:]:
                expect(a != OWN, 'connected to the own address')
                expect(a not in busy, 'connected to %r, which is connected', a)
                if how in ('ok', 'slow', 'never', 'refused') and ':' not in a[0] and a[0] != 'seed.example':
                    busy.add(a)
                else:
                    known.discard(a)
                    t.nontrivial()
                    t.label('failed')
            return len(w.dialed) - k

        def before():
            expect(not beats or w.now - beats[-1] >= 10 - 1e-6, 'heartbeats %.2f s apart', w.now - beats[-1] if beats else 0)
            beats.append(w.now)
            state['beat'] = (len(w.dialed), open_addrs(), len(w.socket_errors), len(n.peers))

        def after():
            nonlocal lost, starve
            k, busy, e, c = state.pop('beat')
            room = max(0, min(seek - c, 5))
            free = known - busy - {OWN}
            empty = not known
            used = e - len(w.socket_errors)
            lost_here = used - 0
            d = dials(k, busy)
            expect(d <= room, '%d attempts in one heartbeat with %d of %d peers', d, c, seek)
            from_book = room > 0 and len(free) > lost
            from_seed = room > 0 and empty and seeds and OWN not in seeds and not (set(seeds) & busy) and c + 2 <= limit
            if from_book or from_seed:
                t.nontrivial()
                t.label('book' if from_book else 'seed')
                starve = 0 if d or used else starve + 1
                expect(starve < 4, 'no connection attempt for %d heartbeats, with %d of %d peers and %d known addresses', starve, c, seek, len(free))
            else:
                starve = 0
            lost += max(0, used)
        n.on_beat.append(before)
        n.after_beat.append(after)
        ask, _ = None, None

        def asked():
            return sum(1 for s in w.live() if s.peer for g in nodes.said(s.peer)[0] if g[0] == 'getaddr')

        def poll():
            sync()
            b, size, ready = len(beats), len(known), [p.address for p in n.peers]
            calm = all(s.state == 'connected' for s in w.live()) and not lost and not any(p.writable() for p in n.peers)   # no request of an earlier beat on its way
            k = asked()
            due = not beats or w.now - beats[-1] > 10.5
            w.poll(n)
            expect(not due or len(beats) > b, 'no heartbeat after %.1f s', w.now - beats[-1] if beats else 0)
            sync()
            w.poll(n)
            sync()
            if len(beats) > b and ready and calm:
                still = open_addrs() >= set(ready)
                # the book may have changed during the heartbeat by failed attempts only
                if max(size, len(known)) <= 40 and still:
                    expect(asked() > k, 'nobody was asked for addresses, with %d known', size)
                    t.label('asked')
                elif min(size, len(known)) >= 60 and still:
                    same(asked(), k, 'requests for addresses with %d known' % size)
                    t.label('not asked')
        poll()
        for o in ops:
            k = o[0]
            if k in ('addr', 'more'):
                l = [OWN if i < 0 else POOL[i] for i in o[1]] if k == 'addr' else [nodes.address(2000 + x) for x in range(o[1], o[1] + o[2])]
                p = w.incoming(n.address, ('88.8.8.8', 8 + len(w.peers)))
                w.poll(n)
                nodes.say(w, n, p, nodes.msg('addr', [nodes.na(a) for a in l]))
                sync()
                known.update(l)
                p.hang_up()
                poll()
            elif k == 'time':
                w.now += o[1]
                poll()
            elif k == 'beats':
                for _ in range(o[1]):
                    w.now += 10.75
                    poll()
            elif k == 'in':
                if o[1] not in open_addrs():
                    p = w.incoming(n.address, o[1])
                    w.poll(n, 2)
                    expect(p.accepted and p.open, '%r was not accepted', o[1])
            elif k == 'leave':
                l = [s for s in w.live() if s.peer and s.state == 'connected']
                if l:
                    p = l[o[1] % len(l)].peer
                    rest = [s.peer for s in l if s.peer is not p]
                    if o[2] == 'remove':
                        n.remove_peer(p.address)
                    else:
                        p.inbox.append('eof' if o[2] == 'eof' else errno.ECONNRESET)
                    w.poll(n, 2)
                    expect(not p.open, '%r was not removed', p.address)
                    expect(all(q.open for q in rest), 'other peers went with %r', p.address)
            elif k == 'policy':
                w.policy[POOL[o[1]]] = o[2]
            elif k == 'default':
                w.default = o[1]
            elif k == 'settle':
                w.settle()
            elif k == 'emfile':
                w.socket_errors[:] = o[1]
            elif k == 'add' and not w.socket_errors:
                a = OWN if o[1] < 0 else POOL[o[1]]
                if a == OWN:
                    continue
                d, busy, c = len(w.dialed), open_addrs(), len(n.peers)
                r = n.add_peer(a, o[2])
                made = dials(d, busy)
                if a in busy:
                    expect(not made and not r, 'connected again to %r', a)
                elif not o[2] and c >= limit:
                    expect(not made and not r and len(n.peers) == c, 'connected over the limit of %d', limit)
                    t.label('limit')
                elif o[2] or c + 2 <= limit:
                    same(made, 1, 'attempts to connect to %r' % (a,))
                    good = w.dialed[-1][2] in ('ok', 'slow', 'never', 'refused')
                    same(bool(r), good, 'result of add_peer, attempt %s' % w.dialed[-1][2])
                    same(len(n.peers), c + good, 'number of peers')
                expect(o[2] or len(n.peers) <= max(limit, c), 'the limit of %d peers is exceeded', limit)
            poll()
        # let everything settle: the node gets to the number of peers it seeks
        w.socket_errors[:] = []
        w.policy.clear()
        w.default = 'ok'
        w.settle()
        for _ in range(8):
            w.now += 10.75
            poll()


@PROP.sub('recovery', gen=st.tuples(st.sampled_from([1, 3, 5, 8]), st.lists(outcome, min_size=1, max_size=12), st.permutations(list(range(12))), st.booleans()), quick=150, thorough=8000, cpu=60,
          rule='a book of twelve addresses (and the own one first) with all mixes of failures: after enough heartbeats the node is connected to as many good ones as it seeks or there are')
def recovery(c, t):
    seek, hows, order, own = c
    with sim.World() as w:
        n = nodes.make(w, seek=seek)
        for i, a in enumerate(POOL):
            w.policy[a] = hows[i % len(hows)]
        f, _ = nodes.connect(w, n, ('88.8.8.8', 8))
        nodes.say(w, n, f, nodes.msg('addr', [nodes.na(OWN)] * own + [nodes.na(POOL[i]) for i in order]))
        f.hang_up()
        w.poll(n)
        for _ in range(40):
            w.now += 10.75
            w.poll(n, 2)
            w.settle()
            w.poll(n, 2)
            same(len(w.live()), len(n.peers), 'open sockets')
            nodes.alive(w, n)
        up = {a for a in POOL if w.policy[a] in ('ok', 'slow', 'never')}
        same(len(n.peers), min(seek, len(up)), 'peers, of %d possible' % len(up))
        expect({tuple(p.address) for p in n.peers} <= up, 'the peers %r', n.peers)


@PROP.sub('deaf', gen=st.tuples(st.sampled_from([1, 2, 5, 8]), st.lists(idx, max_size=6, unique=True), st.integers(0, 6), st.sampled_from([None, OWN])), quick=120, thorough=4000, cpu=60,
          rule='a node that does not listen (or does) is told its own address among others: it connects to all the others and never to itself')
def deaf(c, t):
    seek, others, at, address = c
    with sim.World() as w:
        n = nodes.make(w, address, seek=seek)
        me = tuple(n.address)
        f, conn = nodes.connect(w, n, ('88.8.8.8', 8), 'out')
        expect(conn is not None, 'not connected')
        l = [nodes.na(POOL[i]) for i in others]
        l.insert(min(at, len(l)), nodes.na(me))
        nodes.say(w, n, f, nodes.msg('addr', l))
        f.hang_up()
        w.poll(n, 2)
        t.nontrivial(len(others) < seek)
        k = len(w.dialed)
        for _ in range(30):
            w.now += 10.75
            w.poll(n, 2)
            expect(me not in [d[1] for d in w.dialed[k:]], 'connected to the own address %r', me)
        same(len(n.peers), min(seek, len(others)), 'peers')
        expect({tuple(p.address) for p in n.peers} <= {POOL[i] for i in others}, 'peers %r', n.peers)
        expect(not w.errors, 'the node met an error: %r', w.errors)


@PROP.sub('seeds', gen=st.tuples(st.lists(st.tuples(st.integers(1, 9), outcome), min_size=1, max_size=4, unique_by=lambda a: a[0]), st.integers(1, 6), st.booleans()), quick=60, thorough=2000, cpu=60,
          rule='up to four seeds, good and bad: with an empty book every one is tried sooner or later, until all the good ones are connected')
def seeds_(c, t):
    spec, seek, listen = c
    seeds = [('55.0.0.%d' % i, 8333) for i, how in spec]
    good = [a for a, (i, how) in zip(seeds, spec) if how in ('ok', 'slow', 'never')]
    with sim.World() as w:
        n = nodes.make(w, OWN if listen else None, seek=seek, bootstrap=True, coin=coin(seeds))
        for a, (i, how) in zip(seeds, spec):
            w.policy[a] = how
        t.nontrivial(len(seeds) > 1)
        for _ in range(150):
            w.now += 10.75
            w.poll(n, 2)
            w.settle()
            w.poll(n, 2)
            for p in w.out:          # a silent peer would be dropped after three hours
                if p.open and p.sock.state == 'connected':
                    nodes.say(w, n, p, nodes.msg('mempool'))
        tried = {d[1] for d in w.dialed}
        expect(tried <= set(seeds), 'connected to %r, which is no seed', tried - set(seeds))
        same(len(n.peers), min(seek, len(good)), 'peers, with %d good seeds of %d' % (len(good), len(seeds)))
        if seek > len(good):
            same(tried, set(seeds), 'seeds tried')


@PROP.sub('many', gen=st.tuples(st.integers(61, 110), st.integers(0, 40), st.integers(0, 3), st.sampled_from([None, 0])), quick=24, thorough=800, cpu=120,
          rule='a node that seeks sixty to a hundred peers and more: five new ones a heartbeat until it has them, and again after some left; it asks for addresses all along; non-trivial always')
def many(c, t):
    seek, leave, spare, level = c
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level, seek=seek, limit=200)
        known = [nodes.address(3000 + i) for i in range(seek + leave + spare)]
        f, _ = nodes.connect(w, n, ('88.8.8.8', 8))
        nodes.say(w, n, f, nodes.msg('addr', [nodes.na(a) for a in known]))
        f.hang_up()
        w.poll(n, 2)

        def beat():
            have = len(n.peers)
            k, b = len(w.dialed), len(n.beats)
            w.now += 10.75
            w.poll(n, 3)
            expect(len(n.beats) == b + 1, 'no heartbeat with %d peers', have)
            # now and then an attempt looks for a seed instead
            d, room = len(w.dialed) - k, min(5, max(0, seek - have))
            expect(room - 4 < d <= room or d == room, '%d connection attempts with %d of %d peers', d, have, seek)
            same(len(n.peers), len(w.live()), 'peers and sockets')
            expect(len({tuple(p.address) for p in n.peers}) == len(n.peers), 'connected twice')
            nodes.alive(w, n)
        for _ in range(seek // 5 + 8):
            beat()
        same(len(n.peers), seek, 'peers')
        # with the first ones gone (and their addresses forgotten) the rest of the book is used
        for s in list(w.live())[:leave]:
            s.peer.hang_up()
        w.poll(n, 3)
        same(len(n.peers), seek - leave, 'peers after %d left' % leave)
        for _ in range(leave // 5 + 8):
            beat()
        same(len(n.peers), seek, 'peers again')


@PROP.sub('everyone', gen=st.tuples(st.integers(2, 4), st.integers(0, 3), st.booleans()), quick=12, thorough=400, cpu=60,
          rule='two to four silent peers and 120 heartbeats with few known addresses: each peer is asked some time (a peer that never answers does not keep the node from others)')
def everyone(c, t):
    count, known, hello = c
    t.nontrivial()
    with sim.World() as w:
        n = nodes.make(w, seek=0)
        ps = []
        for i in range(count):
            p, conn = nodes.connect(w, n, nodes.address(i, 1000 + i), 'in')
            if hello:
                nodes.say(w, n, p, nodes.version())
                nodes.say(w, n, p, nodes.VERACK)
            ps.append(p)
        if known:
            nodes.say(w, n, ps[0], nodes.msg('addr', [nodes.na(nodes.address(50 + i), 1, 5) for i in range(known)]))
        for i in range(120):
            w.now += 11
            w.poll(n, 2)
            if i % 40 == 20:
                for p in ps:      # a sign of life
                    nodes.say(w, n, p, nodes.msg('pong', b'12345678'))
        for p in ps:
            expect(p.open, 'a peer was dropped')
            expect(any(g[0] == 'getaddr' for g in nodes.said(p)[0]), 'a peer was never asked for addresses in 120 heartbeats: %s', [sum(g[0] == 'getaddr' for g in nodes.said(q)[0]) for q in ps])


@PROP.sub('banned', enum=lambda tier: [(k, seek, good) for k in (0, 1, 2, 4, 5, 6, 8, 20, 100) for seek in (1, 3, 8) for good in (1, 2, 8)], quick=81, cpu=60,
          rule='exhaustive: a node that has banned up to a hundred addresses still connects to as many of the known others as it seeks')
def banned(c, t):
    k, seek, good = c
    t.nontrivial(k > 0)
    with sim.World() as w:
        n = nodes.make(w, seek=seek)
        for i in range(k):
            p, conn = nodes.connect(w, n, nodes.address(500 + i, 1000), 'in')
            for _ in range(6):
                n.punish_peer(conn)
            w.poll(n)
            expect(not p.open, 'a punished peer is still connected')
        p, conn = nodes.connect(w, n, ('88.8.8.8', 8))
        nodes.say(w, n, p, nodes.msg('addr', [nodes.na(nodes.address(2000 + i)) for i in range(good)]))
        p.hang_up()
        w.poll(n)
        for _ in range(20):
            w.now += 10.75
            w.poll(n, 2)
            w.settle()
        same(len(n.peers), min(seek, good), 'peers, with %d bans and %d addresses' % (k, good))
        nodes.alive(w, n)


@PROP.sub('seed-lists', enum=lambda tier: [(k, which) for k in (1, 2, 5, 8, 9, 10, 12, 17, 24) for which in ('all', 'last', 'first')], quick=27, cpu=60,
          rule='exhaustive: lists of one to 24 seeds of which all, the last or the first alone can be reached: it is found with an empty book')
def seed_lists(c, t):
    k, which = c
    t.nontrivial(k > 1)
    seeds = [('55.0.%d.1' % i, 8333) for i in range(k)]
    up = {'all': seeds, 'last': seeds[-1:], 'first': seeds[:1]}[which]
    with sim.World() as w:
        w.default = 'refused'
        for a in up:
            w.policy[a] = 'ok'
        n = nodes.make(w, seek=len(up), bootstrap=True, coin=coin(seeds))
        for _ in range(25 * k + 40):
            w.now += 10.75
            w.poll(n, 2)
            w.settle()
            w.poll(n, 2)
            for p in n.peers:
                if tuple(p.address) in up and w.now % 600 < 11:
                    nodes.say(w, n, [s.peer for s in w.live() if s.peer and s.peer.address == tuple(p.address)][0], nodes.msg('mempool'))
        same(sorted(tuple(p.address) for p in n.peers), sorted(up), 'peers')
        nodes.alive(w, n)
