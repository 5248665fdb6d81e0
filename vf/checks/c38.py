from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes
from .c36 import entry, services, ts, DEFAULT

PROP = Prop('C38', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py)',
                                'the content of the book is observed by the address lists handed out and by the addresses the node tries to connect to until it knows none any more; which addresses are given up at the limit is not specified'])
LIMIT = 2500
PEERS = 4
peer = st.integers(0, PEERS - 1)
near = st.integers(0, PEERS - 1).map(lambda i: nodes.address(i, 1000 + i))
entries = st.lists(st.one_of(entry, st.tuples(near, services, ts), st.tuples(st.just(nodes.OWN), services, ts)), max_size=6).map(tuple)
op = st.one_of(
    st.tuples(st.just('addr'), peer, entries), st.tuples(st.just('addr'), peer, entries), st.tuples(st.just('addr'), peer, entries),
    st.tuples(st.just('flood'), peer, st.integers(0, 6000), st.one_of(st.integers(1, 1000), st.sampled_from([1000, 1000, 999, 500])), st.integers(0, 2)),
    st.tuples(st.just('again'), peer, st.integers(0, 5), st.sampled_from([-86400, -3600, -3599, -60, -1, 0, 1, 60, 3600]), st.integers(0, 2)), st.tuples(st.just('again'), peer, st.integers(0, 5), st.sampled_from([-3600, -60, -1, 1]), st.just(0)), st.tuples(st.just('punish'), peer),
    st.tuples(st.just('version'), peer, services), st.tuples(st.just('verack'), peer), st.tuples(st.just('verack'), peer), st.tuples(st.just('hello'), peer),
    st.tuples(st.just('close'), peer), st.tuples(st.just('fail'), peer), st.tuples(st.just('look'), peer), st.tuples(st.just('time'), st.sampled_from([1, 9.5, 30, 700])))
many = st.lists(st.tuples(st.just('flood'), peer, st.sampled_from([0, 500, 1000, 1500, 2000, 2500, 2499, 3000, 4000]), st.sampled_from([1000, 1000, 999, 501, 500, 499, 1]), st.integers(0, 2)), min_size=2, max_size=6)
# around the limit: 2496..2502 addresses, then handshakes and a few announcements
brink = st.tuples(st.integers(0, 6), st.lists(st.one_of(st.tuples(st.just('hello'), peer), st.tuples(st.just('addr'), peer, entries), st.tuples(st.just('flood'), peer, st.sampled_from([0, 2490, 2499, 2600]), st.sampled_from([1, 2, 5]), st.just(2)), st.tuples(st.just('close'), peer), st.tuples(st.just('look'), peer), st.tuples(st.just('mix'), peer, st.integers(0, 2490), st.integers(0, 3), st.integers(1, 5))), min_size=1, max_size=8)).map(
    lambda a: [('flood', 0, 0, 1000, 0), ('flood', 0, 1000, 1000, 0), ('flood', 0, 2000, 496 + a[0], 0)] + a[1])
history = st.one_of(st.lists(op, min_size=3, max_size=25), st.tuples(many, st.lists(op, max_size=10)).map(lambda a: a[0] + a[1]),
                    st.tuples(st.lists(op, max_size=6), many, st.lists(op, max_size=6)).map(lambda a: a[0] + a[1] + a[2]), brink)


def key(a):
    return proto.ip_value(proto.ip_bytes(a[0])), a[1]


@PROP.sub('book', gen=st.tuples(history, st.booleans()), quick=500, thorough=25000, cpu=90,
          rule='histories of announcements (repeated, updated, thousands), handshakes, lost connections; the lists handed out and the final content of the book equal the model below the limit, and the book holds exactly 2500 once more were announced; non-trivial with an update, a dropped peer or the limit reached')
def book(c, t):
    ops, close = c
    with sim.World() as w:
        n = nodes.make(w)
        live, model, ever, told, banned, last = {}, {}, {}, [], set(), {}
        full = removed = False

        def put(a, v, sure=True):
            nonlocal full
            k = key(a)
            ever.setdefault(k, set()).add(v)
            last[k] = {v} if sure or not full else last.get(k, set()) | {v}      # in a full book a handshake may leave an entry as it is
            if full:
                return
            if len(model) >= LIMIT and k not in model:
                full = True
                return
            if k in model and model[k] != v:
                t.nontrivial()
                t.label('update')
            model[k] = v

        def drop(a):
            nonlocal removed
            removed = True
            if model.pop(key(a), None):
                t.nontrivial()
                t.label('dropped')

        def join(i):
            a = nodes.address(i, 1000 + i)
            if i % 2:
                w.policy[a] = 'ok'
            p, conn = nodes.connect(w, n, a, 'out' if i % 2 else 'in')
            expect(conn is not None, 'peer %d was not connected', i)
            live[i] = [p, conn, None]

        def listing(i):
            p = live[i][0]
            k = len([g for g in nodes.said(p)[0] if g[0] == 'addr'])
            nodes.say(w, n, p, nodes.GETADDR)
            w.poll(n, 2)
            l = [g for g in nodes.said(p)[0] if g[0] == 'addr'][k:]
            same(len(l), 1, 'answers to an address request')
            return {(x[3], x[4]): (x[1], x[2]) for x in l[0][1][0]}
        for o in ops:
            k = o[0]
            if k == 'time':
                w.now += o[1]
                w.poll(n)
                continue
            i = o[1]
            if i not in live:
                if k in ('close', 'fail', 'punish') or nodes.address(i, 1000 + i)[0] in banned:
                    continue
                join(i)
            p, conn = live[i][:2]
            if k == 'addr':
                nodes.say(w, n, p, nodes.msg('addr', [nodes.na(x[0], x[1], x[2]) for x in o[2]]))
                told.extend(o[2])
                for a, s, when in o[2]:
                    put(a, (when, s))
            elif k == 'again':         # an earlier announcement with another time or other services
                if not told:
                    continue
                a, s, when = told[-1 - o[2] % len(told)]
                s, when = (s, s ^ 1, 0)[o[4]], min(max(when + o[3], 0), 2**32 - 1)
                told.append((a, s, when))
                nodes.say(w, n, p, nodes.msg('addr', [nodes.na(a, s, when)]))
                put(a, (when, s))
            elif k == 'flood':
                l = [(nodes.address(x), (1400000000 + x if o[4] != 1 else 5, 1 + o[4])) for x in range(o[2], o[2] + o[3])]
                nodes.say(w, n, p, nodes.msg('addr', [nodes.na(a, v[1], v[0]) for a, v in l]))
                for a, v in l:
                    put(a, v)
            elif k == 'mix':           # some new addresses, then earlier ones with later times, in one message
                l = [(nodes.address(7000 + o[2] + x), (1400000000, 1)) for x in range(o[3])] + [(nodes.address(o[2] + x), (1460000000 + len(ever) + x, 5)) for x in range(o[4])]
                nodes.say(w, n, p, nodes.msg('addr', [nodes.na(a, v[1], v[0]) for a, v in l]))
                for a, v in l:
                    put(a, v)
            elif k == 'hello':
                nodes.say(w, n, p, nodes.version(services=1))
                live[i][2] = 1
                nodes.say(w, n, p, nodes.VERACK)
                put(conn.address, (int(w.now), 1), False)
            elif k == 'version':
                nodes.say(w, n, p, nodes.version(services=o[2]))
                live[i][2] = o[2]
            elif k == 'verack':
                nodes.say(w, n, p, nodes.VERACK)
                put(conn.address, (int(w.now), live[i][2]), False)
            elif k in ('close', 'fail', 'punish'):
                if k == 'punish':
                    for _ in range(6):
                        n.punish_peer(conn)
                    banned.add(nodes.address(i, 1000 + i)[0])
                elif k == 'close':
                    p.hang_up()
                else:
                    p.fail(104)
                w.poll(n, 2)
                expect(not p.open, 'the connection is not closed')
                drop(conn.address)
                del live[i]
            elif k == 'look':
                got = listing(i)
                if not full:
                    want = {a: v for a, v in model.items() if v[1] is not None}
                    same(len(got), min(1000, len(want)), 'addresses handed out')
                for a, v in got.items():
                    if full:
                        expect(v in ever.get(a, ()), 'address %r handed out as %r', a, v)
                        expect(v in last[a], 'address %r handed out as %r, last announced as %r', a, v, last[a])
                    else:
                        same(v, model.get(a), 'address %r handed out' % (a,))
            nodes.alive(w, n)
        if close:
            for i in list(live):
                live[i][0].hang_up()
                drop(live[i][1].address)
            w.poll(n, 3)
            live.clear()
        # the addresses of connected peers in the book, then the rest: connect until nothing is known any more
        held = set()
        for i in list(live)[:1]:
            held = set(listing(i)) & {key(x[1].address) for x in live.values()}
        w.policy.clear()
        w.default = 'sync-refused'
        mine = {key(x[1].address) for x in live.values()} | {key(nodes.OWN)}
        seen, idle, k0 = set(), 0, len(w.dialed)
        for _ in range(8000):
            k = len(seen)
            n.add_any_peer()
            for d in w.dialed[k0:]:
                seen.add(key(d[1]))
            k0 = len(w.dialed)
            idle = 0 if len(seen) > k else idle + 1
            if idle > 40:
                break
        expect(len(seen | held) <= LIMIT, 'the book held %d addresses', len(seen | held))
        expect(not seen & mine, 'connected to a connected or to the own address: %s', short(seen & mine))
        want = set(model) - mine
        if not full:
            expect(seen == want, 'known addresses: %d, expected %d; missing %s, additional %s', len(seen), len(want), short(sorted(want - seen)[:3]), short(sorted(seen - want)[:3]))
        else:
            t.nontrivial()
            t.label('full')
            expect(seen <= set(ever), 'unknown addresses %s', short(sorted(seen - set(ever))[:3]))
            if not removed:
                expect(len(seen) >= LIMIT - len(mine), 'the full book holds only %d addresses', len(seen))
        nodes.alive(w, n)


def shakes(tier):
    out = []
    for how in ('in', 'out'):
        for before in (None, 0, 1, 2**64 - 1):
            for said in (None, 0, 1, 5, 2**63):
                for after in (None, 0, 3):
                    for twice in (False, True):
                        out.append((how, before, said, after, twice))
    return out


@PROP.sub('handshakes', enum=shakes, quick=240, cpu=60,
          rule='exhaustive: an address announced before or not, then its peer completes the handshake (once or twice) with any services, then it is announced again or not: handed out with what was told last, and gone once the peer left')
def handshakes(c, t):
    how, before, said, after, twice = c
    with sim.World() as w:
        n = nodes.make(w)
        a = nodes.address(3, 1003)
        asker, _ = nodes.connect(w, n, nodes.address(9, 1009), 'in')

        def look():
            k = len([g for g in nodes.said(asker)[0] if g[0] == 'addr'])
            nodes.say(w, n, asker, nodes.GETADDR)
            w.poll(n, 2)
            l = [g for g in nodes.said(asker)[0] if g[0] == 'addr'][k:]
            same(len(l), 1, 'answers to an address request')
            return sorted((x[3], x[4], x[1], x[2]) for x in l[0][1][0])
        want = []

        def told(when, s):
            want[:] = [] if s is None else [key(a) + (int(when), s)]
        if before is not None:
            nodes.say(w, n, asker, nodes.msg('addr', [nodes.na(a, before, 1400000000)]))
            told(1400000000, before)
            same(look(), want, 'addresses handed out')
        p, conn = nodes.connect(w, n, a, how)
        for i in range(2 if twice else 1):
            w.now += 7
            if said is not None:
                nodes.say(w, n, p, nodes.version(services=said if not i else said ^ 1))
            nodes.say(w, n, p, nodes.VERACK)
            told(w.now, (said if not i else said ^ 1) if said is not None else None)
            same(look(), want, 'addresses handed out after a handshake')
        if after is not None:
            w.now += 7
            nodes.say(w, n, asker, nodes.msg('addr', [nodes.na(a, after, 1410000000)]))
            told(1410000000, after)
            same(look(), want, 'addresses handed out after another announcement')
        p.hang_up()
        w.poll(n, 2)
        same(look(), [], 'addresses handed out after the peer left')
        nodes.alive(w, n)
        t.nontrivial(before is not None)


@PROP.sub('special', enum=lambda tier: [(what, k, s) for what in ('own', 'own ip', 'connected', 'teller', 'zero', 'all ones', 'loopback', 'v6', 'port 0', 'seed') for k in (0, 1, 5, 10, 11, 50, 200, 998) for s in (0, 1, 5)], quick=240, cpu=60,
          rule='exhaustive: an address that is special in some way (the own one, one of a connected peer or the teller, an unspecified or local one) announced to books of zero to a thousand others, alone or within them, is kept and handed out with the others')
def special(c, t):
    what, k, s = c
    t.nontrivial(k > 0)
    with sim.World() as w:
        n = nodes.make(w)
        p, conn = nodes.connect(w, n, nodes.address(3, 1003), 'in')
        q, _ = nodes.connect(w, n, nodes.address(4, 1004), 'out')
        a = {'own': nodes.OWN, 'own ip': (nodes.OWN[0], 1), 'connected': nodes.address(4, 1004), 'teller': nodes.address(3, 1003), 'zero': ('0.0.0.0', 8333), 'all ones': ('255.255.255.255', 65535), 'loopback': ('127.0.0.1', 20303), 'v6': ('2001:db8::7', 8333), 'port 0': ('7.7.7.7', 0), 'seed': ('seed', 1)}[what]
        if what == 'seed':
            a = ('10.0.0.2', n.coin.listen_port if hasattr(n.coin, 'listen_port') else 20303)
        l = [(nodes.address(3000 + i), 1, 1400000000 + i) for i in range(k)]
        nodes.say(w, n, p, nodes.msg('addr', [nodes.na(*x) for x in l]))
        nodes.say(w, n, p, nodes.msg('addr', [nodes.na(a, s, 1450000000)]))
        l.append((a, s, 1450000000))
        for again in (False, True):
            if again:
                l = l[:-1] + [(a, s ^ 1, 1450000009), (nodes.address(5500), 2, 1440000000)]
                nodes.say(w, n, q, nodes.msg('addr', [nodes.na(*x) for x in l[-2:]][::-1]))
            nodes.say(w, n, q, nodes.GETADDR)
            w.poll(n, 2)
            got = [g for g in nodes.said(q)[0] if g[0] == 'addr'][-1][1][0]
            same(sorted((x[3], x[4], x[1], x[2]) for x in got), sorted(key(x[0]) + (x[2], x[1]) for x in l), 'addresses handed out')
        nodes.alive(w, n)


@PROP.sub('neighbours', enum=lambda tier: [(how, end, shift, shake) for how in ('in', 'out') for end in ('eof', 'reset', 'remove', 'punish') for shift in (0, 1, -1, 8333) for shake in (False, True, 'ping', 'version')], quick=128, cpu=60,
          rule='exhaustive: addresses that share the host, or the port, with a peer that leaves stay known; its own is dropped, and those of the other peers are not')
def neighbours(c, t):
    how, end, shift, shake = c
    t.nontrivial()
    with sim.World() as w:
        n = nodes.make(w)
        a = nodes.address(3, 1003)
        q, _ = nodes.connect(w, n, nodes.address(4, 1003), 'in')
        p, conn = nodes.connect(w, n, a, how)
        near = [(a[0], x) for x in (0, 1, 80, 1002, 1004, 8332, 8333, 9333, 18333, 30303, 65535, 20303)] + [(nodes.address(i)[0], 1003) for i in (4, 5, 6)] + [('0.0.0.0', 0), ('0.0.0.0', 1003)]
        near = near[shift % len(near):] + near[:shift % len(near)]
        l = [(x, 1, 1400000000 + i) for i, x in enumerate(near)]
        nodes.say(w, n, q, nodes.msg('addr', [nodes.na(*x) for x in l[:6]] + [nodes.na(a, 1, 5)] + [nodes.na(*x) for x in l[6:]]))
        for m in {False: [], True: [nodes.version(), nodes.VERACK], 'ping': [nodes.msg('ping', b'12345678')], 'version': [nodes.version()]}[shake]:
            nodes.say(w, n, p, m)

        def look():
            nodes.say(w, n, q, nodes.GETADDR)
            w.poll(n, 2)
            got = [g for g in nodes.said(q)[0] if g[0] == 'addr'][-1][1][0]
            return sorted((x[3], x[4]) for x in got)
        same(look(), sorted(key(x) for x in near + [a]), 'addresses handed out before')
        if end == 'eof':
            p.hang_up()
        elif end == 'reset':
            p.fail(104)
        elif end == 'remove':
            n.remove_peer(conn.address)
        else:
            for _ in range(6):
                n.punish_peer(conn)
        w.poll(n, 3)
        expect(not p.open, 'the peer is still connected')
        same(look(), sorted(key(x) for x in near), 'addresses handed out after the peer left')
        nodes.alive(w, n)


@PROP.sub('full-shakes', enum=lambda tier: [(room, said, how, k) for room in (0, 1, 2, 3) for said in ('verack', 'version', 'both', 'swapped', 'twice') for how in ('in', 'out') for k in (1, 4)], quick=80, cpu=60,
          rule='exhaustive: peers at every stage of the handshake while the book is (nearly) full: it does not grow over 2500, and they are not handed out in place of what was announced')
def full_shakes(c, t):
    room, said, how, k = c
    t.nontrivial()
    with sim.World() as w:
        n = nodes.make(w)
        q, _ = nodes.connect(w, n, nodes.address(9, 1009), 'in')
        l = [(nodes.address(i), 1, 1400000000 + i) for i in range(4000, 4000 + LIMIT - room)]
        for i in range(0, len(l), 1000):
            nodes.say(w, n, q, nodes.msg('addr', [nodes.na(*x) for x in l[i:i + 1000]]))
        peers = []
        for i in range(k):
            p, conn = nodes.connect(w, n, nodes.address(20 + i, 1020 + i), how)
            peers.append(p)
            for m in {'verack': [nodes.VERACK], 'version': [nodes.version()], 'both': [nodes.version(), nodes.VERACK], 'swapped': [nodes.VERACK, nodes.version()], 'twice': [nodes.VERACK, nodes.version(), nodes.VERACK]}[said]:
                nodes.say(w, n, p, m)
        book = getattr(n, '_addresses', ())     # no message shows addresses whose services are unknown
        expect(len(book) <= LIMIT, 'the book holds %d addresses', len(book))
        nodes.say(w, n, q, nodes.GETADDR)
        w.poll(n, 2)
        got = [(x[3], x[4]) for x in [g for g in nodes.said(q)[0] if g[0] == 'addr'][-1][1][0]]
        same(len(got), 1000, 'addresses handed out')
        mine = {key(p.address) for p in peers}
        shown = len(mine & set(got))
        expect(shown <= (min(room, k) if said in ('both', 'twice') else 0), '%d of the peers were handed out, with room for %d', shown, room)
        same(set(got) - mine, set(key(x[0]) for x in l[-(1000 - shown):]), 'addresses handed out')
        nodes.alive(w, n)
