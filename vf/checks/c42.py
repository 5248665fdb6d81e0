from collections import Counter
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C42', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py)', 'a peer reports with the last version it sent; which of several equally often reported addresses is taken, and what holds while no connected peer has reported, is not specified'])
IPS = ['5.5.5.5', '6.6.6.6', '200.1.2.3', '9.9.9.9', '::1', '2001:db8::7', '0.0.0.0', '255.255.255.255']
PEERS = 9
peer = st.integers(0, PEERS - 1)
ip = st.one_of(st.integers(0, 2), st.integers(0, len(IPS) - 1)).map(lambda i: IPS[i])
# the other details of a version: nothing of them matters for the vote
extra = st.one_of(st.just({}), st.fixed_dictionaries({}, optional={'v': st.one_of(st.sampled_from([-2**31, -1, 0, 1, 99, 209, 31402, 60000, 70001, 70015, 2**31 - 1])), 'port': st.sampled_from([0, 1, 8333, 65535]), 'services': st.sampled_from([0, 1, 2, 2**64 - 1]),
                                                   'agent': st.sampled_from([b'', b'/x/']), 'height': st.sampled_from([-1, 0, 2**31 - 1]), 'relay': st.sampled_from([None, 0, 1]), 'ts': st.sampled_from([0, -1, 2**40])}))
op = st.one_of(
    st.tuples(st.just('report'), peer, ip, extra), st.tuples(st.just('report'), peer, ip, extra), st.tuples(st.just('report'), peer, ip, extra), st.tuples(st.just('report'), peer, st.one_of(ip, proto.ips), extra),
    st.tuples(st.just('leave'), peer, st.sampled_from(['eof', 'reset', 'remove', 'punish', 'silence'])), st.tuples(st.just('leave'), peer, st.sampled_from(['eof', 'reset', 'remove', 'punish'])),
    st.tuples(st.just('mirror'), peer), st.tuples(st.just('leave'), peer, st.just('eof')), st.tuples(st.just('leave'), peer, st.just('eof')), st.tuples(st.just('join'), peer), st.tuples(st.just('set'), st.one_of(st.none(), ip, ip, st.just(nodes.OWN[0]))), st.tuples(st.just('beat')), st.tuples(st.just('other'), peer), st.tuples(st.just('scold'), peer, st.integers(1, 5)), st.tuples(st.just('scold'), peer, st.integers(3, 5)))


reports = st.lists(st.tuples(st.just('report'), peer, ip, extra), min_size=4, max_size=14)
away = st.lists(st.one_of(st.tuples(st.just('leave'), peer, st.just('eof')), st.tuples(st.just('report'), peer, ip, st.just({})), st.tuples(st.just('leave'), peer, st.sampled_from(['remove', 'reset', 'punish']))), min_size=2, max_size=9)
# what changes while an explicit address is set shows when it is unset
masked = st.tuples(reports, st.lists(st.one_of(ip, ip, st.just(nodes.OWN[0])), min_size=1, max_size=2), away, st.lists(op, max_size=6)).map(lambda a: a[0] + [('set', x) for x in a[1]] + a[2] + [('set', None)] + a[3])
history = st.one_of(masked, st.lists(op, min_size=3, max_size=40), st.tuples(reports, st.lists(op, min_size=3, max_size=20)).map(lambda a: a[0] + a[1]))


def norm(a):
    return proto.ip_value(proto.ip_bytes(a))


@PROP.sub('majority', gen=st.tuples(history, st.sampled_from([None, 0])), quick=1500, thorough=80000, cpu=60,
          rule='up to nine peers, connected in either direction, report addresses (again and again, different ones), leave in every way; the address is set and unset explicitly; after every step the external address and the one announced to new peers is a most reported one; non-trivial when the most reported address changes by a peer leaving or reporting anew')
def majority(c, t):
    t.nontrivial(False)
    ops, level = c
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level)
        live, report, explicit, serial, last = {}, {}, None, [0], [None]

        def best():
            k = Counter(report[i] for i in live if i in report)
            return {a for a in k if k[a] == max(k.values())}

        def check(why):
            b = best()
            if explicit is not None:
                same(norm(n.external_ip), norm(explicit), 'external address after %s, set explicitly' % why)
            elif b:
                expect(norm(n.external_ip) in b, 'external address after %s is %r, reported most: %r of %r', why, n.external_ip, b, sorted(report.items()))
                if last[0] and last[0] not in b and why != 'first report':
                    t.nontrivial()
                    t.label('changed by ' + why)
            last[0] = norm(n.external_ip) if explicit is None and b else None
            nodes.alive(w, n)

        def join(i):
            serial[0] += 1
            a = nodes.address(i + 9 * serial[0], 1000 + serial[0])
            b = best()
            p, conn = nodes.connect(w, n, a, 'out' if i % 3 == 0 else 'in')
            w.poll(n, 2)
            expect(conn is not None, 'peer %d was not connected', i)
            v = nodes.said(p)[0][0]
            same(v[0], 'version', 'first message')
            mine = v[1][4][3]
            if explicit is not None:
                same(mine, norm(explicit), 'announced address, set explicitly')
            elif b:
                expect(mine in b, 'announced address %r, reported most: %r', mine, b)
            live[i] = (p, conn)
        for o in ops:
            k = o[0]
            if k == 'mirror':      # a peer may as well report its own address
                if o[1] not in live:
                    join(o[1])
                o = ('report', o[1], live[o[1]][0].address[0], {})
                k = 'report'
            if k == 'report':
                if o[1] not in live:
                    join(o[1])
                first = o[1] not in report
                report[o[1]] = norm(o[2])
                nodes.say(w, n, live[o[1]][0], nodes.version(ip=o[2], **o[3]))
                check('first report' if first else 'another report')
            elif k == 'join':
                if o[1] not in live:
                    join(o[1])
                check('joining')
            elif k == 'leave' and o[1] in live:
                p, conn = live.pop(o[1])
                report.pop(o[1], None)
                if o[2] == 'remove':
                    n.remove_peer(conn.address)
                elif o[2] == 'punish':
                    for _ in range(6):
                        n.punish_peer(conn)
                elif o[2] == 'silence':
                    for s in (0, 5400, 5401):
                        w.now += s
                        for q, _ in list(live.values()) + [(p, 0)][:not s]:
                            nodes.say(w, n, q, nodes.msg('mempool'))
                elif o[2] == 'eof':
                    p.hang_up()
                else:
                    p.fail(104)
                w.poll(n, 3)
                expect(not p.open, 'peer %d did not leave', o[1])
                check('leaving')
            elif k == 'set':
                n.external_ip = explicit = o[1]
                check('setting')
            elif k == 'beat':
                w.now += 11
                w.poll(n, 2)
                check('a heartbeat')
            elif k == 'scold' and o[1] in live:      # punished within the tolerance: it is connected and counts
                for _ in range(o[2]):
                    if live[o[1]][1].banscore < 5:
                        n.punish_peer(live[o[1]][1])
                expect(live[o[1]][0].open, 'a peer punished %d times was dropped', o[2])
                check('punishing')
            elif k == 'other' and o[1] in live:
                nodes.say(w, n, live[o[1]][0], nodes.VERACK)
                check('another message')


@PROP.sub('crowd', gen=st.tuples(st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(15, 26))), min_size=2, max_size=4, unique_by=lambda a: a[0]), st.lists(st.integers(0, 110), max_size=40), st.randoms(use_true_random=False)), quick=100, thorough=4000, cpu=60,
          rule='up to 104 peers vote, with large and close majorities; then they leave one by one, in any order; non-trivial when the winner has more than eight votes')
def crowd(c, t):
    groups, leaves, r = c
    votes = [i for i, k in groups for _ in range(k)]
    r.shuffle(votes)
    t.nontrivial(max(k for i, k in groups) > 8)
    with sim.World() as w:
        n = nodes.make(w, limit=125)
        live = []

        def check(why):
            k = Counter(v for v, p in live)
            if k:
                best = {norm(IPS[v]) for v in k if k[v] == max(k.values())}
                expect(norm(n.external_ip) in best, 'external address after %s is %r, votes: %r', why, n.external_ip, {IPS[v]: k[v] for v in k})
        for i, v in enumerate(votes):
            p, conn = nodes.connect(w, n, nodes.address(i, 1000 + i), 'in')
            expect(conn is not None, 'not connected')
            nodes.say(w, n, p, nodes.version(ip=IPS[v]))
            live.append((v, p))
            check('a report')
        for i in leaves:
            if live:
                v, p = live.pop(i % len(live))
                p.hang_up()
                w.poll(n, 2)
                check('leaving')
        nodes.alive(w, n)


def echoes(tier):
    out = []
    for what in ('own', 'peer', 'other peer', 'zero', 'loopback', 'private', 'v6'):
        for others in (0, 1, 2, 3, 5):
            for more in (1, 2, 5):
                for how in ('in', 'out'):
                    out.append((what, others, more, how))
    return out


@PROP.sub('echo', enum=echoes, quick=210, cpu=60,
          rule='exhaustive: an address that is special (the node\'s, a peer\'s own or another peer\'s, unspecified, local, private) is reported by more peers than another one: it is the external address')
def echo(c, t):
    what, others, more, how = c
    t.nontrivial(others > 0)
    with sim.World() as w:
        n = nodes.make(w)
        a = {'own': nodes.OWN[0], 'zero': '0.0.0.0', 'loopback': '127.0.0.1', 'private': '192.168.1.7', 'v6': '2001:db8::7', 'other peer': nodes.address(0)[0], 'peer': '33.3.3.3'}[what]
        for i in range(others):
            p, conn = nodes.connect(w, n, nodes.address(i, 1000 + i), 'in')
            nodes.say(w, n, p, nodes.version(ip='5.5.5.5'))
        for i in range(others + more):
            addr = nodes.address(100 + i, 2000 + i)
            if what == 'peer':           # all from the address they report
                addr = (a, 2000 + i)
            p, conn = nodes.connect(w, n, addr, how)
            expect(conn is not None, 'not connected')
            nodes.say(w, n, p, nodes.version(ip=a))
        same(norm(n.external_ip), norm(a), 'external address reported by %d of %d peers' % (others + more, 2 * others + more))
        nodes.alive(w, n)


@PROP.sub('diverse', enum=lambda tier: [(k, m, order) for k in (0, 1, 2, 5, 8, 9, 10, 11, 15, 16, 20, 33, 50, 64, 90) for m in (2, 3, 5) for order in ('first', 'last', 'mixed')], quick=135, cpu=60,
          rule='exhaustive: up to ninety peers each report something else, and a few agree: theirs is the external address, at any time, and when a lie is repeated more often it is that one')
def diverse(c, t):
    k, m, order = c
    t.nontrivial(k > 8)
    lies = ['%d.%d.7.%d' % (60 + i % 150, 255 - i, i) for i in range(k)]
    said_ = {'first': ['5.5.5.5'] * m + lies, 'last': lies + ['5.5.5.5'] * m}.get(order)
    if said_ is None:
        said_ = list(lies)
        for i in range(m):
            said_.insert(i * (k + 1) // m, '5.5.5.5')
    with sim.World() as w:
        n = nodes.make(w)
        votes, ps = Counter(), []

        def check():
            best = {norm(a) for a in votes if votes[a] == max(votes.values())}
            expect(norm(n.external_ip) in best, 'external address %r with %d different reports, of which %d agree', n.external_ip, len(votes), max(votes.values()))
        for i, a in enumerate(said_):
            p, conn = nodes.connect(w, n, nodes.address(i, 1000 + i), 'in')
            nodes.say(w, n, p, nodes.version(ip=a))
            votes[a] += 1
            ps.append((p, a))
            check()
        if k:                     # now the honest ones leave, and one lie is told twice
            nodes.say(w, n, [p for p, a in ps if a == lies[-1]][0], nodes.version(ip=lies[0]))
            votes[lies[0]] += 1
            votes[lies[-1]] -= 1
            check()
            for p, a in ps:
                if a == '5.5.5.5':
                    p.hang_up()
                    w.poll(n, 2)
                    votes[a] -= 1
                    check()
        nodes.alive(w, n)
