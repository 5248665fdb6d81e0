from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C40', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py)', 'the node knows sixty addresses, so it does not ask for more on its own',
                                'exactly five minutes after a ping, and bytes waiting unread at a node that was not polled for three hours, are not judged'])
MAGIC = nodes.MAGIC
PEERS = 3
peer = st.integers(0, PEERS - 1)
dt = st.one_of(st.sampled_from([0.5, 1, 60, 299, 299.5, 300.5, 301, 600, 1500, 1799, 1799.5, 1800, 1800.5, 1801, 2101, 3600, 5400, 9000, 10799, 10800, 10800.5, 10801, 12000]), st.integers(1, 12000), st.floats(0, 4000).map(lambda x: round(x, 2)))
op = st.one_of(
    st.tuples(st.just('time'), dt), st.tuples(st.just('time'), dt), st.tuples(st.just('time'), dt), st.tuples(st.just('time'), dt), st.tuples(st.just('time'), st.sampled_from([1, 299, 301, 1000, 1799, 1801])),
    st.tuples(st.just('sleep'), dt), st.tuples(st.just('say'), peer, st.sampled_from(['ping', 'part', 'mempool', 'junk', 'pong'])), st.tuples(st.just('say'), peer, st.sampled_from(['ping', 'part', 'mempool', 'junk', 'byte'])),
    st.tuples(st.just('send'), peer), st.tuples(st.just('block'), peer, st.booleans()), st.tuples(st.just('join'), peer, st.sampled_from(['in', 'out', 'never', 'slow'])), st.tuples(st.just('settle')), st.tuples(st.just('close'), peer))
bytewise = st.lists(st.tuples(st.sampled_from([1000, 1700, 3600, 5400, 10000, 10700]), st.sampled_from(['byte', 'byte', 'part'])), min_size=2, max_size=12).map(lambda l: [x for d, k in l for x in (('time', d), ('say', 0, k))])
rhythm = st.tuples(st.lists(st.sampled_from([301, 299.5, 600, 1000, 1790, 1801, 150.25]), min_size=3, max_size=25), st.sampled_from([None, 'say', 'block'])).map(
    lambda a: ([('block', 0, True)] if a[1] == 'block' else []) + [x for d in a[0] for x in ([('time', d)] + ([('say', 0, 'junk')] if a[1] == 'say' else []))])
history = st.one_of(st.tuples(bytewise, st.lists(op, max_size=6)).map(lambda a: a[0] + a[1]), st.lists(op, min_size=3, max_size=30), st.lists(op, min_size=3, max_size=30), st.tuples(rhythm, st.lists(op, max_size=8)).map(lambda a: a[0] + a[1]))


@PROP.sub('timers', gen=st.tuples(st.lists(st.sampled_from(['in', 'out', 'in', 'never', 'slow']), min_size=1, max_size=PEERS), history, st.sampled_from([None, 0])), quick=1800, thorough=100000, cpu=60,
          rule='up to three connections (also never completed, blocked for writing, silent), all kinds of traffic, time steps around every limit, with and without polling; after every step pings sent, connections closed and times recorded equal the model; non-trivial with a ping or a close')
def timers(c, t):
    t.nontrivial(False)
    hows, ops, level = c
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level)
        w.poll(n)
        f, _ = nodes.connect(w, n, ('77.7.7.7', 7))
        nodes.say(w, n, f, nodes.msg('addr', [nodes.na(nodes.address(x + 100)) for x in range(60)]))
        f.hang_up()
        w.poll(n, 2)
        live, seq = {}, [0]

        def join(i, how):
            seq[0] += 1
            a = nodes.address(i, 1000 + seq[0])
            w.policy[a] = how if how in ('never', 'slow') else 'ok'
            p, conn = nodes.connect(w, n, a, 'in' if how == 'in' else 'out', settle=False)
            expect(conn is not None, 'peer %d was not connected', i)
            live[i] = dict(p=p, conn=conn, start=w.now, rx=None, taken=0, ping=None, pings=0, msgs=1)
            w.poll(n)

        def step():
            "one moment of the event loop, against the model"
            now, end = w.now, {}
            for i, x in live.items():
                p = x['p']
                idle = now - (x['start'] if x['rx'] is None else x['rx'])
                end[i] = 'any' if idle > 10800 and p.inbox else idle > 10800
                quiet = p.last_got is not None and now - p.last_got > 1800
                if quiet and x['ping'] is not None and abs(now - x['ping'] - 300) < 1e-6:
                    x['unclear'] = True
                if quiet and (x['ping'] is None or now - x['ping'] > 300):
                    x['ping'] = now
                    x['pings'] += 1
            w.poll(n, 2)
            for i, x in list(live.items()):
                p, conn = x['p'], x['conn']
                if p.inbox and p.inbox[0] == 'eof':
                    end[i] = True
                if not p.open:
                    expect(end[i], 'peer %d was closed %.2f s after it was last heard from', i, now - (x['start'] if x['rx'] is None else x['rx']))
                    expect(conn not in n.peers, 'a closed peer is still listed')
                    t.nontrivial()
                    t.label('closed')
                    del live[i]
                    continue
                expect(end[i] is not True, 'peer %d is still connected %.2f s after it was last heard from', i, now - (x['start'] if x['rx'] is None else x['rx']))
                if p.taken > x['taken']:
                    x['taken'], x['rx'] = p.taken, now
                if x['rx'] is not None:
                    same(conn.timestamp, x['rx'], 'recorded time of peer %d' % i)
                if x.get('unclear') or conn.writable():
                    continue
                got, rest = nodes.said(p)
                k = len([g for g in got if g[0] == 'ping'])
                if k:
                    t.nontrivial()
                    t.label('ping')
                same(k, x['pings'], 'pings sent to peer %d' % i)
                expect(all(len(g[1][0]) == 8 for g in got if g[0] == 'ping'), 'a ping without nonce')
            nodes.alive(w, n)
            same(len(n.peers), len(live), 'number of peers')
        for i, how in enumerate(hows):
            join(i, how)
        step()
        for o in ops:
            k = o[0]
            if k in ('time', 'sleep'):
                w.now += o[1]
                if k == 'sleep':
                    continue
            elif k == 'settle':
                w.settle()
            elif k == 'join':
                if o[1] not in live:
                    step()
                    join(o[1], o[2])
            elif o[1] in live:
                x = live[o[1]]
                p = x['p']
                if k == 'say':
                    step()
                    if p.open and o[1] in live and p.sock.state == 'connected':
                        if o[2] in ('part', 'byte') and not x.get('mid'):
                            x['mid'] = proto.binary(nodes.msg('ping', b'12345678'), MAGIC)
                        if x.get('mid'):          # a message that arrives in parts, also byte by byte
                            k = {'part': 20, 'byte': 1}.get(o[2], 100)
                            p.say(x['mid'][:k])
                            x['mid'] = x['mid'][k:]
                        elif o[2] == 'junk':
                            p.say(proto.frame(MAGIC, 'junk', b''))
                        else:
                            p.say(proto.binary(nodes.msg(o[2], *([b'abcdefgh'] if o[2] != 'mempool' else [])), MAGIC))
                elif k == 'send':
                    x['conn'].send_message(proto.make(nodes.msg('mempool')))
                elif k == 'block':
                    p.blocked = o[2]
                elif k == 'close' and p.sock.state == 'connected':
                    p.hang_up()
                    step()
            step()
        w.settle()
        for x in live.values():
            x['p'].blocked = False
        step()
        step()


@PROP.sub('edges', enum=lambda tier: ((how, kind, off) for how in ('in', 'out') for kind in ('ping', 'again', 'close', 'close-heard') for off in (-600, -100, -1, -.01, 0, .01, 1, 30, 250)), quick=24,
          rule='each limit met from below and above, on incoming and outgoing connections')
def edges(c, t):
    how, kind, off = c
    if kind == 'ping':
        ops = [('time', 1800 + off)]
    elif kind == 'again':
        ops = [('block', 0, True), ('time', 1900), ('time', 300 + (off or .5)), ('block', 0, False)] if off > -300 else [('time', 1900), ('time', 1700)]
    elif kind == 'close':
        ops = [('time', 10800 + off), ('time', 5)]
    else:
        ops = [('time', 1000), ('say', 0, 'mempool'), ('time', 9000), ('time', 1800 + off), ('time', 5)]
    timers(([how], ops, None), t)
