import errno, sys
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes
from .c43 import Library, LAN

PROP = Prop('C46', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py), the gateway is the stand-in of C43',
                                'a node is asked to stop by StopNode, raised in begin_loop or heartbeat of a sub-class; errors raised there leave the loop in the same way',
                                'how soon a connection is accepted after a failed attempt is not specified, ten rounds of the event loop are enough'])
ERRS = [errno.EMFILE, errno.ENFILE, errno.ENOBUFS, errno.ENOMEM, errno.ECONNABORTED, errno.EAGAIN, errno.EPROTO, errno.EPERM, errno.ENETDOWN, errno.EHOSTUNREACH, errno.EINTR]
host = st.integers(0, 30)
op = st.one_of(st.tuples(st.just('in'), host), st.tuples(st.just('in'), host), st.tuples(st.just('bad'), st.lists(st.sampled_from([0] + ERRS), min_size=1, max_size=5).map(tuple)), st.tuples(st.just('bad'), st.lists(st.sampled_from(ERRS), min_size=1, max_size=1).map(tuple)),
               st.tuples(st.just('gone'), host), st.tuples(st.just('aborted')), st.tuples(st.just('poll'), st.integers(1, 4)), st.tuples(st.just('time'), st.sampled_from([1, 11, 600])), st.tuples(st.just('leave'), host), st.tuples(st.just('ping'), host))


@PROP.sub('accepting', gen=st.tuples(st.lists(op, min_size=3, max_size=30), st.sampled_from([None, 0])), quick=1200, thorough=60000, cpu=60,
          rule='histories of connections arriving while accepting fails (out of descriptors or memory, aborted, reset): everybody who keeps waiting is served later, nobody else notices; non-trivial when an attempt fails with somebody waiting')
def accepting(c, t):
    ops, level = c
    t.nontrivial(False)
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if level is not None else None, level=level)
        wait, live, serial = [], [], [0]

        def sync():
            expect(tuple(n.address) in w.listeners, 'the node does not listen any more')
            for p in list(wait):
                if p.accepted:
                    wait.remove(p)
                    live.append(p)
            for p in live:
                expect(p.open, '%r was disconnected', p.address)
            same(sorted(p.address for p in live), sorted(tuple(q.address) for q in n.peers if tuple(q.address) not in gone), 'peers')
        gone = set()
        for o in ops + [('poll', 3)]:
            k = o[0]
            if k in ('in', 'gone'):
                serial[0] += 1
                p = w.incoming(n.address, (nodes.address(o[1])[0], 1000 + serial[0]))
                if k == 'in':
                    wait.append(p)
                else:
                    p.reset = True
                    gone.add(p.address)
            elif k == 'aborted':
                w.listeners[tuple(n.address)].pending.append('aborted')
            elif k == 'bad':
                w.accept_errors.extend(o[1])
                if wait and any(o[1]):
                    t.nontrivial()
            elif k == 'time':
                w.now += o[1]
                w.poll(n)
            elif k == 'poll':
                w.poll(n, o[1])
            elif live:
                p = live[o[1] % len(live)]
                if k == 'leave':
                    p.hang_up()
                    w.poll(n, 2)
                    expect(not p.open, 'not closed')
                    live.remove(p)
                else:
                    i = len(nodes.said(p)[0])
                    nodes.say(w, n, p, nodes.msg('ping', b'nonce%03d' % (i % 1000)))
                    expect(('pong', (b'nonce%03d' % (i % 1000),)) in nodes.said(p)[0][i:], 'a connected peer is not answered')
            sync()
        w.accept_errors[:] = []
        w.poll(n, 10 + len(w.listeners[tuple(n.address)].pending))
        sync()
        same(wait, [], 'peers that were never accepted')
        for p in live:
            same([m[0] for m in nodes.said(p)[0]][:1], ['version'], 'first message')
        expect(all(not p.open for p in w.peers if p.address in gone), 'a connection that was reset stays open')


class Fresh(object):
    "a fresh copy of nbc.node, so that no mapping of another case is remembered"
    def __enter__(self):
        sim.install()
        import nbc
        self.old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'nbc.node' or k.startswith('nbc.node.')}
        self.attr = nbc.__dict__.get('node')
        import nbc.node
        from nbc.node import raw, basenode
        return nbc.node, raw, basenode

    def __exit__(self, *a):
        import nbc
        for k in list(sys.modules):
            if k == 'nbc.node' or k.startswith('nbc.node.'):
                del sys.modules[k]
        sys.modules.update(self.old)
        if self.attr is not None:
            nbc.node = self.attr


event = st.one_of(st.tuples(st.just('in'), host), st.tuples(st.just('in'), host), st.tuples(st.just('half'), host), st.tuples(st.just('leave'), host), st.tuples(st.just('punish'), host), st.tuples(st.just('dial'), host, st.sampled_from(['ok', 'slow', 'never', 'refused'])), st.tuples(st.just('blocked'), host),
                  st.tuples(st.just('stage'), host, st.integers(0, 7), st.booleans()),
                  st.tuples(st.just('time'), st.sampled_from([1, 11, 3700])), st.tuples(st.just('bad'), st.sampled_from(ERRS)), st.tuples(st.just('settle')))
gate = st.sampled_from(['ok', 'ok', 'ok', 'none', 'add fails', 'remove fails', 'taken'])


# how far the handshake (or what comes after it) of a peer has gone
STAGES = [(), ('version',), ('verack',), ('version', 'verack'), ('verack', 'version'), ('version', 'version'), ('version', 'verack', 'ping'), ('getaddr',)]


def staged(i):
    return b''.join(proto.binary({'version': nodes.version(), 'verack': nodes.VERACK, 'ping': nodes.msg('ping', b'12345678'), 'getaddr': nodes.GETADDR}[x], nodes.MAGIC) for x in STAGES[i])


@PROP.sub('stopping', gen=st.tuples(st.sampled_from([nodes.OWN, nodes.OWN, nodes.OWN, ('10.0.0.1', 65535), ('10.0.0.1', 0), None]), gate, st.lists(event, max_size=14), st.sampled_from(['begin', 'begin', 'beat', 'error'])), quick=600, thorough=30000, cpu=60,
          rule='serve_forever over histories of peers in every state of a connection, with the gateway working or not, left by StopNode from either hook or by an error: no socket, peer or mapping of the node is left; non-trivial with a connection open at the end')
def stopping(c, t):
    address, gateway, events, how = c
    t.nontrivial(False)
    with sim.World() as w, Fresh() as (pkg, raw, basenode):
        lib = Library()
        if gateway != 'none':
            pkg.miniupnpc = lib
        foreign = {(p, 'TCP'): ('192.168.1.99', p, 'other', True, 0) for p in ([20303, 20304] if gateway == 'taken' else [80])}
        lib.table.update(foreign)
        lib.fails = [('addportmapping', 0, 'raise')] if gateway == 'add fails' else [('deleteportmapping', 0, 'raise')] if gateway == 'remove fails' else []
        state = {'stop': False, 'rounds': 0, 'open': 0}

        class Node(raw.RawNode):
            def begin_loop(self):
                if state['stop'] and how in ('begin', 'error'):
                    raise pkg.StopNode() if how == 'begin' else RuntimeError('of the sub-class')
                raw.RawNode.begin_loop(self)

            def heartbeat(self):
                if state['stop'] and how == 'beat':
                    raise pkg.StopNode()
                raw.RawNode.heartbeat(self)
        n = Node(address=address, seek_peers=0, log=None)
        me = tuple(n.address)
        mine, new, banned = {}, [], set()
        script = list(events)

        def tick():
            state['rounds'] += 1
            expect(not state['stop'], 'the loop goes on after StopNode')
            expect(me in w.listeners, 'a running node does not listen at %r', me)
            own = {k: v for k, v in lib.table.items() if k not in foreign}
            if state['rounds'] == 1:
                mine.update(own)
                if address is None:
                    same((own, lib.calls), ({}, []), 'mappings and calls of a node that does not listen')
                elif gateway in ('ok', 'remove fails', 'taken'):
                    same([v[:2] for v in own.values()], [(LAN, me[1])], 'mappings while the node runs')
            same(own, mine, 'mappings while the node runs')
            w.now += 1
            for p in [p for p in new if p.accepted]:
                if p.address[0] not in banned:
                    same(p.open, address is not None, 'an accepted peer is connected')
                new.remove(p)
            if not script:
                state['stop'], state['open'] = True, len(n.peers)
                if how == 'beat':
                    w.now += 11
                return
            o = script.pop(0)
            if o[0] in ('in', 'half', 'blocked'):
                p = w.incoming(me, (nodes.address(o[1])[0], 1000 + state['rounds']))
                new.append(p)
                if o[0] == 'half':
                    p.inbox.append(proto.binary(nodes.msg('ping', b'12345678'), nodes.MAGIC)[:30])
                p.blocked = o[0] == 'blocked'
            elif o[0] == 'stage':
                if o[3]:
                    a = nodes.address(80 + o[1])
                    w.policy[a] = 'ok'
                    k = len(w.out)
                    n.add_peer(a)
                    p = w.out[-1] if len(w.out) > k else None
                else:
                    p = w.incoming(me, (nodes.address(o[1])[0], 1000 + state['rounds']))
                    new.append(p)
                if p is not None and o[2]:
                    p.inbox.append(staged(o[2]))
            elif o[0] == 'leave' and n.peers:
                n.peers[o[1] % len(n.peers)].handle_close()
            elif o[0] == 'punish' and n.peers:
                q = n.peers[o[1] % len(n.peers)]
                for _ in range(1 + o[1] % 7):
                    n.punish_peer(q)
                banned.add(q.address[0])
            elif o[0] == 'dial':
                a = nodes.address(40 + o[1])
                w.policy[a] = o[2]
                n.add_peer(a)
            elif o[0] == 'time':
                w.now += o[1]
            elif o[0] == 'bad':
                w.accept_errors.append(o[1])
            elif o[0] == 'settle':
                w.settle()
        w.ticks.append(tick)
        if how == 'error':
            raises(RuntimeError, n.serve_forever)
        else:
            n.serve_forever()
        expect(state['stop'], 'the node stopped by itself')
        t.nontrivial(state['open'] > 0)
        same(w.listeners, {}, 'listening sockets after the end')
        expect(not w.fds, '%d sockets are open after the end', len(w.fds))
        same(n.peers, [], 'peers after the end')
        own = {k: v for k, v in lib.table.items() if k not in foreign}
        same({k: v for k, v in lib.table.items() if k in foreign}, foreign, 'mappings of other hosts')
        if gateway == 'remove fails':
            expect(set(own) <= set(mine), 'mappings after the end')
        else:
            same(own, {}, 'mappings after the end')
        if address is not None:          # the port can be used again
            m = raw.RawNode(address=me, seek_peers=0, log=None)
            same(tuple(m.address), me, 'address of the next node')


@PROP.sub('in-use', gen=st.tuples(st.sampled_from(['10.0.0.1', '0.0.0.0', '127.0.0.1']), st.integers(1, 65535), st.lists(host, max_size=3), st.integers(1, 3)), quick=60, thorough=1000,
          rule='a second node at the address of a running one is refused with AddrInUseError, leaves no socket, and the first one goes on')
def in_use(c, t):
    ip, port, hosts, times = c
    with sim.World() as w:
        n = nodes.make(w, (ip, port))
        import nbc.node
        from nbc.node import raw
        for h in hosts:
            p, conn = nodes.connect(w, n, (nodes.address(h)[0], 1000 + len(w.peers)))
            expect(conn is not None, 'not connected')
        k = len(w.fds)
        for _ in range(times):
            raises(nbc.node.AddrInUseError, raw.RawNode, None, (ip, port), 0, 125, False, None)
            same(len(w.fds), k, 'sockets after a refused start')
        m = raw.RawNode(None, (ip, port % 65535 + 1), 0, 125, False, None)
        same((tuple(m.address), len(w.fds)), ((ip, port % 65535 + 1), k + 1), 'a node at another address')
        p, conn = nodes.connect(w, n, ('99.1.1.1', 1))
        expect(conn is not None and p.open, 'the first node does not serve any more')
        nodes.alive(w, n)


@PROP.sub('stages', enum=lambda tier: [(i, out, how, later, n) for i in range(len(STAGES)) for out in (False, True) for how in ('begin', 'beat', 'error') for later in (0, 1, 3) for n in (1, 3)], quick=300, cpu=60,
          rule='exhaustive: the node stops while its peers, incoming or outgoing, are at any stage of the handshake')
def stages(c, t):
    i, out, how, later, n = c
    events = [('stage', k, i, out) for k in range(n)] + [('settle',)] + [('time', 1)] * later
    stopping((nodes.OWN, 'ok', events, how), t)
