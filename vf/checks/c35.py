import errno
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, sim, nodes

PROP = Prop('C35', assumptions=['sockets, clock and event loop are simulated (vf/sim.py, vf/shim/asyncore.py, the dispatcher of Python 3.11); a message is what the length in its header delimits',
                                'reference framing and parser: vf/nodes.py, vf/proto.py'])
MAGIC = nodes.MAGIC
small = proto.small_messages.filter(lambda m: len(repr(m)) < 1200)
item = st.one_of(
    st.tuples(st.just('ok'), small), st.tuples(st.just('ok'), small), st.tuples(st.just('ok'), small), st.tuples(st.just('ok'), small),
    st.tuples(st.just('sum'), small, st.integers(0, 3)), st.tuples(st.just('magic'), small, gen.blob(4)),
    st.tuples(st.just('unknown'), st.sampled_from(proto.UNSUPPORTED + ['', 'foo', 'version\0x', 'VERSION', 'block\xff']), gen.data(40)),
    st.tuples(st.just('payload'), st.sampled_from(sorted(proto.MSGS)), gen.data(60)),
    st.tuples(st.just('mut'), small, st.lists(gen.mutation(), min_size=1, max_size=2)),
    st.tuples(st.just('short'), small, st.integers(1, 40)),
    st.tuples(st.just('nest'), st.lists(small, min_size=1, max_size=2), st.sampled_from(['magic', 'unknown', 'sum', 'reject']), gen.data(20)),
    st.tuples(st.just('head'), small, st.integers(0, 19), st.integers(0, 255)))


def wire(x):
    k = x[0]
    if k == 'ok':
        return proto.binary(x[1], MAGIC)
    if k == 'sum':
        b = bytearray(proto.binary(x[1], MAGIC))
        b[20 + x[2]] ^= 0x40
        return bytes(b)
    if k == 'magic':
        return proto.binary(x[1], x[2])
    if k == 'unknown':
        return proto.frame(MAGIC, x[1], x[2])
    if k == 'nest':                # a frame, mostly an unusable one, with whole messages inside
        inner = x[3] + b''.join(proto.binary(m, MAGIC) for m in x[1])
        if x[2] == 'reject':
            return proto.binary(nodes.msg('reject', inner[:200], 1, inner), MAGIC)
        b = bytearray(proto.frame(b'\xf9nbd' if x[2] == 'magic' else MAGIC, 'foo' if x[2] == 'unknown' else 'ping', inner))
        if x[2] == 'sum':
            b[21] ^= 1
        return bytes(b)
    if k == 'payload':
        return proto.frame(MAGIC, x[1], x[2])
    if k == 'mut':
        return proto.frame(MAGIC, x[1][1], gen.mutate(proto.payload(x[1]), x[2]))
    if k == 'short':
        p = proto.payload(x[1])
        return proto.frame(MAGIC, x[1][1], p[:max(0, len(p) - x[2])])
    b = bytearray(proto.binary(x[1], MAGIC))      # one header byte set
    b[x[2] if x[2] < 16 else 12] = x[3]
    return bytes(b)


def commands(data):
    fs, rest = nodes.frames(data)
    return [m for m in map(nodes.read_frame, fs) if m is not None]


stream = st.tuples(st.lists(item, max_size=7), nodes.cutting, st.one_of(st.none(), st.sampled_from(['eof', 'reset', 'timeout', 'half'])), st.sampled_from(['in', 'in', 'out']))


@PROP.sub('streams', gen=st.tuples(st.lists(stream, min_size=1, max_size=3), st.lists(st.integers(0, 2), max_size=40), st.sampled_from(nodes.LEVELS), st.booleans()), quick=700, thorough=60000, cpu=60,
          rule='up to three peers, streams of valid, unknown, corrupted, foreign and malformed messages, cut anywhere and interleaved, ended by close, reset or in the middle; after every round the commands acted on are exactly the valid messages among the bytes read; non-trivial with a bad message followed by a good one')
def streams(c, t):
    specs, turns, level, logging = c
    with sim.World() as w:
        log = nodes.Log() if logging else None
        n = nodes.make(w, log=log, level=level)
        ps = []
        for i, (items, cut, end, how) in enumerate(specs):
            a = nodes.address(i, 1000 + i)
            p, conn = nodes.connect(w, n, a, how)
            expect(p is not None and conn is not None, 'peer %d was not connected', i)
            data = b''.join(map(wire, items))
            if end == 'half' and data:
                data = data[:-1 - len(data) // 3 % 24]
            p.say(data, cut)
            todo = p.inbox
            p.inbox = []
            if end in ('eof', 'half'):
                todo.append('eof')
            elif end in ('reset', 'timeout'):
                todo.append(errno.ECONNRESET if end == 'reset' else errno.ETIMEDOUT)
            good = [x[0] == 'ok' for x in items]
            t.nontrivial(False in good and True in good[good.index(False):])
            ps.append([p, conn, data, todo, 0, end])
        order = [x % len(ps) for x in turns] + [j for k in range(max(len(x[3]) for x in ps)) for j in range(len(ps))]
        n.record[:] = []

        def check():
            for p, conn, data, todo, _, end in ps:
                want = commands(data[:p.taken])
                got = [(cmd, vals) for q, cmd, vals, k in n.record if q is conn]
                same(got, want, 'commands of %r after %d bytes' % (p.address, p.taken))
                same(conn.rx_bytes, p.taken, 'bytes received from %r' % (p.address,))
            same(getattr(n, '_rx_bytes', None) or 0, sum(x[0].taken for x in ps) if getattr(n, '_rx_bytes', None) else 0, 'bytes received in total')
        for j in order:
            p, conn, data, todo, _, end = ps[j]
            if todo:
                p.inbox.append(todo.pop(0))
                for _ in range(50):
                    w.poll(n)
                    if not p.inbox or not p.open:
                        break
                check()
            nodes.alive(w, n)
        w.poll(n, 2)
        check()
        for p, conn, data, todo, _, end in ps:
            if end and p.open:
                raise Fail('the connection of %r is still open' % (p.address,))
            expect(end or p.open and p.taken == len(data) and conn in n.peers, 'the peer was dropped or not read')
            nodes.said(p)
        # every record has all its fields
        for q, cmd, vals, k in n.record:
            same(k, len(proto.MSGS[cmd]), 'fields given to the command')
        nodes.alive(w, n)
        # a new peer is still served
        p, conn = nodes.connect(w, n, ('99.9.9.9', 9), 'in')
        nodes.say(w, n, p, nodes.msg('ping', b'12345678'))
        expect(('pong', (b'12345678',)) in nodes.said(p)[0], 'the node does not answer a new peer')


def skipped(k, times, cut):
    data = (proto.frame(MAGIC, 'foo', bytes(k)) + proto.binary(nodes.msg('ping', b'abcdefgh'), MAGIC)) * times
    with sim.World() as w:
        n = nodes.make(w)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3))
        p.say(data, cut)
        for _ in range(len(data) // 8192 * 2 + len(p.inbox) + 10):
            w.poll(n)
            if not p.inbox:
                break
        same([(x[1], x[2]) for x in n.record], [('ping', (b'abcdefgh',))] * times, 'commands')
        same(conn.rx_bytes, len(data), 'bytes received')
        nodes.alive(w, n)


@PROP.sub('large', gen=st.tuples(st.sampled_from([('addr', 1000), ('addr', 300), ('inv', 700), ('reject', 20000), ('reject', 8168), ('reject', 8192), ('tx', 200), ('foo', 2**16), ('foo', 2**20)]), st.integers(1, 3), nodes.cutting, st.integers(0, 2**32)), quick=60, thorough=3000, cpu=60,
          rule='messages larger than one read, several in a row, cut anywhere')
def large(c, t):
    (cmd, k), times, cut, seed = c
    if cmd == 'addr':
        m = nodes.msg('addr', ('*', k, (nodes.na(nodes.address(seed % 10000), 1, seed), nodes.na(('1.2.3.4', 5)))))
    elif cmd == 'inv':
        m = nodes.msg('inv', ('*', k, (('IV', 1, gen._expand(seed, 32)),)))
    elif cmd == 'reject':
        m = nodes.msg('reject', gen._expand(seed, k), 3, b'x')
    elif cmd == 'foo':           # a long message without a meaning, then one with
        return skipped(k, times, cut)
    else:
        m = nodes.msg('tx', 1, ('*', k, (('TI', ('OP', b'h' * 32, 1), b'script', 7),)), (('TO', 5, b'y'),), 0)
    data = proto.binary(m, MAGIC) * times + proto.binary(nodes.msg('ping', b'abcdefgh'), MAGIC)
    with sim.World() as w:
        n = nodes.make(w)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3))
        nodes.deliver(w, n, p, data, cut)
        want = [(cmd, proto.norm(m))] * times + [('ping', (b'abcdefgh',))]
        same([(x[1], x[2]) for x in n.record], want, 'commands')
        same(conn.rx_bytes, len(data), 'bytes received')
        nodes.alive(w, n)


tiny = st.sampled_from([('ping', b'abcdefgh'), ('pong', b'12345678'), ('verack',), ('mempool',), ('inv', ()), ('reject', b'tx', 1, b''), ('alert', b'', b'')]).map(lambda a: nodes.msg(a[0], *a[1:]))


@PROP.sub('bursts', gen=st.tuples(st.lists(tiny, min_size=1, max_size=4), st.one_of(st.integers(1, 345), st.sampled_from([63, 64, 65, 100, 127, 128, 129, 256, 257, 341])), st.lists(item, max_size=2), st.booleans(), nodes.cutting, st.sampled_from(['in', 'out'])), quick=150, thorough=8000, cpu=60,
          rule='hundreds of short messages in one read, with bad ones among them, before or after the version; each is acted on once and in order; non-trivial above 64 messages')
def bursts(c, t):
    kinds, k, odd, hello, cut, how = c
    data, i = b'', 0
    t.nontrivial(k > 64)
    for i in range(k):
        data += proto.binary(kinds[i % len(kinds)], MAGIC)
        if odd and i % 50 == 7:
            data += wire(odd[i // 50 % len(odd)])
    with sim.World() as w:
        n = nodes.make(w)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3), how)
        if hello:
            nodes.say(w, n, p, nodes.version())
        n.record[:] = []
        start = p.taken
        nodes.deliver(w, n, p, data, cut)
        if p.open:
            same(p.taken - start, len(data), 'bytes read')
        same([(x[1], x[2]) for x in n.record], commands(data), 'commands')
        same(conn.rx_bytes, p.taken, 'bytes received')
        if getattr(n, '_rx_bytes', None):
            same(n._rx_bytes, p.taken, 'bytes received in total')
        nodes.alive(w, n)


@PROP.sub('huge', enum=lambda tier: [('alert', 2**20 - 30), ('reject', 2**20 + 1), ('tx', 1300000), ('headers', 14000), ('addr', 1000), ('foo', 2**21 + 99), ('foo', 5 * 2**20), ('alert', 2**22 + 77), ('alert', 2**23 + 1)] + ([('inv', 50000), ('alert', 2**21 + 7), ('alert', 2**24 + 1), ('headers', 50000), ('block', 40)] if tier == 'thorough' else []), quick=24, cpu=200,
          rule='messages of more than a megabyte, delivered like any other')
def huge(c, t):
    cmd, k = c
    t.nontrivial()
    if cmd == 'foo':
        return skipped(k, 1, [])
    body = gen._expand(k, 64) * (k // 64 + 1)
    if cmd == 'alert':
        m = nodes.msg('alert', body[:k], b'sig')
    elif cmd == 'reject':
        m = nodes.msg('reject', b'tx', 3, body[:k])
    elif cmd == 'tx':
        m = nodes.msg('tx', 1, [('TI', ('OP', b'h' * 32, 1), body[:k], 7)], [('TO', 5, b'y')], 0)
    elif cmd == 'headers':
        m = nodes.msg('headers', ('*', k, (('BH', 1, b'a' * 32, b'b' * 32, 5, 6, 7, 0),)))
    elif cmd == 'addr':
        m = nodes.msg('addr', ('*', k, (nodes.na(('1.2.3.4', 5)),)))
    elif cmd == 'inv':
        m = nodes.msg('inv', ('*', k, (('IV', 1, b'i' * 32),)))
    else:
        tx = ('TX', 1, [('TI', ('OP', b'h' * 32, 1), body[:20] * 2000, 7)], [('TO', 5, b'y')], 0)
        m = nodes.msg('block', 1, b'a' * 32, b'b' * 32, 5, 6, 7, [tx] * k)
    ping = proto.binary(nodes.msg('ping', b'abcdefgh'), MAGIC)
    data = ping + proto.binary(m, MAGIC) + ping
    with sim.World() as w:
        n = nodes.make(w)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3))
        q, _ = nodes.connect(w, n, ('4.4.4.4', 4))
        nodes.deliver(w, n, p, data, [40])
        got = [(x[1], x[2]) for x in n.record]
        same([g[0] for g in got], ['ping', cmd, 'ping'], 'commands')
        expect(got[1][1] == proto.norm(m), 'the fields of the %s differ', cmd)
        same(conn.rx_bytes, len(data), 'bytes received')
        nodes.say(w, n, q, nodes.msg('ping', b'12345678'))
        expect(('pong', (b'12345678',)) in nodes.said(q)[0], 'the other peer is not answered')
        nodes.alive(w, n)


RAISES = {'value': lambda: ValueError('x'), 'key': lambda: KeyError('x'), 'os': lambda: OSError(errno.EPIPE, 'x'), 'reset': lambda: ConnectionResetError(errno.ECONNRESET, 'x'), 'timeout': lambda: TimeoutError('x'), 'again': lambda: BlockingIOError(errno.EAGAIN, 'x'), 'runtime': lambda: RuntimeError('\u20ac'),
          'stop': lambda: StopIteration(), 'memory': lambda: MemoryError(), 'type': lambda: TypeError('x'), 'unicode': lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'x'), 'assert': lambda: AssertionError('x'), 'zero': lambda: ZeroDivisionError('x'), 'bare': lambda: Exception()}


@PROP.sub('handlers', gen=st.tuples(st.lists(st.tuples(tiny, st.one_of(st.none(), st.none(), st.sampled_from(sorted(RAISES)))), min_size=2, max_size=12), nodes.cutting, st.sampled_from(['in', 'out']), st.sampled_from(nodes.LEVELS), st.booleans()), quick=200, thorough=10000, cpu=60,
          rule='an action of the node fails with any error; the messages after it, in the same read or later ones, are acted on and the peer is kept; non-trivial when a message follows a failing one')
def handlers(c, t):
    ms, cut, how, level, logging = c
    t.nontrivial(any(e for m, e in ms[:-1]))
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log() if logging else None, level=level)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3), how)
        q, _ = nodes.connect(w, n, ('4.4.4.4', 4))
        n.record[:] = []
        todo = [e for m, e in ms]

        def fail(peer, cmd):
            if peer is conn:
                e = todo.pop(0)
                if e:
                    raise RAISES[e]()
        n.hook = fail
        nodes.deliver(w, n, p, b''.join(proto.binary(m, MAGIC) for m, e in ms), cut)
        n.hook = None
        same([(x[1], x[2]) for x in n.record if x[0] is conn], [(m[1], proto.norm(m)) for m, e in ms], 'commands, with failing actions %r' % [e for m, e in ms])
        expect(p.open and conn in n.peers, 'the peer was dropped')
        pongs = [g[1][0] for g in nodes.said(p)[0] if g[0] == 'pong']
        same(pongs, [m[2][0] for m, e in ms if m[1] == 'ping' and not e], 'answers to the pings whose action did not fail')
        for x in (p, q):
            nodes.say(w, n, x, nodes.msg('ping', b'zzzzzzzz'))
            expect(('pong', (b'zzzzzzzz',)) in nodes.said(x)[0], 'a peer is not answered')
        nodes.alive(w, n)


BAD = {'unknown': ('unknown', 'foo', b'xyz'), 'empty': ('unknown', '', b''), 'sum': ('sum', nodes.msg('ping', b'12345678'), 1), 'magic': ('magic', nodes.msg('ping', b'12345678'), b'\xf9\xbe\xb4\xd9'),
       'payload': ('payload', 'version', b'abc'), 'long': ('payload', 'inv', b'\xff' * 9), 'mixed': None}


@PROP.sub('rubbish', enum=lambda tier: [(k, kind, how) for k in (1, 2, 7, 15, 16, 20, 21, 50, 64, 100, 128, 200, 255, 256, 300) for kind in sorted(BAD) for how in ('in', 'out')], quick=210, cpu=60,
          rule='exhaustive: one to three hundred unusable messages of one kind in a row, in as few reads as possible and again one by one, each time followed by valid messages that are all acted on, by the same and another peer')
def rubbish(c, t):
    k, kind, how = c
    kinds = [BAD[kind]] if BAD[kind] else [v for v in BAD.values() if v]
    bad = [wire(kinds[i % len(kinds)]) for i in range(k)]
    good = [nodes.msg('ping', b'%08d' % i) for i in range(3)] + [nodes.msg('pong', b'abcdefgh')]
    tail = b''.join(proto.binary(m, MAGIC) for m in good)
    t.nontrivial(k > 10)
    with sim.World() as w:
        n = nodes.make(w, log=nodes.Log(), level=0)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3), how)
        q, _ = nodes.connect(w, n, ('4.4.4.4', 4))
        n.record[:] = []
        want = []
        for parts in ([b''.join(bad) + tail], bad + [tail]):
            for x in parts:
                nodes.deliver(w, n, p, x)
            want += [(m[1], proto.norm(m)) for m in good]
            expect(p.open, 'the peer was dropped')
            same([(x[1], x[2]) for x in n.record if x[0] is conn], want, 'commands after %d bad messages' % k)
        nodes.say(w, n, q, nodes.msg('ping', b'zzzzzzzz'))
        expect(('pong', (b'zzzzzzzz',)) in nodes.said(q)[0], 'the other peer is not answered')
        nodes.alive(w, n)


PARTIAL = [nodes.msg('ping', b'12345678'), nodes.msg('pong', b'12345678'), nodes.version(), nodes.VERACK, nodes.GETADDR, nodes.msg('addr', [nodes.na(('1.2.3.4', 5))]), nodes.msg('inv', [('IV', 1, b'i' * 32)]), nodes.msg('reject', b'tx', 1, b'why')]


def gone(tier):
    return [(i, at, end, how, same_port) for i in range(len(PARTIAL)) for at in (4, 16, 23, 24, -1) for end in ('eof', 'reset', 'remove', 'punish') for how in ('in', 'out') for same_port in (False, True)
            if tier == 'thorough' or (i * 5 + at + len(end) + len(how) + same_port) % 3 == 0 or i == 0]


@PROP.sub('returning', enum=gone, quick=400, cpu=60,
          rule='a peer is cut off in the middle of a message (its beginning of any length, ended in every way); what comes from its address on a new connection is delivered as if nothing had been before')
def returning(c, t):
    i, at, end, how, same_port = c
    t.nontrivial()
    with sim.World() as w:
        n = nodes.make(w)
        p, conn = nodes.connect(w, n, ('3.3.3.3', 3), 'in')
        part = proto.binary(PARTIAL[i], MAGIC)
        part = part[:at if at < len(part) else -1]
        nodes.deliver(w, n, p, proto.binary(nodes.msg('ping', b'abcdefgh'), MAGIC) + part)
        same([(x[1], x[2]) for x in n.record], [('ping', (b'abcdefgh',))], 'commands before')
        if end == 'eof':
            p.hang_up()
        elif end == 'reset':
            p.fail(errno.ECONNRESET)
        elif end == 'remove':
            n.remove_peer(conn.address)
        else:
            for _ in range(6):
                n.punish_peer(conn)
            w.now += 3700
        w.poll(n, 3)
        expect(not p.open, 'the peer is still connected')
        n.record[:] = []
        q, conn = nodes.connect(w, n, ('3.3.3.3', 3 if same_port else 33), how)
        expect(conn is not None, 'not connected again')
        ms = [nodes.msg('ping', b'zzzzzzzz'), nodes.msg('pong', b'87654321')]
        data = b''.join(proto.binary(m, MAGIC) for m in ms)
        nodes.deliver(w, n, q, data, [1] * (at % 3))
        same([(x[1], x[2]) for x in n.record if x[0] is conn], [(m[1], proto.norm(m)) for m in ms], 'commands on the new connection')
        same(conn.rx_bytes, len(data), 'bytes received on the new connection')
        expect(('pong', (b'zzzzzzzz',)) in nodes.said(q)[0], 'no answer on the new connection')
        nodes.alive(w, n)
