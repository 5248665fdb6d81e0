import base64, os, random
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, wal, sim, nodes
from ..refs import ec, b58
from . import c33, c35

PROP = Prop('C31', assumptions=['a private key is revealed by a text that contains the scalar (hexadecimal, decimal or Base64, at least its longer half), its WIF, the seed or the private extended key',
                                'the entropy source gives both runs of a history the same bytes'])
MAGIC = nodes.MAGIC
small = proto.small_messages


def texts(o, what):
    out = []
    for name, f in (('str', lambda: str(o)), ('debug', lambda: o._debug()), ('format', lambda: '%s' % o), ('repr', lambda: repr(o)), ('str again', lambda: str(o))):
        if name == 'debug' and not hasattr(o, '_debug'):
            continue
        s = f()
        expect(type(s) is str, '%s of %s is %r', name, what, type(s))
        out.append(s)
    same(out[-1], out[0], 'the text of %s, second time' % what)
    return out


def check_message(o, cmd, what):
    P = proto.mod()
    before = o.binary(MAGIC)
    see = proto.see(o, cmd)
    texts(o, what)
    same(proto.see(o, cmd), see, 'fields of %s after printing' % what)
    same(o.binary(MAGIC), before, 'encoding of %s after printing' % what)
    def inner(v):
        if isinstance(v, (list, tuple)):
            for x in v[:3]:
                inner(x)
        elif hasattr(v, 'properties'):
            texts(v, 'a part of ' + what)
            for n, _ in v.properties:
                inner(getattr(v, n))
    for n, _ in proto.MSGS[cmd]:
        inner(getattr(o, n))


@PROP.sub('messages', gen=st.one_of(small, proto.messages), quick=1200, thorough=80000, rule='every message type over all field values, built (positional and keyword) and parsed: text forms are text, and printing changes neither fields nor encoding; non-trivial unless empty')
def messages(m, t):
    P = proto.mod()
    t.label(m[1])
    t.nontrivial(bool(m[2]))
    o = proto.make(m)
    check_message(o, m[1], 'a built ' + m[1])
    check_message(proto.make(m, True), m[1], 'a built ' + m[1])
    data = proto.binary(m, MAGIC)
    same(o.binary(MAGIC), data, 'encoding after printing')
    check_message(P.Message.parse(data, MAGIC), m[1], 'a parsed ' + m[1])


@PROP.sub('parts', gen=st.sampled_from(sorted(proto.PARTS)).flatmap(proto.part), quick=500, thorough=30000, rule='message parts built and printed, encodings unchanged')
def parts(p, t):
    o = proto.make_part(p)
    a = o.binary()
    texts(o, p[0])
    same(o.binary(), a, 'encoding of %s after printing' % p[0])


BORDERS = list(range(0, 33)) + [x for k in (7, 8, 15, 16, 31, 32, 63, 64) for x in (2**k - 1, 2**k, 2**k + 1)] + [-1, -2, -128, -2**31, -2**63]


def number_fields(tier):
    def walk(target, fs, path):
        for i, (n, ft) in enumerate(fs):
            if ft[0] in ('num', 'be', 'opt', 'varint'):
                yield target, path + (i,)
            elif ft[0] in ('part', 'na0'):
                yield from walk(target, proto.PARTS[ft[1] if ft[0] == 'part' else 'NA'], path + (i,))
            elif ft[0] == 'list' and ft[1][0] == 'part':
                for j in (0, 1):
                    yield from walk(target, proto.PARTS[ft[1][1]], path + (i, j))
    for cmd in sorted(proto.MSGS):
        yield from walk(cmd, proto.MSGS[cmd], ())


def plain(ft, n=0):
    k = ft[0]
    if k in ('num', 'be', 'opt', 'varint'):
        return 1 + n
    if k == 'bytes':
        return bytes([n + 1]) * ft[1]
    if k == 'str':
        return b'text%d' % n
    if k == 'ip':
        return '1.2.3.%d' % n
    if k == 'list':
        return [plain(ft[1], i) for i in (0, 1, 2)]
    name = ft[1] if k == 'part' else 'NA'
    return (name,) + tuple(plain(f, n) for _, f in proto.PARTS[name])


def put(fs, vals, path, x):
    "vals with the number at path replaced by x, or None when the field does not take x"
    i = path[0]
    ft = fs[i][1]
    if len(path) == 1:
        lo, hi = proto.NUM[ft[1]] if ft[0] != 'varint' else (0, 2**64 - 1)
        if not lo <= x <= hi:
            return None
        new = x
    elif ft[0] == 'list':
        sub = vals[i][path[1]]
        new = put(proto.PARTS[sub[0]], sub[1:], path[2:], x)
        new = new and vals[i][:path[1]] + [(sub[0],) + new] + vals[i][path[1] + 1:]
    else:
        new = put(proto.PARTS[vals[i][0]], vals[i][1:], path[1:], x)
        new = new and (vals[i][0],) + new
    return None if new is None else tuple(vals[:i]) + (new,) + tuple(vals[i + 1:])


@PROP.sub('numbers', enum=number_fields, quick=200, rule='every numeric field of every message, also those inside its parts, at every number from 0 to 32 and around the powers of two')
def numbers(c, t):
    cmd, path = c
    P = proto.mod()
    fs = proto.MSGS[cmd]
    base = tuple(plain(ft) for _, ft in fs)
    for x in BORDERS:
        vals = put(fs, base, path, x)
        if vals is None:
            continue
        m = ('msg', cmd, vals)
        check_message(proto.make(m), cmd, 'a built %s with %d at %r' % (cmd, x, path))
        check_message(P.Message.parse(proto.binary(m, MAGIC), MAGIC), cmd, 'a parsed %s with %d at %r' % (cmd, x, path))


wild = st.one_of(
    st.tuples(st.sampled_from(sorted(proto.MSGS)), gen.data(80), st.just([])),
    small.flatmap(lambda m: st.tuples(st.just(m[1]), st.just(proto.payload(m)), st.lists(gen.mutation(), min_size=1, max_size=3))),
    st.tuples(st.just('alert'), st.tuples(c33.small.map(c33.encode), st.lists(gen.mutation(), max_size=3), gen.data(10)).map(
        lambda a: proto.varint(len(gen.mutate(a[0], a[1]))) + gen.mutate(a[0], a[1]) + proto.varint(len(a[2])) + a[2]), st.just([])))


@PROP.sub('parsed', gen=wild, quick=1500, thorough=100000, rule='whatever the parser accepts of arbitrary and mutated payloads (alerts with mutated contents among them) prints as text; non-trivial when accepted')
def parsed(c, t):
    cmd, p, muts = c
    P = proto.mod()
    p = gen.mutate(p, muts)
    try:
        o = P.Message.parse(proto.frame(MAGIC, cmd, p), MAGIC)
    except P.ParameterError:
        return
    t.nontrivial()
    t.label(cmd)
    check_message(o, cmd, 'a parsed ' + cmd)


# ------------------------------------------------------------------ logging
def history(w, n, c):
    specs, turns = c
    ps = []
    for i, (items, cut, how) in enumerate(specs):
        p, conn = nodes.connect(w, n, nodes.address(i, 1000 + i), how)
        expect(p is not None and conn is not None, 'peer %d was not connected', i)
        p.say(b''.join(map(c35.wire, items)), cut)
        ps.append((p, p.inbox))
        p.inbox = []
    for j in [x % len(ps) for x in turns] + [j for k in range(60) for j in range(len(ps))]:
        p, todo = ps[j]
        if todo:
            p.inbox.append(todo.pop(0))
            w.poll(n, 2)
    w.now += 2000
    w.poll(n, 3)
    for c in n.peers[:1]:
        n.punish_peer(c)
    w.poll(n, 3)
    nodes.alive(w, n)
    return [(p.got, p.taken, p.open) for p, _ in ps], [(q.address, a, b, k) for q, a, b, k in n.record]


@PROP.sub('logging', gen=st.tuples(st.tuples(st.lists(st.tuples(st.lists(c35.item, max_size=6), nodes.cutting, st.sampled_from(['in', 'out'])), min_size=1, max_size=2), st.lists(st.integers(0, 1), max_size=20)), st.sampled_from([0, 1, 2, 3, 4])), quick=300, thorough=15000, cpu=60,
          rule='the same history of connections and streams with logging off and at one level: bytes sent, commands delivered and closed connections are the same, every log line is text; non-trivial when something is logged')
def logging(c, t):
    hist, level = c
    seen = []
    for log, l in ((None, None), (nodes.Log(), level)):
        os.urandom.n = 0
        random.seed(5)
        with sim.World() as w:
            n = nodes.make(w, log=log, level=l)
            seen.append(history(w, n, hist))
    same(seen[1][0], seen[0][0], 'bytes sent with logging at level %d' % level)
    same(seen[1][1], seen[0][1], 'commands delivered with logging at level %d' % level)
    t.nontrivial(bool(log.lines))
    t.label('lines' if log.lines else 'quiet')


# ------------------------------------------------------------------ wallets
def secrets(spec, ref):
    k = ref.k
    h = '%064x' % k
    raw = k.to_bytes(32, 'big')
    yield 'hexadecimal key', h
    for part in (h[:32], h[32:], h.lstrip('0'), raw[::-1].hex(), str(k), base64.b64encode(raw).decode()[:40], b58.enc(raw)):
        if len(set(part)) > 3 and len(part) >= 20:
            yield 'part of the key', part
    for comp in (True, False):
        yield 'WIF', wal.ref_wif(k, comp)
        yield 'payload of the WIF', wal.ref_wif(k, comp)[1:40]
    yield 'raw key', raw.decode('latin-1') if len(set(raw)) > 3 else h
    yield 'repr of the key', repr(raw)[2:-1] if len(set(raw)) > 3 else h
    if ref.node is not None:
        for tn in (True, False):
            yield 'private extended key', b58.enc_check(ref.node.extended(True, tn))
        s = spec[1]
        if len(set(s)) > 3 and len(s) >= 16:
            yield 'seed', s.hex()
            yield 'seed', s.decode('latin-1')


@PROP.sub('wallets', gen=st.tuples(wal.specs(), st.booleans()), quick=150, thorough=8000, rule='printing wallets of both kinds, holding the private key or not: text that contains the address and no form of the key')
def wallets(c, t):
    spec, public = c
    ref = wal.Ref(spec)
    o = wal.build_public(spec, ref) if public else wal.build(spec)
    view = wal.view(o)
    t.nontrivial(not public)
    for s in texts(o, 'a wallet') + ['{}'.format(o), '%r' % (o,), str([o])]:
        for what, x in secrets(spec, ref):
            x = x if isinstance(x, str) else x.decode('latin-1')
            expect(x.lower() not in s.lower(), 'printing shows the %s: %s', what, s)
    a = ref.address if isinstance(ref.address, str) else ref.address.decode('latin-1')
    # nor a piece of it: six characters in a row, or the beginning
    rest = str(o).replace(a, '')
    for comp in (True, False):
        wif = wal.ref_wif(ref.k, comp).decode()
        for piece in [wif[:4]] + [wif[i:i + 6] for i in range(len(wif) - 5)]:
            expect(piece not in rest, 'printing shows %r of the private key: %s', piece, str(o))
    for piece in [h[i:i + 8] for h in ('%064x' % ref.k,) for i in range(57)]:
        if len(set(piece)) > 3:
            expect(piece not in rest.lower(), 'printing shows %r of the private key: %s', piece, str(o))
    expect(a in str(o), 'the text %r does not name the address %s', str(o), a)
    same(wal.view(o), view, 'the wallet after printing')


@PROP.sub('short-pieces', enum=lambda tier: [(kind, comp, testnet, salt) for kind in ('addr', 'hd', 'child') for comp in (False, True) for testnet in (False, True) for salt in range(40 if tier == 'thorough' else 3)], quick=40,
          rule='eight wallets of a kind, printed in every way: no two characters at any fixed place of the WIF, the hexadecimal key or the private extended key are found in all eight texts')
def short_pieces(c, t):
    kind, comp, testnet, salt = c
    prints, keys = [], []
    for j in range(8):
        seed = b58.dsha(repr((c, j)).encode())
        spec = ('addr', int.from_bytes(seed, 'big') % wal.N or 1, comp, testnet, 5) if kind == 'addr' else ('hd', seed, (3,) if kind == 'child' else (), testnet, 5)
        ref = wal.Ref(spec)
        o = wal.build(spec)
        a = ref.address if isinstance(ref.address, str) else ref.address.decode('latin-1')
        prints.append([x.replace(a, '') for x in (str(o), '{}'.format(o), str([o]), repr(o))])
        key = {'WIF': wal.ref_wif(ref.k, True).decode(), 'uncompressed WIF': wal.ref_wif(ref.k, False).decode(), 'hexadecimal key': '%064x' % ref.k, 'key in decimal': '%078d' % ref.k}
        if ref.node is not None:
            key['private extended key'] = b58.enc_check(ref.node.extended(True, testnet)).decode()[-40:]
        keys.append(key)
    for name in keys[0]:
        n = 2 if 'decimal' not in name else 3
        for back in (False, True):
            for i in range(min(len(k[name]) for k in keys) - n + 1):
                pieces = [k[name][len(k[name]) - i - n:len(k[name]) - i] if back else k[name][i:i + n] for k in keys]
                if len(set(pieces)) < 5:
                    continue
                for way in range(4):
                    expect(not all(p in x[way] for p, x in zip(pieces, prints)), 'printing shows characters %d to %d%s of the %s: %r %r', i, i + n, ' from the end' if back else '', name, pieces[0], prints[0][way])


TI, TO = ('TI', ('OP', b'h' * 32, 1), b'script', 7), ('TO', 5, b'y')
BH = ('BH', 1, b'a' * 32, b'b' * 32, 5, 6, 7, 0)
IV = ('IV', 1, b'i' * 32)
SAMPLES = {'version': lambda v: nodes.version(agent=b'\xff\n'[:v * 2], relay=v or None), 'addr': lambda v: nodes.msg('addr', [nodes.na(nodes.address(i), i, 5) for i in range(3 * v)]),
           'tx': lambda v: nodes.msg('tx', 1, [TI] * (1 + v), [TO], 0), 'block': lambda v: nodes.msg('block', 1, b'a' * 32, b'b' * 32, 5, 6, 7, [('TX', 1, [TI], [TO], 0)] * v), 'headers': lambda v: nodes.msg('headers', [BH] * v),
           'ping': lambda v: nodes.msg('ping', bytes([255 * v]) * 8), 'pong': lambda v: nodes.msg('pong', bytes([255 * v]) * 8), 'reject': lambda v: nodes.msg('reject', b'tx', 1, b'\x80%s' * v),
           'alert': lambda v: nodes.msg('alert', b'payload' * v, b'sig' * v)}
for _c in ('verack', 'getaddr', 'mempool'):
    SAMPLES[_c] = lambda v, c=_c: nodes.msg(c)
for _c in ('inv', 'getdata', 'notfound'):
    SAMPLES[_c] = lambda v, c=_c: nodes.msg(c, [IV] * v)
for _c in ('getblocks', 'getheaders'):
    SAMPLES[_c] = lambda v, c=_c: nodes.msg(c, 70002, [b'l' * 32] * (1 + v), b's' * 32)


@PROP.sub('levels', enum=lambda tier: [(cmd, level, how, variant) for cmd in sorted(proto.MSGS) for level in (0, 1, 2, 3, 4) for how in ('in', 'out') for variant in (0, 1)], quick=500, cpu=60,
          rule='exhaustive: every kind of message at every log level: the same commands are delivered and the same bytes sent as without logging')
def levels(c, t):
    cmd, level, how, variant = c
    seen = []
    m = SAMPLES[cmd](variant)
    for log, l in ((None, None), (nodes.Log(), level)):
        os.urandom.n = 0
        random.seed(5)
        with sim.World() as w:
            n = nodes.make(w, log=log, level=l)
            p, conn = nodes.connect(w, n, nodes.address(1, 1001), how)
            nodes.say(w, n, p, nodes.version())
            nodes.say(w, n, p, m)
            nodes.say(w, n, p, nodes.msg('ping', b'12345678'))
            w.poll(n, 2)
            nodes.alive(w, n)
            seen.append((p.got, [(x[1], x[2], x[3]) for x in n.record]))
    same([x[0] for x in seen[0][1]], ['version', cmd, 'ping'], 'commands without logging')
    same(seen[1][1], seen[0][1], 'commands delivered with logging at level %d' % level)
    same(seen[1][0], seen[0][0], 'bytes sent with logging at level %d' % level)
    t.nontrivial(bool(log.lines))
