import struct
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C26', assumptions=['fractional times are sent as whole seconds and text as Latin-1 bytes; the addresses inside a version message carry no time; an absent relay mark means one'])


def check(m, magic, tail, t):
    P = proto.mod()
    cmd = m[1]
    obj = proto.make(m)
    want = proto.binary(m, magic)
    got = obj.binary(magic)
    same(type(got), bytes, 'type of the encoding')
    same(got, want, 'encoding of %s' % cmd)
    cls = getattr(P, proto.CLASSES[cmd])
    back = P.Message.parse(want, magic)
    expect(type(back) is cls, 'decoded as %s, sent %s', type(back).__name__, cls.__name__)
    same(back.command, cmd, 'command')
    same(back.name, proto.NAMES[cmd], 'name')
    same(back.magic, magic, 'magic')
    same(proto.see(back, cmd), proto.norm(m), 'fields of the decoded %s' % cmd)
    same(back.binary(magic), want, 're-encoding of the decoded %s' % cmd)
    same(proto.see(P.Message.parse(want + tail, magic), cmd), proto.norm(m), 'fields when more data follows')
    same(obj.binary(magic), want, 'second encoding')
    # length of the first message
    same(P.Message.first_msg_len(want), len(want), 'first_msg_len')
    same(P.Message.first_msg_len(want + tail), len(want), 'first_msg_len with more data')
    for cut in range(0, 26):
        v = P.Message.first_msg_len(want[:cut])
        if cut < 20:
            same(v, None, 'first_msg_len of %d bytes' % cut)
        elif cut >= 24:
            same(v, len(want), 'first_msg_len of %d bytes' % cut)
        else:
            expect(v in (None, len(want)), 'first_msg_len of %d bytes: %r', cut, v)
    t.label(cmd)
    t.nontrivial(len(want) > 24)


@PROP.sub('messages', gen=st.tuples(proto.messages, proto.magics, gen.data(60)), quick=900, thorough=60000, cpu=120,
          rule='every message type, boundary numbers, IPv4/IPv6 spellings, text to 300 bytes, lists to 1000 items, any magic and trailing data; non-trivial with a payload')
def messages(c, t):
    m, magic, tail = c
    check(m, magic, tail, t)


@PROP.sub('commands', gen=st.sampled_from(sorted(proto.MSGS)).flatmap(lambda c: st.tuples(proto.message(c).filter(lambda m: len(repr(m)) < 3000), st.booleans())), quick=400, thorough=20000,
          rule='each type, built by position and by keyword')
def commands(c, t):
    m, kw = c
    a, b = proto.make(m, False), proto.make(m, True)
    same(b.binary(b'abcd'), a.binary(b'abcd'), 'keyword construction')
    same(b.binary(b'abcd'), proto.binary(m, b'abcd'), 'encoding')
    for (name, ft), v in zip(proto.MSGS[m[1]], m[2]):
        same(proto.see_val(ft, getattr(a, name)) if ft[0] != 'na0' else 0, proto.norm_val(ft, v) if ft[0] != 'na0' else 0, 'field %s' % name)


def limits(tier):
    h = b'\x11' * 32
    iv = ('IV', 1, h)
    na = ('NA', 5, 1, '1.2.3.4', 8333)
    for cmd in ('inv', 'getdata', 'notfound'):
        for n in (0, 1, 252, 253, 254, 2000) + ((50000,) if tier == 'thorough' else ()):
            yield ('msg', cmd, (('*', n, (iv, ('IV', 2, b'\x22' * 32))),))
    for n in (0, 1, 252, 253, 999, 1000):
        yield ('msg', 'addr', (('*', n, (na, ('NA', 6, 2**64 - 1, '::1', 1))),))
    for n in (1, 252, 253, 2000, 2001, 2500):
        yield ('msg', 'getblocks', (70002, ('*', n, (h, b'\0' * 32)), h))
        yield ('msg', 'headers', (('*', n, (('BH', 1, h, h, 5, 6, 7, 0), ('BH', 2**32 - 1, h, h, 5, 6, 7, 2**40))),))
    for n in (252, 253, 65534, 65535, 65536, 70000, 2**20):
        yield ('msg', 'alert', (b'p' * n, b's'))
        yield ('msg', 'reject', (b'tx', 16, b'r' * n))
        yield ('msg', 'tx', (1, [('TI', ('OP', h, 2**32 - 1), b's' * n, 2**32 - 1)], [('TO', 50 * 10**8, b'k' * n)], 0))
    for n in (252, 253, 300):
        tx = ('TX', 1, ('*', n, (('TI', ('OP', h, 1), b'ab', 5),)), ('*', n, (('TO', -1, b''),)), 9)
        yield ('msg', 'tx', tx[1:])
        yield ('msg', 'block', (1, h, h, 5, 6, 7, [tx, tx]))
    yield ('msg', 'block', (1, h, h, 5, 6, 7, ('*', 253, (('TX', 1, [('TI', ('OP', h, 1), b'ab', 5)], [('TO', 7, b'')], 9),))))


@PROP.sub('limits', enum=limits, quick=48, cpu=300, rule='exhaustive list: every list and text length around the length-prefix boundaries and the list limits')
def lim(m, t):
    check(m, b'\xf9nbc', b'tail', t)


@PROP.sub('relay', enum=lambda tier: [None] + list(range(256)), quick=257, rule='exhaustive: every relay mark of a version message, and none; non-trivial unless absent')
def relay(v, t):
    t.nontrivial(v is not None)
    na = ('NA', 0, 1, '1.2.3.4', 8333)
    check(('msg', 'version', (70002, 1, 1400000000, na, ('NA', 0, 9, '::1', 1), b'12345678', b'/agent/', 7) + (v,)), b'\xf9nbc', b'\1tail' if v is not None else b'', t)


def announced(tier):
    seen = set()
    for b in range(0, 33):
        for d in (-25, -24, -23, -1, 0, 1):
            v = (1 << b) + d
            if 0 <= v < 2**32 and v not in seen:
                seen.add(v)
                yield v
    for v in (0x00010203, 0x04030201, 0xfefdfcfb, 100000, 10**9, 2**24 + 2**16 + 2**8 + 1):
        yield v


def lengths_of(n, t):
    P = proto.mod()
    t.nontrivial(n > 0)
    for pre in (b'\xf9nbcping\0\0\0\0\0\0\0\0', b'\xff' * 16, b'\0' * 16):
        head = pre + struct.pack('<I', n)
        for tail in (b'', b'\xff', b'\0\0\0\0', b'\xff' * 4, b'\1' * 30):
            same(P.Message.first_msg_len(head + tail), n + 24, 'first_msg_len of a header announcing %d, with %d bytes after the length' % (n, len(tail)))
        for cut in range(20):
            same(P.Message.first_msg_len(head[:cut]), None, 'first_msg_len of %d bytes' % cut)


@PROP.sub('announced', enum=announced, quick=48, rule='headers that announce any 32-bit length, around every power of two')
def ann(n, t):
    lengths_of(n, t)


@PROP.sub('announced-any', gen=st.integers(0, 2**32 - 1), quick=200, thorough=20000, rule='random 32-bit lengths')
def ann_any(n, t):
    lengths_of(n, t)


@PROP.sub('networks', gen=st.tuples(proto.small_messages, st.lists(proto.magics, min_size=2, max_size=4)), quick=500, thorough=30000, rule='one message object, built or parsed, is encoded for several networks in turn; non-trivial when the networks differ')
def networks(c, t):
    m, magics = c
    P = proto.mod()
    t.nontrivial(len(set(magics)) > 1)
    for obj in (proto.make(m), P.Message.parse(proto.binary(m, magics[0]), magics[0])):
        for g in magics + magics[:1]:
            same(obj.binary(g), proto.binary(m, g), 'encoding for network %r' % g)
            same(proto.see(P.Message.parse(obj.binary(g), g), m[1]), proto.norm(m), 'fields read on network %r' % g)
    read = [P.Message.parse(proto.binary(m, g), g) for g in magics]
    same([x.magic for x in read], magics, 'networks the messages were read from')
