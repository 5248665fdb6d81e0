from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C27', assumptions=['four checksum bytes cannot notice every deliberate change: the reference recomputes the checksum and expects acceptance when it happens to match'])
CMDS = sorted(proto.MSGS)


def parse(data, magic):
    """'ok', 'format', 'unknown' or the parameter error"""
    P = proto.mod()
    try:
        return P.Message.parse(data, magic)
    except P.MsgFormatError:
        return 'format'
    except P.UnknownMsgError:
        return 'unknown'
    except P.ParameterError:
        return 'parameter'


def verdict(data, magic):
    "what the reference says about a frame"
    if len(data) < 24 or data[:4] != magic:
        return 'format'
    n = int.from_bytes(data[16:20], 'little')
    p = data[24:24 + n]
    if len(p) < n or proto.checksum(p) != data[20:24]:
        return 'format'
    cmd = data[4:16].rstrip(b'\0').decode('latin-1')
    if cmd not in proto.MSGS:
        return 'unknown'
    return 'ok' if proto.rd_payload(cmd, p) is not None else 'parameter'


def agree(data, magic, what, t):
    got, want = parse(data, magic), verdict(data, magic)
    t.label(want)
    same(got if isinstance(got, str) else 'ok', want, '%s %s' % (what, short(data)))
    return want


small = proto.small_messages


@PROP.sub('damage', gen=st.tuples(small, proto.magics, st.lists(gen.mutation(), min_size=1, max_size=3)), quick=1500, thorough=100000,
          rule='a valid frame after random byte changes, insertions, deletions, cuts; non-trivial when refused by the checksum or length')
def damage(c, t):
    m, magic, muts = c
    b = proto.binary(m, magic)
    d = gen.mutate(b, muts)
    w = agree(d, magic, 'damaged frame', t)
    t.nontrivial(w != 'ok' and d[:4] == magic)


@PROP.sub('one-byte', gen=st.tuples(small.filter(lambda m: len(repr(m)) < 700), st.integers(1, 255)), quick=60, thorough=3000, rule='every single byte of a frame changed by one mask: payload changes are always noticed, every truncation is refused')
def one_byte(c, t):
    m, x = c
    magic = b'\xf9nbc'
    b = proto.binary(m, magic)
    for i in range(len(b)):
        d = b[:i] + bytes([b[i] ^ x]) + b[i + 1:]
        got = parse(d, magic)
        if i < 4 or i >= 20:
            same(got, 'format', 'byte %d of %s changed' % (i, m[1]))
        else:
            agree(d, magic, 'byte %d changed' % i, t)
        same(parse(b[:i], magic), 'format', 'frame cut to %d bytes' % i)
    expect(not isinstance(parse(b, magic), str), 'the intact frame is refused')


@PROP.sub('magic', gen=st.tuples(small, gen.blob(4), gen.blob(4)), quick=300, thorough=15000, rule='another magic; non-trivial when the magics differ')
def magic(c, t):
    m, a, b = c
    d = proto.binary(m, a)
    t.nontrivial(a != b)
    if a != b:
        same(parse(d, b), 'format', 'foreign magic')
    for i in range(4):
        other = a[:i] + bytes([a[i] ^ 1]) + a[i + 1:]
        same(parse(d, other), 'format', 'magic differing in byte %d' % i)
    expect(not isinstance(parse(d, a), str), 'own magic refused')


@PROP.sub('length', gen=st.tuples(small, st.one_of(st.integers(-5, 5), gen.ints(0, 2**32 - 1)), gen.data(10)), quick=600, thorough=30000, rule='a length field that is too small, too large or enormous, with data following')
def length(c, t):
    m, d, tail = c
    p = proto.payload(m)
    n = len(p) + d if -5 <= d <= 5 else d
    if n < 0:
        n = 0
    f = proto.frame(b'\xf9nbc', m[1], p, length=n) + tail
    agree(f, b'\xf9nbc', 'length %d for %d bytes' % (n, len(p)), t)
    t.nontrivial(n != len(p))


names = st.one_of(st.sampled_from(CMDS).flatmap(lambda c: st.sampled_from([c.upper(), c[:-1], c + 's', c.capitalize(), ' ' + c, c + ' ', '\0' + c, c[:2] + '\0' + c[2:], c[::-1], c + '\0x'])),
                  st.sampled_from(proto.UNSUPPORTED + ['', 'sendcmpct', 'Message', 'None', 'filterload', 'block\xff', 'version_ack', 'address', 'get_address', 'inventory', 'memory_pool', 'get_data', 'transaction'] + sorted(proto.CLASSES.values())),
                  st.text(alphabet=[chr(i) for i in range(256)], max_size=12))


@PROP.sub('commands', gen=st.tuples(names.filter(lambda n: len(n) <= 12), gen.data(60), st.sampled_from(CMDS)), quick=800, thorough=30000,
          rule='command names: spelling variants, embedded zero bytes, unsupported types, method names, arbitrary bytes; non-trivial when the name is not a supported one')
def commands(c, t):
    name, p, _ = c
    f = proto.frame(b'\xf9nbc', name, p)
    t.nontrivial(name.rstrip('\0') not in proto.MSGS)
    agree(f, b'\xf9nbc', 'command %r' % name, t)


@PROP.sub('unsupported', enum=lambda tier: proto.UNSUPPORTED, rule='the message types marked unsupported')
def unsupported(c, t):
    for p in (b'', b'\0', b'\1' * 100, b'\0' * 100):
        same(parse(proto.frame(b'\xf9nbc', c, p), b'\xf9nbc'), 'unknown', c)


WRONG = ['reversed', 'rotated', 'swapped halves', 'sha256', 'triple', 'last four', 'next four', 'of the frame', 'of the command', 'of nothing', 'zero', 'ones', 'complement', 'length', 'magic', 'sha1', 'md5', 'xor', 'one bit', 'first three', 'last three', 'of all but one', 'of one more', 'hex']


def wrong_sum(how, p, cmd, magic):
    import hashlib
    s = proto.checksum(p)
    f = magic + cmd.encode().ljust(12, b'\0') + len(p).to_bytes(4, 'little')
    d = hashlib.sha256(hashlib.sha256(p).digest()).digest()
    return {'reversed': s[::-1], 'rotated': s[1:] + s[:1], 'swapped halves': s[2:] + s[:2], 'sha256': hashlib.sha256(p).digest()[:4], 'triple': hashlib.sha256(d).digest()[:4], 'last four': d[-4:], 'next four': d[4:8],
            'of the frame': proto.checksum(f + p), 'of the command': proto.checksum(cmd.encode() + p), 'of nothing': proto.checksum(b''), 'zero': bytes(4), 'ones': b'\xff' * 4, 'complement': bytes(255 - b for b in s),
            'length': len(p).to_bytes(4, 'little'), 'magic': magic, 'sha1': hashlib.sha1(p).digest()[:4], 'md5': hashlib.md5(p).digest()[:4], 'xor': bytes(b ^ 0x55 for b in s), 'one bit': bytes([s[0] ^ 1]) + s[1:],
            'first three': s[:3] + bytes([s[3] ^ 128]), 'last three': bytes([s[0] ^ 128]) + s[1:], 'of all but one': proto.checksum(p[:-1]), 'of one more': proto.checksum(p + b'\0'), 'hex': d.hex()[:4].encode()}[how]


@PROP.sub('wrong-sums', enum=lambda tier: [(how, i) for how in WRONG for i in range(6)], quick=150,
          rule='exhaustive: checksums a sloppy comparison or another digest would take (reversed, rotated, partly right, of other data) on messages of several types')
def wrong_sums(c, t):
    how, i = c
    cmd, p = [('verack', b''), ('ping', b'12345678'), ('getaddr', b''), ('addr', b'\0'), ('inv', b'\1\1\0\0\0' + bytes(range(32))), ('reject', b'\3abc\1\2xy')][i]
    magic = b'\xf9nbc'
    s = wrong_sum(how, p, cmd, magic)
    t.nontrivial(s != proto.checksum(p))
    f = magic + cmd.encode().ljust(12, b'\0') + len(p).to_bytes(4, 'little') + s + p
    agree(f, magic, 'checksum %s of %s' % (how, cmd), t)
    expect(not isinstance(parse(proto.frame(magic, cmd, p), magic), str), 'the intact %s is refused', cmd)
