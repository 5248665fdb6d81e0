import ipaddress, struct
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C30', assumptions=['the ipaddress module decides what an address is; texts with a zone, a dotted IPv6 tail or leading zeros in IPv4 groups are not judged',
                                'counts are observed as transaction counts of header messages, lengths as those of reject messages and of lists'])
MAGIC = b'\xf9nbc'


def header(n):
    return ('msg', 'headers', ((('BH', 1, b'\1' * 32, b'\2' * 32, 3, 4, 5, n),),))


def counts(tier):
    seen = set()
    for b in list(range(0, 65)) + [0]:
        for d in (-3, -2, -1, 0, 1, 2, 3):
            for base in (1 << b, 0xfd, 0xfd00, 0xfe, 0xff, 0xffff, 0x10000, 0xffffffff):
                v = base + d if base != 1 << b else (1 << b) + d
                if 0 <= v < 2**64 and v not in seen:
                    seen.add(v)
                    yield v
    for v in list(range(0, 600)) + list(range(65000, 66100, 1 if tier == 'thorough' else 13)):
        if v not in seen:
            seen.add(v)
            yield v


def one(n):
    P = proto.mod()
    b = proto.make(header(n)).binary(MAGIC)
    same(b[24 + 81:], proto.varint(n), 'form of %d' % n)
    m = P.Message.parse(b, MAGIC)
    same(m.headers[0].txn_count, n, 'reading %d' % n)
    for form, size in ((b'', 1), (b'\xfd', 2), (b'\xfe', 4), (b'\xff', 8)):
        if n >= 256**size or not form and n >= 0xfd:
            continue
        p = b'\1' + b[25:24 + 81] + form + n.to_bytes(size, 'little')
        m = P.Message.parse(proto.frame(MAGIC, 'headers', p), MAGIC)
        same(m.headers[0].txn_count, n, 'reading %d from %d bytes' % (n, size + len(form)))
        same(m.binary(MAGIC), b, 'writing %d again' % n)
        # as the length of a list and of a text
        if n <= 300:
            q = form + n.to_bytes(size, 'little')
            m = P.Message.parse(proto.frame(MAGIC, 'reject', q + b'x' * n + b'\7' + q + b'y' * n), MAGIC)
            same((m.message, m.ccode, m.reason), (b'x' * n, 7, b'y' * n), 'text of length %d in %d bytes' % (n, size + len(form)))
        if n <= 20:
            m = P.Message.parse(proto.frame(MAGIC, 'inv', q + (b'\1\0\0\0' + b'h' * 32) * n), MAGIC)
            same(len(m.inventory), n, 'list of %d from %d bytes' % (n, size + len(form)))


@PROP.sub('borders', enum=counts, quick=48, rule='all numbers within 3 of each power of two and form border, 0..599 and around 65536: written shortest, read from every form that holds them')
def borders(c, t):
    one(c)


@PROP.sub('counts', gen=proto.varints, quick=600, thorough=40000, rule='random counts over the 64-bit range; non-trivial from 0xfd up')
def count(c, t):
    t.nontrivial(c >= 0xfd)
    one(c)


@PROP.sub('bad-counts', enum=lambda tier: [2**64, 2**64 + 1, -1, -2**63, 2**65, 2**128], rule='numbers that no form holds')
def bad_counts(c, t):
    raises(proto.mod().ParameterError, proto.make, header(c))


LENS = [0, 1, 252, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 70000]


@PROP.sub('texts', gen=st.tuples(st.one_of(st.sampled_from(LENS), gen.sizes(70000)), st.one_of(st.sampled_from(LENS), gen.sizes(600)), st.integers(0, 2**32), st.booleans()), quick=200, thorough=8000,
          rule='byte and text fields of all lengths around the forms, as bytes and as text; non-trivial from 253 bytes up')
def texts(c, t):
    n, m, seed, text = c
    P = proto.mod()
    t.nontrivial(max(n, m) >= 253)
    a, b = gen._expand(seed, 64) * (n // 64 + 1), gen._expand(seed + 1, 64) * (m // 64 + 1)
    a, b = a[:n], b[:m]
    f = (lambda x: x.decode('latin-1')) if text else (lambda x: x)
    out = P.Reject(f(a), 3, f(b)).binary(MAGIC)
    same(out[24:], proto.varint(n) + a + b'\3' + proto.varint(m) + b, 'encoding')
    r = P.Message.parse(out, MAGIC)
    same((r.message, r.ccode, r.reason), (a, 3, b), 'reading')


@PROP.sub('lists', enum=lambda tier: [0, 1, 252, 253, 254, 255, 256, 1000, 49999, 50000], quick=24, rule='list counts around the forms')
def lists(c, t):
    P = proto.mod()
    iv = P.InventoryVector(1, b'\2' * 32)
    out = P.Inventory([iv] * c).binary(MAGIC)
    same(out[24:], proto.varint(c) + (b'\1\0\0\0' + b'\2' * 32) * c, 'encoding of %d items' % c)
    if c in (0, 1, 252):
        h = P.GetBlocks(1, [b'\2' * 32] * (65536 + c), b'\3' * 32).binary(MAGIC)
        same(h[24:], b'\1\0\0\0' + proto.varint(65536 + c) + b'\2' * (32 * (65536 + c)) + b'\3' * 32, 'encoding of %d hashes' % (65536 + c))
    if c <= 1000:
        same(len(P.Message.parse(out, MAGIC).inventory), c, 'items read')


def address(s):
    P = proto.mod()
    return P.Address([P.NetworkAddress(1, 2, s, 0x1234)])


@PROP.sub('addresses', gen=proto.ips, quick=2500, thorough=200000, rule='IPv4 and IPv6 addresses in all usual spellings (zeros run together anywhere, leading zeros, upper case); non-trivial for IPv6')
def addresses(c, t):
    t.nontrivial(':' in c)
    P = proto.mod()
    b = address(c).binary(MAGIC)
    same(b[24:], b'\1\1\0\0\0\2\0\0\0\0\0\0\0' + proto.ip_bytes(c) + b'\x12\x34', 'encoding of %r' % c)
    a = P.Message.parse(b, MAGIC).addr_list[0]
    same(proto.ip_value(proto.ip_bytes(a.address)), proto.ip_value(proto.ip_bytes(c)), 'address read for %r: %r' % (c, a.address))
    same((a.timestamp, a.services, a.port), (1, 2, 0x1234), 'rest')
    same(P.Address([a]).binary(MAGIC), b, 'encoding of the address read')


raw16 = st.one_of(gen.blob(16), st.lists(st.sampled_from([b'\0\0', b'\0\1', b'\xff\xff', b'\1\0', b'\x20\1']), min_size=8, max_size=8).map(b''.join), gen.blob(4).map(lambda b: b'\0' * 10 + b'\xff\xff' + b), gen.blob(4).map(lambda b: b'\0' * 12 + b),
                  gen.blob(6).map(lambda b: b'\0' * 10 + b), gen.blob(6).map(lambda b: b'\0' * 9 + b'\1' + b))


@PROP.sub('bytes', gen=raw16, quick=800, thorough=50000, rule='all patterns of 16 address bytes, in particular near the IPv4 prefix')
def raw(c, t):
    P = proto.mod()
    p = b'\1\1\0\0\0\2\0\0\0\0\0\0\0' + c + b'\x12\x34'
    a = P.Message.parse(proto.frame(MAGIC, 'addr', p), MAGIC).addr_list[0]
    same(proto.ip_bytes(a.address), c, 'bytes of %r' % a.address)
    v4 = c[:12] == b'\0' * 10 + b'\xff\xff'
    same('.' in a.address, v4, 'kind of address %r' % a.address)
    same(address(a.address).binary(MAGIC)[24:][13:29], c, 'encoded again')


pieces = st.one_of(st.sampled_from([':', '::', '.', '', '0', 'g', ' ', '1', '256', 'ffff', '10000', 'fffff', '-1', '/', '1.2.3.4', '\n', '\0', '+1', '1_0', '0x1', '\u0661', '\uff11', '1e1', 'a', 'F']), st.integers(0, 300).map(str), st.text(max_size=3))
texts_ = st.one_of(st.lists(pieces, max_size=17).map(''.join), st.lists(st.integers(0, 300).map(str), max_size=6).map('.'.join), st.lists(st.sampled_from(['', '', '0', '1', 'ffff', '12345', 'g']), max_size=10).map(':'.join), st.text(max_size=12),
                   st.tuples(proto.ips, st.lists(gen.mutation(), min_size=1, max_size=2)).map(lambda a: gen.mutate(a[0].encode(), a[1]).decode('latin-1')))


def judge(s):
    "True, False or None (not judged)"
    if '%' in s or ':' in s and '.' in s:
        return None
    try:
        ipaddress.ip_address(s)
        return True
    except ValueError:
        if ':' not in s and s.count('.') == 3 and all(g.isdigit() and g.isascii() for g in s.split('.')) and any(len(g) > 1 and g[0] == '0' for g in s.split('.')):
            return None
        return False


@PROP.sub('not-addresses', gen=texts_, quick=4000, thorough=300000, rule='strings of address pieces, damaged addresses and other text; accepted exactly when an address; non-trivial when refused')
def nots(c, t):
    P = proto.mod()
    want = judge(c)
    if want is None:
        if ':' in c and '.' in c:
            try:
                ipaddress.ip_address(c)
            except ValueError:
                want = False
        if want is None:
            return
    t.nontrivial(not want)
    t.label('address' if want else 'other')
    if want:
        same(address(c).binary(MAGIC)[24:][13:29], proto.ip_bytes(c), 'encoding of %r' % c)
    else:
        raises(P.ParameterError, address, c)
        raises(P.ParameterError, P.NetworkAddress, 1, 2, address=c, port=5)


BASES = ['1.2.3.4', '0.0.0.0', '255.255.255.255', '10.200.30.199', '::', '::1', '1::', 'fe80::1:2', '1:2:3:4:5:6:7:8', 'ABCD:ef01::9:a', '2001:db8:0:0:1:0:0:1', '::ffff:102:304', '1:2:3::5:6:7:8']
CHARS = ['', '\n', '\r', '\t', ' ', '\0', '\x0b', '\xa0', '\u0661', '\uff11', '\u0967', '\u2460', '\xb2', '\u2028', ':', '.', ',', ';', '/', '-', '+', '_', 'g', 'G', 'x', '0', '1', '9', 'a', 'f', 'F', 'é', '"', '[', ']']


@PROP.sub('near-addresses', enum=lambda tier: [(b, i, how) for b in BASES for i in range(len(b) + 1) for how in ('insert', 'replace')], quick=400, rule='exhaustive: every typical address with any one character inserted, replaced or deleted, out of digits of several scripts, separators, blanks and letters')
def near_addresses(c, t):
    b, i, how = c
    if how == 'replace' and i == len(b):
        return
    P = proto.mod()
    for ch in CHARS:
        s = b[:i] + ch + b[i + (how == 'replace'):]
        want = judge(s)
        if want is None:
            continue
        if want:
            same(address(s).binary(MAGIC)[24:][13:29], proto.ip_bytes(s), 'encoding of %r' % s)
        else:
            t.nontrivial()
            raises(P.ParameterError, P.NetworkAddress, 1, 2, s, 5)


@PROP.sub('octets', enum=lambda tier: list(range(0, 301)) + [999, 1000, 65535, 65536, 2**32], quick=400, rule='exhaustive: every number 0 to 300 at every place of an IPv4 address, and every group value of that size in an IPv6 address')
def octets(n, t):
    P = proto.mod()
    t.nontrivial(n > 255)
    for i in range(4):
        for others in ('0', '1', '255'):
            s = '.'.join([others] * i + [str(n)] + [others] * (3 - i))
            if n < 256:
                same(address(s).binary(MAGIC)[24:][13:29], b'\0' * 10 + b'\xff\xff' + bytes([int(others)] * i + [n] + [int(others)] * (3 - i)), 'encoding of %r' % s)
                a = P.Message.parse(address(s).binary(MAGIC), MAGIC).addr_list[0].address
                same(a, s, 'address read')
            else:
                raises(P.ParameterError, P.NetworkAddress, 1, 2, s, 5)
    for i in range(8):
        for form in ('%x', '%X', '%04x'):
            s = ':'.join(['1'] * i + [form % n] + ['2'] * (7 - i))
            if n <= 0xffff:
                same(address(s).binary(MAGIC)[24:][13:29], b'\0\1' * i + n.to_bytes(2, 'big') + b'\0\2' * (7 - i), 'encoding of %r' % s)
            else:
                raises(P.ParameterError, P.NetworkAddress, 1, 2, s, 5)


@PROP.sub('prefix-bits', enum=lambda tier: list(range(-1, 128)), quick=150, rule='exhaustive: 16 address bytes one bit off the IPv4 prefix (and off ::, all ones and a mixed address) are read as what they are')
def prefix_bits(k, t):
    t.nontrivial(0 <= k < 96)
    for base in (b'\0' * 10 + b'\xff\xff\1\2\3\4', b'\0' * 10 + b'\xff\xff\0\0\0\0', b'\0' * 16, b'\xff' * 16, b'\x20\1\0\0\0\5\0\0\0\0\0\7\0\0\x10\0', b'\0' * 12 + b'\x0a\0\0\1'):
        n = int.from_bytes(base, 'big') ^ (1 << (127 - k) if k >= 0 else 0)
        raw(n.to_bytes(16, 'big'), t)
