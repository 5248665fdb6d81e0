from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen
from ..wal import der_len

PROP = Prop('C23', assumptions=['identifier arcs: first 0-2, second 0-39; constructed tags 0-30; integers non-negative (the documented domain)',
                                'an ordinary error is any exception except those of exhausted resources'])


def D():
    from nbc.util.ecdsa import der
    return der


def tlv(tag, body):
    return bytes([tag]) + der_len(len(body)) + body


def r_int(v):
    return tlv(2, v.to_bytes(v.bit_length() // 8 + 1, 'big'))


def r_b128(v):
    out = [v & 127]
    while v > 127:
        v >>= 7
        out.insert(0, v & 127 | 128)
    return bytes(out)


def r_oid(arcs):
    return tlv(6, b''.join(map(r_b128, (40 * arcs[0] + arcs[1],) + tuple(arcs[2:]))))


numbers = st.one_of(gen.ints(0, 2**64), st.integers(0, 2**521), st.integers(0, 70).flatmap(lambda k: st.integers(1 << 8 * k, (1 << 8 * k) + 300)),
                    st.sampled_from([119, 120, 126, 127, 128, 129, 130, 200, 255, 256, 300]).flatmap(lambda k: gen.ints(1 << 8 * k - 9, (1 << 8 * k) - 1)),
                    st.sampled_from([127, 128, 255, 256, 32767, 32768, 2**1000 - 1, 2**1015, 2**1016 - 1, 2**1016, 2**2039, 2**2040]))
strings = st.one_of(gen.data(400), st.sampled_from([126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536]).flatmap(gen.blob))
arcs = st.tuples(st.integers(0, 2), st.integers(0, 39), st.lists(st.one_of(gen.ints(0, 2**70), st.sampled_from([0, 1, 127, 128, 16383, 16384, 2**32 - 1])), max_size=8)).map(lambda a: a[:2] + tuple(a[2]))
leaf = st.one_of(st.tuples(st.just('int'), numbers), st.tuples(st.just('oct'), strings), st.tuples(st.just('bit'), strings), st.tuples(st.just('oid'), arcs))
tree = st.recursive(leaf, lambda ch: st.one_of(st.tuples(st.just('seq'), st.lists(ch, max_size=5)), st.tuples(st.just('con'), st.integers(0, 30), ch)), max_leaves=8)


def enc(x):
    der = D()
    k = x[0]
    if k == 'seq':
        return der.encode_sequence(*[enc(i) for i in x[1]])
    if k == 'con':
        return der.encode_constructed(x[1], enc(x[2]))
    if k == 'oid':
        return der.encode_oid(*x[1])
    return {'int': der.encode_integer, 'oct': der.encode_octet_string, 'bit': der.encode_bitstring}[k](x[1])


def ref(x):
    k = x[0]
    if k == 'seq':
        return tlv(0x30, b''.join(map(ref, x[1])))
    if k == 'con':
        return tlv(0xa0 + x[1], ref(x[2]))
    return r_oid(x[1]) if k == 'oid' else r_int(x[1]) if k == 'int' else tlv(4 if k == 'oct' else 3, x[1])


def dec(x, b):
    "decode by the expected shape, returning the value tree and the rest"
    der = D()
    k = x[0]
    if k == 'seq':
        body, rest = der.remove_sequence(b)
        out = []
        for i in x[1]:
            v, body = dec(i, body)
            out.append(v)
        same(body, b'', 'rest of a sequence')
        return ('seq', out), rest
    if k == 'con':
        tag, body, rest = der.remove_constructed(b)
        v, body = dec(x[2], body)
        same(body, b'', 'rest of a constructed element')
        return ('con', tag, v), rest
    fn = {'int': der.remove_integer, 'oct': der.remove_octet_string, 'bit': der.remove_bitstring, 'oid': der.remove_object}[k]
    v, rest = fn(b)
    return (k, tuple(v) if k == 'oid' else v), rest


@PROP.sub('trees', gen=st.tuples(tree, gen.data(20)), quick=1500, thorough=60000,
          rule='random nestings of every element kind with trailing bytes; non-trivial when nested or longer than 127 bytes')
def trees(c, t):
    x, tail = c
    want = ref(x)
    got = enc(x)
    same(got, want, 'encoding of %s' % short(x))
    v, rest = dec(x, got + tail)
    same(v, x, 'decoded value')
    same(rest, tail, 'trailing bytes')
    t.nontrivial(x[0] in ('seq', 'con') or len(want) > 129)
    t.label(x[0], 'long' if len(want) > 129 else 'short')


@PROP.sub('lengths', gen=st.one_of(gen.ints(0, 2**64), st.integers(0, 2**1000)), quick=600, thorough=30000, rule='lengths of any size; non-trivial in long form')
def lengths(c, t):
    der = D()
    t.nontrivial(c > 127)
    same(der.encode_length(c), der_len(c), 'encode_length(%d)' % c)
    for tail in (b'', b'\0', b'\xff' * 5):
        same(der.read_length(der_len(c) + tail), (c, len(der_len(c))), 'read_length')
    same(der.encode_number(c), r_b128(c), 'encode_number(%d)' % c)
    for tail in (b'', b'\x80'):
        same(der.read_number(r_b128(c) + tail), (c, len(r_b128(c))), 'read_number')
    for i in range(len(der_len(c))):
        raises(Exception, der.read_length, der_len(c)[:i])
    for i in range(len(r_b128(c))):
        raises(Exception, der.read_number, r_b128(c)[:i])
    raises(Exception, der.encode_length, -1 - c)
    raises(Exception, der.encode_integer, -1 - c)


def small_lengths(tier):
    for lo in range(0, 70000 if tier == 'quick' else 70000, 2500):
        yield (lo, lo + 2500)


@PROP.sub('integers', enum=small_lengths, quick=48, rule='exhaustive: every integer below 70000')
def integers(c, t):
    der = D()
    for v in range(*c):
        e = der.encode_integer(v)
        if e != r_int(v) or der.remove_integer(e + b'\x02') != (v, b'\x02'):
            raise Fail('integer %d' % v)


def header(b):
    "(content start, content length) or None"
    if len(b) < 2:
        return None
    n = b[1]
    if n < 128:
        return 2, n
    k = n & 127
    if k == 0 or len(b) < 2 + k:
        return None
    return 2 + k, int.from_bytes(b[2:2 + k], 'big')


def r_remove(kind, b):
    """what a decoder may return for b, or None where it must raise"""
    h = header(b)
    tags = {'seq': 0x30, 'oct': 4, 'oid': 6, 'int': 2, 'bit': 3}
    if h is None or (b[0] & 0xe0 != 0xa0 if kind == 'con' else b[0] != tags[kind]):
        return None
    if h[0] + h[1] > len(b):
        return None
    body, rest = b[h[0]:h[0] + h[1]], b[h[0] + h[1]:]
    if kind == 'con':
        return b[0] & 31, body, rest
    if kind == 'int':
        if not body or body[0] > 127:
            return None
        return int.from_bytes(body, 'big'), rest
    if kind == 'oid':
        if not body or body[-1] > 127:
            return None
        out, v = [], 0
        for x in body:
            v = v << 7 | x & 127
            if x < 128:
                out.append(v)
                v = 0
        first = min(out[0] // 40, 2)
        return (first, out[0] - 40 * first) + tuple(out[1:]), rest
    return body, rest


KINDS = ['seq', 'oct', 'oid', 'int', 'bit', 'con']
raw = st.one_of(gen.data(60), st.tuples(numbers, st.integers(128, 255), gen.data(3)).map(lambda x: tlv(2, bytes([x[1]]) + x[0].to_bytes(x[0].bit_length() // 8 + 1, 'big')[1:]) + x[2]), st.tuples(st.sampled_from(list(b'\x30\x04\x06\x02\x03\xa0\xa1\xbf')), gen.data(40)).map(lambda x: bytes([x[0], len(x[1])]) + x[1]),
                st.tuples(tree.map(ref), st.lists(gen.mutation(), min_size=1, max_size=3)).map(lambda x: gen.mutate(x[0][:2000], x[1])),
                st.tuples(st.sampled_from(list(b'\x30\x04\x06\x02\x03\xa0')), st.integers(0, 9), gen.data(30)).map(lambda x: bytes([x[0], 128 | x[1]]) + x[2]))


@PROP.sub('arbitrary', gen=st.tuples(raw, st.sampled_from(KINDS)), quick=3000, thorough=200000,
          rule='arbitrary and mutated bytes to every decoder; non-trivial when the tag matches', cpu=20)
def arbitrary(c, t):
    der = D()
    b, k = c
    fns = {'seq': der.remove_sequence, 'oct': der.remove_octet_string, 'oid': der.remove_object, 'int': der.remove_integer,
           'bit': der.remove_bitstring, 'con': der.remove_constructed}
    for kind in KINDS:
        want = r_remove(kind, b)
        try:
            got = fns[kind](b)
        except (MemoryError, RecursionError):
            raise
        except Exception:
            got = None
        if want is not None and kind != 'oid' and ref_canonical(kind, want, b):
            expect(got is not None, 'canonical %s %s refused', kind, short(b))
        if got is not None:
            t.nontrivial(True)
            t.label('decoded ' + kind)
            expect(want is not None, '%s decoder returned %s for %s', kind, short(got), short(b))
            same(got, want, '%s decoder' % kind)
    if r_remove(k, b) is None:
        t.nontrivial(False)


def ref_canonical(kind, want, b):
    body = want[1] if kind == 'con' else want[0]
    rest = want[-1]
    if kind == 'int':
        return r_int(body) + rest == b
    return tlv(b[0], body) + rest == b


@PROP.sub('pem', gen=st.tuples(gen.data(300), st.sampled_from(['PUBLIC KEY', 'EC PRIVATE KEY', 'X', 'A B-C'])), quick=300, thorough=10000, rule='PEM text of any bytes, LF or CRLF, str or bytes')
def pem(c, t):
    import base64, textwrap
    der = D()
    b, name = c
    p = der.topem(b, name)
    body = base64.b64encode(b).decode()
    lines = ['-----BEGIN %s-----' % name] + [body[i:i + 64] for i in range(0, len(body), 64)] + ['-----END %s-----' % name]
    same(p, ('\n'.join(lines) + '\n').encode(), 'PEM text')
    for v in (p, p.decode(), p.replace(b'\n', b'\r\n'), b'\n' + p + b'\n'):
        same(der.unpem(v), b, 'unpem')
    t.nontrivial(len(b) > 48)


@PROP.sub('pem-lengths', enum=lambda tier: [(n, k) for n in range(0, 420) for k in range(2)], quick=840, rule='PEM text of every length up to 420 bytes')
def pem_lengths(c, t):
    n, k = c
    pem((gen._expand(n * 2 + k, n), 'X' if k else 'PUBLIC KEY'), t)
