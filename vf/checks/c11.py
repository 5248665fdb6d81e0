from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen
from ..refs import b58
from .c10 import text_edit, edits

PROP = Prop('C11', assumptions=['an altered text whose 32-bit checksum still matches does not occur by chance'])


def zdata(hi=120):
    return st.one_of(gen.data(hi), st.tuples(st.integers(0, 40), gen.data(hi)).map(lambda x: b'\0' * x[0] + x[1]),
                     st.tuples(gen.data(hi), st.integers(0, 10)).map(lambda x: x[0] + b'\0' * x[1]),
                     st.tuples(st.sampled_from([100, 127, 128, 129, 255, 256, 257, 300, 1000]), gen.data(20)).map(lambda x: b'\0' * x[0] + x[1]))


@PROP.sub('bytes', gen=zdata(), quick=4000, thorough=200000, rule='encode and decode byte strings; non-trivial when not empty')
def rt(b, t):
    from nbc.util import base58
    t.nontrivial(b)
    want = b58.enc(b)
    same(base58.b58encode(b), want, 'text')
    same(base58.b58decode(want), b, 'bytes')
    same(base58.b58decode(want.decode()), b, 'bytes from str')
    c = b58.enc_check(b)
    same(base58.encode_check(b), c, 'checked text')
    same(base58.decode_check(c), b, 'checked payload')
    if b[:1] == b'\0':
        t.label('leading-zero')


@PROP.sub('small', enum=lambda tier: [(n,) for n in range(0, 66000 if tier == 'thorough' else 6000)],
          rule='exhaustive: the n-th short byte string and the integer n')
def small(c, t):
    from nbc.util import base58
    n = c[0]
    b = b''
    m = n
    while m > 0:
        m -= 1
        b = bytes([m % 256]) + b
        m //= 256
    same(base58.b58encode(b), b58.enc(b), 'text of %r' % b)
    same(base58.b58decode(b58.enc(b)), b, 'bytes')
    s = base58.b58encode_int(n)
    same(base58.b58decode_int(s), n, 'integer')
    same(s, int_ref(n), 'integer text')


def int_ref(n):
    out = b''
    while n:
        n, d = divmod(n, 58)
        out = bytes([b58.A[d]]) + out
    return out or b'1'


@PROP.sub('ints', gen=gen.ints(0, 2**300), quick=2000, thorough=50000, rule='integers')
def ints(n, t):
    from nbc.util import base58
    s = base58.b58encode_int(n)
    same(s, int_ref(n), 'text')
    same(base58.b58decode_int(s), n, 'integer')
    same(base58.b58decode_int(b'1' + s), n, 'integer with a leading digit')


@PROP.sub('texts', gen=st.one_of(st.lists(st.integers(0, 57), max_size=60).map(lambda l: bytes(b58.A[i] for i in l)),
                                 st.text(alphabet='123zAB', max_size=12).map(str.encode)), quick=3000, thorough=100000,
          rule='every text over the alphabet is the text of what it decodes to, and is checked exactly')
def texts(s, t):
    from nbc.util import base58
    b = b58.dec(s)
    same(base58.b58decode(s), b, 'bytes')
    same(base58.b58encode(b), s, 'text again')
    same(base58.b58decode_int(s), int.from_bytes(b, 'big'), 'integer')
    same(base58.decode_check(s), b58.dec_check(s), 'checked payload')


@PROP.sub('altered', gen=st.tuples(zdata(60), edits), quick=4000, thorough=200000,
          rule='character edits of checked texts; non-trivial when the checksum no longer matches')
def altered(c, t):
    from nbc.util import base58
    s = text_edit(b58.enc_check(c[0]), c[1])
    t.nontrivial(b58.dec_check(s) is None)
    if b58.dec(s) is None:
        t.label('foreign')
        raises(ValueError, base58.decode_check, s)
        raises(ValueError, base58.b58decode, s)
        raises(ValueError, base58.b58decode_int, s)
        raises(ValueError, base58.b58decode, s.decode('latin-1'))
        return
    same(base58.decode_check(s), b58.dec_check(s), 'checked payload of altered text')


@PROP.sub('foreign', gen=st.tuples(st.text(max_size=12), st.text(alphabet='0OIl \n\t\0\x7fé€', min_size=1, max_size=1), st.text(alphabet='12zA', max_size=8)),
          quick=1500, thorough=40000, rule='a character outside the alphabet is an error')
def foreign(c, t):
    from nbc.util import base58
    s = ''.join(c)
    raises(ValueError, base58.b58decode, s)
    raises(ValueError, base58.decode_check, s)
    b = s.encode('utf-8', 'replace')
    if b58.dec(b) is None:
        raises(ValueError, base58.b58decode, b)


@PROP.sub('foreign-long', gen=st.tuples(st.one_of(gen.sizes(400, 1), st.integers(1, 400)), st.integers(0, 2**32), st.integers(0, 2**20), st.sampled_from([0x20, 0x0a, 0x09, 0x0d, 0, 0x30, 0x4f, 0x49, 0x6c, 0x7f, 0x80, 0xff, 0x2b, 0x2d])), quick=1000, thorough=30000,
          rule='one foreign character anywhere in a text of up to 400 characters, also at its ends')
def foreign_long(c, t):
    from nbc.util import base58
    n, seed, pos, ch = c
    s = bytes(b58.A[x % 58] for x in gen._expand(seed, n))
    i = {0: 0, 1: n}.get(pos % 4, pos % (n + 1))
    s = s[:i] + bytes([ch]) + s[i:]
    t.label('first' if i == 0 else 'last' if i == n else 'inside')
    raises(ValueError, base58.b58decode, s)
    raises(ValueError, base58.b58decode_int, s)
    raises(ValueError, base58.decode_check, s)


@PROP.sub('checksum-bits', gen=st.tuples(zdata(40), st.lists(gen.mutation(), min_size=1, max_size=2)), quick=3000, thorough=100000,
          rule='payload or checksum bytes changed before encoding; non-trivial when anything changed')
def bits(c, t):
    from nbc.util import base58
    full = c[0] + b58.dsha(c[0])[:4]
    mut = gen.mutate(full, c[1])
    t.nontrivial(mut != full)
    s = b58.enc(mut)
    same(base58.decode_check(s), b58.dec_check(s), 'checked payload')


LONG = [200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4096, 5000]


@PROP.sub('long', enum=lambda tier: [(n, z, s) for n in LONG[:-2] + (LONG[-2:] + [9001]) * (tier == 'thorough') for z in (0, 70) for s in (1, 2)], quick=200, cpu=120,
          rule='payloads of hundreds and thousands of bytes, after none and many leading zeros')
def long(c, t):
    from nbc.util import base58
    n, z, s = c
    v = b'\0' * z + gen._expand(s * 7919 + n, n)
    want = b58.enc(v)
    same(base58.b58encode(v), want, 'text')
    same(base58.b58decode(want), v, 'bytes')
    same(base58.encode_check(v), b58.enc_check(v), 'checked text')
    same(base58.decode_check(b58.enc_check(v)), v, 'checked payload')
    i = int.from_bytes(v, 'big')
    same(base58.b58decode_int(base58.b58encode_int(i)), i, 'integer')
    x = bytearray(b58.enc_check(v))
    i = (s * 31 + n) % len(x)
    x[i] = b58.A[(b58.A.index(x[i]) + 1 + s) % 58]
    same(base58.decode_check(bytes(x)), None, 'altered text')


@PROP.sub('zero-runs', enum=lambda tier: [(z, tail) for z in list(range(0, 700)) + [x + d for k in range(10, 18) for x in (2**k,) for d in (-1, 0, 1)] + [1000, 3000, 5000, 10000, 50000] for tail in (b'', b'\1', b'\xff\0')][::1 if tier == 'thorough' else 2], quick=1200,
          rule='exhaustive (quick: every second): runs of up to 131073 zero bytes, alone and before other bytes')
def zero_runs(c, t):
    from nbc.util import base58
    z, tail = c
    v = b'\0' * z + tail
    want = b'1' * z + b58.enc(tail)
    same(base58.b58encode(v), want, 'text')
    same(base58.b58decode(want), v, 'bytes')
    same(base58.b58decode(want.decode()), v, 'bytes from str')
    checked = b58.dsha(v)[:4]
    text = b'1' * z + b58.enc(tail + checked) if tail.strip(b'\0') else b58.enc_check(v) if z < 5000 else None
    if text is not None:
        same(base58.encode_check(v), text, 'checked text')
        same(base58.decode_check(text), v, 'checked payload')
    for d in (-1, 1):
        if z + d >= 0:
            expect(base58.b58decode(b'1' * (z + d) + b58.enc(tail)) == b'\0' * (z + d) + tail, 'one zero more or less')
            if text is not None and tail and z:
                same(base58.decode_check(b'1' * (z + d) + b58.enc(tail + checked)), None, 'checked text with one zero more or less')
