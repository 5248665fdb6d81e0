from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen
from ..refs import aes

PROP = Prop('C17')
keys = st.sampled_from([16, 24, 32]).flatmap(gen.blob)
modes = st.one_of(st.sampled_from([('ecb',), ('cbc',), ('ofb',), ('ctr', None)]), st.tuples(st.just('cbc')), st.tuples(st.just('ctr'), gen.ints(0, 2**128 - 1)),
                  st.tuples(st.just('cfb'), st.one_of(st.integers(1, 16), st.sampled_from([1, 8, 16]))))


def make(mode, k, iv):
    from nbc.util import pyaes
    n = mode[0]
    if n == 'ecb':
        return pyaes.AESModeOfOperationECB(k)
    if n == 'cbc':
        return pyaes.AESModeOfOperationCBC(k, iv)
    if n == 'ofb':
        return pyaes.AESModeOfOperationOFB(k, iv)
    if n == 'cfb':
        return pyaes.AESModeOfOperationCFB(k, iv, segment_size=mode[1])
    return pyaes.AESModeOfOperationCTR(k) if mode[1] is None else pyaes.AESModeOfOperationCTR(k, pyaes.Counter(mode[1]))


def pad(m):
    n = 16 - len(m) % 16
    return m + bytes([n]) * n


def reference(mode, k, iv, msg):
    n = mode[0]
    if n == 'ecb':
        p = pad(msg)
        a = aes.AES(k)
        return b''.join(a.enc(p[i:i + 16]) for i in range(0, len(p), 16))
    if n == 'cbc':
        return aes.cbc_enc(k, iv, pad(msg))
    if n == 'ofb':
        return aes.ofb(k, iv, msg)
    if n == 'ctr':
        return aes.ctr(k, 1 if mode[1] is None else mode[1], msg)
    seg = mode[1]
    z = msg + b'\0' * (-len(msg) % seg)
    return aes.cfb_enc(k, iv, z, seg)[:len(msg)]


def feed_all(f, data, cut, end):
    out = []
    for p in gen.pieces(data, cut):
        if p:
            r = f.feed(p)
            expect(type(r) is bytes, 'feed returned %s', type(r))
            out.append(r)
    r = f.feed(end)
    expect(type(r) is bytes, 'the final feed returned %s', type(r))
    return b''.join(out) + r, len(out)


def lengths():
    return st.one_of(st.integers(0, 40), st.sampled_from([15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65]), st.integers(0, 150))


@st.composite
def messages(draw):
    "any bytes; often with an end that looks like padding, or all one byte"
    b = draw(lengths().flatmap(gen.blob))
    how = draw(st.integers(0, 5))
    if how < 2 and b:
        n = draw(st.integers(1, min(17, len(b))))
        b = b[:-n] + bytes([draw(st.sampled_from([0, n & 255, 1, 16, 0x80, 0xff]))]) * n
    elif how == 2:
        b = bytes([draw(st.sampled_from([0, 1, 16, 255]))]) * len(b)
    return b


@PROP.sub('stream', gen=st.tuples(modes, keys, gen.blob(16), messages(), gen.cuts(80), gen.cuts(80), st.sampled_from([None, b''])), quick=2500, thorough=60000,
          rule='mode x message x two ways of cutting; non-trivial when fed in at least two pieces')
def stream(c, t):
    from nbc.util import pyaes
    mode, k, iv, msg, cut1, cut2, end = c
    want = reference(mode, k, iv, msg)
    e = pyaes.Encrypter(make(mode, k, iv))
    ct, n = feed_all(e, msg, cut1, end)
    t.nontrivial(n > 1)
    t.label(mode[0], 'key%d' % len(k))
    same(ct, want, 'ciphertext')
    for x in (b'x', b'', None):
        raises(ValueError, e.feed, x)
    d = pyaes.Decrypter(make(mode, k, iv))
    pt, _ = feed_all(d, want, cut2, end)
    same(pt, msg, 'plaintext')
    for x in (b'x', b'', None):
        raises(ValueError, d.feed, x)


@PROP.sub('bad-padding', gen=st.tuples(st.sampled_from(['ecb', 'cbc']), keys, gen.blob(16), st.integers(0, 3).flatmap(lambda n: gen.blob(16 * n)), st.one_of(
    st.tuples(st.just('blk'), gen.blob(16)), st.tuples(st.just('byte'), st.integers(0, 255), gen.blob(15)),
    st.tuples(st.just('near'), st.integers(1, 16), st.integers(1, 15), st.integers(1, 255))), gen.cuts(64)), quick=1500, thorough=40000,
    rule='ciphertexts of blocks that end in any padding: stripped exactly when valid; non-trivial when invalid')
def bad_padding(c, t):
    from nbc.util import pyaes
    mode, k, iv, body, tail, cut = c
    if tail[0] == 'blk':
        last = tail[1]
    elif tail[0] == 'byte':
        last = tail[2] + bytes([tail[1]])
    else:
        n = tail[1]
        last = bytearray(b'm' * (16 - n) + bytes([n]) * n)
        last[15 - tail[2]] ^= tail[3]
        last = bytes(last)
    plain = body + last
    n = plain[-1]
    valid = 1 <= n <= 16 and plain.endswith(bytes([n]) * n)
    a = aes.AES(k)
    ct = b''.join(a.enc(plain[i:i + 16]) for i in range(0, len(plain), 16)) if mode == 'ecb' else aes.cbc_enc(k, iv, plain)
    d = pyaes.Decrypter(make((mode,), k, iv))
    t.nontrivial(not valid)
    t.label('valid' if valid else 'pad%d' % min(n, 17))
    if valid:
        same(feed_all(d, ct, cut, None)[0], plain[:-n], 'plaintext')
    else:
        raises(ValueError, feed_all, d, ct, cut, None)


@PROP.sub('bad-length', gen=st.tuples(st.sampled_from(['ecb', 'cbc']), keys, gen.blob(16), lengths().flatmap(gen.blob), st.one_of(st.integers(1, 15), st.just(0)), gen.cuts(64)), quick=600, thorough=15000,
          rule='ciphertexts cut to a length that is no multiple of the block are refused')
def bad_length(c, t):
    from nbc.util import pyaes
    mode, k, iv, msg, drop, cut = c
    ct = reference((mode,), k, iv, msg)
    ct = ct[:-drop] if drop else b''
    raises(ValueError, feed_all, pyaes.Decrypter(make((mode,), k, iv)), ct, cut, None)


@PROP.sub('padding', gen=st.one_of(gen.data(80), st.integers(0, 5).flatmap(lambda n: gen.blob(16 * n)), st.tuples(gen.data(40), st.integers(0, 17)).map(lambda x: x[0] + bytes([x[1]]) * x[1])), quick=2000, thorough=50000,
          rule='the padding helpers')
def padding(b, t):
    from nbc.util.pyaes.util import append_PKCS7_padding as app, strip_PKCS7_padding as strip
    same(app(b), pad(b), 'padded')
    same(strip(app(b)), b, 'stripped')
    n = b[-1] if b else 0
    if b and len(b) % 16 == 0 and 1 <= n <= 16 and b.endswith(bytes([n]) * n):
        t.label('valid')
        same(strip(b), b[:-n], 'stripped')
    else:
        t.label('invalid')
        raises(ValueError, strip, b)


MODES = [('ecb',), ('cbc',), ('ofb',), ('ctr', None), ('cfb', 16), ('cfb', 11)]


@PROP.sub('big-feeds', enum=lambda tier: [(i, n, w) for i in range(len(MODES)) for n in [4095, 4096, 4097, 16385, 66000] + [140000] * (tier == 'thorough') for w in (0, 1)], quick=60, cpu=120,
          rule='thousands of bytes in one feed, alone or after a single byte')
def big_feeds(c, t):
    from nbc.util import pyaes
    i, n, w = c
    mode, k, iv = MODES[i], gen._expand(i + n, 16 + 8 * (n % 3)), gen._expand(n, 16)
    msg = gen._expand(n + w, n)
    want = reference(mode, k, iv, msg)
    for cls, a, b in ((pyaes.Encrypter, msg, want), (pyaes.Decrypter, want, msg)):
        f = cls(make(mode, k, iv))
        out = (f.feed(a[:1]) if w else b'') + f.feed(a[w:])
        same(out + f.feed(), b, cls.__name__)
        raises(ValueError, f.feed, b'x')
