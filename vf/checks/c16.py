from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen
from ..refs import aes

PROP = Prop('C16')
keys = st.sampled_from([16, 24, 32]).flatmap(gen.blob)


@PROP.sub('block', gen=st.tuples(keys, gen.blob(16)), quick=1500, thorough=60000, rule='key x block, encrypted and decrypted with the reference cipher')
def block(c, t):
    from nbc.util.pyaes import AES, AESModeOfOperationECB
    k, b = c
    t.label('key%d' % len(k))
    ref = aes.AES(k)
    e = ref.enc(b)
    a = AES(k)
    same(bytes(a.encrypt(list(b))), e, 'encrypted block')
    same(bytes(a.decrypt(list(e))), b, 'decrypted block')
    same(bytes(a.decrypt(list(b))), ref.dec(b), 'decryption of the plaintext')
    m = AESModeOfOperationECB(k)
    same(m.encrypt(b), e, 'ECB')
    same(m.decrypt(e), b, 'ECB decryption')
    same(m.encrypt(b), e, 'ECB again')


def table_cases(tier):
    """every S-box entry in every position of key and block"""
    for n in (16, 24, 32):
        for v in range(256):
            yield (n, v)


@PROP.sub('tables', enum=table_cases, rule='exhaustive over byte values: every table entry in every lane')
def tables(c, t):
    n, v = c
    for i in range(4):
        k = bytes((v * (j + 3) + 17 * j + i) & 255 for j in range(n))
        block((k, bytes([v] * 16)), t)
        block((bytes([v] * n), bytes((v ^ (i * 16 + j)) & 255 for j in range(16))), t)


def pieces_of(data, cut, unit):
    out, i = [], 0
    for c in cut:
        out.append(data[i:i + c * unit])
        i += c * unit
    out.append(data[i:])
    return [p for p in out]


@PROP.sub('cbc', gen=st.tuples(keys, st.one_of(st.none(), gen.blob(16)), st.integers(0, 8).flatmap(lambda n: gen.blob(16 * n)), st.booleans()), quick=600, thorough=20000,
          rule='CBC over whole messages; non-trivial with at least two blocks')
def cbc(c, t):
    from nbc.util.pyaes import AESModeOfOperationCBC as M
    k, iv, msg, dup = c
    t.nontrivial(len(msg) >= 32)
    want = aes.cbc_enc(k, iv or b'\0' * 16, msg)
    e, d = M(k, iv=iv), M(k, iv=iv)
    ct = b''.join(e.encrypt(p) for p in (msg[i:i + 16] for i in range(0, len(msg), 16)))
    same(ct, want, 'ciphertext')
    pt = b''.join(d.decrypt(p) for p in (ct[i:i + 16] for i in range(0, len(ct), 16)))
    same(pt, msg, 'plaintext')
    rnd = M(k, iv=iv)
    same(b''.join(rnd.decrypt(msg[i:i + 16]) for i in range(0, len(msg), 16)), aes.cbc_dec(k, iv or b'\0' * 16, msg), 'decryption of arbitrary blocks')


@PROP.sub('cfb', gen=st.tuples(keys, st.one_of(st.none(), gen.blob(16)), st.one_of(st.just(None), st.integers(0, 16)), st.lists(st.integers(0, 6), max_size=6), st.integers(0, 2**32)), quick=800, thorough=20000,
          rule='CFB with segments of 1 to 16 bytes fed in pieces of whole segments; non-trivial with two non-empty pieces')
def cfb(c, t):
    from nbc.util.pyaes import AESModeOfOperationCFB as M
    k, iv, seg, cut, seed = c
    args = {} if seg is None else {'segment_size': seg}
    unit = seg or 1
    msg = gen._expand(seed, unit * sum(cut))
    t.nontrivial(len([x for x in cut if x]) > 1)
    t.label('seg%d' % unit)
    want = aes.cfb_enc(k, iv or b'\0' * 16, msg, unit)
    e, d = M(k, iv, **args), M(k, iv, **args)
    got = [e.encrypt(p) for p in pieces_of(msg, cut, unit)]
    same(b''.join(got), want, 'ciphertext')
    same([len(g) for g in got], [len(p) for p in pieces_of(msg, cut, unit)], 'piece lengths')
    same(b''.join(d.decrypt(p) for p in pieces_of(want, cut[::-1], unit)), msg, 'plaintext')


@PROP.sub('ofb', gen=st.tuples(keys, st.one_of(st.none(), gen.blob(16)), gen.data(120), gen.cuts(120)), quick=800, thorough=20000, rule='OFB fed in any pieces; non-trivial with over 16 bytes')
def ofb(c, t):
    from nbc.util.pyaes import AESModeOfOperationOFB as M
    k, iv, msg, cut = c
    t.nontrivial(len(msg) > 16)
    want = aes.ofb(k, iv or b'\0' * 16, msg)
    e, d = M(k, iv), M(k, iv)
    same(b''.join(e.encrypt(p) for p in gen.pieces(msg, cut)), want, 'ciphertext')
    same(b''.join(d.decrypt(p) for p in gen.pieces(want, cut[::-1])), msg, 'plaintext')


counters = st.one_of(gen.ints(0, 2**128 - 1), st.integers(0, 15).flatmap(lambda i: st.integers(0, 3).map(lambda d: 256**(i + 1) - 1 - d)),
                     st.integers(2**128 - 5, 2**128 - 1))


@PROP.sub('ctr', gen=st.tuples(keys, st.one_of(st.none(), counters), gen.data(120), gen.cuts(120)), quick=1000, thorough=25000,
          rule='CTR from any counter (with carries and wrap-around) in any pieces; non-trivial with over 16 bytes')
def ctr(c, t):
    from nbc.util.pyaes import AESModeOfOperationCTR as M, Counter
    k, start, msg, cut = c
    t.nontrivial(len(msg) > 16)
    blocks = (len(msg) + 15) // 16
    s = 1 if start is None else start
    t.label('wrap' if s + blocks > 2**128 else 'carry' if blocks > 1 and (s & 255) + blocks > 256 else 'plain')
    want = aes.ctr(k, s, msg)
    mk = lambda: M(k) if start is None else M(k, counter=Counter(start))
    e, d = mk(), mk()
    same(b''.join(e.encrypt(p) for p in gen.pieces(msg, cut)), want, 'ciphertext')
    same(b''.join(d.decrypt(p) for p in gen.pieces(want, cut[::-1])), msg, 'plaintext')


@PROP.sub('counter', gen=st.tuples(counters, st.integers(1, 600)), quick=400, thorough=10000, rule='the counter value after n increments')
def counter(c, t):
    from nbc.util.pyaes import Counter
    x = Counter(c[0])
    same(bytes(x.value), c[0].to_bytes(16, 'big'), 'initial value')
    for i in range(c[1]):
        x.increment()
    same(bytes(x.value), ((c[0] + c[1]) % 2**128).to_bytes(16, 'big'), 'value')


@PROP.sub('registry', enum=lambda tier: [(m, n) for m in ('ctr', 'cbc', 'cfb', 'ecb', 'ofb') for n in (16, 24, 32)], rule='modes by name')
def registry(c, t):
    from nbc.util.pyaes import AESModesOfOperation
    m, n = c
    k, msg, iv = bytes(range(n)), bytes(range(100, 116)), b'\0' * 16
    M = AESModesOfOperation[m]
    x = M(k, iv) if m == 'cfb' else M(k)
    want = {'ctr': lambda: aes.ctr(k, 1, msg), 'cbc': lambda: aes.cbc_enc(k, iv, msg), 'cfb': lambda: aes.cfb_enc(k, iv, msg, 1),
            'ecb': lambda: aes.AES(k).enc(msg), 'ofb': lambda: aes.ofb(k, iv, msg)}[m]()
    same(x.encrypt(msg), want, m)


@PROP.sub('bad-sizes', gen=st.tuples(st.one_of(st.integers(0, 70)), st.integers(0, 40), st.integers(0, 40), st.integers(2, 16)), quick=800, thorough=10000,
          rule='keys, initial vectors, blocks and segments of a wrong length are refused')
def bad_sizes(c, t):
    from nbc.util import pyaes
    kl, il, bl, seg = c
    key = bytes(kl)
    if kl not in (16, 24, 32):
        for f in (lambda: pyaes.AES(key), lambda: pyaes.AESModeOfOperationECB(key), lambda: pyaes.AESModeOfOperationCBC(key), lambda: pyaes.AESModeOfOperationCTR(key),
                  lambda: pyaes.AESModeOfOperationOFB(key), lambda: pyaes.AESModeOfOperationCFB(key, bytes(16))):
            raises(ValueError, f)
    key = bytes(range(16))
    if il != 16:
        for M in (pyaes.AESModeOfOperationCBC, pyaes.AESModeOfOperationCFB, pyaes.AESModeOfOperationOFB):
            raises(ValueError, M, key, bytes(il))
    if bl != 16:
        for m in (pyaes.AESModeOfOperationECB(key), pyaes.AESModeOfOperationCBC(key)):
            raises(ValueError, m.encrypt, bytes(bl))
            raises(ValueError, m.decrypt, bytes(bl))
        raises(ValueError, pyaes.AES(key).encrypt, [0] * bl)
        raises(ValueError, pyaes.AES(key).decrypt, [0] * bl)
        # a refused block leaves the chain alone
        m = pyaes.AESModeOfOperationCBC(key)
        a = m.decrypt(b'a' * 16)
        raises(ValueError, m.decrypt, bytes(range(bl)))
        same(a + m.decrypt(b'b' * 16), aes.cbc_dec(key, bytes(16), b'a' * 16 + b'b' * 16), 'decryption chain after a refused block')
        m = pyaes.AESModeOfOperationCBC(key)
        a = m.encrypt(b'a' * 16)
        raises(ValueError, m.encrypt, bytes(bl))
        same(a + m.encrypt(b'b' * 16), aes.cbc_enc(key, bytes(16), b'a' * 16 + b'b' * 16), 'chain after a refused block')
    if bl % seg:
        m = pyaes.AESModeOfOperationCFB(key, bytes(16), segment_size=seg)
        raises(ValueError, m.encrypt, bytes(bl))
        raises(ValueError, m.decrypt, bytes(bl))
        same(m.encrypt(b'z' * 2 * seg), aes.cfb_enc(key, bytes(16), b'z' * 2 * seg, seg), 'CFB after refused pieces')
    raises(ValueError, pyaes.AESModeOfOperationCFB, key, bytes(16), segment_size=17 + il)


BIG = [255, 256, 257, 1024, 4095, 4096, 4097, 5000, 8192, 16384, 20000]


@PROP.sub('big-pieces', enum=lambda tier: [(m, n, kl) for m in ('ofb', 'ctr', 'cfb1', 'cfb16', 'cfb5') for n in BIG + [70000] * (tier == 'thorough') for kl in (16, 24, 32) if m != 'cfb1' or n < 1100], quick=200, cpu=60,
          rule='one call with up to 20000 bytes, then a short one')
def big_pieces(c, t):
    from nbc.util import pyaes
    m, n, kl = c
    k, iv = gen._expand(n * 31 + kl, kl), gen._expand(n, 16)
    if m[:3] == 'cfb':
        n -= n % int(m[3:])
    unit = int(m[3:]) if m[:3] == 'cfb' else 1
    msg = gen._expand(n + 7, n + 9 * unit)
    if m == 'ofb':
        mk, want = lambda: pyaes.AESModeOfOperationOFB(k, iv), aes.ofb(k, iv, msg)
    elif m == 'ctr':
        start = int.from_bytes(iv, 'big')
        mk, want = lambda: pyaes.AESModeOfOperationCTR(k, pyaes.Counter(start)), aes.ctr(k, start, msg)
    else:
        mk, want = lambda: pyaes.AESModeOfOperationCFB(k, iv, segment_size=unit), aes.cfb_enc(k, iv, msg, unit)
    e, d = mk(), mk()
    same(e.encrypt(msg[:n]) + e.encrypt(msg[n:]), want, 'ciphertext')
    same(d.decrypt(want[:9 * unit]) + d.decrypt(want[9 * unit:]), msg, 'plaintext')
