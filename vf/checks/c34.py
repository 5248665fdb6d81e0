import hashlib
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C34', assumptions=['the sign bit of a compact value is no part of its 23-bit mantissa; values whose target exceeds 256 bits are outside the claim; the difficulty is a float, compared to one part in 10^12',
                                'the proof-of-work function of the coin is a stand-in that returns a chosen number'])
ONE = 0xffff << 208


def util():
    from nbc import util
    return util


def target(bits):
    e, m = bits >> 24, bits & 0x7fffff
    return m << 8 * (e - 3) if e >= 3 else m >> 8 * (3 - e)


mants = st.one_of(st.integers(0, 0x7fffff), gen.ints(0, 0x7fffff), st.integers(0, 255), st.integers(0, 0xffff), st.sampled_from([0x7fffff, 0xffff, 0x10000, 0x8000, 1, 0x100, 0x80]))
bitsv = st.tuples(st.one_of(st.integers(0, 34), st.integers(28, 33), st.integers(0, 4)), mants, st.sampled_from([0, 0, 0, 0x800000])).map(lambda a: a[0] << 24 | a[1] | a[2]).filter(lambda b: target(b) < 2**256)


def check(b):
    u = util()
    t = target(b)
    same(bytes(u.get_target(b)), t.to_bytes(32, 'big'), 'target of %#x' % b)
    if t:
        d = u.get_difficulty(b)
        expect(abs(Fraction(d) - Fraction(ONE, t)) <= Fraction(ONE, t) / 10**12, 'difficulty of %#x is %r, not %r', b, d, ONE / t)


@PROP.sub('exponents', enum=lambda tier: [e << 24 | m for e in range(35) for m in (0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x123456, 0x7fffff, 0x800000, 0x800001, 0x80ffff, 0xffffff) if target(e << 24 | m) < 2**256], rule='every exponent with border mantissas, with and without the sign bit')
def exponents(c, t):
    check(c)


@PROP.sub('bits', gen=bitsv, quick=2000, thorough=300000, rule='random compact values whose target fits 256 bits; non-trivial when the target is not zero')
def bits(c, t):
    t.nontrivial(target(c))
    t.label('exponent below 3' if c >> 24 < 3 else 'mantissa with bits cut' if False else 'shift up')
    check(c)
    same(util().get_difficulty(0x1d00ffff), 1.0, 'difficulty one')


class Coin(object):
    def __init__(self, pow_):
        self.pow = pow_
        self.seen = []

    def proof_of_work(self, header):
        self.seen.append(header)
        return self.pow


near = st.one_of(st.tuples(st.just('delta'), st.integers(-3, 3)), st.tuples(st.just('delta'), st.integers(0, 255).flatmap(lambda k: st.sampled_from([1 << k, -(1 << k)]))),
                 st.tuples(st.just('abs'), gen.ints(0, 2**256 - 1)), st.tuples(st.just('swap'), st.just(0)))


@PROP.sub('verify', gen=st.tuples(proto.part('BH'), bitsv, near), quick=1500, thorough=100000, rule='headers whose proof of work is at, one off, a bit off or far from the target; non-trivial within three of the target')
def verify(c, t):
    p, b, (how, x) = c
    p = p[:5] + (b,) + p[6:]
    tg = target(b)
    n = tg + x if how == 'delta' else x if how == 'abs' else int.from_bytes(tg.to_bytes(32, 'big')[::-1], 'big')
    n = max(0, min(n, 2**256 - 1))
    t.nontrivial(abs(n - tg) <= 3)
    coin = Coin(n.to_bytes(32, 'little'))
    h = proto.make_part(p)
    r = util().verify_target(coin, h)
    expect(r in (True, False), 'answer %r', r)
    same(bool(r), n <= tg, 'proof of work %x for target %x' % (n, tg))
    same(set(coin.seen), {proto.enc_val(('part', 'BH'), p)[:80]}, 'header given to the proof-of-work function')
    t.label('met' if r else 'missed')


class Sha(object):
    @staticmethod
    def proof_of_work(b):
        return hashlib.sha256(hashlib.sha256(b).digest()).digest()


@PROP.sub('mined', gen=st.tuples(proto.part('BH'), st.integers(0, 12)), quick=60, thorough=3000, rule='headers tried with many nonces under an easy target: accepted exactly for the nonces whose double SHA-256 is small enough')
def mined(c, t):
    p, k = c
    b = 0x20 << 24 | 0x7fffff >> k
    for nonce in range(40):
        q = p[:5] + (b, nonce) + p[7:]
        h = proto.make_part(q)
        n = int.from_bytes(Sha.proof_of_work(proto.enc_val(('part', 'BH'), q)[:80]), 'little')
        same(bool(util().verify_target(Sha, h)), n <= target(b), 'nonce %d' % nonce)
        same(int.from_bytes(h.hash, 'little'), n, 'hash')


@PROP.sub('hex', gen=gen.data(200), quick=1500, thorough=100000, rule='all byte strings to displayed hexadecimal and back, in either letter case, as text or bytes; non-trivial when not a palindrome')
def hexes(c, t):
    u = util()
    t.nontrivial(c != c[::-1])
    h = u.bin_to_hex(c)
    expect(isinstance(h, str), 'hexadecimal is %r', type(h))
    same(h.lower(), c[::-1].hex(), 'hexadecimal')
    for x in (h, h.upper(), h.encode()):
        same(bytes(u.hex_to_bin(x)), c, 'bytes')
