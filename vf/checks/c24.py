from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, toy
from ..refs import ec
from ..wal import der_sig

PROP = Prop('C24', assumptions=['orders of at least two; numbers from zero to order minus one'])


def U():
    from nbc.util.ecdsa import util
    return util


orders = st.one_of(st.sampled_from([c.n for c in ec.BY_NAME.values()]), gen.ints(2, 2**600), st.integers(2, 70000),
                   st.integers(1, 70).flatmap(lambda k: st.integers(0, 6).map(lambda d: (1 << 8 * k) - 3 + d)),
                   st.integers(2, 560).flatmap(lambda k: st.integers(0, 4).map(lambda d: (1 << k) - 2 + d)).map(lambda v: max(v, 2)))


@st.composite
def cases(draw):
    n = draw(orders)
    num = st.one_of(gen.ints(0, n - 1), st.integers(-4, 4).map(lambda d: (n // 2 + d) % n), st.integers(-4, 4).map(lambda d: d % n))
    return n, draw(num), draw(num)


def size(n):
    return (len('%x' % n) + 1) // 2


@PROP.sub('encodings', gen=cases(), quick=2500, thorough=120000,
          rule='orders of 2 to 600 bits, numbers uniform, at the ends and around half the order; non-trivial when s is within 4 of the half')
def encodings(c, t):
    u = U()
    n, r, s = c
    l = size(n)
    t.nontrivial(abs(2 * s - n) <= 8)
    rb, sb = r.to_bytes(l, 'big'), s.to_bytes(l, 'big')
    same(u.sigencode_string(r, s, n), rb + sb, 'sigencode_string')
    same(tuple(u.sigencode_strings(r, s, n)), (rb, sb), 'sigencode_strings')
    same(u.sigencode_der(r, s, n), der_sig(r, s), 'sigencode_der')
    same(tuple(u.sigdecode_string(rb + sb, n)), (r, s), 'sigdecode_string')
    same(tuple(u.sigdecode_strings((rb, sb), n)), (r, s), 'sigdecode_strings')
    same(tuple(u.sigdecode_der(der_sig(r, s), n)), (r, s), 'sigdecode_der')
    low = min(s, n - s)
    lb = low.to_bytes(l, 'big')
    same(u.sigencode_string_canonize(r, s, n), rb + lb, 'sigencode_string_canonize')
    same(tuple(u.sigencode_strings_canonize(r, s, n)), (rb, lb), 'sigencode_strings_canonize')
    same(u.sigencode_der_canonize(r, s, n), der_sig(r, low), 'sigencode_der_canonize')
    same(u.number_to_string(r, n), rb, 'number_to_string')
    same(u.string_to_number(rb), r, 'string_to_number')
    same(u.string_to_number_fixedlen(rb, n), r, 'string_to_number_fixedlen')
    same(u.number_to_string_crop(r, n), rb, 'number_to_string_crop')


@PROP.sub('half', enum=lambda tier: [(a, a + 40) for a in range(2, 300 if tier == 'quick' else 1200, 40)], quick=48, rule='exhaustive: every s of every order below the bound')
def half(c, t):
    u = U()
    for n in range(*c):
        l = size(n)
        for s in range(n):
            got = u.sigencode_string_canonize(1, s, n)
            low = min(s, n - s) if s else 0
            if got != (1).to_bytes(l, 'big') + low.to_bytes(l, 'big') or u.sigencode_der_canonize(1, s, n) != der_sig(1, low) or u.sigencode_strings_canonize(1, s, n)[1] != low.to_bytes(l, 'big'):
                raise Fail('canonical form of s = %d for order %d' % (s, n))


@PROP.sub('wrong-length', gen=st.tuples(cases(), st.integers(1, 5), gen.data(5, 1), st.integers(0, 200)), quick=800, thorough=40000, rule='short, long and cut encodings; every case counts')
def wrong(c, t):
    u = U()
    (n, r, s), k, tail, cut = c
    l = size(n)
    rb, sb = r.to_bytes(l, 'big'), s.to_bytes(l, 'big')
    full = rb + sb
    for bad in (full + tail, tail + full, full[:-k], full[k:], full + full, b'', full[:l]):
        if len(bad) != len(full):
            raises(Exception, u.sigdecode_string, bad, n)
    for bad in ((rb + tail, sb), (rb, sb + tail), (rb[:-1], sb), (rb, sb[1:]), (rb[:-1], sb + b'\0'), (rb + sb, b''), (b'', b'')):
        raises(Exception, u.sigdecode_strings, bad, n)
    for bad in ((rb,), (rb, sb, sb)):
        raises(Exception, u.sigdecode_strings, bad, n)
    for bad in (rb + tail, rb[:-1], b''):
        raises(Exception, u.string_to_number_fixedlen, bad, n)
    d = der_sig(r, s)
    raises(Exception, u.sigdecode_der, d + tail, n)
    raises(Exception, u.sigdecode_der, d[:cut % len(d)], n)
    raises(Exception, u.sigdecode_der, tail + d if tail[0] != 0x30 else b'\x31' + d, n)
    # a third number or bytes inside the sequence
    inner = d[2:] if d[1] < 128 else d[3:] if d[1] == 0x81 else d[4:]
    from ..wal import der_len
    for extra in (b'\x02\x01\x01', tail):
        b = inner + extra
        raises(Exception, u.sigdecode_der, b'\x30' + der_len(len(b)) + b, n)
    for short in (inner[:-1], b''):
        raises(Exception, u.sigdecode_der, b'\x30' + der_len(len(short)) + short, n)
    if r >= 1:
        raises(Exception, u.number_to_string, r << 8 * l, n)


@PROP.sub('validity', gen=st.tuples(st.sampled_from(sorted(ec.BY_NAME)), st.integers(0, 10**9), gen.data(30)), quick=24, thorough=800,
          rule='signatures in every encoding, plain and low, verify on every curve')
def validity(c, t):
    from nbc.util.ecdsa import SigningKey, curves
    u = U()
    name, seed, data = c
    R = ec.BY_NAME[name]
    d = int.from_bytes(gen._expand(seed, 80), 'big') % (R.n - 1) + 1
    k = int.from_bytes(gen._expand(seed + 1, 80), 'big') % (R.n - 1) + 1
    sk = SigningKey.from_secret_exponent(d, getattr(curves, name))
    vk = sk.get_verifying_key()
    for e, dd in (('string', 'string'), ('strings', 'strings'), ('der', 'der'), ('string_canonize', 'string'), ('strings_canonize', 'strings'), ('der_canonize', 'der')):
        sig = sk.sign(data, sigencode=getattr(u, 'sigencode_' + e), k=k)
        expect(vk.verify(sig, data, sigdecode=getattr(u, 'sigdecode_' + dd)) is True, '%s does not verify', e)
        if 'canonize' in e:
            expect(getattr(u, 'sigdecode_' + dd)(sig, R.n)[1] <= R.n // 2, 'not the low form')
