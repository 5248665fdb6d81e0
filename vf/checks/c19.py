import hashlib, types
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen
from ..refs import ec
from .c18 import NAMES, lib, scal, blen

PROP = Prop('C19')
HASHES = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512']


def order_gen(q):
    class G(object):
        def order(self):
            return q
    return G()


def ref_k(q, x, h1, h):
    rej = 0
    for k in ec.rfc6979(q, x, h1, h):
        if k is not None:
            return k, rej
        rej += 1


orders = st.one_of(gen.ints(3, 2**32), st.integers(2, 600).flatmap(lambda b: st.integers(2**(b - 1) + 1, 2**b - 1)),
                   st.integers(2, 600).map(lambda b: 2**(b - 1) + 1), st.integers(2, 600).map(lambda b: 2**b - 1),
                   st.sampled_from([ec.BY_NAME[n].n for n in NAMES]), st.just(0x4000000000000000000020108A2E0CC0D99F8A5EF))


@PROP.sub('nonce', gen=orders.flatmap(lambda q: st.tuples(st.just(q), gen.scalars(q) if q > 300 else st.integers(1, q - 1), st.sampled_from(HASHES), st.one_of(st.none(), st.integers(1, 80)), st.integers(0, 2**32))),
          quick=4000, thorough=120000, rule='any order x key x hash x digest (of the hash\'s length or any other); non-trivial counts all, rejected candidates are labelled')
def nonce(c, t):
    from nbc.util.ecdsa import rfc6979
    q, x, h, dl, seed = c
    if not 1 <= x < q:
        t.nontrivial(False)
        return
    dig = gen._expand(seed, hashlib.new(h).digest_size if dl is None else dl)
    want, rej = ref_k(q, x, dig, h)
    t.label('rejected%d' % min(rej, 3), 'qlen%%8=%d' % (q.bit_length() % 8))
    got = rfc6979.generate_k(order_gen(q), x, getattr(hashlib, h), dig)
    same(got, want, 'nonce for order %x' % q)


@PROP.sub('big-digest', gen=st.tuples(orders, st.integers(1, 2**521), st.sampled_from(HASHES), st.integers(-3, 3)), quick=1500, thorough=40000,
          rule='digests whose leading bits are at or around the order (reduced once)')
def big_digest(c, t):
    from nbc.util.ecdsa import rfc6979
    q, x, h, dz = c
    x = x % (q - 1) + 1
    hl = hashlib.new(h).digest_size
    ql = q.bit_length()
    z = (q + dz) % 2**ql
    dig = (z << (8 * hl - ql)) if 8 * hl >= ql else z >> (ql - 8 * hl)
    dig = dig.to_bytes(hl, 'big')
    same(rfc6979.generate_k(order_gen(q), x, getattr(hashlib, h), dig), ref_k(q, x, dig, h)[0], 'nonce')


@PROP.sub('curves', gen=st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), st.sampled_from(HASHES), gen.data(100), gen.data(100))), quick=100, thorough=4000,
          rule='deterministic signatures on the six curves equal the reference with the RFC 6979 nonce; non-trivial when the two messages differ')
def curves(c, t):
    from nbc.util.ecdsa import SigningKey, util
    name, d, h, m1, m2 = c
    cv, R = lib(name), ec.BY_NAME[name]
    hf = getattr(hashlib, h)
    if hashlib.new(h).digest_size > blen(R):
        h, hf = 'sha1', hashlib.sha1
    sk = SigningKey.from_secret_exponent(d, cv, hf)
    rs = []
    for m in (m1, m2):
        dig = hf(m).digest()
        k = ref_k(R.n, d, dig, h)[0]
        want = ec.ecdsa_sign(R, d, int.from_bytes(dig, 'big'), k)
        same(sk.sign_deterministic(m, sigencode=lambda r, s, o: (r, s)), want, 'deterministic signature')
        rs.append(want[0])
    same(sk.sign_digest_deterministic(dig, hashfunc=hf, sigencode=lambda r, s, o: (r, s)), want, 'deterministic digest signature')
    same(SigningKey.from_secret_exponent(d, cv).sign_deterministic(m2, hashfunc=hf, sigencode=util.sigencode_string),
         want[0].to_bytes(blen(R), 'big') + want[1].to_bytes(blen(R), 'big'), 'repeated with an explicit hash')
    t.nontrivial(m1 != m2)
    if m1 != m2:
        expect(rs[0] != rs[1], 'two messages share a nonce')


@PROP.sub('digests', gen=st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), st.sampled_from(HASHES), st.binary(min_size=0, max_size=8), st.integers(0, 70), st.integers(0, 70), st.sampled_from([0, 255, 32, 10]), st.booleans())), quick=150, thorough=4000,
          rule='digests with long equal runs at their head or tail, of every length the curve admits, signed deterministically; non-trivial when the digest begins or ends with a zero byte')
def digests(c, t):
    from nbc.util.ecdsa import SigningKey
    name, d, h, body, head, tail, fill, full = c
    cv, R = lib(name), ec.BY_NAME[name]
    if hashlib.new(h).digest_size > blen(R):
        h = 'sha1'
    size = hashlib.new(h).digest_size if full else blen(R)
    dig = (bytes([fill]) * head + body + bytes([fill]) * tail)
    dig = dig[-size:] if head % 2 else dig[:size]
    if full:
        dig = dig.rjust(size, bytes([fill]))
    if not dig:
        t.nontrivial(False)
        return
    t.nontrivial(not dig[0] or not dig[-1])
    k = ref_k(R.n, d, dig, h)[0]
    want = ec.ecdsa_sign(R, d, int.from_bytes(dig, 'big'), k)
    sk = SigningKey.from_secret_exponent(d, cv, hashlib.sha1)
    same(sk.sign_digest_deterministic(dig, hashfunc=getattr(hashlib, h), sigencode=lambda r, s, o: (r, s)), want, 'deterministic signature of %r' % dig)
