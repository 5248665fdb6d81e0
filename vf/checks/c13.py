from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C13')


def key_of(text):
    b = b58.dec_check(text)
    expect(b is not None and b[:1] == b'\x80' and len(b) == 33, 'not a private key text: %r', text)
    return int.from_bytes(b[1:], 'big')


def scrambled(l, seed):
    import random
    l = list(l)
    random.Random(seed).shuffle(l)
    return l


@PROP.sub('split', gen=st.tuples(gen.scalars(), st.booleans(), st.one_of(st.none(), st.integers(1, 12), gen.sizes(60, 1), st.sampled_from([100, 128, 255, 256, 257, 300, 1000, 1025])), st.integers(0, 2**32)), quick=600, thorough=20000,
          rule='split into n parts and combine in any order; non-trivial with at least two parts')
def split(c, t):
    from nbc.util import piecewise
    k, comp, n, seed = c
    wif = wal.ref_wif(k, comp)
    parts = piecewise.split_private_key(wif) if n is None else piecewise.split_private_key(wif, n)
    n = 2 if n is None else n
    t.nontrivial(n > 1)
    same(len(parts), n, 'number of parts')
    vals = [key_of(p) for p in parts]
    expect(all(0 <= v < wal.N for v in vals), 'part out of range')
    expect(sum(vals) % wal.N == k, 'parts do not sum to the key')
    same(len(set(vals)), n, 'number of different parts')     # equal only once in 2**250
    if n > 1:
        expect(k not in vals, 'a part is the key itself')
    same(key_of(piecewise.combine_private_keys(scrambled(parts, seed))), k, 'combined key')


@PROP.sub('secret', gen=st.tuples(gen.scalars(), st.booleans(), st.one_of(st.none(), st.integers(2, 5), st.sampled_from([9, 33, 110]))), quick=12, thorough=200, cpu=120,
          rule='one key split 160 times into 2 parts, fewer times into more: no part comes twice, and every bit of the part at every place takes both values (a fair bit fails once in 2**150)')
def secret(c, t):
    from nbc.util import piecewise
    k, comp, n = c
    wif = wal.ref_wif(k, comp)
    m = n or 2
    seen, ones, zeros, rounds = set(), [0] * m, [0] * m, 0
    while rounds < 160:
        vals = [key_of(p) for p in (piecewise.split_private_key(wif) if n is None else piecewise.split_private_key(wif, n))]
        for i, v in enumerate(vals):
            expect(v not in seen, 'a part was used before')
            seen.add(v)
            ones[i] |= v
            zeros[i] |= ~v
        rounds += 1
    mask = (1 << 256) - 1
    for i in range(m):
        expect(ones[i] & mask == mask, 'part %d of %d never has the bits %x', i, m, mask & ~ones[i])
        expect(zeros[i] & mask == mask, 'part %d of %d always has the bits %x', i, m, mask & ~zeros[i])


@PROP.sub('combine', gen=st.tuples(st.lists(st.tuples(gen.scalars(), st.booleans()), min_size=1, max_size=8), st.integers(0, 2**32)), quick=1000, thorough=30000,
          rule='combining adds modulo the group order, in any order and grouping')
def combine(c, t):
    from nbc.util import piecewise
    ks, seed = c
    wifs = [wal.ref_wif(k, comp) for k, comp in ks]
    want = sum(k for k, _ in ks) % wal.N
    same(key_of(piecewise.combine_private_keys(wifs)), want, 'sum')
    same(key_of(piecewise.combine_private_keys(scrambled(wifs, seed))), want, 'sum in another order')
    same(key_of(piecewise.combine_private_keys(tuple(wifs))), want, 'sum of a tuple')
    if len(wifs) > 2:
        first = piecewise.combine_private_keys(wifs[:2])
        if 0 < key_of(first):
            same(key_of(piecewise.combine_private_keys([first] + wifs[2:])), want, 'grouped sum')


@PROP.sub('delegated', gen=st.tuples(gen.scalars(), gen.scalars(), st.booleans(), wal.vcns()), quick=100, thorough=3000,
          rule='address computed by an outsider is that of the combined private key')
def delegated(c, t):
    from nbc.util import piecewise
    from nbc.wallet import Address
    a, b, testnet, vcn = c
    ver = b'\x6f' if testnet else b'\0'
    K = wal.C.add(wal.point(a), wal.point(b))
    wifs = [wal.ref_wif(a, False), wal.ref_wif(b, True)]
    if K is None:
        t.label('cancel')
        raises(ValueError, piecewise.get_address, ec.full(wal.point(a)), wifs[1], version=ver, vcn=vcn)
        return
    got = piecewise.get_address(ec.full(wal.point(a)), wifs[1], version=ver, vcn=vcn)
    same(got, b58.address(ec.full(K), vcn, ver), 'delegated address')
    combined = piecewise.combine_private_keys(wifs)
    same(Address(privKey=combined, vcn=vcn, testnet=testnet).address, got, 'address of the combined key')
    if vcn == 0 and not testnet:
        same(piecewise.get_address(ec.full(wal.point(a)), wifs[1]), got, 'defaults')


@PROP.sub('special', enum=lambda tier: [(a, b) for a in (1, 2, 3, wal.N - 1, wal.N - 2, wal.N // 2) for b in (1, 2, wal.N - 1, wal.N - 2, wal.N - 3, wal.N // 2 + 1)],
          rule='equal, opposite and extreme pairs')
def special(c, t):
    delegated((c[0], c[1], False, 0), t)


@PROP.sub('bad-public', gen=st.tuples(gen.scalars(), st.booleans(), st.lists(gen.mutation(), min_size=1, max_size=2), gen.scalars()), quick=200, thorough=6000,
          rule='altered public keys are refused unless they still encode a full point; non-trivial when refused')
def bad_public(c, t):
    from nbc.util import piecewise
    a, comp, muts, b = c
    P = wal.point(a)
    pub = ec.compress(P) if comp else gen.mutate(ec.full(P), muts)
    K = wal.decode_pub(pub)
    if K is None or len(pub) != 65:
        t.nontrivial()
        raises(ValueError, piecewise.get_address, pub, wal.ref_wif(b, False))
        return
    t.nontrivial(False)


@PROP.sub('bad-private', gen=st.tuples(gen.scalars(), st.lists(st.tuples(st.integers(0, 50), st.integers(0, 57)), min_size=1, max_size=2), st.integers(0, 3)), quick=200, thorough=5000,
          rule='a mistyped part is refused; non-trivial when the text changed')
def bad_private(c, t):
    from nbc.util import piecewise
    k, eds, pos = c
    s = bytearray(wal.ref_wif(k, False))
    for i, ch in eds:
        s[i % len(s)] = b58.A[ch]
    s = bytes(s)
    t.nontrivial(s != wal.ref_wif(k, False))
    if s == wal.ref_wif(k, False):
        return
    l = [wal.ref_wif(5, False), wal.ref_wif(6, False)]
    l.insert(pos, s)
    raises(ValueError, piecewise.combine_private_keys, l)
    raises(ValueError, piecewise.split_private_key, s, 3)
    raises(ValueError, piecewise.get_address, ec.full(wal.point(9)), s)
