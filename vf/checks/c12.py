from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C12')
P = wal.C.p


@PROP.sub('round-trip', gen=gen.scalars(), quick=300, thorough=12000, rule='points of both parities: compress, decompress, pass full keys through')
def rt(k, t):
    from nbc.util import key
    for K in (wal.point(k), wal.C.neg(wal.point(k))):
        full, comp = ec.full(K), ec.compress(K)
        same(key.compress_public_key(full), comp, 'compressed')
        same(key.decompress_public_key(comp), full, 'decompressed')
        same(key.decompress_public_key(full), full, 'full key')


@PROP.sub('xs', gen=st.tuples(st.one_of(st.integers(0, 300), st.integers(P - 300, 2**256 - 1), gen.ints(0, 2**256 - 1), st.integers(0, P - 1)), st.sampled_from([2, 3])),
          quick=800, thorough=40000, rule='33-byte strings with any x: accepted exactly when a point exists; non-trivial when x is not below the field or has no point')
def xs(c, t):
    from nbc.util import key
    x, tag = c
    b = bytes([tag]) + x.to_bytes(32, 'big')
    K = wal.decode_pub(b)
    t.nontrivial(K is None)
    t.label('point' if K else 'overflow' if x >= P else 'no-point')
    if K is None:
        raises(ValueError, key.decompress_public_key, b)
    else:
        same(key.decompress_public_key(b), ec.full(K), 'decompressed')


@PROP.sub('strings', gen=st.one_of(
    st.tuples(st.just('raw'), st.integers(0, 255), st.one_of(st.sampled_from([0, 31, 32, 33, 63, 64, 65]), st.integers(0, 130)), st.integers(0, 2**32)),
    st.tuples(st.just('mut'), gen.scalars(), st.booleans(), st.lists(gen.mutation(), min_size=1, max_size=2)),
    st.tuples(st.just('hybrid'), gen.scalars(), st.sampled_from([5, 6, 7, 2, 3, 0, 1, 0x84]), st.booleans())),
    quick=1000, thorough=40000, rule='other byte strings and altered keys; non-trivial when they encode no point')
def strings(c, t):
    from nbc.util import key
    if c[0] == 'raw':
        b = bytes([c[1]]) + gen._expand(c[3], c[2])
    elif c[0] == 'mut':
        K = wal.point(c[1])
        b = gen.mutate(ec.full(K) if c[2] else ec.compress(K), c[3])
    else:
        K = wal.point(c[1])
        b = bytes([c[2]]) + (ec.full(K) if c[3] else ec.compress(K))[1:]
    K = wal.decode_pub(b)
    t.nontrivial(K is None)
    if K is None:
        raises(ValueError, key.decompress_public_key, b)
    else:
        same(key.decompress_public_key(b), ec.full(K), 'decompressed')
    if len(b) == 65 and b[0] == 4:
        same(key.compress_public_key(b), bytes([2 + (b[64] & 1)]) + b[1:33], 'compressed')
    else:
        raises(ValueError, key.compress_public_key, b)


@PROP.sub('edge', enum=lambda tier: [(b'',), (b'\x02',), (b'\x03',), (b'\x04',)] + [(bytes([tag]) + v.to_bytes(n, 'big'),) for tag in (0, 2, 3, 4, 6, 7) for n in (32, 64) for v in (0, 1, P % 256**n, (P + 1) % 256**n, 256**n - 1)],
          rule='empty, tag-only and extreme strings')
def edge(c, t):
    from nbc.util import key
    K = wal.decode_pub(c[0])
    if K is None:
        raises(ValueError, key.decompress_public_key, c[0])
    else:
        same(key.decompress_public_key(c[0]), ec.full(K), 'decompressed')


@PROP.sub('overflow', gen=st.tuples(gen.scalars(), st.sampled_from(['x', 'y', 'xy', '-y'])), quick=100, thorough=3000,
          rule='full keys whose coordinates are shifted by the field size or negated')
def overflow(c, t):
    from nbc.util import key
    x, y = wal.point(c[0])
    if c[1] == '-y':
        b = b'\x04' + x.to_bytes(32, 'big') + (P - y).to_bytes(32, 'big')
        same(key.decompress_public_key(b), b, 'negated point')
        same(key.compress_public_key(b)[0], 2 + ((P - y) & 1), 'parity')
        return
    # the smallest coordinates: x + p fits 32 bytes only below 2^256 - p
    for X in range(0, 40):
        for odd in (0, 1):
            K = wal.C.lift(X, odd)
            if K is None:
                continue
            raises(ValueError, key.decompress_public_key, bytes([2 + odd]) + (X + P).to_bytes(32, 'big'))
            if 'x' in c[1]:
                raises(ValueError, key.decompress_public_key, b'\x04' + (X + P).to_bytes(32, 'big') + K[1].to_bytes(32, 'big'))


def with_y(y):
    "the first point at or after the given y coordinate (going down near the top)"
    while True:
        for x in wal.C.lift_y(y % P):
            return x, y % P
        y += 1


@PROP.sub('ys', gen=st.tuples(st.one_of(st.integers(0, 60), st.integers(1, P - wal.N).map(lambda d: wal.N + d), st.integers(0, 60).map(lambda d: wal.N + d), st.integers(1, 60).map(lambda d: P - d), st.integers(1, 60).map(lambda d: P // 2 - 30 + d), gen.ints(1, P - 1)), st.integers(0, 2)), quick=400, thorough=12000,
          rule='points chosen by their y coordinate: tiny, around the half, at and above the group order, just below the field')
def ys(c, t):
    from nbc.util import key
    y, way = c
    for K in (with_y(y), wal.C.neg(with_y(y))):
        x, y = K
        t.label('above the order' if y >= wal.N else 'short' if y < 2**200 else 'other')
        full, comp = ec.full(K), ec.compress(K)
        expect(wal.decode_pub(comp) == K, 'harness: %r', K)
        same(key.compress_public_key(full), comp, 'compressed')
        same(key.decompress_public_key(comp), full, 'decompressed')
        same(key.decompress_public_key(full), full, 'full key')
        if way == 0:
            from nbc.wallet import Address
            a = Address(pubKey=full if y & 1 else comp)
            same((a.pubKey, a.publicKey(), a.compress().publicKey(), a.decompress().publicKey()), (full, full if y & 1 else comp, comp, full), 'wallet keys')


@PROP.sub('wallets', gen=st.tuples(gen.scalars(), st.booleans(), wal.vcns(), st.binary(min_size=32, max_size=32)), quick=60, thorough=2000,
          rule='every wallet route through compression keeps the point')
def wallets(c, t):
    from nbc.wallet import Address, HDWallet
    k, neg, vcn, chain = c
    K = wal.point(k)
    if neg:
        K = wal.C.neg(K)
    full, comp = ec.full(K), ec.compress(K)
    a, b = Address(pubKey=full, vcn=vcn), Address(pubKey=comp, vcn=vcn)
    same((a.pubKey, b.pubKey, a.publicKey(), b.publicKey()), (full, full, full, comp), 'wallet keys')
    same(a.compress().publicKey(), comp, 'compressed wallet key')
    same(b.decompress().publicKey(), full, 'decompressed wallet key')
    n = ec.Node(None, K, chain, 3, b'abcd', 5)
    w = HDWallet.from_extended_key(b58.enc_check(n.extended(False, False)))
    same(w.pubkey(), full[1:], 'deterministic wallet key')
    same(w.to_extended_key(), b58.enc_check(n.extended(False, False)), 'extended key')
