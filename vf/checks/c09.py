from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C09')
VERS = {False: b'\x00', True: b'\x6f'}


def wide_vcns():
    return st.one_of(wal.vcns(), gen.ints(0, 2**40), st.integers(-70000, -1), st.sampled_from([0x10000, 0x1ffff, 0x12345, 0x80000000]))


@PROP.sub('function', gen=st.tuples(gen.data(200), wide_vcns(), st.one_of(st.sampled_from([b'\0', b'\x6f']), st.binary(min_size=1, max_size=1))),
          quick=3000, thorough=100000, rule='publickey_to_address over arbitrary key bytes, channels and versions')
def function(c, t):
    from nbc.util import key
    pub, vcn, ver = c
    same(key.publickey_to_address(pub, vcn, version=ver), b58.address(pub, vcn, ver), 'address')
    if ver == b'\0':
        same(key.publickey_to_address(pub, vcn), b58.address(pub, vcn, ver), 'address with the default version')
    t.label('wide' if vcn > 0xffff else 'vcn%d' % len('%x' % vcn))


def check_addr(a, K, comp, testnet, vcn, prv, what):
    pub = ec.compress(K) if comp else ec.full(K)
    same(a.address, b58.address(pub, vcn, VERS[testnet]), what + ' address')
    same(a.publicKey(), pub, what + ' public key')
    same(a.pubKey, ec.full(K), what + ' full public key')
    same(a.privKey, prv, what + ' private key')
    same((a.compressed, a.testnet, a.vcn), (comp, testnet, vcn & 0xffff), what + ' form')
    # the text decodes to its parts
    raw = b58.dec_check(a.address)
    expect(raw is not None and len(raw) == 37 and raw[:1] == VERS[testnet] and raw[1:5] == b'%04x' % (vcn & 0xffff), '%s address layout %r', what, a.address)


@PROP.sub('wallet', gen=st.tuples(gen.scalars(), st.booleans(), st.booleans(), wide_vcns()), quick=160, thorough=6000,
          rule='wallet from private key, from public key alone, and their compressed and decompressed forms')
def wallet(c, t):
    from nbc.wallet import Address
    k, comp, testnet, vcn = c
    K = wal.point(k)
    wif = {x: wal.ref_wif(k, x) for x in (True, False)}
    a = Address(privKey=wif[comp], vcn=vcn, testnet=testnet)
    check_addr(a, K, comp, testnet, vcn, wif[comp], 'private')
    p = Address(pubKey=ec.compress(K) if comp else ec.full(K), vcn=vcn, testnet=testnet)
    check_addr(p, K, comp, testnet, vcn, None, 'public')
    for w, prv in ((a, True), (p, False)):
        for x in (w.compress(), w.decompress(), w.compress().decompress(), w.decompress().compress()):
            check_addr(x, K, x.compressed, testnet, vcn, wif[x.compressed] if prv else None, 'converted')
        expect(w.compress().compressed is True and w.decompress().compressed is False, 'form after conversion')
        expect(w.compress().decompress().compressed is False and w.decompress().compress().compressed is True, 'form after two conversions')
    check_addr(a, K, comp, testnet, vcn, wif[comp], 'private afterwards')
    check_addr(p, K, comp, testnet, vcn, None, 'public afterwards')
    t.label('odd' if K[1] & 1 else 'even')


@PROP.sub('hd', gen=st.tuples(wal.seeds(), wal.paths(1), st.booleans(), wal.vcns(), wide_vcns(), st.binary(min_size=1, max_size=1)), quick=60, thorough=2000,
          rule='deterministic wallets use the compressed key; the channel is changed and addresses with other version bytes are asked for in between')
def hd(c, t):
    spec = ('hd',) + c[:4]
    vcn2, ver = c[4:]
    ref = wal.Ref(spec)
    w = wal.build(spec)
    same(w.address(), ref.address, 'address')
    p = wal.build_public(spec, ref)
    same(p.address(), ref.address, 'public-only address')
    for x in (w, p):
        same(x.address(ver), b58.address(ref.pub, ref.vcn, ver), 'address with a given version')
        same(x.address(), ref.address, 'address afterwards')
        x.vcn = vcn2
        same(x.address(), b58.address(ref.pub, vcn2, VERS[ref.testnet]), 'address on another channel')
        same(x.address(verByte=ver), b58.address(ref.pub, vcn2, ver), 'address on another channel with a given version')


bad_pub = st.one_of(
    st.tuples(st.just('len'), gen.scalars(), st.booleans(), st.lists(st.one_of(
        st.tuples(st.just('app'), st.just(0), st.binary(min_size=1, max_size=3)), st.tuples(st.just('cut'), st.integers(0, 64), st.just(0)),
        st.tuples(st.just('del'), st.integers(0, 64), st.integers(1, 3))), min_size=1, max_size=1)),
    st.tuples(st.just('mut'), gen.scalars(), st.booleans(), st.lists(gen.mutation(), min_size=1, max_size=2)),
    st.tuples(st.just('raw'), st.sampled_from([b'\x04', b'\x02', b'\x03', b'\x05', b'\x06', b'\0', b'\x84']), st.sampled_from([31, 32, 33, 63, 64, 65]), st.integers(0, 2**32)))


@PROP.sub('bad-public', gen=bad_pub, quick=300, thorough=12000, rule='altered public keys: accepted exactly when they encode a point; non-trivial when they do not')
def bad_public(c, t):
    from nbc.wallet import Address
    if c[0] == 'raw':
        b = c[1] + gen._expand(c[3], c[2])
    else:
        K = wal.point(c[1])
        b = gen.mutate(ec.compress(K) if c[2] else ec.full(K), c[3])
    K = wal.decode_pub(b)
    t.nontrivial(K is None)
    t.label('point' if K else 'bad%d' % len(b))
    if K is None:
        e = raises(Exception, Address, pubKey=b, vcn=1)
    else:
        check_addr(Address(pubKey=b, vcn=1), K, len(b) == 33, False, 1, None, 'accepted')


@PROP.sub('bad-private', gen=st.tuples(st.one_of(st.sampled_from([0, wal.N, wal.N + 1, 2**256 - 1]), st.integers(wal.N, 2**256 - 1), gen.scalars()), st.booleans()),
          quick=80, thorough=1500, rule='private numbers in and out of range; non-trivial when out of range')
def bad_private(c, t):
    from nbc.wallet import Address
    k, comp = c
    ok = 0 < k < wal.N
    t.nontrivial(not ok)
    if ok:
        check_addr(Address(privKey=wal.ref_wif(k, comp), vcn=2), wal.point(k), comp, False, 2, wal.ref_wif(k, comp), 'wallet')
    else:
        raises(Exception, Address, privKey=wal.ref_wif(k, comp), vcn=2)


@PROP.sub('generated', gen=st.tuples(st.one_of(st.sampled_from([0, 1, 0xffff, None, -1]), wide_vcns()), st.booleans(), st.booleans()), quick=60, thorough=1500, rule='fresh wallets: the form, network and channel asked for (any when none is), and the address of their key')
def generated(c, t):
    from nbc.wallet import Address
    vcn, testnet, comp = c
    t.nontrivial(vcn is not None)
    a = Address.generate(vcn=vcn, testnet=testnet, compressed=comp)
    k = wal.wif_scalar(a.privKey)
    expect(k and 0 < k < wal.N, 'private key of a fresh wallet')
    if vcn is None:
        vcn = a.vcn
        expect(0 <= vcn <= 0xffff, 'channel %r', vcn)
    check_addr(a, wal.point(k), comp, testnet, vcn, wal.ref_wif(k, comp), 'fresh')


@PROP.sub('both-or-none', enum=lambda tier: [(0,), (1,)], rule='no key, or two keys, is refused')
def both(c, t):
    from nbc.wallet import Address
    if c[0]:
        raises(ValueError, Address)
    else:
        raises(ValueError, Address, pubKey=ec.full(wal.point(3)), privKey=wal.ref_wif(3, True))


@PROP.sub('anywhere', enum=lambda tier: [(d, num, testnet, public) for d in (0, 1, 2, 3, 127, 128, 254, 255) for num in ((0, 1, 2**31 - 1, 2**31, 2**32 - 1) if d else (0,)) for testnet in (False, True) for public in (False, True)], quick=160,
          rule='exhaustive: deterministic wallets at special depths and child numbers: the address does not depend on where the key is in the tree')
def anywhere(c, t):
    from nbc.wallet import HDWallet
    depth, num, testnet, public = c
    k = int.from_bytes(b58.dsha(repr(c).encode()), 'big') % wal.N
    n = ec.Node(k, wal.point(k), b58.dsha(b'c'), depth, b58.dsha(b'f')[:4] if depth else bytes(4), num)
    w = HDWallet.from_extended_key(b58.enc_check(n.extended(not public, testnet)), vcn=0x123)
    pub = ec.compress(n.K)
    for _ in (0, 1):
        same(w.address(), b58.address(pub, 0x123, VERS[testnet]), 'address')
        for ver in (b'\0', b'\x6f', b'\x05'):
            same(w.address(ver), b58.address(pub, 0x123, ver), 'address with a given version')
            same(w.address(verByte=ver), b58.address(pub, 0x123, ver), 'address with a given version')


@PROP.sub('special-points', enum=lambda tier: [(i, comp, testnet) for i in range(len(wal.special_points())) for comp in (False, True) for testnet in (False, True)], quick=400,
          rule='exhaustive: wallets on points with special coordinates (small, round, next to the field prime or the group order), both forms and their conversions')
def special_points(c, t):
    from nbc.wallet import Address
    i, comp, testnet = c
    K = wal.special_points()[i]
    a = Address(pubKey=ec.compress(K) if comp else ec.full(K), vcn=i, testnet=testnet)
    check_addr(a, K, comp, testnet, i, None, 'public')
    check_addr(a.compress(), K, True, testnet, i, None, 'compressed')
    check_addr(a.decompress(), K, False, testnet, i, None, 'decompressed')
    for x in (ec.compress(K), ec.full(K)):
        bad = x[:-1] + bytes([x[-1] ^ 1])
        if wal.decode_pub(bad) is None:
            raises(Exception, Address, pubKey=bad, vcn=1)
