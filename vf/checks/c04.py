import os
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58
from .c03 import rounds, cycle

PROP = Prop('C04', assumptions=['a child wallet gets a random channel number; the check sets it before comparing addresses',
                                'passphrases given as text or typed at the prompt are Latin-1 and stand for those bytes'])


@PROP.sub('file', gen=st.tuples(wal.hd_specs(3), st.booleans(), rounds, st.lists(wal.soft_index(), max_size=1), wal.messages()),
          quick=150, thorough=5000,
          rule='wallet at depth 0-3, private or public-only, 1-3 save/load cycles, then derivation; non-trivial when public-only, encrypted or below the master')
def file(c, t):
    spec, public, rnds, more, msg = c
    ref = wal.Ref(spec)
    w = wal.build_public(spec, ref) if public else wal.build(spec)
    want = wal.ref_view(ref, public)
    path = os.path.join(t.scratch(), 'w.txt')
    for rnd in rnds:
        t.label(rnd[0], 'public' if public else 'private', 'depth%d' % len(spec[2]))
        t.nontrivial(public or rnd[0] != 'plain' or spec[2])
        w2 = cycle(w, rnd, path, not public)
        wal.check_view(w2, want, 'loaded (%s)' % rnd[0])
        wal.check_view(w, want, 'saved wallet afterwards')
        w = w2
    for i in more:
        w = w.child(i)
        n = ref.node.child(i)
        same(w.to_extended_key(), b58.enc_check(n.extended(False, ref.testnet)), 'extended key of a child of the loaded wallet')
        same(w.prvkey(), None if public else n.k.to_bytes(32, 'big'), 'private key of a child of the loaded wallet')
    if public:
        raises(Exception, w.child, 2**31)
        raises(ValueError, w.sign, msg)
    elif not more:
        rs = wal.strict_sig(w.sign(msg))
        expect(rs and ec.ecdsa_verify(wal.C, ref.K, wal.digest_int(msg), *rs), 'loaded wallet signs with another key')


@PROP.sub('deep', gen=st.tuples(wal.seeds(), st.sampled_from([1, 2, 127, 128, 254, 255]), wal.index(), st.booleans(), st.booleans(), rounds, gen.blob(32), st.sampled_from([b'', b'\0\0', b'\0\0\0\x07', b' \n', b'\0\0\0\0', b'\xff\xff\xff\xff', bytes(32)]), gen.scalars(), st.booleans()),
          quick=60, thorough=1500, rule='wallets at arbitrary depth, child number and chain code built from an extended key')
def deep(c, t):
    from nbc.wallet import HDWallet
    seed, depth, num, testnet, public, rnds, chain, lead, k, tail = c
    n = ec.Node(k, wal.point(k), bytes(32), 0, bytes(4), 0)
    n.depth, n.num, n.fp = depth, num, (b58.dsha(seed) + lead[:4])[-4:] if tail else (lead + b58.dsha(seed))[:4]
    n.c = (chain + lead)[-32:] if tail else (lead + chain)[:32]
    w = HDWallet.from_extended_key(b58.enc_check(n.extended(not public, testnet)))
    path = os.path.join(t.scratch(), 'w.txt')
    vcn = w.vcn
    for rnd in rnds:
        w = cycle(w, rnd, path, not public)
        same((w.depth(), w.childnum(), w.parentfp(), w.chain(), w.vcn), (depth, num, n.fp, n.c, vcn), 'position of the loaded wallet')
        same(w.to_extended_key(include_prv=not public), b58.enc_check(n.extended(not public, testnet)), 'extended key')


EDGES = [b'\0', b'\0\0', b'\xff', b'\n', b' ', b'0', b'\x10', b'\x0f', b'\xf0']


@PROP.sub('edges', enum=lambda tier: [(e, where, field, public, enc) for e in EDGES for where in (0, 1) for field in ('chain', 'key', 'fp') for public in (False, True) for enc in (False, True)][::1 if tier == 'thorough' else 1], quick=216,
          rule='exhaustive: chain codes, private keys and parent fingerprints that begin or end with special bytes, private and public, plain and encrypted')
def edges(c, t):
    from nbc.wallet import HDWallet
    e, where, field, public, enc = c
    body = b58.dsha(repr(c).encode())

    def put(b):
        return b[:len(b) - len(e)] + e if where else e + b[len(e):]
    kb = put(body) if field == 'key' else body
    k = int.from_bytes(kb, 'big')
    if not 0 < k < wal.N:
        k = int.from_bytes(b'\x01' + kb[1:], 'big')
    n = ec.Node(k, wal.point(k), put(b58.dsha(body)) if field == 'chain' else b58.dsha(body), 3, put(body[:4]) if field == 'fp' else body[:4], 5)
    want = b58.enc_check(n.extended(not public, False))
    w = HDWallet.from_extended_key(want, vcn=0)
    same(w.to_extended_key(include_prv=not public), want, 'extended key of the import')
    path = os.path.join(t.scratch(), 'w.txt')
    w2 = cycle(w, ('given', b'some passphrase') if enc else ('plain', b''), path, not public)
    same((w2.chain(), w2.parentfp(), w2.prvkey(), w2.vcn, w2.to_extended_key()), (n.c, n.fp, None if public else k.to_bytes(32, 'big'), 0, b58.enc_check(n.extended(False, False))), 'loaded wallet')
    same(w.to_extended_key(include_prv=not public), want, 'saved wallet afterwards')
    same(w2.child(3).to_extended_key(), b58.enc_check(n.child(3).extended(False, False)), 'child of the loaded wallet')


def point_wallet(K, n, testnet, how):
    from nbc.wallet import HDWallet
    if how == 'text':
        return HDWallet.from_extended_key(b58.enc_check(n.extended(False, testnet)), vcn=9)
    from nbc.util.ecdsa import SECP256k1
    from nbc.util.ecdsa.ellipticcurve import Point
    return HDWallet(Point(SECP256k1.curve, K[0], K[1]), n.c, vcn=9, testnet=testnet, depth=n.depth, parentfp=n.fp, childnum=n.num)


@PROP.sub('special-points', enum=lambda tier: [(i, how, testnet) for i in range(len(wal.special_points())) for how in ('text', 'point') for testnet in (False, True)][::1 if tier == 'thorough' else 3], quick=200,
          rule='exhaustive (quick: every third): public-only wallets on points with special coordinates (small, round, next to the field prime or the group order): file, extended key, address, child')
def special_points(c, t):
    i, how, testnet = c
    K = wal.special_points()[i]
    n = ec.Node(None, K, b58.dsha(b'chain%d' % i), 2, b58.dsha(b'fp%d' % i)[:4], i)
    w = point_wallet(K, n, testnet, how)
    path = os.path.join(t.scratch(), 'w.txt')
    for x, what in ((w, 'the wallet'), (cycle(w, ('plain', b''), path, False), 'the loaded wallet')):
        same((x.prvkey(), x.pubkey(), x.chain(), x.depth(), x.parentfp(), x.childnum(), x.vcn), (None, ec.full(K)[1:], n.c, 2, n.fp, i, 9), what)
        same(x.to_extended_key(), b58.enc_check(n.extended(False, testnet)), 'extended key of ' + what)
        same(x.address(), b58.address(ec.compress(K), 9, b'\x6f' if testnet else b'\0'), 'address of ' + what)
        same(x.child(4).to_extended_key(), b58.enc_check(n.child(4).extended(False, testnet)), 'extended key of a child of ' + what)
