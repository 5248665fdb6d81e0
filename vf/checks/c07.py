from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C07', assumptions=['the intermediate digest is below the group order and the derived key non-zero (fails with probability 2^-127)'])


def compare(w, n, testnet, public, what):
    same(w.prvkey(), None if public else n.k.to_bytes(32, 'big'), what + ' private key')
    same(w.pubkey(), ec.full(n.K)[1:], what + ' public key')
    same(w.chain(), n.c, what + ' chain code')
    same(w.depth(), n.depth, what + ' depth')
    same(w.childnum(), n.num, what + ' child number')
    same(w.parentfp(), n.fp, what + ' parent fingerprint')
    same(w.fingerprint(), n.fingerprint(), what + ' fingerprint')


@PROP.sub('path', gen=st.tuples(wal.seeds(), st.booleans(), wal.vcns(), st.lists(wal.index(), max_size=4)), quick=150, thorough=5000,
          rule='seed x path up to depth 4; non-trivial when at least one child is derived')
def path(c, t):
    from nbc.wallet import HDWallet
    seed, testnet, vcn, idx = c
    w = HDWallet.from_master_seed(seed, vcn=vcn, testnet=testnet)
    n = ec.Node.master(seed)
    compare(w, n, testnet, False, 'master')
    same(w.vcn, vcn, 'channel')
    same(w.address(), b58.address(ec.compress(n.K), vcn, b'\x6f' if testnet else b'\0'), 'master address')
    t.nontrivial(idx)
    for i in idx:
        t.label('hard' if i >> 31 else 'soft')
        parent = (w, n)
        w, n = w.child(i), n.child(i)
        compare(w, n, testnet, False, 'child %d' % i)
        compare(parent[0], parent[1], testnet, False, 'parent afterwards')
        w.vcn = vcn
        same(w.address(), b58.address(ec.compress(n.K), vcn, b'\x6f' if testnet else b'\0'), 'child address')


@PROP.sub('str-seed', gen=st.text(alphabet=[chr(i) for i in range(256)], max_size=40), quick=40, thorough=1000,
          rule='text seeds are taken as latin-1 bytes')
def strseed(c, t):
    from nbc.wallet import HDWallet
    compare(HDWallet.from_master_seed(c), ec.Node.master(c.encode('latin-1')), False, False, 'master')


@PROP.sub('commute', gen=st.tuples(wal.seeds(), st.booleans(), wal.paths(2), st.lists(wal.soft_index(), min_size=1, max_size=3), st.sampled_from(['point', 'xpub', 'file']), wal.vcns(),
                                   st.integers(2**31, 2**32 - 1)), quick=150, thorough=5000,
          rule='private prefix path, private half dropped in one of three ways, non-hardened suffix derived on both sides')
def commute(c, t):
    import os
    from nbc.wallet import HDWallet, saveTo, loadFrom
    seed, testnet, prefix, idx, drop, vcn, hard = c
    w = HDWallet.from_master_seed(seed, vcn=1, testnet=testnet)
    n = ec.Node.master(seed)
    for i in prefix:
        w, n = w.child(i), n.child(i)
    if drop == 'xpub':
        p = HDWallet.from_extended_key(w.to_extended_key())
    else:
        spec = ('hd', seed, prefix, testnet, vcn)
        p = wal.build_public(spec, wal.Ref(spec))
        if drop == 'file':
            f = os.path.join(t.scratch(), 'p.txt')
            saveTo(f, p)
            p = loadFrom(f)
    t.label(drop, 'depth%d' % len(prefix))
    for i in idx:
        raises(Exception, p.child, hard)
        w, p, n = w.child(i), p.child(i), n.child(i)
        compare(w, n, testnet, False, 'private side')
        compare(p, n, testnet, True, 'public side')
        same(p.to_extended_key(), w.to_extended_key(), 'extended public keys')
        raises(Exception, p.to_extended_key, include_prv=True)
        raises(ValueError, p.sign, b'x')
        w.vcn = p.vcn = vcn
        same(p.address(), w.address(), 'addresses')
        same(p.address(), b58.address(ec.compress(n.K), vcn, b'\x6f' if testnet else b'\0'), 'address')


@PROP.sub('siblings', gen=st.tuples(wal.seeds(), wal.paths(1), st.lists(wal.index(), min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 2), st.sampled_from(['same', 'other', 'low', 'next', 'public'])), min_size=2, max_size=4)),
          quick=60, thorough=2000, rule='several children of one wallet in turn: again, with the hardened bit turned over, with only the low bits, or of its public half; non-trivial when one index is derived hardened and not')
def siblings(c, t):
    from nbc.wallet import HDWallet
    seed, path, idx, ops = c
    w, n = HDWallet.from_master_seed(seed, vcn=5), ec.Node.master(seed)
    for i in path:
        w, n = w.child(i), n.child(i)
    p, q = HDWallet.from_extended_key(w.to_extended_key()), n.neuter()
    seen = set()
    for k, op in ops:
        i = idx[k % len(idx)]
        i = {'same': i, 'other': i ^ 2**31, 'low': i & 0xffff, 'next': (i + 1) & 0xffffffff, 'public': i & 0x7fffffff}[op]
        seen.add(i)
        if op == 'public':
            compare(p.child(i), q.child(i), False, True, 'child %d of the public half' % i)
        compare(w.child(i), n.child(i), False, False, 'child %d' % i)
    t.nontrivial(any(i ^ 2**31 in seen for i in seen))
    compare(w, n, False, False, 'parent afterwards')
    compare(p, q, False, True, 'public half afterwards')


@PROP.sub('limits', gen=st.tuples(wal.seeds(), st.one_of(st.sampled_from([0, 1, 127, 128, 253, 254, 255]), st.integers(0, 255)), st.one_of(wal.index(), st.sampled_from([-1, 2**32, 2**32 + 1, -2**31, 2**40])), st.booleans(), st.booleans()),
          quick=120, thorough=1500, rule='wallets of any depth (often around 255), indexes outside 32 bits')
def limits(c, t):
    from nbc.wallet import HDWallet
    seed, depth, i, public, testnet = c
    n = ec.Node.master(seed)
    n.depth = depth
    if depth:
        n.fp, n.num = b'abcd', 7
    w = HDWallet.from_extended_key(b58.enc_check(n.extended(not public, testnet)))
    if public:
        n = n.neuter()
    ok = 0 <= i < 2**32 and depth < 255 and not (public and i >> 31)
    t.label('ok' if ok else 'refused')
    if ok:
        w, n = w.child(i), n.child(i)
        compare(w, n, testnet, public, 'child')
        same(w.to_extended_key(), b58.enc_check(n.extended(False, testnet)), 'extended public key of the child')
        w.vcn = 3
        same(w.address(), b58.address(ec.compress(n.K), 3, b'\x6f' if testnet else b'\0'), 'address of the child')
    else:
        raises(Exception, w.child, i)


@PROP.sub('twins', gen=st.tuples(gen.scalars(), gen.scalars(), st.sampled_from(['key', 'chain', 'both', 'swap']), st.integers(0, 255), st.lists(wal.index(), min_size=1, max_size=2), st.booleans()), quick=60, thorough=2500,
          rule='two wallets that differ in one bit of the key or of the chain code (or have the same key and different chain codes), children derived from them in turn')
def twins(c, t):
    from nbc.wallet import HDWallet
    k, ch, how, bit, idx, public = c
    k2, ch2 = k, ch
    if how in ('key', 'both'):
        k2 = k ^ (1 << bit)
    if how in ('chain', 'both'):
        ch2 = ch ^ (1 << (255 - bit))
    if how == 'swap':
        k2, ch2 = ch, k
    if not 0 < k2 < wal.N:
        return
    ws, ns = [], []
    for key, chain in ((k, ch), (k2, ch2)):
        n = ec.Node.master(b'x')
        n.k, n.K, n.c = key, wal.point(key), chain.to_bytes(32, 'big')
        w = HDWallet.from_extended_key(b58.enc_check(n.extended(not public, False)), vcn=3)
        ws.append(w)
        ns.append(n.neuter() if public else n)
    t.nontrivial((k, ch) != (k2, ch2))
    t.label(how)
    for i in idx:
        if public:
            i &= 0x7fffffff
        for w, n in list(zip(ws, ns)):
            compare(w.child(i), n.child(i), False, public, 'child %d' % i)
            same(w.address(), b58.address(ec.compress(n.K), 3, b'\0'), 'address')
