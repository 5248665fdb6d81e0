import hashlib, struct
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C32', assumptions=['hashlib is the reference for SHA-256; the genesis coinbase transaction is the public one of the Bitcoin chain'])
MAGIC = b'\xf9nbc'


def d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def enc(p):
    return proto.enc_val(('part', p[0]), p)


def util():
    from nbc import util
    return util


small_tx = proto.part('TX').filter(lambda p: len(repr(p)) < 2500)
USES = st.lists(st.sampled_from(['hash', 'binary', 'str', 'copy', 'fields', 'message', 'repr']), max_size=6)


def use(o, how, p):
    P = proto.mod()
    if how == 'hash':
        o.hash
    elif how == 'binary':
        same(o.binary(), enc(p), 'serialisation')
    elif how == 'str':
        str(o)
    elif how == 'repr':
        repr(o)
    elif how == 'copy':
        same(type(o)(*[getattr(o, n) for n, _ in proto.PARTS[p[0]]]).hash, ref_hash(p), 'hash of a copy')
    elif how == 'fields':
        same(proto.see_val(('part', p[0]), o), proto.norm_val(('part', p[0]), p), 'fields')
    elif p[0] == 'TX':
        m = P.Block(1, b'\0' * 32, b'\1' * 32, 2, 3, 4, [o, o])
        same(m.binary(MAGIC)[24 + 80:], b'\2' + enc(p) * 2, 'block of it')
    else:
        same(P.Headers([o]).binary(MAGIC)[24:], b'\1' + enc(p), 'headers of it')


def ref_hash(p):
    b = enc(p)
    return d(b[:80] if p[0] == 'BH' else b)


def parsed(p):
    P = proto.mod()
    if p[0] == 'TX':
        return P.Message.parse(proto.frame(MAGIC, 'block', b'\0' * 80 + b'\1' + enc(p)), MAGIC).txns[0]
    return P.Message.parse(proto.frame(MAGIC, 'headers', b'\1' + enc(p)), MAGIC).headers[0]


def check_hash(c, t):
    p, q, uses = c
    want = ref_hash(p)
    for o in (proto.make_part(p), parsed(p)):
        pp = p if o.__class__ is not None else p
        other = proto.make_part(q)
        for u in uses:
            use(o, u, p)
            same(other.hash, ref_hash(q), 'hash of another object')
        same(o.hash, want, 'hash')
        same(o.hash, want, 'hash again')
        use(o, 'binary', p)
    t.nontrivial(bool(uses))


@PROP.sub('transactions', gen=st.tuples(small_tx, small_tx, USES), quick=500, thorough=40000, rule='transactions built and parsed, hashed after any sequence of other uses and next to another one; non-trivial with such uses')
def transactions(c, t):
    check_hash(c, t)


@PROP.sub('headers', gen=st.tuples(proto.part('BH'), proto.part('BH'), USES), quick=600, thorough=40000, rule='block headers (any count of transactions) built and parsed; non-trivial with other uses before hashing')
def headers(c, t):
    check_hash(c, t)
    p = c[0]
    same(util().get_block_header(p[1], p[2], p[3], int(p[4]), p[5], p[6]), enc(p)[:80], 'get_block_header')
    q = p[:7] + (p[7] ^ 1,)
    same(proto.make_part(q).hash, ref_hash(p), 'hash with another count of transactions')


class Leaf(object):
    def __init__(self, h):
        self.hash = h


def merkle(hs):
    while len(hs) > 1:
        if len(hs) % 2:
            hs = hs + [hs[-1]]
        hs = [d(hs[i] + hs[i + 1]) for i in range(0, len(hs), 2)]
    return hs[0]


def sizes(tier):
    return [(n, k) for n in list(range(1, 70 if tier == 'quick' else 600)) + [127, 128, 129, 255, 256, 257, 511, 513, 1000] for k in (0, 1, 2)]


@PROP.sub('merkle-sizes', enum=sizes, quick=24, rule='every list length from 1, as list and tuple, twice; non-trivial when some level is odd')
def merkle_sizes(c, t):
    n, k = c
    hs = [gen._expand(k * 7919 + i if k < 2 else 5, 32) for i in range(n)]
    leaves = [Leaf(h) for h in hs]
    keep = list(leaves)
    t.nontrivial(n & (n - 1))
    for l in (leaves, tuple(leaves), leaves):
        got = util().get_merkle_root(l)
        same(bytes(got), merkle(hs), 'root of %d' % n)
        expect(list(l) == keep and len(l) == n, 'the list was changed')
    same([x.hash for x in leaves], hs, 'hashes of the leaves')


@PROP.sub('merkle', gen=st.lists(st.one_of(small_tx, st.integers(0, 3)), min_size=1, max_size=9).filter(lambda l: not isinstance(l[0], int)), quick=250, thorough=10000, rule='roots over real transactions, repeated ones included; non-trivial for an odd number above one')
def merkle_real(c, t):
    ps = []
    for x in c:
        ps.append(ps[x % len(ps)] if isinstance(x, int) else x)
    objs = [proto.make_part(p) for p in ps]
    t.nontrivial(len(ps) > 1 and len(ps) % 2)
    want = merkle([ref_hash(p) for p in ps])
    same(util().get_merkle_root(objs), want, 'root')
    m = proto.mod().Block(1, b'\0' * 32, want, 2, 3, 4, objs)
    same(util().get_merkle_root(m.txns), want, 'root of the transactions of a block')
    back = proto.mod().Message.parse(m.binary(MAGIC), MAGIC)
    same(util().get_merkle_root(back.txns), back.merkle_root, 'root after the wire')
    same([o.binary() for o in objs], [enc(p) for p in ps], 'transactions afterwards')


class FakeBlock(object):
    pass


@PROP.sub('from-block', gen=st.tuples(proto.part('BH'), st.lists(st.one_of(small_tx, small_tx, st.integers(0, 3)), max_size=6).filter(lambda l: not l or not isinstance(l[0], int))), quick=250, thorough=8000, rule='headers and block messages made from a stored block, which may hold one transaction several times')
def from_block(c, t):
    p, txs = c
    P = proto.mod()
    b = FakeBlock()
    made, all_ = [], []
    for x in txs:
        if isinstance(x, int):
            all_.append(all_[x % len(all_)])
            made.append(made[x % len(made)])
        else:
            all_.append(x)
            made.append(proto.make_part(x))
    txs = all_
    b.version, b.previous_hash, b.merkle_root, b.timestamp, b.bits, b.nonce = p[1:7]
    b.transactions = made
    h = P.BlockHeader.from_block(b)
    same(h.binary(), enc(p[:7] + (len(txs),)), 'header')
    same(h.hash, ref_hash(p), 'hash')
    m = P.Block.from_block(b)
    same(m.binary(MAGIC)[24:], enc(p)[:80] + proto.varint(len(txs)) + b''.join(map(enc, txs)), 'block')
    t.nontrivial(bool(txs))


@PROP.sub('genesis', enum=lambda tier: [0], rule='the genesis block from the constants of the coin')
def genesis(c, t):
    from nbc import coins
    P = proto.mod()
    C = coins.Newbitcoin
    script = bytes.fromhex('04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73')
    pk = bytes.fromhex('4104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac')
    tx = P.Txn(1, [P.TxnIn(P.OutPoint(b'\0' * 32, 0xffffffff), script, 0xffffffff)], [P.TxnOut(50 * 10**8, pk)], 0)
    same(tx.hash[::-1].hex(), '4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b', 'coinbase hash')
    same(util().get_merkle_root([tx]), C.genesis_merkle_root, 'Merkle root')
    h = util().get_block_header(C.genesis_version, b'\0' * 32, C.genesis_merkle_root, C.genesis_timestamp, C.genesis_bits, C.genesis_nonce)
    same(len(h), 80, 'header size')
    same(util().sha256d(h), C.genesis_block_hash, 'block hash')
    bh = P.BlockHeader(C.genesis_version, b'\0' * 32, C.genesis_merkle_root, C.genesis_timestamp, C.genesis_bits, C.genesis_nonce, 1)
    same(bh.hash, C.genesis_block_hash, 'hash of the header object')
    same(bh.hash[::-1].hex(), '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f', 'public genesis hash')
    same(util().get_target(C.genesis_bits), (0xffff << 208).to_bytes(32, 'big'), 'target')
    expect(C.genesis_block_hash[::-1] <= util().get_target(C.genesis_bits), 'proof of work')


def large(tier):
    for n in (0, 252, 253, 65535, 65536, 70000, 99999, 100000, 100001, 200000, 2**20 - 60, 2**20, 2**20 + 1) + ((2**22, 2**24) if tier == 'thorough' else ()):
        yield 'script', n
    for n in (252, 253, 1000, 3000) + ((70000,) if tier == 'thorough' else ()):
        yield 'inputs', n
        yield 'outputs', n


@PROP.sub('large', enum=large, quick=48, cpu=120, rule='transactions up to over a megabyte in one script or in thousands of inputs or outputs, built and parsed; two that differ in one byte have the hashes of their bytes')
def large_tx(c, t):
    how, n = c
    P = proto.mod()
    t.nontrivial(n > 1000)
    ins = ('TI', ('OP', b'\1' * 32, 2), b'ab', 5)
    for k in (0, 1):
        if how == 'script':
            text = gen._expand(7, 64) * (n // 64 + 1)
            text = text[:n]
            if k:
                text = text[:n // 2] + bytes([text[n // 2] ^ 1]) + text[n // 2 + 1:] if n else b'x'
            ps = [('TX', 1, [('TI', ('OP', b'\1' * 32, 2), text, 5)], [('TO', 7, b'k')], 0), ('TX', 1, [ins], [('TO', 7, text)], 9)]
        elif how == 'inputs':
            ps = [('TX', 1, [ins] * n + [('TI', ('OP', b'\2' * 32, k), b'', 6)], [('TO', 7, b'k')], 0)]
        else:
            ps = [('TX', 1, [ins], [('TO', 7, b'k')] * n + [('TO', k, b'')], 0)]
        for p in ps:
            want = ref_hash(p)
            for o in (proto.make_part(p), parsed(p)):
                same(o.hash, want, 'hash')
                same(o.binary() == enc(p), True, 'serialisation')
                same(o.hash, want, 'hash again')
            small = proto.make_part(('TX', 1, [ins], [('TO', 7, b'k')], 0))
            same(util().get_merkle_root([o, small, o]), merkle([want, small.hash, want]), 'root with it')
