from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58
from .c07 import compare

PROP = Prop('C08')
ALPH = b58.A


@PROP.sub('round-trip', gen=st.tuples(wal.seeds(), wal.paths(2), st.booleans(), st.booleans(), wal.index(), st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 127, 128, 254, 255]))), quick=160, thorough=6000,
          rule='wallet on either network at any depth, exported privately or publicly and imported; non-trivial below the master or public')
def roundtrip(c, t):
    from nbc.wallet import HDWallet
    seed, path, testnet, prv, i, depth = c
    w = HDWallet.from_master_seed(seed, testnet=testnet)
    n = ec.Node.master(seed)
    for j in path:
        w, n = w.child(j), n.child(j)
    text = w.to_extended_key(include_prv=prv)
    want = b58.enc_check(n.extended(prv, testnet))
    same(text, want, 'extended key')
    same(w.to_extended_key(), b58.enc_check(n.extended(False, testnet)), 'default export is the public one')
    v = HDWallet.from_extended_key(text)
    compare(v, n, testnet, not prv, 'imported')
    same(v.to_extended_key(include_prv=prv), text, 're-export')
    same(v.to_extended_key(), b58.enc_check(n.extended(False, testnet)), 're-export public')
    for vcn in (i & 0xffff, ~i & 0xffff, i & 0xffff):      # the channel is the one asked for, each time
        u = HDWallet.from_extended_key(text, vcn=vcn)
        same((u.vcn, u.address()), (vcn, b58.address(ec.compress(n.K), vcn, b'\x6f' if testnet else b'\0')), 'channel and address of an import')
    v.vcn = w.vcn = 0x1234
    same(v.address(), b58.address(ec.compress(n.K), 0x1234, b'\x6f' if testnet else b'\0'), 'imported address')
    same(v.address(), w.address(), 'address')
    if prv:
        ii = i
    else:
        ii = i & 0x7fffffff
        raises(Exception, v.to_extended_key, include_prv=True)
        raises(Exception, v.child, ii | 2**31)
    compare(v.child(ii), n.child(ii), testnet, not prv, 'child of the import')
    same(v.child(ii).to_extended_key(), b58.enc_check(n.child(ii).extended(False, testnet)), 'child export')
    # arbitrary position, as another program may have exported it
    n.depth, n.num, n.fp = (depth, i, b58.dsha(seed)[:4]) if depth else (0, 0, b'\0' * 4)
    text = b58.enc_check(n.extended(prv, testnet))
    v = HDWallet.from_extended_key(text)
    compare(v, n, testnet, not prv, 'foreign import')
    same(v.to_extended_key(include_prv=prv), text, 'foreign re-export')
    t.nontrivial(path or not prv)
    t.label('prv' if prv else 'pub', 'test' if testnet else 'main', 'y%d' % (n.K[1] & 1))


text_edits = st.lists(st.one_of(
    st.tuples(st.just('sub'), st.integers(0, 200), st.integers(0, 57)),
    st.tuples(st.just('swap'), st.integers(0, 200), st.integers(0, 200)),
    st.tuples(st.just('del'), st.integers(0, 200), st.integers(1, 3)),
    st.tuples(st.just('ins'), st.integers(0, 200), st.integers(0, 57)),
    st.tuples(st.just('one'), st.integers(1, 3), st.just(0)),
    st.tuples(st.just('app'), st.integers(0, 57), st.just(0)),
    st.tuples(st.just('bad'), st.integers(0, 200), st.sampled_from(list(b'0OIl +/\x00\xff'))),
    st.tuples(st.just('cut'), st.integers(0, 200), st.just(0))), min_size=1, max_size=2)


def edit_text(s, edits):
    b = bytearray(s)
    for op, i, x in edits:
        n = len(b)
        if op == 'one':
            b[0:0] = b'1' * i
        elif op == 'app':
            b.append(ALPH[i])
        elif not n:
            continue
        elif op == 'sub':
            b[i % n] = ALPH[x]
        elif op == 'bad':
            b[i % n] = x
        elif op == 'swap':
            b[i % n], b[x % n] = b[x % n], b[i % n]
        elif op == 'del':
            del b[i % n:i % n + x]
        elif op == 'ins':
            b.insert(i % (n + 1), ALPH[x])
        elif op == 'cut':
            del b[i % n:]
    return bytes(b)


@PROP.sub('corrupt-text', gen=st.tuples(wal.seeds(), st.booleans(), st.booleans(), text_edits), quick=400, thorough=20000,
          rule='exported text with characters replaced, swapped, removed, inserted; non-trivial when the text changed')
def corrupt(c, t):
    from nbc.wallet import HDWallet
    seed, prv, testnet, edits = c
    n = ec.Node.master(seed)
    text = b58.enc_check(n.extended(prv, testnet))
    bad = edit_text(text, edits)
    t.nontrivial(bad != text)
    t.label(*[e[0] for e in edits])
    if bad != text:
        raises(Exception, HDWallet.from_extended_key, bad)
    else:
        HDWallet.from_extended_key(bad)


payload_edits = st.one_of(
    st.tuples(st.just('version'), st.one_of(gen.ints(0, 2**32 - 1), st.sampled_from([0x0488B21E, 0x0488ADE4, 0x043587CF, 0x04358394, 0x0488B21F, 0x49d7cb2]))),
    st.tuples(st.just('tag'), st.integers(0, 255)),
    st.tuples(st.just('x'), gen.ints(0, 2**256 - 1)),
    st.tuples(st.just('key'), st.sampled_from([0, 1, wal.N - 1, wal.N, wal.N + 1, 2**256 - 1, wal.C.p, wal.C.p - 1, wal.C.p + 1, wal.C.p + 2, wal.C.p + 3, wal.C.p + 4, wal.C.p + 6])),
    st.tuples(st.just('len'), st.lists(gen.mutation(), min_size=1, max_size=1)),
    st.tuples(st.just('long'), st.binary(min_size=1, max_size=5)),
    st.tuples(st.just('short'), st.integers(1, 78)))


def valid_payload(b):
    """(kind, testnet) if b is a well-formed 78-byte extended key, else None"""
    if len(b) != 78:
        return None
    ver = int.from_bytes(b[:4], 'big')
    key = b[45:]
    if ver in (0x0488B21E, 0x043587CF):
        return ('pub', ver == 0x043587CF) if key[0] in (2, 3) and wal.decode_pub(key) else None
    if ver in (0x0488ADE4, 0x04358394):
        return ('prv', ver == 0x04358394) if key[0] == 0 and 0 < int.from_bytes(key[1:], 'big') < wal.N else None
    return None


@PROP.sub('bad-payload', gen=st.tuples(wal.seeds(), st.booleans(), st.booleans(), st.lists(payload_edits, min_size=1, max_size=2)), quick=400, thorough=20000,
          rule='78-byte payload changed (version, key tag, key value, length) under a correct checksum; non-trivial when it became invalid')
def payload(c, t):
    from nbc.wallet import HDWallet
    seed, prv, testnet, edits = c
    n = ec.Node.master(seed)
    n.depth, n.num, n.fp = 3, 9, b'wxyz'
    b = n.extended(prv, testnet)
    for op, x in edits:
        if op == 'version':
            b = x.to_bytes(4, 'big') + b[4:]
        elif op == 'tag':
            b = b[:45] + bytes([x]) + b[46:]
        elif op in ('x', 'key'):
            b = b[:46] + x.to_bytes(32, 'big')
        elif op == 'len':
            b = gen.mutate(b, x)
        elif op == 'long':
            b += x
        else:
            b = b[:-x]
        t.label(op)
    good = valid_payload(b)
    text = b58.enc_check(b)
    t.nontrivial(good is None)
    t.label('good' if good else 'bad')
    if good is None:
        raises(Exception, HDWallet.from_extended_key, text)
        return
    if b[4] == 0 and (b[5:9] != b'\0' * 4 or b[9:13] != b'\0' * 4):
        return        # a master with a parent: BIP32 calls it invalid, either answer is fine
    w = HDWallet.from_extended_key(text)
    same(w.to_extended_key(include_prv=good[0] == 'prv'), text, 're-export')


@PROP.sub('tampered', gen=st.tuples(wal.seeds(), st.booleans(), st.booleans(), st.sampled_from([0, 1, 2, 127, 128, 254, 255]), wal.index(),
                                    st.one_of(gen.mutation().map(lambda m: ('mut', m)), st.tuples(st.just('flip'), st.integers(0, 81), st.integers(0, 7)),
                                              st.tuples(st.just('flip'), st.integers(78, 81), st.integers(0, 7)), st.tuples(st.just('long'), st.integers(0, 1), st.binary(min_size=1, max_size=5)),
                                              st.tuples(st.just('space'), st.integers(0, 111), st.sampled_from([b' ', b'\n', b'\t', b'\0', b'\r\n'])))),
          quick=500, thorough=20000, rule='the 82 decoded bytes changed in one place or extended, or white space put into the text; non-trivial when something changed')
def tampered(c, t):
    from nbc.wallet import HDWallet
    seed, prv, testnet, depth, num, ed = c
    n = ec.Node.master(seed)
    if depth:
        n.depth, n.num, n.fp = depth, num, b58.dsha(seed)[:4]
    text = b58.enc_check(n.extended(prv, testnet))
    raw = bytearray(b58.dec(text))
    if ed[0] == 'mut':
        raw = gen.mutate(raw, [ed[1]])
    elif ed[0] == 'flip':
        raw[ed[1]] ^= 1 << ed[2]
    elif ed[0] == 'long':
        raw = raw + ed[2] if ed[1] else ed[2] + raw
    bad = b58.enc(bytes(raw))
    if ed[0] == 'space':
        i = min(ed[1], len(bad))
        bad = bad[:i] + ed[2] + bad[i:]
    t.nontrivial(bad != text)
    t.label(ed[0])
    if bad == text:
        same(HDWallet.from_extended_key(bad).depth(), depth, 'depth')
    else:
        raises(Exception, HDWallet.from_extended_key, bad)


SPECIAL = [1, 2, 3, wal.N - 1, wal.N - 2, wal.N - 3, wal.N // 2, wal.N // 2 + 1, 2**128, 2**248 - 1, 2**255, 0xff, 256, 0x30 << 248, 0x80 << 240]


@PROP.sub('special-keys', enum=lambda tier: [(k, i, testnet) for k in SPECIAL for i in (0, 2**31 - 1, 2**31, 2**32 - 1) for testnet in (False, True)], quick=120,
          rule='exhaustive: private keys at the ends of the range and with many zero bytes, imported, and their first and last plain and hardened children')
def special_keys(c, t):
    from nbc.wallet import HDWallet
    k, i, testnet = c
    n = ec.Node(k, wal.point(k), b58.dsha(b'%d' % k), 1, b'abcd', 7)
    text = b58.enc_check(n.extended(True, testnet))
    w = HDWallet.from_extended_key(text)
    same(w.to_extended_key(include_prv=True), text, 're-export')
    same(w.to_extended_key(), b58.enc_check(n.extended(False, testnet)), 'public export')
    compare(w, n, testnet, False, 'import')
    compare(w.child(i), n.child(i), testnet, False, 'child of the import')
    if not i >> 31:
        v = HDWallet.from_extended_key(b58.enc_check(n.extended(False, testnet)))
        compare(v.child(i), n.child(i), testnet, True, 'public child')


@PROP.sub('not-reduced', enum=lambda tier: [(d, tag) for d in range(-20, 60) for tag in (2, 3)], quick=160,
          rule='exhaustive: public keys whose x lies around the field prime: those not below it are refused although the reduced x may have a point')
def not_reduced(c, t):
    from nbc.wallet import HDWallet
    d, tag = c
    b = (0x0488B21E).to_bytes(4, 'big') + b'\x01abcd\0\0\0\x01' + b58.dsha(b'x') + bytes([tag]) + (wal.C.p + d).to_bytes(32, 'big')
    good = valid_payload(b)
    t.nontrivial(d >= 0 and wal.C.lift(d, 0) is not None)
    if good:
        same(HDWallet.from_extended_key(b58.enc_check(b)).to_extended_key(), b58.enc_check(b), 're-export')
    else:
        raises(Exception, HDWallet.from_extended_key, b58.enc_check(b))
