from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import b58

PROP = Prop('C10', assumptions=['an altered text whose 32-bit checksum still matches does not occur by chance'])


def keys():
    return st.one_of(gen.blob(32), gen.scalars().map(lambda k: k.to_bytes(32, 'big')))


def model(text):
    """the key a standard WIF text carries, or None"""
    b = b58.dec_check(text)
    if b is None or b[:1] != b'\x80':
        return None
    if len(b) == 33 and text[:1] == b'5':
        return b[1:]
    if len(b) == 34 and b[-1:] == b'\x01' and text[:1] in (b'K', b'L'):
        return b[1:-1]
    return None


@PROP.sub('round-trip', gen=st.tuples(keys(), st.booleans()), quick=2000, thorough=100000, rule='every key, both forms')
def rt(c, t):
    from nbc.util import key
    k, comp = c
    text = key.privkey_to_wif(k + (b'\x01' if comp else b''))
    same(text, b58.enc_check(b'\x80' + k + (b'\x01' if comp else b'')), 'text')
    same(key.privkey_from_wif(text), k, 'key')
    same(key.privkey_from_wif(text.decode()), k, 'key from str')


def check(text, t):
    from nbc.util import key
    want = model(text)
    t.nontrivial(want is None)
    t.label('refused' if want is None else 'valid')
    if want is None:
        raises(ValueError, key.privkey_from_wif, text)
    else:
        same(key.privkey_from_wif(text), want, 'key')


def text_edit(s, edits):
    s = bytearray(s)
    for op, i, ch in edits:
        n = len(s)
        c = b58.A[ch % 58]
        if op == 'sub' and n:
            s[i % n] = c
        elif op == 'ins':
            s.insert(i % (n + 1), c)
        elif op == 'del' and n:
            del s[i % n]
        elif op == 'swap' and n > 1:
            i %= n - 1
            s[i], s[i + 1] = s[i + 1], s[i]
        elif op == 'cut':
            del s[i % (n + 1):]
        elif op == 'app':
            s.append(c)
        elif op == 'pre':
            s.insert(0, c)
        elif op == 'raw':
            s.insert(i % (n + 1), ch % 128)
    return bytes(s)


edits = st.lists(st.tuples(st.sampled_from(['sub', 'ins', 'del', 'swap', 'cut', 'app', 'pre', 'raw']), st.integers(0, 60), st.integers(0, 1000)), min_size=1, max_size=3)


@PROP.sub('mistyped', gen=st.tuples(keys(), st.booleans(), edits), quick=3000, thorough=150000, rule='1-3 character edits of a valid text; non-trivial when the model refuses the result')
def mistyped(c, t):
    k, comp, ed = c
    check(text_edit(b58.enc_check(b'\x80' + k + (b'\x01' if comp else b'')), ed), t)


@PROP.sub('tampered', gen=st.tuples(keys(), st.booleans(), st.one_of(st.tuples(st.just('flip'), st.integers(0, 37), st.integers(0, 7)), st.tuples(st.just('sum'), st.integers(1, 4), st.integers(0, 7)),
                                                                   st.tuples(st.just('ends'), st.sampled_from([b'', b' ', b'\n', b'\t', b'\0', b'\r\n', b'1', b'"']), st.sampled_from([b'', b' ', b'\n', b'\t', b'\0', b'\r\n', b'1', b'"'])))),
          quick=1500, thorough=60000, rule='one bit of the decoded bytes changed, or white space and the like put around the text; non-trivial when the model refuses')
def tampered(c, t):
    k, comp, (op, i, x) = c
    text = b58.enc_check(b'\x80' + k + (b'\x01' if comp else b''))
    if op == 'ends':
        text = i + text + x
    else:
        b = bytearray(b58.dec(text))
        b[i % len(b) if op == 'flip' else -i] ^= 1 << x
        text = b58.enc(bytes(b))
    check(text, t)


@PROP.sub('payload', gen=st.tuples(st.one_of(st.just(0x80), st.integers(0, 255)), st.one_of(st.sampled_from([31, 32, 33, 0, 1, 64]), st.integers(0, 70)), st.one_of(st.just(b''), st.binary(max_size=2), st.sampled_from([b'\x01', b'\0', b'\x02', b'\x01\x01'])),
                                   st.integers(0, 2**32)), quick=3000, thorough=150000,
          rule='checksummed payloads of any prefix, length and compression mark; non-trivial when the model refuses')
def payload(c, t):
    pre, n, tail, seed = c
    check(b58.enc_check(bytes([pre]) + gen._expand(seed, n) + tail), t)


@PROP.sub('foreign-prefix', gen=st.tuples(keys(), st.booleans(), st.integers(0, 255)), quick=600, thorough=20000,
          rule='text made for one prefix and read for another')
def prefix(c, t):
    from nbc.util import key
    k, comp, pre = c
    pre = bytes([pre])
    text = key.privkey_to_wif(k + (b'\x01' if comp else b''), prefix=pre)
    same(text, b58.enc_check(pre + k + (b'\x01' if comp else b'')), 'text')
    std = b58.enc_check(b'\x80' + k + (b'\x01' if comp else b''))
    if pre == b'\x80':
        same(key.privkey_from_wif(text), k, 'key')
    else:
        raises(ValueError, key.privkey_from_wif, text)
        raises(ValueError, key.privkey_from_wif, std, prefix=pre)


@PROP.sub('wallet', gen=st.tuples(keys(), st.booleans(), edits), quick=150, thorough=4000, rule='altered text given to a wallet never gives a wallet')
def wallet(c, t):
    from nbc.wallet import Address
    k, comp, ed = c
    text = text_edit(b58.enc_check(b'\x80' + k + (b'\x01' if comp else b'')), ed)
    want = model(text)
    if want is None or not 0 < int.from_bytes(want, 'big') < wal.N:
        if text:
            raises(Exception, Address, privKey=text, vcn=1)
    else:
        same(Address(privKey=text, vcn=1).privKey, text, 'private key')
