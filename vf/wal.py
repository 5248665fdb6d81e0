"""Building wallets from literal case descriptions, and reference views of them."""
import hashlib
from hypothesis import strategies as st
from . import gen
from .refs import ec, b58
from .core import expect, same, Fail

C = ec.SECP256K1
N = C.n


def point(k):
    return C.mul(k, C.g)


def ref_wif(k, compressed):
    return b58.enc_check(b'\x80' + k.to_bytes(32, 'big') + (b'\x01' if compressed else b''))


def vcns():
    return st.one_of(gen.ints(0, 0xffff), st.integers(0, 15), st.sampled_from([0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff]))


def seeds():
    return st.one_of(gen.data(64), gen.blob(16), gen.blob(32), gen.blob(64), gen.data(200))


def index():
    return st.one_of(st.integers(0, 5), gen.ints(0, 2**32 - 1), st.sampled_from([0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1]))


def soft_index():
    return st.one_of(st.integers(0, 5), gen.ints(0, 2**31 - 1), st.sampled_from([0, 1, 255, 256, 2**24, 2**31 - 1]))


def paths(maxlen=3):
    return st.lists(index(), max_size=maxlen).map(tuple)


def addr_specs():
    return st.tuples(st.just('addr'), gen.scalars(), st.booleans(), st.booleans(), vcns())


def hd_specs(maxlen=2):
    return st.tuples(st.just('hd'), seeds(), paths(maxlen), st.booleans(), vcns())


def specs(maxlen=2):
    return st.one_of(addr_specs(), hd_specs(maxlen))


def messages():
    return st.one_of(gen.data(300), st.sampled_from([b'', b'example', b'\0', b'\x80' * 64]), gen.sizes(5000).flatmap(gen.blob),
                     st.tuples(st.sampled_from([65535, 65536, 65537, 70001, 131073, 200000]), st.integers(0, 2**32)).map(lambda v: gen._expand(v[1], v[0])))


def passphrases():
    return st.one_of(st.binary(min_size=1, max_size=40), gen.sizes(40, 1).flatmap(gen.blob),
                     st.text(min_size=1, max_size=12).map(lambda s: s.encode('utf-8', 'ignore') or b'x'),
                     st.sampled_from([b'password', b'\x00', b'\xff' * 16, b'0', b'a' * 15, b'a' * 16, b'a' * 17]))


def eff(p):
    return p[:16].ljust(16, b'\0')


class Ref(object):
    """what a wallet built from a spec must look like"""
    def __init__(self, spec):
        self.kind = spec[0]
        self.testnet, self.vcn = spec[3], spec[4]
        if self.kind == 'addr':
            self.k, self.compressed = spec[1], spec[2]
            self.K = point(self.k)
            self.node = None
        else:
            n = ec.Node.master(spec[1])
            for i in spec[2]:
                n = n.child(i)
            self.node, self.k, self.K, self.compressed = n, n.k, n.K, True
        self.pub = ec.compress(self.K) if self.compressed else ec.full(self.K)
        self.address = b58.address(self.pub, self.vcn, b'\x6f' if self.testnet else b'\x00')


def build(spec):
    """the real wallet for a spec (holding the private key)"""
    from nbc.wallet import Address, HDWallet
    if spec[0] == 'addr':
        _, k, comp, testnet, vcn = spec
        return Address(privKey=ref_wif(k, comp), vcn=vcn, testnet=testnet)
    _, seed, path, testnet, vcn = spec
    w = HDWallet.from_master_seed(seed, vcn=vcn, testnet=testnet)
    for i in path:
        w = w.child(i)
    w.vcn = vcn
    return w


def build_public(spec, ref):
    """the real wallet holding only the public key"""
    from nbc.wallet import Address, HDWallet
    if spec[0] == 'addr':
        return Address(pubKey=ref.pub, vcn=ref.vcn, testnet=ref.testnet)
    from nbc.util.ecdsa import SECP256k1
    from nbc.util.ecdsa.ellipticcurve import Point
    n = ref.node
    pt = Point(SECP256k1.curve, ref.K[0], ref.K[1])
    if n.depth == 0:
        return HDWallet(pt, n.c, vcn=ref.vcn, testnet=ref.testnet)
    return HDWallet(pt, n.c, vcn=ref.vcn, testnet=ref.testnet, depth=n.depth, parentfp=n.fp, childnum=n.num)


def view(w):
    """every observable of a wallet, as literals"""
    from nbc.wallet import Address
    if isinstance(w, Address):
        return {'kind': 'addr', 'prv': w.privKey, 'full': w.pubKey, 'pub': w.publicKey(), 'vcn': w.vcn,
                'testnet': w.testnet, 'compressed': w.compressed, 'address': w.address}
    return {'kind': 'hd', 'prv': w.prvkey(), 'full': b'\x04' + w.pubkey(), 'chain': w.chain(), 'vcn': w.vcn,
            'depth': w.depth(), 'fp': w.parentfp(), 'num': w.childnum(), 'address': w.address(),
            'finger': w.fingerprint(), 'xpub': w.to_extended_key(),
            'xprv': w.to_extended_key(include_prv=True) if w.prvkey() else None}


def ref_view(ref, public=False):
    if ref.kind == 'addr':
        return {'kind': 'addr', 'prv': None if public else ref_wif(ref.k, ref.compressed), 'full': ec.full(ref.K),
                'pub': ref.pub, 'vcn': ref.vcn, 'testnet': ref.testnet, 'compressed': ref.compressed,
                'address': ref.address}
    n = ref.node
    prv = None if public else n.k.to_bytes(32, 'big')
    return {'kind': 'hd', 'prv': prv, 'full': ec.full(n.K), 'chain': n.c, 'vcn': ref.vcn, 'depth': n.depth,
            'fp': n.fp, 'num': n.num, 'address': ref.address, 'finger': n.fingerprint(),
            'xpub': b58.enc_check(n.extended(False, ref.testnet)),
            'xprv': None if public else b58.enc_check(n.extended(True, ref.testnet))}


def check_view(w, want, what=''):
    got = view(w)
    for key in want:
        same(got[key], want[key], '%s %s' % (what, key))


# -- DER signatures ------------------------------------------------------------
def der_int(v):
    b = v.to_bytes((v.bit_length() + 8) // 8, 'big')
    return b'\x02' + der_len(len(b)) + b


def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def der_sig(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + der_len(len(body)) + body


def _rd_len(b, i):
    if i >= len(b):
        return None
    n = b[i]
    if n < 128:
        return n, i + 1
    k = n & 127
    if k == 0 or i + 1 + k > len(b):
        return None
    return int.from_bytes(b[i + 1:i + 1 + k], 'big'), i + 1 + k


def liberal_sig(b):
    """every (r, s) a liberal BER reader may take b for: sequence of two
    integers, unsigned, trailing bytes anywhere ignored, short bodies cut."""
    if not b or b[0] != 0x30:
        return None
    l = _rd_len(b, 1)
    if l is None:
        return None
    body = b[l[1]:l[1] + l[0]]
    out, i = [], 0
    for _ in range(2):
        if i >= len(body) or body[i] != 2:
            return None
        l = _rd_len(body, i + 1)
        if l is None:
            return None
        v = body[l[1]:l[1] + l[0]]
        out.append(int.from_bytes(v, 'big'))
        i = l[1] + l[0]
    return tuple(out)


def strict_sig(b):
    """(r, s) if b is the canonical DER of two non-negative integers"""
    rs = liberal_sig(b)
    return rs if rs is not None and der_sig(*rs) == b else None


def decode_pub(b):
    """the point a 33/65-byte public key encodes, or None"""
    if len(b) == 65 and b[0] == 4:
        P = (int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big'))
        return P if C.on(P) else None
    if len(b) == 33 and b[0] in (2, 3):
        return C.lift(int.from_bytes(b[1:], 'big'), b[0] & 1)
    return None


_SPECIAL = []


def special_points():
    """points whose coordinates are special numbers: small, next to the field
    prime or the group order, round (nobody need know their private keys)"""
    if not _SPECIAL:
        p = C.p
        want = [1, 2, 3, 4, 6, 8, 255, 256, 2**31, 2**64, 2**128, 2**248, 2**255, p - 1, p - 2, p - 3, p - 5, N - 1, N, N + 1, N + 2, p // 2, 10**20]
        seen = set()
        for v in want:
            for odd in (0, 1):
                P = C.lift(v, odd) if v < p else None
                if P and P not in seen:
                    seen.add(P)
            for x in C.lift_y(v % p):
                # all three cube roots
                seen.add((x, v % p))
        _SPECIAL.extend(sorted(seen))
        # short coordinates: small x whose y is anything, and the other way round
        n = 0
        for x in range(5, 300, 7):
            P = C.lift(x << 8 * (x % 31), x & 1)
            if P and P not in seen:
                _SPECIAL.append(P)
                n += 1
            if n == 12:
                break
    return _SPECIAL


def digest_int(msg):
    return int.from_bytes(b58.dsha(msg), 'big')


def wif_scalar(w):
    "the scalar in a WIF text"
    return int.from_bytes(b58.dec(w)[1:33], 'big')
