import os, subprocess
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, wal
from ..refs import ec
from ..wal import der_len
from .c18 import NAMES, lib, blen

PROP = Prop('C22', assumptions=['OpenSSL 3 command line as the reference for file formats; the harmless damage a private-key file tolerates (its unused public part) is allowed'])
OPENSSL = {'NIST192p': 'prime192v1', 'NIST224p': 'secp224r1', 'NIST256p': 'prime256v1', 'NIST384p': 'secp384r1', 'NIST521p': 'secp521r1', 'SECP256k1': 'secp256k1'}
OID = {'NIST192p': '2a8648ce3d030101', 'NIST224p': '2b81040021', 'NIST256p': '2a8648ce3d030107', 'NIST384p': '2b81040022', 'NIST521p': '2b81040023', 'SECP256k1': '2b8104000a'}


def tlv(tag, *parts):
    b = b''.join(parts)
    return bytes([tag]) + der_len(len(b)) + b


def oid(name):
    return tlv(6, bytes.fromhex(OID[name]))


class Ref(object):
    def __init__(self, name, k):
        R = ec.BY_NAME[name]
        l = blen(R)
        self.name, self.k, self.P = name, k, R.mul(k, R.g)
        self.prv = k.to_bytes(l, 'big')
        self.pub = self.P[0].to_bytes(l, 'big') + self.P[1].to_bytes(l, 'big')
        bits = tlv(3, b'\0\4' + self.pub)
        self.pub_der = tlv(0x30, tlv(0x30, tlv(6, bytes.fromhex('2a8648ce3d0201')), oid(name)), bits)
        self.prv_der = tlv(0x30, tlv(2, b'\1'), tlv(4, self.prv), tlv(0xa0, oid(name)), tlv(0xa1, bits))


def pem(b, name):
    import base64
    s = base64.b64encode(b).decode()
    return ('-----BEGIN %s-----\n' % name + ''.join(s[i:i + 64] + '\n' for i in range(0, len(s), 64)) + '-----END %s-----\n' % name).encode()


keys = st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), gen.scalars(ec.BY_NAME[n].n)))


def same_prv(sk, r, what):
    same(sk.to_string(), r.prv, what + ': private key')
    same(sk.curve.name, r.name, what + ': curve')
    same(sk.get_verifying_key().to_string(), r.pub, what + ': public key')
    same(sk.to_der(), r.prv_der, what + ': DER')


def same_pub(vk, r, what):
    same(vk.to_string(), r.pub, what + ': public key')
    same(vk.curve.name, r.name, what + ': curve')
    same(vk.to_der(), r.pub_der, what + ': DER')


@PROP.sub('round-trip', gen=keys, quick=60, thorough=4000, rule='curve x key (uniform, tiny, near the order, leading zero bytes): raw, DER and PEM; non-trivial for a key with a leading zero byte or near an end')
def round_trip(c, t):
    import hashlib
    from nbc.util.ecdsa import SigningKey, VerifyingKey
    name, k = c
    r, cv = Ref(*c), lib(name)
    t.label(name)
    t.nontrivial(r.prv[0] == 0 or r.pub[0] == 0 or k > ec.BY_NAME[name].n - 1000)
    sk = SigningKey.from_secret_exponent(k, cv)
    same_prv(sk, r, 'key')
    vk = sk.get_verifying_key()
    same_pub(vk, r, 'key')
    same(sk.to_pem(), pem(r.prv_der, 'EC PRIVATE KEY'), 'private PEM')
    same(vk.to_pem(), pem(r.pub_der, 'PUBLIC KEY'), 'public PEM')
    same_prv(SigningKey.from_string(r.prv, cv), r, 'from raw')
    for h in (None, hashlib.sha256):
        kw = {} if h is None else {'hashfunc': h}
        for how, got in (('DER', SigningKey.from_der(r.prv_der, **kw)), ('PEM', SigningKey.from_pem(sk.to_pem(), **kw)), ('PEM text', SigningKey.from_pem(sk.to_pem().decode(), **kw))):
            same_prv(got, r, 'from private ' + how)
            expect(got.default_hashfunc is (h or hashlib.sha1), 'hash function lost by %s', how)
    for small in (k >> 8 * (k % 5), k >> 8 * (len(r.prv) - 1 - k % 5), k >> 8 * (k % len(r.prv))):             # as some programs write it: without the leading zeros
        if not small:
            continue
        short_der = tlv(0x30, tlv(2, b'\1'), tlv(4, small.to_bytes((small.bit_length() + 7) // 8, 'big')), tlv(0xa0, oid(name)))
        same_prv(SigningKey.from_der(short_der), Ref(name, small), 'from DER with a short number')
        same_prv(SigningKey.from_pem(pem(short_der, 'EC PRIVATE KEY')), Ref(name, small), 'from PEM with a short number')
    same_pub(VerifyingKey.from_string(r.pub, cv), r, 'from raw')
    same_pub(VerifyingKey.from_der(r.pub_der), r, 'from DER')
    same_pub(VerifyingKey.from_pem(vk.to_pem()), r, 'from PEM')
    same_pub(VerifyingKey.from_pem(vk.to_pem().decode()), r, 'from PEM text')
    if k % 3 == 0:
        data = r.prv[:9]
        sig = SigningKey.from_der(r.prv_der).sign(data)
        expect(VerifyingKey.from_pem(vk.to_pem()).verify(sig, data) is True, 'the restored keys do not match')


def openssl(t, *args, data=b''):
    e = dict(os.environ, OPENSSL_CONF='/dev/null', HOME=t.scratch())
    e.pop('LD_PRELOAD', None)
    p = subprocess.run(['openssl'] + list(args), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=100)
    return p.returncode, p.stdout


@PROP.sub('openssl', fuzz=False, gen=keys, quick=36, thorough=1500, cpu=300, rule='OpenSSL reads our files and writes the same bytes back; we read what OpenSSL writes (with the EC PARAMETERS block too)')
def ossl(c, t):
    import base64
    from nbc.util.ecdsa import SigningKey, VerifyingKey
    name, k = c
    r, cv = Ref(*c), lib(name)
    t.label(name)
    sk = SigningKey.from_secret_exponent(k, cv)
    vk = sk.get_verifying_key()
    for form, inp in (('DER', sk.to_der()), ('PEM', sk.to_pem())):
        code, out = openssl(t, 'ec', '-inform', form, '-outform', 'DER', data=inp)
        if code and not out:
            raise Fail('OpenSSL does not read our private %s' % form)
        same(out, r.prv_der, 'private key written back by OpenSSL')
    code, out = openssl(t, 'ec', '-inform', 'DER', '-outform', 'PEM', data=sk.to_der())
    same_prv(SigningKey.from_pem(out), r, 'from OpenSSL PEM')
    _, params = openssl(t, 'ecparam', '-name', OPENSSL[name])
    expect(b'EC PARAMETERS' in params, 'no parameters from OpenSSL')
    same_prv(SigningKey.from_pem(params + out), r, 'from OpenSSL PEM with parameters')
    same_prv(SigningKey.from_pem((params + out).decode()), r, 'from OpenSSL PEM with parameters')
    code, out = openssl(t, 'ec', '-inform', 'PEM', '-outform', 'DER', '-pubout', data=sk.to_pem())
    same(out, vk.to_der(), 'public key derived by OpenSSL')
    code, out = openssl(t, 'ec', '-pubin', '-inform', 'DER', '-outform', 'PEM', data=vk.to_der())
    same_pub(VerifyingKey.from_pem(out), r, 'public PEM written by OpenSSL')
    same(out, vk.to_pem(), 'public PEM')


@PROP.sub('bad-raw', gen=st.tuples(keys, st.integers(1, 6), gen.data(6, 1), st.sampled_from(NAMES), st.integers(0, 2**521), st.integers(0, 2**521)), quick=90, thorough=6000,
          rule='raw strings of wrong length, for another curve, out of range, off the curve (one number changed, swapped, zero, beyond the field)')
def bad_raw(c, t):
    from nbc.util.ecdsa import SigningKey, VerifyingKey
    (name, k), cut, tail, other, x, y = c
    r, cv, R = Ref(name, k), lib(name), ec.BY_NAME[name]
    l = blen(R)
    for b in (r.prv + tail, tail + r.prv, r.prv[:-cut], r.prv[cut:], b''):
        raises(Exception, SigningKey.from_string, b, cv)
    for v in (0, R.n, R.n + 1, R.n + k, (1 << 8 * l) - 1):
        if v < 1 << 8 * l:
            raises(Exception, SigningKey.from_string, v.to_bytes(l, 'big'), cv)
            d = tlv(0x30, tlv(2, b'\1'), tlv(4, v.to_bytes(l, 'big')), tlv(0xa0, oid(name)), tlv(0xa1, tlv(3, b'\0\4' + r.pub)))
            raises(Exception, SigningKey.from_der, d)
        raises(Exception, SigningKey.from_secret_exponent, v, cv)
    raises(Exception, SigningKey.from_secret_exponent, -k, cv)
    for b in (r.pub + tail, tail + r.pub, r.pub[:-cut], r.pub[cut:], b'', b'\4' + r.pub, r.pub[:l], r.pub + b'\0', b'\0' + r.pub):
        raises(Exception, VerifyingKey.from_string, b, cv)
    if other != name:
        try:
            v = VerifyingKey.from_string(r.pub, lib(other))
        except Exception:
            pass
        else:
            expect(ec.BY_NAME[other].on(r.P) and blen(ec.BY_NAME[other]) == l, 'accepted on the wrong curve')
    px, py = r.P
    lim = 1 << 8 * l
    for q in ((py, px), (px, (py + 1) % R.p), ((px + 1) % R.p, py), (0, 0), (px, 0), (0, py), (x % lim, y % lim), (x % R.p, y % R.p), (px + R.p, py), (px, py + R.p), (R.p, R.p), (x % lim, py), (px, R.p - py)):
        if max(q) >= lim:
            continue
        ok = max(q) < R.p and R.on(q)
        b = q[0].to_bytes(l, 'big') + q[1].to_bytes(l, 'big')
        d = tlv(0x30, tlv(0x30, tlv(6, bytes.fromhex('2a8648ce3d0201')), oid(name)), tlv(3, b'\0\4' + b))
        if ok:
            same(VerifyingKey.from_string(b, cv).to_string(), b, 'a point on the curve')
            same(VerifyingKey.from_der(d).to_string(), b, 'a point on the curve')
        else:
            t.label('off curve')
            raises(Exception, VerifyingKey.from_string, b, cv)
            raises(Exception, VerifyingKey.from_der, d)
            raises(Exception, VerifyingKey.from_pem, pem(d, 'PUBLIC KEY'))


@PROP.sub('bad-der', gen=st.tuples(keys, st.integers(0, 400), gen.data(6, 1), st.sampled_from(NAMES + ['none'])), quick=120, thorough=5000,
          rule='DER and PEM truncated at any byte, extended, with another curve or algorithm, a compressed or marked point, a private key in place of a public one')
def bad_der(c, t):
    from nbc.util.ecdsa import SigningKey, VerifyingKey
    (name, k), cut, tail, other = c
    r, R = Ref(name, k), ec.BY_NAME[name]
    l = blen(R)
    raises(Exception, VerifyingKey.from_der, r.pub_der[:cut % len(r.pub_der)])
    raises(Exception, SigningKey.from_der, r.prv_der[:cut % len(r.prv_der)])
    for b in (r.pub_der + tail, r.prv_der, tail + r.pub_der if tail[0] != 0x30 else b'\0' + r.pub_der):
        raises(Exception, VerifyingKey.from_der, b)
    for b in (r.prv_der + tail, r.pub_der):
        raises(Exception, SigningKey.from_der, b)
    alg, bits = tlv(6, bytes.fromhex('2a8648ce3d0201')), tlv(3, b'\0\4' + r.pub)
    o = oid(other) if other != 'none' else tlv(6, bytes.fromhex('2b8104000b'))
    bad = [tlv(0x30, tlv(0x30, alg, oid(name), tail), bits), tlv(0x30, tlv(0x30, alg, oid(name)), bits, tail), tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, b'\0\4' + r.pub + tail)),
           tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, b'\0\4' + r.pub[:-1])), tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, b'\0' + bytes([2 + r.pub[-1] % 2]) + r.pub[:l])),
           tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, b'\0\5' + r.pub)), tlv(0x30, tlv(0x30, alg, oid(name)), tlv(4, b'\0\4' + r.pub)),
           tlv(0x30, tlv(0x30, oid(name), oid(name)), bits), tlv(0x30, tlv(0x30, tlv(6, bytes.fromhex('2a864886f70d010101')), oid(name)), bits), tlv(0x30, tlv(0x30, alg), bits), tlv(0x31, tlv(0x30, alg, oid(name)), bits)]
    # every other first byte of the point (hybrid form with the right parity too), every other count of unused bits
    marks = {0, 1, 2, 3, 5, 6, 7, 6 + r.pub[-1] % 2, 8, 0x40, 0x84, 0xff, cut & 255, ord(tail[:1])} - {4}
    bad += [tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, b'\0' + bytes([m]) + r.pub)) for m in sorted(marks)]
    bad += [tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, bytes([m]) + b'\4' + r.pub)) for m in sorted(marks | {4}) if m]
    bad += [tlv(0x30, tlv(0x30, alg, oid(name)), tlv(3, m + r.pub)) for m in (b'', b'\4', b'\0', b'\0\0\4', b'\0\4\4')]
    if other != name:
        bad.append(tlv(0x30, tlv(0x30, alg, o), bits))
    for b in bad:
        raises(Exception, VerifyingKey.from_der, b)
        raises(Exception, VerifyingKey.from_pem, pem(b, 'PUBLIC KEY'))
    one = tlv(2, b'\1')
    for v in (b'\0', b'\2', b'\3', b'\x7f', b'\0\xff', b'\1\1', b'\1\0'):
        raises(Exception, SigningKey.from_der, tlv(0x30, tlv(2, v), r.prv_der[r.prv_der.index(one) + len(one):]))
    for b in (tlv(0x30, tlv(2, b'\2'), tlv(4, r.prv), tlv(0xa0, oid(name))), tlv(0x30, one, tlv(4, r.prv), tlv(0xa1, oid(name))), tlv(0x30, one, tlv(4, r.prv + tail), tlv(0xa0, oid(name))),
              tlv(0x30, one, tlv(4, r.prv), tlv(0xa0, tlv(6, bytes.fromhex('2b8104000b')))), tlv(0x30, one, tlv(3, r.prv), tlv(0xa0, oid(name))), tlv(0x30, one, tlv(4, r.prv), tlv(0xa0, oid(name), tail)), tlv(0x31, r.prv_der[2:])):
        raises(Exception, SigningKey.from_der, b)
        raises(Exception, SigningKey.from_pem, pem(b, 'EC PRIVATE KEY'))
    raises(Exception, SigningKey.from_pem, pem(r.pub_der, 'PUBLIC KEY'))
    raises(Exception, SigningKey.from_pem, pem(r.prv_der, 'PUBLIC KEY'))


def states(b):
    "(curve oid, private key) a liberal reader finds in a private-key DER"
    def rd(b, mask, tag):
        if len(b) < 2 or b[0] & mask != tag:
            return None
        n = b[1]
        i = 2
        if n & 128:
            k = n & 127
            i, n = 2 + k, int.from_bytes(b[2:2 + k], 'big')
        return b[i:i + n], b[i + n:]
    x = rd(b, 255, 0x30)
    x = x and rd(x[0], 255, 2)
    key = x and rd(x[1], 255, 4)
    x = key and rd(key[1], 0xe0, 0xa0)
    x = x and rd(x[0], 255, 6)
    return (x[0], int.from_bytes(key[0], 'big')) if x else None


@PROP.sub('damaged', gen=st.tuples(keys, st.lists(gen.mutation(), min_size=1, max_size=3), st.sampled_from(['der', 'pem'])), quick=150, thorough=12000,
          rule='randomly damaged private and public files are refused or yield exactly what their bytes state; non-trivial when one was accepted')
def damaged(c, t):
    import base64
    from nbc.util.ecdsa import SigningKey, VerifyingKey
    (name, k), muts, how = c
    r = Ref(name, k)
    t.nontrivial(False)
    for b, kind in ((r.prv_der, 'prv'), (r.pub_der, 'pub')):
        if how == 'der':
            b = gen.mutate(b, muts)
            load = SigningKey.from_der if kind == 'prv' else VerifyingKey.from_der
            raw = b
        else:
            b = gen.mutate(pem(b, 'EC PRIVATE KEY' if kind == 'prv' else 'PUBLIC KEY'), muts)
            load = SigningKey.from_pem if kind == 'prv' else VerifyingKey.from_pem
        try:
            key = load(b)
        except (MemoryError, RecursionError):
            raise
        except Exception:
            continue
        t.nontrivial(True)
        t.label('accepted ' + kind + ' ' + how)
        if how == 'pem':
            raw = base64.b64decode(b''.join(l.strip() for l in b[b.find(b'-----BEGIN EC P') if kind == 'prv' else 0:].split(b'\n') if l and not l.startswith(b'-----')))
        if kind == 'prv':
            s = states(raw)
            expect(s is not None and int.from_bytes(key.to_string(), 'big') == s[1], 'the file states %s, the key is %s', s, key.to_string())
            R = ec.BY_NAME[key.curve.name]
            same(key.get_verifying_key().to_string(), Ref(key.curve.name, s[1]).pub, 'public key of the accepted key')
        else:
            R = ec.BY_NAME[key.curve.name]
            l = blen(R)
            s = key.to_string()
            expect(R.on((int.from_bytes(s[:l], 'big'), int.from_bytes(s[l:], 'big'))), 'accepted a point off the curve')
            expect(s in raw, 'the key is not the one in the file')


def special_public(tier):
    for name in NAMES:
        R = ec.BY_NAME[name]
        l = 8 * blen(R)
        for v in [0, 1, 2, 3, 4, 5, 255, 256, 2**64, 2**(l // 2), 2**(l - 8) - 1, 2**(l - 8), 2**(l - 1), R.p - 1, R.p - 2, R.p - 3, R.p // 2, R.n, R.n - 1, R.n + 1]:
            for odd in (0, 1):
                if R.p % 4 == 3 and v < R.p and R.lift(v, odd):
                    yield name, R.lift(v, odd)
        if name == 'SECP256k1':
            for P in wal.special_points():
                yield name, P


@PROP.sub('special-public', enum=lambda tier: list(special_public(tier)), quick=400,
          rule='exhaustive: public keys with special coordinates (small, round, next to the field prime or the group order) on every curve through every format')
def special_public_keys(c, t):
    from nbc.util.ecdsa import VerifyingKey as V
    name, P = c
    R = ec.BY_NAME[name]
    l = blen(R)
    curve = lib(name)
    pub = P[0].to_bytes(l, 'big') + P[1].to_bytes(l, 'big')
    der = tlv(0x30, tlv(0x30, tlv(6, bytes.fromhex('2a8648ce3d0201')), oid(name)), tlv(3, b'\0\4' + pub))
    t.label(name)
    vk = V.from_string(pub, curve)
    for x, what in ((vk, 'string'), (V.from_der(der), 'DER'), (V.from_pem(pem(der, 'PUBLIC KEY')), 'PEM'), (V.from_der(vk.to_der()), 'its own DER'), (V.from_pem(vk.to_pem()), 'its own PEM')):
        same(x.to_string(), pub, 'key from the ' + what)
        same(x.to_der(), der, 'DER of the key from the ' + what)
        same((x.pubkey.point.x(), x.pubkey.point.y(), x.curve.name), P + (name,), 'point of the key from the ' + what)
    # a neighbour that is not on the curve is refused
    bad = (P[0], P[1] ^ 1)
    if not R.on(bad):
        raises(Exception, V.from_string, pub[:-1] + bytes([pub[-1] ^ 1]), curve)
