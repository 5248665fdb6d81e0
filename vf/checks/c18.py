import hashlib
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, toy
from ..refs import ec

PROP = Prop('C18', assumptions=['an altered signature is valid only when the reference equation says so'])
NAMES = ['NIST192p', 'NIST224p', 'NIST256p', 'NIST384p', 'NIST521p', 'SECP256k1']
HASHES = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5']


def lib(name):
    from nbc.util.ecdsa import curves
    return getattr(curves, name)


def blen(c):
    return (c.n.bit_length() + 7) // 8


def scal(name):
    return gen.scalars(ec.BY_NAME[name].n)


@PROP.sub('constants', enum=lambda tier: [(n,) for n in NAMES], rule='the six curves are the standard ones')
def constants(c, t):
    cv, r = lib(c[0]), ec.BY_NAME[c[0]]
    same((cv.curve.p(), cv.curve.a() % r.p, cv.curve.b() % r.p), (r.p, r.a, r.b), 'curve')
    same((cv.generator.x(), cv.generator.y(), cv.order, cv.generator.order()), r.g + (r.n, r.n), 'generator')
    same((cv.baselen, cv.verifying_key_length, cv.signature_length), (blen(r), 2 * blen(r), 2 * blen(r)), 'sizes')


digests = lambda n: st.one_of(st.integers(1, n).flatmap(gen.blob), gen.blob(n), gen.blob(min(n, 20)))
CASE = st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), digests(blen(ec.BY_NAME[n])), scal(n)))
ALTER = st.lists(st.tuples(st.sampled_from(['r', 's', 'r0', 's0', 'rn', 'sn', 'r+n', 's+n', '-s', '-r', 'swap', 'digest']), st.integers(0, 2**521)), min_size=1, max_size=3)


def altered(n, r, s, how, x):
    return {'r': (x % n, s), 's': (r, x % n), 'r0': (0, s), 's0': (r, 0), 'rn': (n, s), 'sn': (r, n), 'r+n': (r + n, s), 's+n': (r, s + n),
            '-s': (r, n - s), '-r': (n - r, s), 'swap': (s, r)}[how]


@PROP.sub('digest', gen=st.tuples(CASE, ALTER), quick=140, thorough=6000, rule='curve x key x digest x nonce: exact numbers, then altered numbers and digests against the reference equation')
def digest(c, t):
    from nbc.util.ecdsa import SigningKey, VerifyingKey, BadSignatureError, util
    (name, d, dig, k), alters = c
    cv, R = lib(name), ec.BY_NAME[name]
    t.label(name)
    z = int.from_bytes(dig, 'big')
    sk = SigningKey.from_secret_exponent(d, cv)
    Q = R.mul(d, R.g)
    vk = sk.get_verifying_key()
    same((vk.pubkey.point.x(), vk.pubkey.point.y()), Q, 'public key')
    want = ec.ecdsa_sign(R, d, z, k)
    got = sk.sign_digest(dig, sigencode=lambda r, s, o: (r, s, o), k=k)
    if 0 in want:
        return
    same(got, want + (R.n,), 'signature numbers')
    sig = sk.sign_digest(dig, k=k)
    same(sig, want[0].to_bytes(blen(R), 'big') + want[1].to_bytes(blen(R), 'big'), 'signature string')
    expect(vk.verify_digest(sig, dig) is True, 'own signature rejected')
    same(sk.sign_number(z, k=k), want, 'sign_number')
    # random nonce
    sig2 = sk.sign_digest(dig)
    expect(vk.verify_digest(sig2, dig) is True, 'signature with a random nonce rejected')
    vk2 = VerifyingKey.from_string(Q[0].to_bytes(blen(R), 'big') + Q[1].to_bytes(blen(R), 'big'), cv)
    dec = lambda s, o: s
    for how, x in alters:
        r, s = want
        dg = dig
        if how == 'digest':
            dg = bytearray(dig)
            dg[x % len(dg)] ^= 1 << (x // 64 % 8)
            dg = bytes(dg)
        else:
            r, s = altered(R.n, r, s, how, x)
        ok = ec.ecdsa_verify(R, Q, int.from_bytes(dg, 'big'), r, s)
        t.label(how, 'valid' if ok else 'invalid')
        if ok:
            expect(vk2.verify_digest((r, s), dg, sigdecode=dec) is True, 'valid signature rejected (%s)', how)
        else:
            raises(BadSignatureError, vk2.verify_digest, (r, s), dg, sigdecode=dec)


@PROP.sub('data', gen=st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), gen.data(200), st.sampled_from(HASHES), scal(n), scal(n))), quick=100, thorough=4000,
          rule='sign and verify data under every hash; digests longer than the curve are refused')
def data(c, t):
    from nbc.util.ecdsa import SigningKey, BadSignatureError, BadDigestError
    name, d, msg, h, k, d2 = c
    cv, R = lib(name), ec.BY_NAME[name]
    hf = getattr(hashlib, h)
    sk = SigningKey.from_secret_exponent(d, cv, hf)
    vk = sk.get_verifying_key()
    dig = hf(msg).digest()
    if len(dig) > blen(R):
        t.label('too-long')
        sig = b'\x01' * (2 * blen(R))
        raises(BadDigestError, sk.sign, msg)
        raises(BadDigestError, sk.sign_digest, dig)
        raises(BadDigestError, vk.verify, sig, msg)
        raises(BadDigestError, vk.verify_digest, sig, dig)
        raises(BadDigestError, sk.sign_deterministic, msg)
        return
    t.label(h)
    want = ec.ecdsa_sign(R, d, int.from_bytes(dig, 'big'), k)
    sig = sk.sign(msg, k=k)
    same(sig, want[0].to_bytes(blen(R), 'big') + want[1].to_bytes(blen(R), 'big'), 'signature')
    expect(vk.verify(sig, msg) is True, 'rejected')
    expect(vk.verify(sig, msg, hashfunc=hf) is True, 'rejected with the hash given')
    raises(BadSignatureError, vk.verify, sig, msg + b'\0')
    if d2 != d:
        vk2 = SigningKey.from_secret_exponent(d2, cv, hf).get_verifying_key()
        raises(BadSignatureError, vk2.verify, sig, msg)
    other = SigningKey.from_secret_exponent(d, cv)          # default hash is SHA-1
    same(other.sign(msg, hashfunc=hf, k=k), sig, 'signature with an explicit hash')


TOYS = toy.prime_curves(40)
BIG = toy.prime_curves(113, 40)


def toy_cases(tier):
    l = TOYS[::2] if tier == 'quick' else TOYS
    for i, (p, a, b, G, n) in enumerate(l):
        for d in range(1, n):
            yield (p, a, b, G, n, d)


@PROP.sub('toy-exhaustive', enum=toy_cases, cpu=300, rule='exhaustive on small curves: every key, nonce, digest and every (r, s) pair')
def toy_exhaustive(c, t):
    from nbc.util.ecdsa import ecdsa
    p, a, b, G, n, d = c
    C = ec.Curve(p, a, b, G, n)
    cv, g = toy.real(p, a, b, G, n)
    Q = C.mul(d, G)
    pub = ecdsa.Public_key(g, toy.mk(cv, Q))
    prv = ecdsa.Private_key(pub, d)
    zs = sorted({0, 1, 2, n - 1, n, n + 1, 2 * n + 3, 255, d, (n - d) % n, (d * 7 + 3) % n})
    for z in zs:
        for k in range(1, n):
            want = ec.ecdsa_sign(C, d, z, k)
            if 0 in want:
                raises(RuntimeError, prv.sign, z, k)
                continue
            s = prv.sign(z, k)
            same((s.r, s.s), want, 'signature d=%d z=%d k=%d' % (d, z, k))
    for z in zs[:4] if n > 13 else zs:
        for r in range(0, n + 2):
            for s in range(0, n + 2):
                ok = ec.ecdsa_verify(C, Q, z, r, s)
                got = pub.verifies(z, ecdsa.Signature(r, s))
                expect(got is ok or (got == ok and type(got) is bool), 'verifies(z=%d, r=%d, s=%d) is %r, should be %r', z, r, s, got, ok)


@PROP.sub('toy-keys', gen=st.tuples(st.sampled_from(BIG), st.integers(1, 10**6), st.integers(0, 255), st.integers(1, 10**6), st.integers(0, 200), st.integers(0, 200)), quick=1500, thorough=40000,
          rule='signing and verifying keys on small curves, arbitrary pairs')
def toy_keys(c, t):
    from nbc.util.ecdsa import ecdsa
    (p, a, b, G, n), d, z, k, r, s = c
    d, k = 1 + d % (n - 1), 1 + k % (n - 1)
    C = ec.Curve(p, a, b, G, n)
    cv, g = toy.real(p, a, b, G, n)
    Q = C.mul(d, G)
    pub = ecdsa.Public_key(g, toy.mk(cv, Q))
    want = ec.ecdsa_sign(C, d, z, k)
    prv = ecdsa.Private_key(pub, d)
    if 0 in want:
        t.label('unlucky')
        raises(RuntimeError, prv.sign, z, k)
    else:
        got = prv.sign(z, k)
        same((got.r, got.s), want, 'signature')
        expect(pub.verifies(z, got) is True, 'own signature rejected')
    ok = ec.ecdsa_verify(C, Q, z, r, s)
    t.label('valid' if ok else 'invalid')
    same(pub.verifies(z, ecdsa.Signature(r, s)), ok, 'verifies(%d, %d)' % (r, s))


def digest_sizes(tier):
    for n in NAMES:
        for h in ['sha256'] if tier == 'quick' else HASHES:
            yield n, h


@PROP.sub('digest-sizes', enum=digest_sizes, rule='on every curve: digests of every special content at the largest size are signed and verified by the reference numbers; one byte more is refused everywhere')
def digest_sizes_(c, t):
    from nbc.util.ecdsa import SigningKey, BadDigestError, BadSignatureError
    name, h = c
    cv, R = lib(name), ec.BY_NAME[name]
    l = blen(R)
    hf = getattr(hashlib, h)
    d = R.n // 3 + 7
    sk = SigningKey.from_secret_exponent(d, cv, hf)
    vk = sk.get_verifying_key()
    nb = R.n.to_bytes(l, 'big')
    for i, dig in enumerate((b'\xff' * l, b'\x80' + b'\0' * (l - 1), b'\0' * l, b'\0' * (l - 1) + b'\1', nb, (R.n + 1).to_bytes(l, 'big'), (R.n - 1).to_bytes(l, 'big'), b'\xff' * (l - 1), b'\xff')):
        k = R.n // (5 + i)
        want = ec.ecdsa_sign(R, d, int.from_bytes(dig, 'big'), k)
        sig = sk.sign_digest(dig, k=k)
        same(sig, want[0].to_bytes(l, 'big') + want[1].to_bytes(l, 'big'), 'signature of %s' % dig.hex())
        expect(vk.verify_digest(sig, dig) is True, 'digest %s rejected', dig.hex())
        other = bytes([dig[0] ^ 0x80]) + dig[1:]
        if (int.from_bytes(other, 'big') - int.from_bytes(dig, 'big')) % R.n:
            raises(BadSignatureError, vk.verify_digest, sig, other)
        det = sk.sign_digest_deterministic(dig, hashfunc=hf)
        expect(vk.verify_digest(det, dig) is True, 'deterministic signature rejected')
    sig = sk.sign_digest(b'\1' * l)
    for n in range(1, 4):
        for dig in (b'\0' * n + b'\1' * l, b'\1' * l + b'\0' * n, b'\1' * (l + n)):
            raises(BadDigestError, sk.sign_digest, dig)
            raises(BadDigestError, vk.verify_digest, sig, dig)


HOPS = st.lists(st.tuples(st.sampled_from(['sign', 'det', 'verify', 'bad']), st.sampled_from([None] + HASHES[:3] + ['md5']), gen.data(40)), min_size=3, max_size=8)


@PROP.sub('hash-series', gen=st.tuples(st.sampled_from(NAMES[1:]), st.integers(1, 2**180), st.sampled_from(HASHES[:2]), HOPS), quick=60, thorough=2500,
          rule='one key pair, a series of calls each with its own hash: the default hash stays the one of the key; non-trivial with two hashes')
def hash_series(c, t):
    from nbc.util.ecdsa import SigningKey, BadSignatureError
    name, d, default, ops = c
    cv, R = lib(name), ec.BY_NAME[name]
    l = blen(R)
    dh = getattr(hashlib, default)
    sk = SigningKey.from_secret_exponent(d, cv, dh)
    vk = sk.get_verifying_key()
    used = set()
    for op, h, msg in ops:
        hf = getattr(hashlib, h) if h else dh
        if len(hf().digest()) > l:
            continue
        used.add(h)
        kw = {'hashfunc': hf} if h else {}
        dig = hf(msg).digest()
        k = 1 + int.from_bytes(hashlib.sha256(dig).digest(), 'big') % 2**190
        want = ec.ecdsa_sign(R, d, int.from_bytes(dig, 'big'), k)
        ref = want[0].to_bytes(l, 'big') + want[1].to_bytes(l, 'big')
        if op == 'sign':
            same(sk.sign(msg, k=k, **kw), ref, 'signature')
        elif op == 'det':
            s = sk.sign_deterministic(msg, **kw)
            expect(ec.ecdsa_verify(R, (vk.pubkey.point.x(), vk.pubkey.point.y()), int.from_bytes(dig, 'big'), int.from_bytes(s[:l], 'big'), int.from_bytes(s[l:], 'big')), 'deterministic signature')
        elif op == 'verify':
            expect(vk.verify(ref, msg, **kw) is True, 'rejected')
        else:
            raises(BadSignatureError, vk.verify, ref, msg + b'.', **kw)
    t.nontrivial(len(used) > 1)
    same((sk.default_hashfunc, vk.default_hashfunc), (dh, dh), 'default hash afterwards')


@PROP.sub('bad-nonce', gen=st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), st.sampled_from([0, -1]) | gen.ints(ec.BY_NAME[n].n, ec.BY_NAME[n].n * 2))), quick=40, thorough=600,
          rule='nonces out of range are refused')
def bad_nonce(c, t):
    from nbc.util.ecdsa import SigningKey
    name, d, k = c
    sk = SigningKey.from_secret_exponent(d, lib(name))
    raises(Exception, sk.sign_digest, b'x' * 20, k=k)
    for m in (0, lib(name).order, 2 * lib(name).order):
        raises(Exception, sk.privkey.sign, 77, m)
