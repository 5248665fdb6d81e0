from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C01', assumptions=['double SHA-256 collisions and forged signatures do not occur by chance',
                                'r, n-s is the one other valid signature ECDSA allows and is not counted as a change'])


def bad_numbers(r, s, how, x):
    n = wal.N
    return {'r+': (r % (n - 1) + 1, s), 's+': (r, s % (n - 1) + 1), 'r0': (0, s), 's0': (r, 0),
            'swap': (s, r), 'rn': (n, s), 'sn': (r, n), 'r+n': (r + n, s), 's+n': (r, s + n), 'rneg': (n - r, s),
            'rx': (x, s), 'sx': (r, x), 'rflip': (r ^ (1 << (x % 256)), s), 'sflip': (r, s ^ (1 << (x % 256))),
            'zz': (0, 0)}[how]

HOWS = ['r+', 's+', 'r0', 's0', 'swap', 'rn', 'sn', 'r+n', 's+n', 'rneg', 'rx', 'sx', 'rflip', 'sflip', 'zz']


def other_messages():
    return st.one_of(st.tuples(st.just('mut'), st.lists(gen.mutation(), min_size=1, max_size=2)),
                     st.tuples(st.just('new'), wal.messages()), st.tuples(st.just('tail'), st.integers(0, 3)))


case = st.tuples(wal.specs(2), wal.messages(), other_messages(), wal.specs(1),
                 st.lists(st.tuples(st.sampled_from(HOWS), st.integers(1, wal.N - 1)), min_size=1, max_size=2))


@PROP.sub('sign-verify', gen=case, quick=96, thorough=4000,
          rule='random wallet (both kinds, all forms), message, changed message, other wallet, changed signature numbers; non-trivial when the message differs from the changed one')
def sign_verify(c, t):
    spec, msg, (mk, mv), spec2, alters = c
    from nbc.util import ecc
    w = wal.build(spec)
    ref = wal.Ref(spec)
    before = wal.view(w)
    sig = w.sign(msg)
    expect(type(sig) is bytes, 'signature is %s', type(sig))
    expect(w.verify(msg, sig) is True, 'own signature rejected')
    rs = wal.strict_sig(sig)
    expect(rs is not None, 'signature is not canonical DER: %r', sig)
    expect(ec.ecdsa_verify(wal.C, ref.K, wal.digest_int(msg), *rs), 'signature does not satisfy the equation')
    pub = wal.build_public(spec, ref)
    expect(pub.verify(msg, sig) is True, 'public-only wallet rejects the signature')
    expect(ecc.verify(msg, ec.compress(ref.K), sig) is True, 'compressed key rejects')
    expect(ecc.verify(msg, ec.full(ref.K), sig) is True, 'full key rejects')
    raises(ValueError, pub.sign, msg)
    same(wal.view(w), before, 'wallet changed by signing')
    if mk == 'mut':
        other = gen.mutate(msg, mv)
    elif mk == 'tail':
        other = msg + b'\0' * (mv + 1)
    else:
        other = mv
    t.nontrivial(other != msg)
    t.label(spec[0], 'alt-' + mk)
    if other != msg:
        expect(w.verify(other, sig) is False, 'accepted for another message %r', other)
        expect(pub.verify(other, sig) is False, 'public wallet accepts another message')
    ref2 = wal.Ref(spec2)
    if ref2.K != ref.K:
        w2 = wal.build(spec2)
        expect(w2.verify(msg, sig) is False, 'accepted by another wallet')
        sig2 = w2.sign(msg)
        expect(w.verify(msg, sig2) is False, 'another wallet\'s signature accepted')
    for how, x in alters:
        r, s = bad_numbers(rs[0], rs[1], how, x)
        if (r, s) == rs or (r == rs[0] and s == wal.N - rs[1]):
            continue
        # an altered pair is valid only if it satisfies the equation (it never does by chance)
        want = ec.ecdsa_verify(wal.C, ref.K, wal.digest_int(msg), r, s)
        expect(w.verify(msg, wal.der_sig(r, s)) is want, 'altered numbers (%s): %s', how, not want)
        t.label(how)


@PROP.sub('generated', gen=st.tuples(st.booleans(), st.booleans(), wal.vcns(), wal.messages(), st.integers(0, 10**9)),
          quick=48, thorough=1500, rule='freshly generated random wallet and message')
def generated(c, t):
    comp, testnet, vcn, msg, _ = c
    from nbc.wallet import Address
    w = Address.generate(vcn=vcn, testnet=testnet, compressed=comp)
    same((w.compressed, w.testnet, w.vcn), (comp, testnet, vcn), 'generated wallet form')
    sig = w.sign(msg)
    pub = Address(pubKey=w.publicKey(), vcn=vcn, testnet=testnet)
    same(pub.address, w.address, 'address of the public half')
    expect(w.verify(msg, sig) is True and pub.verify(msg, sig) is True, 'signature rejected')
    expect(w.verify(msg + b'.', sig) is False, 'accepted for another message')
    for v in (w.compress(), w.decompress(), pub.compress(), pub.decompress()):
        expect(v.verify(msg, sig) is True, 'rejected after changing the form')
    raises(ValueError, pub.sign, msg)


@PROP.sub('series', gen=st.tuples(st.one_of(wal.specs(1), wal.hd_specs(5)), st.one_of(wal.specs(0), wal.hd_specs(5)), st.one_of(st.integers(1, 300), gen.sizes(9000, 1)), st.lists(st.integers(0, 10**6), min_size=2, max_size=2), st.lists(st.tuples(st.integers(0, 1), st.integers(0, 3)), min_size=3, max_size=5),
                                  st.lists(st.tuples(st.integers(0, 2), st.integers(0, 4), st.integers(0, 3)), min_size=4, max_size=7)), quick=40, thorough=1500,
          rule='two wallets sign messages that differ in one byte in turn, then any of them (or a public-only one) checks any signature against any message; non-trivial when a wallet signed two different messages')
def series(c, t):
    specs, size, flips, signs, checks = c[:2], c[2], c[3], c[4], c[5]
    refs = [wal.Ref(s) for s in specs]
    ws = [wal.build(s) for s in specs] + [wal.build_public(specs[0], refs[0])]
    keys = [refs[0].K, refs[1].K, refs[0].K]
    base = gen._expand(0, size)
    edges = [0, size - 1, size // 2, min(size - 1, 32)]
    msgs = [base] + [base[:p] + bytes([base[p] ^ (1 + f % 255)]) + base[p + 1:] for f in flips for p in [edges[f % 8] if f % 8 < 4 else f % size]] + [base + b'\0']
    sigs = []
    for w, m in signs:
        sig = ws[w].sign(msgs[m])
        rs = wal.strict_sig(sig)
        expect(rs is not None and ec.ecdsa_verify(wal.C, keys[w], wal.digest_int(msgs[m]), *rs), 'signature %d of the series is not one of its message and key', len(sigs))
        sigs.append((w, m, sig))
    t.nontrivial(any(a[0] == b[0] and msgs[a[1]] != msgs[b[1]] for a in sigs for b in sigs))
    for w, i, m in checks:
        by, signed, sig = sigs[i % len(sigs)]
        want = keys[w] == keys[by] and msgs[m] == msgs[signed]
        t.label('yes' if want else 'no')
        expect(ws[w].verify(msgs[m], sig) is want, 'verification in the series: not %s', want)


@PROP.sub('lengths', enum=lambda tier: list(range(0, 1200 if tier == 'thorough' else 200)) + [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 100000, 2**20], quick=220,
          rule='exhaustive: a message of each length up to 200 and of round lengths beyond is signed; the signature satisfies the equation and is not accepted for the message with one byte (first, last, middle) changed, removed or added')
def lengths(c, t):
    spec = ('addr', 1000 + c, c % 2 == 0, False, 5) if c % 3 else ('hd', b'lengths', (c,), False, 5)
    ref = wal.Ref(spec)
    w = wal.build(spec)
    msg = gen._expand(c, c)
    sig = w.sign(msg)
    rs = wal.strict_sig(sig)
    expect(rs is not None and ec.ecdsa_verify(wal.C, ref.K, wal.digest_int(msg), *rs), 'the signature of a message of %d bytes does not satisfy the equation', c)
    others = [msg + b'\0', msg + msg[-1:] or b'\1', msg[:-1], msg[1:], msg[:-1] + bytes([msg[-1] ^ 1]) if msg else b'\2', msg[:c // 2] + bytes([msg[c // 2] ^ 128]) + msg[c // 2 + 1:] if msg else b'\3', b'\0' + msg]
    m = others[c % len(others)]
    if m != msg:
        expect(w.verify(m, sig) is False, 'the signature of a message of %d bytes is accepted for another one', c)


@PROP.sub('anywhere', enum=lambda tier: [(d, num, testnet) for d in (0, 1, 2, 3, 127, 128, 254, 255) for num in ((0, 7, 2**31, 2**32 - 1) if d else (0,)) for testnet in (False, True)][::1 if tier == 'thorough' else 2], quick=80,
          rule='exhaustive (quick: every second): deterministic wallets at special depths and child numbers sign and verify as anywhere in the tree')
def anywhere(c, t):
    from nbc.wallet import HDWallet
    depth, num, testnet = c
    k = int.from_bytes(b58.dsha(repr(c).encode()), 'big') % wal.N
    n = ec.Node(k, wal.point(k), b58.dsha(b'c'), depth, b58.dsha(b'f')[:4] if depth else bytes(4), num)
    w = HDWallet.from_extended_key(b58.enc_check(n.extended(True, testnet)), vcn=1)
    pub = HDWallet.from_extended_key(b58.enc_check(n.extended(False, testnet)), vcn=1)
    msg = b58.dsha(b'm' + repr(c).encode())[:depth % 30 + 1]
    sig = w.sign(msg)
    rs = wal.strict_sig(sig)
    expect(rs and ec.ecdsa_verify(wal.C, n.K, wal.digest_int(msg), *rs), 'the signature does not satisfy the equation')
    for x, what in ((w, 'the signer'), (pub, 'the public-only wallet')):
        expect(x.verify(msg, sig) is True, '%s rejects the signature', what)
        expect(x.verify(msg + b'\0', sig) is False, '%s accepts another message', what)
        expect(x.verify(msg, wal.der_sig(rs[0], rs[1] ^ 1)) is False, '%s accepts another signature', what)
    raises(ValueError, pub.sign, msg)
