import getpass, json, os
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C03', assumptions=['passphrases are byte strings; effective passphrases are their first 16 bytes (documented AES key size); passphrases given as text or typed at the prompt are Latin-1 and stand for those bytes'])


# the stand-in of the prompt is in place before the code is imported, however it imports it
HOOK = [getpass.getpass]
getpass.getpass = lambda *a, **k: HOOK[0](*a, **k)


class Prompt(object):
    "stand-in for the terminal prompt"
    def __init__(self, answers):
        self.answers, self.asked = list(answers), 0

    def __call__(self, *a, **k):
        self.asked += 1
        if not self.answers:
            raise Fail('prompted although nothing should be asked (or asked again)')
        return self.answers.pop(0)


class prompted(object):
    def __init__(self, answers=()):
        self.p = Prompt(answers)

    def __enter__(self):
        self.old = HOOK[0]
        HOOK[0] = self.p
        return self.p

    def __exit__(self, *a):
        HOOK[0] = self.old


typed = st.one_of(st.text(alphabet=[chr(c) for c in range(33, 127)], min_size=1, max_size=20),
                  st.text(alphabet=[chr(c) for c in range(33, 256) if not 127 <= c <= 160], min_size=1, max_size=20))
# how the file is saved and opened again
rounds = st.lists(st.one_of(
    st.tuples(st.just('plain')), st.tuples(st.just('unneeded'), wal.passphrases()), st.tuples(st.just('pass'), wal.passphrases()),
    st.tuples(st.just('prompt'), typed, st.integers(0, 2)), st.tuples(st.just('text'), typed),
    st.tuples(st.just('cut'), wal.passphrases(), st.binary(min_size=1, max_size=5))), min_size=1, max_size=3)


def cycle(w, rnd, path, has_prv):
    from nbc.wallet import saveTo, loadFrom
    how = rnd[0]
    if how == 'plain':
        saveTo(path, w)
        cfg = json.load(open(path))
        expect(cfg['encrypted'] is False, 'plain file marked encrypted')
        with prompted():
            return loadFrom(path)
    p = rnd[1]
    if how == 'unneeded':          # nothing to decrypt, whatever is passed
        saveTo(path, w)
        with prompted():
            return loadFrom(path, p)
    if how == 'prompt':
        saveTo(path, w, p.encode('latin-1'))
        with prompted([''] * rnd[2] + [p + ' ' * rnd[2]]) as pr:
            out = loadFrom(path)
            if has_prv:
                expect(pr.asked == rnd[2] + 1, 'prompted %d times', pr.asked)
            else:
                expect(pr.asked == 0, 'prompted for a public wallet')
            return out
    if how == 'text':  # saved with the bytes, opened with the text
        saveTo(path, w, p.encode('latin-1'))
        with prompted():
            return loadFrom(path, p)
    if how == 'cut':   # only 16 bytes of the passphrase count
        saveTo(path, w, p)
        with prompted():
            return loadFrom(path, (wal.eff(p) + rnd[2]))
    saveTo(path, w, p)
    with prompted():
        return loadFrom(path, p)


@PROP.sub('file', gen=st.tuples(wal.addr_specs(), st.booleans(), st.sampled_from(['', 'compress', 'decompress']), rounds, wal.messages()),
          quick=200, thorough=6000,
          rule='wallet (all forms, public-only or private, form changed or not), 1-3 save/load cycles with/without passphrase or prompt; non-trivial when encrypted or public-only')
def file(c, t):
    from nbc.wallet import saveTo, loadFrom
    spec, public, change, rnds, msg = c
    ref = wal.Ref(spec)
    w = wal.build_public(spec, ref) if public else wal.build(spec)
    if change:
        w = getattr(w, change)()
        spec = spec[:2] + (change == 'compress',) + spec[3:]
        ref = wal.Ref(spec)
    want = wal.ref_view(ref, public)
    wal.check_view(w, want, 'original')
    path = os.path.join(t.scratch(), 'w.txt')
    for rnd in rnds:
        t.label(rnd[0], 'public' if public else 'private')
        t.nontrivial(public or rnd[0] != 'plain')
        w2 = cycle(w, rnd, path, not public)
        wal.check_view(w2, want, 'loaded (%s)' % rnd[0])
        wal.check_view(w, want, 'saved wallet afterwards')
        w = w2
    if not public:
        sig = w.sign(msg)
        expect(w.verify(msg, sig), 'loaded wallet does not verify its own signature')
        rs = wal.strict_sig(sig)
        expect(rs and ec.ecdsa_verify(wal.C, ref.K, wal.digest_int(msg), *rs), 'loaded wallet signs with another key')
    else:
        r, s = ec.ecdsa_sign(wal.C, spec[1], wal.digest_int(msg), 12345)
        expect(w.verify(msg, wal.der_sig(r, s)), 'loaded public wallet rejects a good signature')
        raises(ValueError, w.sign, msg)


@PROP.sub('generated', gen=st.tuples(st.booleans(), st.booleans(), st.one_of(st.none(), wal.vcns()), st.one_of(st.just(b''), wal.passphrases()), st.integers(0, 10**9)),
          quick=48, thorough=1500, rule='freshly generated wallets, random or given channel')
def generated(c, t):
    from nbc.wallet import Address, saveTo, loadFrom
    comp, testnet, vcn, p, _ = c
    w = Address.generate(vcn=vcn, testnet=testnet, compressed=comp)
    path = os.path.join(t.scratch(), 'g.txt')
    saveTo(path, w, p)
    w2 = loadFrom(path, p)
    same(wal.view(w2), wal.view(w), 'loaded wallet')
    t.nontrivial(bool(p))


@PROP.sub('one-file', gen=st.tuples(st.lists(st.tuples(wal.specs(0), st.booleans(), st.one_of(st.just(b''), st.just(b''), wal.passphrases())), min_size=2, max_size=5), st.lists(st.integers(0, 9), min_size=3, max_size=8), st.booleans()),
          quick=80, thorough=3000, rule='several wallets saved one after another under two names and loaded in between, time stamps of the files standing still or not: a load gives what was saved last under its name; non-trivial when a name is saved to again after a load')
def one_file(c, t):
    from nbc.wallet import saveTo, loadFrom
    ws, ops, still = c
    ws = [(wal.build_public(s, wal.Ref(s)) if pub else wal.build(s), wal.ref_view(wal.Ref(s), pub), p) for s, pub, p in ws]
    paths = [os.path.join(t.scratch(), n) for n in ('one.txt', 'two.txt')]
    for p in paths:
        if os.path.exists(p):
            os.unlink(p)
    held, loaded = {}, set()
    for i, o in enumerate(ops):
        path = paths[o % 7 == 6]
        w, view, pw = ws[i % len(ws)]
        saveTo(path, w, pw)
        t.nontrivial(path in loaded)
        if still:
            os.utime(path, (10**9, 10**9))
        held[path] = (view, pw)
        for path, (view, pw) in held.items():
            if o % 3:
                with prompted():
                    wal.check_view(loadFrom(path, pw), view, 'wallet loaded from %s' % os.path.basename(path))
                loaded.add(path)


@PROP.sub('special-points', enum=lambda tier: [(i, comp, change) for i in range(len(wal.special_points())) for comp in (False, True) for change in ('', 'compress', 'decompress')][::1 if tier == 'thorough' else 3], quick=200,
          rule='exhaustive (quick: every third): public-only wallets on points with special coordinates (small, round, next to the field prime or the group order), saved and loaded')
def special_points(c, t):
    from nbc.wallet import Address
    i, comp, change = c
    K = wal.special_points()[i]
    testnet = bool(i % 2)
    w = Address(pubKey=ec.compress(K) if comp else ec.full(K), vcn=7, testnet=testnet)
    if change:
        w, comp = getattr(w, change)(), change == 'compress'
    pub = ec.compress(K) if comp else ec.full(K)
    path = os.path.join(t.scratch(), 'w.txt')
    for x, what in ((w, 'the wallet'), (cycle(w, ('plain', b''), path, False), 'the loaded wallet'), (w, 'the saved wallet')):
        same((x.privKey, x.pubKey, x.publicKey(), x.vcn, x.testnet, x.compressed), (None, ec.full(K), pub, 7, testnet, comp), what)
        same(x.address, b58.address(pub, 7, b'\x6f' if testnet else b'\0'), 'address of ' + what)
