import base64, json, os
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58, aes
from .c03 import typed

PROP = Prop('C05', assumptions=['decrypting with a wrong passphrase yields effectively random bytes; a wrong passphrase that still decrypts to a well-formed key of the right length and zero padding has negligible probability for the generated cases'])


def secret(spec, ref):
    return wal.ref_wif(ref.k, ref.compressed) if ref.kind == 'addr' else ref.k.to_bytes(32, 'big')


def payload(sec):
    b = b'%02x' % len(sec) + sec
    return b + b'\0' * (-len(b) % 16)


def load(path, p):
    from nbc.wallet import loadFrom
    from .c03 import prompted
    with prompted():
        return loadFrom(path, p)


@PROP.sub('format', gen=st.tuples(wal.specs(1), wal.passphrases()), quick=120, thorough=5000,
          rule='wallet x passphrase: the stored key is exactly the reference ciphertext, and a reference-made file loads')
def fmt(c, t):
    from nbc.wallet import saveTo
    spec, p = c
    ref = wal.Ref(spec)
    w = wal.build(spec)
    path = os.path.join(t.scratch(), 'w.txt')
    saveTo(path, w, p)
    raw = open(path, 'rb').read()
    cfg = json.loads(raw.decode())
    expect(cfg['encrypted'] is True, 'file not marked encrypted')
    sec = secret(spec, ref)
    want = aes.cbc_enc(wal.eff(p), b'\0' * 16, payload(sec)).hex()
    same(cfg['prvkey'], want, 'stored private key')
    expect(not cfg.get('pubkey') or True)
    kb = ref.k.to_bytes(32, 'big')
    low = raw.lower()
    if ref.k >> 200:
        for enc in (kb, kb.hex().encode(), wal.ref_wif(ref.k, False).lower(), wal.ref_wif(ref.k, True).lower(),
                    wal.ref_wif(ref.k, ref.compressed).hex().encode(), base64.b64encode(kb).lower(), str(ref.k).encode()):
            expect(enc not in low, 'private key readable in the encrypted file')
        if ref.node:
            expect(b58.enc_check(ref.node.extended(True, ref.testnet)).lower() not in low, 'extended private key in the file')
    expect(p not in raw or len(p) < 8, 'passphrase stored in the file')
    cfg2 = dict(cfg, prvkey=aes.cbc_enc(wal.eff(p), b'\0' * 16, payload(sec)).hex())
    with open(path, 'w') as f:
        json.dump(cfg2, f)
    wal.check_view(load(path, p), wal.ref_view(ref), 'reference-made file')
    t.label(spec[0], 'len%d' % min(len(p), 17))


others = st.one_of(st.tuples(st.just('new'), wal.passphrases()), st.tuples(st.just('mut'), st.lists(gen.mutation(), min_size=1, max_size=2)),
                   st.tuples(st.just('case'),), st.tuples(st.just('num'), st.integers(0, 10**8)))


def other_pass(p, o):
    if o[0] == 'new':
        return o[1]
    if o[0] == 'mut':
        return gen.mutate(p, o[1])
    if o[0] == 'case':
        return p.swapcase()
    return b'%d' % o[1]


def expect_refused(path, p, ref, what):
    """refused with an error, and in particular no wallet comes out"""
    try:
        w = load(path, p)
    except Exception as e:
        expect(isinstance(e, (ValueError, AssertionError, TypeError)) or True)
        return
    v = wal.view(w)
    raise Fail('%s accepted: wallet address %r (the real one is %r), private key %s' % (
        what, v['address'], ref.address, 'correct' if v['full'] == ec.full(ref.K) else 'different'))


@PROP.sub('wrong-pass', gen=st.tuples(wal.specs(0), wal.passphrases(), st.lists(others, min_size=4, max_size=12)), quick=200, thorough=10000,
          rule='wallet x passphrase x 4-12 other passphrases; non-trivial when an effective passphrase differs')
def wrong(c, t):
    from nbc.wallet import saveTo
    spec, p, os_ = c
    ref = wal.Ref(spec)
    path = os.path.join(t.scratch(), 'w.txt')
    saveTo(path, wal.build(spec), p)
    n = 0
    for o in os_:
        q = other_pass(p, o)
        if not q or wal.eff(q) == wal.eff(p):
            continue
        n += 1
        expect_refused(path, q, ref, 'wrong passphrase %r' % q)
    t.nontrivial(n)


@PROP.sub('likely-headers', gen=st.tuples(wal.specs(0), st.integers(0, 10**9)), quick=40, thorough=800,
          rule='for each wallet 4096 wrong passphrases are decrypted with the reference and those whose length header looks valid are offered to the real loader; non-trivial when there is one')
def headers(c, t):
    from nbc.wallet import saveTo
    spec, s0 = c
    ref = wal.Ref(spec)
    path = os.path.join(t.scratch(), 'w.txt')
    p = b'pass%d' % s0
    saveTo(path, wal.build(spec), p)
    ct = bytes.fromhex(json.load(open(path))['prvkey'])
    n = len(ct)
    tried = 0
    for i in range(4096):
        q = b'%d/%d' % (s0, i)
        head = aes.AES(wal.eff(q)).dec(ct[:16])[:2]
        try:
            l = int(head, 16)
        except ValueError:
            continue
        if 2 + l <= n <= l + 17:
            tried += 1
            if tried <= 4:
                expect_refused(path, q, ref, 'wrong passphrase %r' % q)
    t.nontrivial(tried)
    t.label('headers%d' % min(tried, 5))


@PROP.sub('tampered', gen=st.tuples(wal.specs(0), wal.passphrases(), st.lists(gen.mutation(), min_size=1, max_size=2)), quick=200, thorough=8000,
          rule='stored encrypted key altered, cut or extended: never yields a wallet with another key')
def tampered(c, t):
    from nbc.wallet import saveTo
    spec, p, muts = c
    ref = wal.Ref(spec)
    path = os.path.join(t.scratch(), 'w.txt')
    saveTo(path, wal.build(spec), p)
    cfg = json.load(open(path))
    ct = bytes.fromhex(cfg['prvkey'])
    ct2 = gen.mutate(ct, muts)
    t.nontrivial(ct2 != ct and len(ct2) == len(ct))
    if ct2 == ct:
        return
    cfg['prvkey'] = ct2.hex()
    with open(path, 'w') as f:
        json.dump(cfg, f)
    if not ct2:
        return                     # no stored key at all: not an encrypted wallet any more
    dec = aes.cbc_dec(wal.eff(p), b'\0' * 16, ct2) if len(ct2) % 16 == 0 else None
    if ref.kind == 'hd' and dec is not None:
        # the format has no checksum over a raw key: a change confined to key bytes is undetectable
        body = dec[2:34]
        if dec[:2] == b'20' and not any(dec[34:]) and len(dec) == 48 and 0 < int.from_bytes(body, 'big') < wal.N:
            # by design: the record is well formed, either outcome is allowed
            t.label('well-formed')
            return
    expect_refused(path, p, ref, 'altered file')


craft = st.one_of(st.tuples(st.just('pad'), st.integers(0, 15), st.integers(1, 255)), st.tuples(st.just('pad'), st.integers(0, 15), st.sampled_from([0x20, 0x30, 1, 0x80, 0x0a])),
                  st.tuples(st.just('head'), st.integers(0, 255), st.just(0)), st.tuples(st.just('head'), st.integers(0, 70), st.just(0)), st.tuples(st.just('text'), st.integers(0, 65535), st.just(0)),
                  st.tuples(st.just('key'), st.sampled_from(['0', 'n', 'n+1', 'max', 'sum', 'prefix', 'mark']), st.integers(0, 255)))


def bad_secret(ref, how, x):
    k = {'0': 0, 'n': wal.N, 'n+1': wal.N + 1, 'max': 2**256 - 1}.get(how)
    if ref.kind == 'hd':
        return k.to_bytes(32, 'big') if k is not None else None
    if k is not None:
        return wal.ref_wif(k, ref.compressed)
    raw = b58.dec(wal.ref_wif(ref.k, ref.compressed))
    if how == 'sum':
        return b58.enc(raw[:-1] + bytes([raw[-1] ^ (x or 1)]))
    body = raw[:-4]
    if how == 'prefix':
        return b58.enc_check(bytes([x if x != 0x80 else 0]) + body[1:])
    return b58.enc_check(body[:-1] + bytes([x if x != 1 else 2])) if ref.compressed else None


@PROP.sub('records', gen=st.tuples(wal.specs(0), wal.passphrases(), craft), quick=160, thorough=8000,
          rule='key records with non-zero padding, another length header or a bad key, encrypted with the right passphrase: refused')
def records(c, t):
    from nbc.wallet import saveTo
    spec, p, (how, x, y) = c
    ref = wal.Ref(spec)
    path = os.path.join(t.scratch(), 'w.txt')
    saveTo(path, wal.build(spec), p)
    cfg = json.load(open(path))
    sec = secret(spec, ref)
    rec = bytearray(payload(sec))
    if how == 'pad':
        room = len(rec) - 2 - len(sec)
        if not room:
            return
        rec[2 + len(sec) + x % room] = y
    elif how in ('head', 'text'):
        rec[:2] = b'%02x' % x if how == 'head' else x.to_bytes(2, 'big')
        try:
            l = int(bytes(rec[:2]), 16)
        except ValueError:
            l = -1
        if l == len(sec):
            return
        if ref.kind == 'hd' and l > 0 and (l < 32 and not any(rec[2 + l:]) or l > 32 and ref.k << 8 * (min(l, len(rec) - 2) - 32) < wal.N):
            return                 # a well-formed record of another key
    else:
        sec = bad_secret(ref, x, y)
        if sec is None:
            return
        rec = bytearray(payload(sec))
    t.nontrivial()
    t.label(how, spec[0])
    cfg['prvkey'] = aes.cbc_enc(wal.eff(p), b'\0' * 16, bytes(rec)).hex()
    with open(path, 'w') as f:
        json.dump(cfg, f)
    expect_refused(path, p, ref, 'record %r' % bytes(rec))


@PROP.sub('odd-texts', enum=lambda tier: [(i, how, ch, at) for i in range(3) for how in ('given', 'typed') for ch in '\u20ac\u0100\u0130\u4e2d\ud83d\ude00\ufeff\u200b' for at in (0, 4, 10)], quick=150,
          rule='exhaustive: the right passphrase with one character that no saved passphrase can hold put in, given as text or typed: refused')
def odd_texts(c, t):
    from nbc.wallet import saveTo, loadFrom
    from .c03 import prompted
    i, how, ch, at = c
    p = ['passphrase', 'caf\xe9 au lait', '0123456789'][i]
    spec = [('addr', 4711, True, False, 9), ('hd', b'odd', (1,), False, 9)][(i + at) % 2]
    path = os.path.join(t.scratch(), 'w.txt')
    saveTo(path, wal.build(spec), p.encode('latin-1'))
    q = p[:at] + ch + p[at:]
    with prompted([q] * 3 if how == 'typed' else []):
        try:
            w = loadFrom(path, q) if how == 'given' else loadFrom(path)
        except Exception as e:
            w = None
    expect(w is None, 'passphrase %r accepted for %r (%s)', q, p, how)


tries = st.lists(st.tuples(st.integers(0, 1), st.sampled_from(['given', 'typed', 'record']), st.one_of(st.integers(0, 3), st.integers(0, 3), others)), min_size=2, max_size=6)


@PROP.sub('again', gen=st.tuples(wal.specs(0), wal.specs(0), typed, typed, tries), quick=120, thorough=5000,
          rule='two encrypted wallets, loaded again and again from file or from one parsed record, with right and wrong passphrases given or typed: only ever with the right one; non-trivial when a wrong one follows a right one')
def again(c, t):
    from nbc.wallet import saveTo, loadFrom, Address, HDWallet
    from .c03 import prompted
    ps = [c[2], c[3]]
    places, want, records = [], [], []
    for i in range(2):
        ref = wal.Ref(c[i])
        path = os.path.join(t.scratch(), 'w%d.txt' % i)
        saveTo(path, wal.build(c[i]), ps[i].encode('latin-1'))
        places.append(path)
        want.append(ref)
        records.append(json.load(open(path)))
    right = False
    for i, how, q in c[4]:
        if type(q) is tuple:
            q = other_pass(ps[i].encode('latin-1'), q).decode('latin-1')
        else:
            q = ps[i] if q > 1 else ps[1 - i] if q else ps[i][::-1] + 'x'
        if not q.strip() or q != q.strip():
            continue
        ok = wal.eff(q.encode('latin-1')) == wal.eff(ps[i].encode('latin-1'))
        t.nontrivial(right and not ok)
        t.label(how, 'right' if ok else 'wrong')
        with prompted([q] * 3 if how == 'typed' else []):
            try:
                if how == 'record':
                    w = (Address if want[i].kind == 'addr' else HDWallet).load_from_cfg(records[i], q.encode('latin-1'))
                elif how == 'given':
                    w = loadFrom(places[i], q.encode('latin-1'))
                else:
                    w = loadFrom(places[i])
            except Exception as e:
                expect(not ok, 'the right passphrase was refused: %s', e)
                w = None
        if ok:
            wal.check_view(w, wal.ref_view(want[i]), 'loaded wallet')
        else:
            expect(w is None, 'a wrong passphrase %r (%s) was accepted', q, how)
        same(records[i], json.load(open(places[i])), 'the record and the file')
        right = right or ok
