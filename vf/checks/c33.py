import struct
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto, wal
from ..refs import ec

PROP = Prop('C33', assumptions=['the payload is given as bytes, as it is in every received alert', 'signatures are made by an independent ECDSA implementation (vf/refs/ec.py)'])
N = wal.N
MAGIC = b'\xf9nbc'
F = ['version', 'relay_until', 'expiration', 'id', 'cancel', 'set_cancel', 'min_ver', 'max_ver', 'set_sub_ver', 'priority', 'comment', 'status_bar', 'reserved']
i4, i8 = proto.numbers('i'), proto.numbers('q')
txt = st.one_of(gen.data(40), gen.data(40), st.sampled_from([252, 253, 254, 300, 65535, 65536]).flatmap(gen.blob))
big = st.sampled_from([0, 1, 2, 5, 252, 253, 254, 300, 1000])


def many(s, n):
    return st.one_of(st.lists(s, max_size=5), st.tuples(st.just('*'), n, st.lists(s, min_size=1, max_size=3).map(tuple)))


alert = st.tuples(i4, i8, i8, i4, i4, many(i4, big), i4, i4, many(gen.data(20), big), i4, txt, txt, txt)
small = alert.filter(lambda a: len(repr(a)) < 900)


def encode(a):
    s = proto.varint
    sc, ss = proto.items(a[5]), proto.items(a[8])
    return (struct.pack('<iqqii', *a[:5]) + s(len(sc)) + b''.join(struct.pack('<i', v) for v in sc) + struct.pack('<ii', a[6], a[7])
            + s(len(ss)) + b''.join(s(len(v)) + v for v in ss) + struct.pack('<i', a[9]) + b''.join(s(len(v)) + v for v in a[10:]))


def norm(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def want(a):
    return [list(proto.items(v)) if i in (5, 8) else v for i, v in enumerate(a)]


def forms(p, sig):
    P = proto.mod()
    o = P.Alert(p, sig)
    return [o, P.Message.parse(o.binary(MAGIC), MAGIC)]


@PROP.sub('fields', gen=st.tuples(st.one_of(small, small, alert), st.lists(st.integers(0, 14), max_size=20), gen.data(20)), quick=900, thorough=60000,
          rule='alerts over all field values and set sizes, fields read in any order, repeatedly and between other uses, on built and parsed alerts, two alerts alive at once; non-trivial with a non-empty set')
def fields(c, t):
    a, order, sig = c
    w = want(a)
    t.nontrivial(bool(w[5] or w[8]))
    p = encode(a)
    b = a[:3] + (7, 8, [1, 2, 3]) + a[6:11] + (b'other', b'')
    wb = want(b)
    P = proto.mod()
    d = (5, 6, 7, 8, 9) + a[5:6] + (1, 2) + a[8:9] + (3,) + a[10:]          # as long as the first one
    wd = want(d)
    for o in forms(p, sig):
        other, third = P.Alert(encode(b), sig), P.Alert(encode(d), sig)
        for i in order + list(range(13)) + order:
            if i == 13:
                expect(isinstance(str(o), str), 'text form')
            elif i == 14:
                same(o.binary(MAGIC)[24:], proto.varint(len(p)) + p + proto.varint(len(sig)) + sig, 'encoding')
            else:
                same(norm(getattr(o, F[i])), w[i], F[i])
                same(norm(getattr(other, F[i])), wb[i], F[i] + ' of another alert')
                same(norm(getattr(third, F[i])), wd[i], F[i] + ' of an alert of the same length')
                same(norm(getattr(o, F[i])), w[i], F[i] + ' again')
        same((o.payload, o.signature), (p, sig), 'payload and signature')


def read_alert(p):
    "the thirteen values, or None for a payload that is cut or announces more than it holds"
    try:
        return list(proto.rd_fields(LAYOUT, p)[0])
    except proto.Bad:
        return None


LAYOUT = [('', ft) for ft in (('num', 'i'), ('num', 'q'), ('num', 'q'), ('num', 'i'), ('num', 'i'), ('list', ('num', 'i'), None, None), ('num', 'i'), ('num', 'i'), ('list', ('str',), None, None), ('num', 'i'), ('str',), ('str',), ('str',))]


@PROP.sub('malformed', gen=st.tuples(small, st.one_of(st.lists(gen.mutation(), min_size=1, max_size=2), st.integers(-60, -1), st.integers(0, 60)), st.lists(st.integers(0, 15), min_size=1, max_size=12)), quick=600, thorough=40000,
          rule='payloads cut or altered anywhere, fields read in any order, between printing: every reading of every field of a malformed payload is an error, of a well-formed one its value; non-trivial when malformed')
def malformed(c, t):
    a, how, order = c
    p = encode(a)
    p = gen.mutate(p, how) if isinstance(how, list) else p[:how]
    w = read_alert(p)
    t.nontrivial(w is None)
    t.label('malformed' if w is None else 'well formed')
    for o in forms(p, b''):
        for i in order + [11, 0, 12] + order:
            if i == 13:
                expect(isinstance(str(o), str), 'text form')
            elif i == 14:
                same(o.payload, p, 'payload')
            elif i == 15:
                same(o.binary(MAGIC)[24:], proto.varint(len(p)) + p + b'\0', 'encoding')
            elif w is None:
                try:
                    v = getattr(o, F[i])
                except (MemoryError, RecursionError) as e:
                    raise Fail('resources exhausted: %r' % e)
                except Exception:
                    continue
                raise Fail('%s of a malformed payload reads as %s' % (F[i], short(v)))
            else:
                same(norm(getattr(o, F[i])), norm(w[i]), F[i])


@PROP.sub('cuts', gen=st.tuples(small.filter(lambda a: len(encode(a)) < 260), st.integers(0, 12)), quick=30, thorough=1000, rule='every prefix of a payload, two fields read in turn')
def cuts(c, t):
    a, i = c
    p = encode(a)
    P = proto.mod()
    t.nontrivial()
    for k in range(len(p)):
        o = P.Alert(p[:k], b'')
        for name in (F[i], F[0], F[i], F[12]):
            raises(Exception, getattr, o, name)


alter = st.one_of(st.none(), st.lists(gen.mutation(), min_size=1, max_size=2))


@PROP.sub('signatures', gen=st.tuples(small, gen.scalars(), gen.scalars(), st.booleans(), alter, alter, st.sampled_from(['own', 'own', 'own', 'other', 'mut']), st.lists(gen.mutation(), min_size=1, max_size=1)), quick=160, thorough=8000,
          rule='alerts signed with an independent ECDSA, then payload, signature or key changed; verified exactly when nothing that matters changed; non-trivial when something changed')
def signatures(c, t):
    a, d, k, comp, mp, ms, key, mk = c
    p = encode(a)
    pub = wal.point(d)
    r, s = ec.ecdsa_sign(ec.SECP256K1, d, wal.digest_int(p), k)
    if not r or not s:
        return
    sig = wal.der_sig(r, s)
    enc = ec.compress(pub) if comp else ec.full(pub)
    p2 = gen.mutate(p, mp) if mp else p
    sig2 = gen.mutate(sig, ms) if ms else sig
    if key == 'other':
        enc = ec.compress(wal.point(d % (N - 1) + 1))
    elif key == 'mut':
        enc = gen.mutate(enc, mk)
    P = proto.mod()
    Q = wal.decode_pub(enc)
    t.nontrivial(p2 != p or sig2 != sig or key != 'own')
    for o in forms(p2, sig2):
        got = o.verify(enc)
        expect(got in (True, False), 'answer %r', got)
        t.label('yes' if got else 'no')
        if p2 == p and sig2 == sig and Q == pub:
            expect(got, 'the signed alert is refused')
        elif got:
            nums = wal.strict_sig(sig2) or wal.liberal_sig(sig2)
            expect(Q is not None and nums is not None and ec.ecdsa_verify(ec.SECP256K1, Q, wal.digest_int(p2), *nums), 'an altered alert verifies')
        if p2 == p:
            same(norm(o.status_bar), a[11], 'status bar')
            same(o.verify(enc), got, 'answer after reading a field')


@PROP.sub('shaped', gen=st.tuples(small, gen.scalars(), st.one_of(gen.scalars(), st.tuples(st.integers(1, 2**64), st.integers(0, 31)).map(lambda v: (v[0] << 8 * v[1]) % N or 1)), st.booleans(), st.sampled_from(['', '', 'trail', 'ff', 'nothing'])), quick=100, thorough=4000,
          rule='signatures whose second number is chosen: short, ending in zero bytes, high or low; they verify with the key they belong to and no other')
def shaped(c, t):
    a, k, s, comp, how = c
    p = encode(a)
    r = wal.point(k)[0] % N
    z = wal.digest_int(p)
    d = (s * k - z) * pow(r, -1, N) % N
    if not r or not d:
        return
    pub = wal.point(d)
    expect(ec.ecdsa_verify(ec.SECP256K1, pub, z, r, s), 'harness')
    sig = wal.der_sig(r, s)
    t.label('zero end' if not sig[-1] else 'short' if s < 2**240 else 'high' if s > N // 2 else 'low')
    enc = ec.compress(pub) if comp else ec.full(pub)
    other = ec.compress(wal.C.neg(pub))
    for o in forms(p, sig):
        same(bool(o.verify(enc)), True, 'the signed alert')
        same(bool(o.verify(other)), False, 'the negated key')
        same(o.signature, sig, 'signature')
    for o in forms(p + b'\0', sig):
        same(bool(o.verify(enc)), False, 'payload with a byte more')


@PROP.sub('coin-key', gen=st.tuples(small, gen.data(72)), quick=40, thorough=1000, rule='alerts nobody signed do not verify with the key of the coin')
def coin_key(c, t):
    from nbc import coins
    o = proto.mod().Alert(encode(c[0]), c[1])
    same(o.verify(coins.Newbitcoin.alert_public_key), False, 'forged alert')
