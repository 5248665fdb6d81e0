import base64
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C14', assumptions=['two different keys do not share the 32-bit checksum by chance'])

mn = st.one_of(st.integers(1, 7).flatmap(lambda n: st.tuples(st.integers(1, n), st.just(n))),
               st.sampled_from([(1, 1), (1, 5), (5, 5), (2, 3), (3, 5), (3, 4), (2, 12), (12, 20), (9, 10), (1, 40), (30, 31)]))


def adjacent(sel, m, n):
    """does the selection contain m cyclically adjacent sets?"""
    return any(all((i + j) % n in sel for j in range(m)) for i in range(n))


def keys_of(sets):
    return [k for s in sets for k in s]


def outcome(fn, *a, **k):
    try:
        return fn(*a, **k)
    except ValueError:
        return 'error'


def shuffled(l, seed):
    import random
    l = sorted(l)
    random.Random(seed).shuffle(l)
    return l


@PROP.sub('recover', gen=st.tuples(gen.scalars(), mn, st.lists(st.integers(0, 2**30), min_size=1, max_size=4), st.booleans()), quick=300, thorough=8000,
          rule='split m of N, then several random selections of sets; non-trivial when a selection has at least m of more than m sets')
def recover(c, t):
    from nbc.util import piecewise as pw
    k, (m, n), sels, qr = c
    wif = wal.ref_wif(k, False)
    sets = pw.partial_split_private_key(wif, m, n)
    same(len(sets), n, 'number of sets')
    for s in sets:
        same(len(s), m, 'keys per set')
        for key in s:
            raw = b58.dec_check(key)
            expect(raw is not None and len(raw) == 40 and key[:2] == b'6C', 'partial key text %r', key)
            expect(raw[8:] != k.to_bytes(32, 'big') or m == 1, 'a partial key shows the key')
    same(pw.partial_combine_private_keys(keys_of(sets)), wif, 'all sets')
    for s in sels:
        import random
        rnd = random.Random(s)
        size = rnd.choice([m - 1, m, m, m, n, rnd.randint(0, n)])
        start = rnd.randrange(n)
        sel = {(start + j) % n for j in range(size)} if rnd.random() < .4 else set(rnd.sample(range(n), size))
        ks = shuffled(keys_of(sets[i] for i in sel), s)
        if not ks:
            continue
        got = pw.partial_combine_private_keys(ks, ignore_errors=bool(s & 1))
        if len(sel) >= m and adjacent(sel, m, n):
            t.nontrivial(n > m)
            same(got, wif, 'key from adjacent sets %r' % sorted(sel))
        elif len(sel) >= m:
            t.nontrivial(n > m)
            t.label('non-adjacent')
            if got is None:
                t.known('C14-non-adjacent', '%d of the required %d sets, %r of %d, recover nothing' % (len(sel), m, sorted(sel), n))
            else:
                same(got, wif, 'key from sets %r' % sorted(sel))
        else:
            same(got, None, 'key from too few sets %r' % sorted(sel))


@PROP.sub('compressed', gen=st.tuples(gen.scalars(), mn), quick=60, thorough=1000, rule='keys given in the compressed text form recover too')
def compressed(c, t):
    from nbc.util import piecewise as pw
    k, (m, n) = c
    sets = pw.partial_split_private_key(wal.ref_wif(k, True), m, n)
    same(pw.partial_combine_private_keys(keys_of(sets)), wal.ref_wif(k, False), 'key')


@PROP.sub('qr', gen=st.tuples(gen.scalars(), mn, st.integers(0, 2**30), st.booleans()), quick=250, thorough=6000,
          rule='every set through its QR text and back; non-trivial when more than one key per set')
def qr(c, t):
    from nbc.util import piecewise as pw
    k, (m, n), s, as_str = c
    wif = wal.ref_wif(k, False)
    sets = pw.partial_split_private_key(wif, m, n)
    t.nontrivial(m > 1)
    back = []
    for st_ in sets:
        text = pw.partial_split_qr_encode(shuffled(st_, s))
        expect(b'=' not in text and base64.b32decode(text + b'=' * (-len(text) % 8)) is not None, 'QR text %r', text)
        b = pw.partial_split_qr_decode(text.decode() if as_str else text)
        if set(b) != set(st_):
            # the format stores one missing index only
            if m < n - 1 and len(b) == len(st_) and sorted(b58.dec_check(x)[8:] for x in b) == sorted(b58.dec_check(x)[8:] for x in st_):
                t.known('C14-qr-indexes', 'the QR form of a set with more than one missing index (m=%d, N=%d) reads back with other indexes' % (m, n))
                got = outcome(pw.partial_combine_private_keys, list(b))
                expect(got in (None, 'error', wif), 'wrong key recovered from a QR code')
                continue
            raise Fail('QR form of a set changed it: %r' % sorted(b58.dec_check(x)[:4] for x in b))
        back.append(b)
    if len(back) == n:
        same(pw.partial_combine_private_keys(keys_of(back)), wif, 'key from QR codes')


B32 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'


@PROP.sub('qr-damaged', gen=st.tuples(gen.scalars(), mn, st.integers(0, 2**30), st.one_of(st.lists(st.tuples(st.one_of(st.integers(0, 16), st.integers(0, 10**4)), st.integers(0, 39)), min_size=1, max_size=2), st.integers(-80, -1), st.binary(max_size=20))), quick=300, thorough=8000,
          rule='a QR text with one or two other characters, cut, or replaced by other bytes: refused, or the parts read from it recover the key or nothing; non-trivial when it could still be read')
def qr_damaged(c, t):
    from nbc.util import piecewise as pw
    k, (m, n), s, how = c
    wif = wal.ref_wif(k, False)
    sets = pw.partial_split_private_key(wif, m, n)
    text = pw.partial_split_qr_encode(shuffled(sets[s % n], s))
    if isinstance(how, list):
        x = bytearray(text)
        for i, ch in how:
            x[i % len(x)] = (B32 + b'018=a\xff\x00 ')[ch]
        bad = bytes(x)
    else:
        bad = text[:how] if isinstance(how, int) else base64.b32encode(how)
    if bad == text:
        t.nontrivial(False)
        return
    got = outcome(pw.partial_split_qr_decode, bad)
    t.nontrivial(got != 'error')
    if got != 'error':
        expect(bad[:4] == text[:4] and isinstance(got, (set, frozenset, list, tuple)), 'text without the mark of a QR code read as %r', got)
        if got:
            key = outcome(pw.partial_combine_private_keys, list(got))
            expect(key in (None, 'error', wif), 'damaged QR code gives another key, %r', key)


@PROP.sub('mixed', gen=st.tuples(gen.scalars(), mn, gen.scalars(), mn, st.integers(0, 2**30), st.booleans()), quick=300, thorough=8000,
          rule='parts of two keys mixed in random order: reported, or ignored when asked, never a third key; non-trivial when the keys differ')
def mixed(c, t):
    from nbc.util import piecewise as pw
    import random
    k1, p1, k2, p2, s, ign = c
    t.nontrivial(k1 != k2)
    rnd = random.Random(s)
    w1, w2 = wal.ref_wif(k1, False), wal.ref_wif(k2, False)
    a = keys_of(pw.partial_split_private_key(w1, *p1))
    b = keys_of(pw.partial_split_private_key(w2, *p2))
    b = rnd.sample(sorted(b), rnd.randint(1, len(b)))
    if k1 == k2:
        ks = a + b
        rnd.shuffle(ks)
        expect(outcome(pw.partial_combine_private_keys, ks) in (None, 'error', w1), 'wrong key')
        return
    mix = sorted(a) + sorted(b)
    rnd.shuffle(mix)
    first_is_a = mix[0] in a
    if ign:
        got = outcome(pw.partial_combine_private_keys, mix, ignore_errors=True)
        if first_is_a:
            same(got, w1, 'key of the set the first part belongs to')
        else:
            expect(got in (None, w2), 'combining gave %r', got)
    else:
        same(outcome(pw.partial_combine_private_keys, mix), 'error', 'mixture')
    front = [sorted(a)[0]] + mix
    same(pw.partial_combine_private_keys(front, ignore_errors=True), w1, 'complete set with foreign parts ignored')


@PROP.sub('resplit', gen=st.tuples(gen.scalars(), mn, st.integers(0, 2**30), st.booleans()), quick=200, thorough=6000,
          rule='parts of two or three splits of one key mixed, so that only the final checksum can tell: the key, nothing or an error; non-trivial when some index has exactly m parts from more than one split')
def resplit(c, t):
    from nbc.util import piecewise as pw
    import random
    k, (m, n), s, ign = c
    rnd = random.Random(s)
    wif = wal.ref_wif(k, False)
    shapes = [(m, n)] * (2 + s % 2)
    if s & 4:      # one of the splits asks for another number of sets
        shapes[-1] = (min(max(m + rnd.choice([-1, 1]), 1), n), n)
    pools = [keys_of(pw.partial_split_private_key(wif, *sh)) for sh in shapes]
    by = {}
    for w, pool in enumerate(pools):
        for x in sorted(pool):
            by.setdefault(b58.dec_check(x)[2], []).append((w, x))
    ks, mixed_one = [], False
    for i in by:
        pick = rnd.sample(by[i], rnd.choice([m, m, m - 1, rnd.randint(0, m)]))
        ks += [x for _, x in pick]
        mixed_one |= len(pick) == m and len({w for w, _ in pick}) > 1
    rnd.shuffle(ks)
    t.nontrivial(mixed_one)
    if ks:
        got = outcome(pw.partial_combine_private_keys, ks, ignore_errors=ign)
        expect(got in (None, 'error', wif), 'parts of several splits of a key gave another key, %r', got)


@PROP.sub('two-shapes', gen=st.tuples(gen.scalars(), mn, mn, st.integers(0, 2**30)), quick=150, thorough=4000,
          rule='one key split twice asking for different numbers of sets: the parts of the second split are reported, or ignored when asked, whichever is larger; non-trivial when the numbers differ')
def shapes(c, t):
    from nbc.util import piecewise as pw
    import random
    k, p1, p2, s = c
    t.nontrivial(p1[0] != p2[0])
    if p1[0] == p2[0]:
        return
    rnd = random.Random(s)
    wif = wal.ref_wif(k, False)
    a = shuffled(keys_of(pw.partial_split_private_key(wif, *p1)), s)
    b = shuffled(keys_of(pw.partial_split_private_key(wif, *p2)), s)
    t.label('more' if p1[0] > p2[0] else 'less')
    mix = a[1:] + rnd.sample(b, rnd.randint(1, len(b)))
    rnd.shuffle(mix)
    same(pw.partial_combine_private_keys(a[:1] + mix, ignore_errors=True), wif, 'complete set with parts of another split ignored')
    same(outcome(pw.partial_combine_private_keys, a[:1] + mix), 'error', 'parts of another split')
    same(outcome(pw.partial_split_qr_encode, [a[0], b[0]]), 'error', 'QR code of parts of two splits')


_near = {}


def near_pairs(drop):
    "two keys whose checksums agree in all but the byte number `drop` (found by a birthday search)"
    if drop not in _near:
        seen, k = {}, 1
        while drop not in _near:
            h = b58.dsha(k.to_bytes(32, 'big'))[:4]
            cut = h[:drop] + h[drop + 1:]
            if cut in seen and seen[cut][1] != h:
                _near[drop] = (seen[cut][0], k)
            seen[cut] = (k, h)
            k += 1
    return _near[drop]


@PROP.sub('near-checksum', gen=st.tuples(st.integers(0, 3), st.booleans(), mn, st.integers(0, 2**30), st.booleans()), quick=120, thorough=2000,
          rule='parts of two keys whose checksums differ in one byte only, and forged parts that add up to the other key')
def near(c, t):
    from nbc.util import piecewise as pw
    import random
    drop, swap, (m, n), s, forge = c
    ks = near_pairs(drop)[::-1 if swap else 1]
    rnd = random.Random(s)
    w1, w2 = [wal.ref_wif(k, False) for k in ks]
    a = shuffled(keys_of(pw.partial_split_private_key(w1, m, n)), s)
    if forge:     # one part of a complete index replaced so that the sum is the other key
        idx = b58.dec_check(a[0])[2]
        grp = [x for x in a if b58.dec_check(x)[2] == idx]
        raw = b58.dec_check(grp[0])
        v = (int.from_bytes(raw[8:], 'big') - ks[0] + ks[1]) % wal.N
        bad = b58.enc_check(raw[:8] + v.to_bytes(32, 'big'))
        got = outcome(pw.partial_combine_private_keys, [bad] + grp[1:], ignore_errors=bool(s & 1))
        expect(got in (None, 'error'), 'forged part gives %r', got)
        return
    b = shuffled(keys_of(pw.partial_split_private_key(w2, m, n)), s)
    mix = a[1:] + rnd.sample(b, rnd.randint(1, len(b)))
    rnd.shuffle(mix)
    same(outcome(pw.partial_combine_private_keys, a[:1] + mix), 'error', 'mixture')
    same(pw.partial_combine_private_keys(a[:1] + mix, ignore_errors=True), w1, 'foreign parts ignored')
    if m > 1:
        same(outcome(pw.partial_split_qr_encode, [a[0], b[0]]), 'error', 'QR code of a mixture')


@PROP.sub('corrupt', gen=st.tuples(gen.scalars(), mn, st.integers(0, 2**30), st.lists(st.tuples(st.integers(0, 70), st.integers(0, 57)), min_size=1, max_size=2), st.booleans()), quick=150, thorough=4000,
          rule='a mistyped part is refused')
def corrupt(c, t):
    from nbc.util import piecewise as pw
    k, (m, n), s, eds, ign = c
    ks = shuffled(keys_of(pw.partial_split_private_key(wal.ref_wif(k, False), m, n)), s)
    x = bytearray(ks[0])
    for i, ch in eds:
        x[i % len(x)] = b58.A[ch]
    if bytes(x) == ks[0]:
        t.nontrivial(False)
        return
    ks[s % len(ks)] = bytes(x)
    same(outcome(pw.partial_combine_private_keys, ks, ignore_errors=ign), 'error', 'mistyped part')
    raises(ValueError, pw.partial_split_qr_encode, [bytes(x)])


@PROP.sub('arguments', enum=lambda tier: [(m, n) for m in range(1, 6) for n in range(1, 5) if m > n], rule='m above N is refused')
def arguments(c, t):
    from nbc.util import piecewise as pw
    raises(ValueError, pw.partial_split_private_key, wal.ref_wif(77, False), *c)


@PROP.sub('many-sets', gen=st.tuples(gen.scalars(), st.one_of(st.integers(20, 255), st.sampled_from([127, 128, 129, 200, 254, 255, 256])), st.integers(1, 9), st.integers(0, 2**30)), quick=60, thorough=1000, cpu=60,
          rule='up to 256 sets: any run of m of them recovers the key, one fewer does not, and all of them do')
def many_sets(c, t):
    from nbc.util import piecewise as pw
    k, n, m, s = c
    wif = wal.ref_wif(k, False)
    sets = pw.partial_split_private_key(wif, m, n)
    same(len(sets), n, 'number of sets')
    start = s % n
    run = [sets[(start + j) % n] for j in range(m)]
    same(pw.partial_combine_private_keys(shuffled(keys_of(run), s)), wif, 'key from %d sets from number %d of %d' % (m, start, n))
    if m > 1:
        same(pw.partial_combine_private_keys(keys_of(run[1:])), None, 'key from too few sets')
    same(pw.partial_combine_private_keys(shuffled(keys_of(sets), s)), wif, 'all sets')
    far = [sets[(start + n // 2 * (j % 2) + j) % n] for j in range(m)]
    expect(outcome(pw.partial_combine_private_keys, keys_of(far)) in (None, wif), 'sets far apart gave another key')
    # the first and the second half of the indexes are kept apart
    if m < 6:
        for x in (start, 0, n - m):
            l = pw.partial_split_qr_decode(pw.partial_split_qr_encode(sorted(sets[x % n])))
            expect(outcome(pw.partial_combine_private_keys, list(l)) in (None, 'error', wif), 'wrong key from a QR code')


LARGE = [(1, 256), (129, 130), (130, 130), (140, 141), (128, 129)]


@PROP.sub('large', enum=lambda tier: [(k, m, n) for k in (1, 0xabcdef << 190) for m, n in LARGE + [(200, 201), (255, 256)] * (tier == 'thorough')], quick=10, thorough=14, cpu=300,
          rule='more than 128 sets of more than 128 keys: every third set through its QR text and back, then all of these, with the others, recover the key')
def large(c, t):
    from nbc.util import piecewise as pw
    k, m, n = c
    wif = wal.ref_wif(k, False)
    sets = list(pw.partial_split_private_key(wif, m, n))
    if m >= n - 1:
        for i in sorted({0, 1, n // 2, n - 2, n - 1, m - 1, m % n}):
            q = pw.partial_split_qr_encode(shuffled(sets[i], i))
            b = pw.partial_split_qr_decode(q.decode('ascii') if i % 2 else q)
            expect(set(b) == set(sets[i]), 'QR form of set %d of %d changed it', i, n)
            sets[i] = list(b)
    same(pw.partial_combine_private_keys(shuffled(keys_of(sets), 5)), wif, 'key')
    start = n // 3
    same(pw.partial_combine_private_keys(keys_of(sets[(start + j) % n] for j in range(m))), wif, 'key from the least number of sets')
    if m > 1:
        same(pw.partial_combine_private_keys(keys_of(sets[(start + j) % n] for j in range(m - 1))), None, 'key from too few sets')


PREFIXES = [bytes([a, b]) for a in (0x10, 0x11, 0x0f, 0, 0x80) for b in (0, 1, 2, 3, 0x11, 0xff) if (a, b) != (16, 1)]


@PROP.sub('prefixes', enum=lambda tier: [(i, m, how) for i in range(len(PREFIXES)) for m in (1, 3) for how in (0, 1, 2)], quick=400,
          rule='every part under another prefix, or with bytes more or less, is refused, alone and among right ones')
def prefixes(c, t):
    from nbc.util import piecewise as pw
    i, m, how = c
    ks = shuffled(keys_of(pw.partial_split_private_key(wal.ref_wif(0xabcdef0123 + i, False), m, m + 1)), i)
    raw = b58.dec_check(ks[0])
    raw = [PREFIXES[i] + raw[2:], PREFIXES[i] + raw, raw[:2] + PREFIXES[i] + raw[4:-1]][how]
    bad = b58.enc_check(raw)
    t.label(['prefix', 'longer', 'shorter'][how])
    for l in ([bad], [bad] + ks[1:], ks + [bad]):
        for ign in (False, True):
            same(outcome(pw.partial_combine_private_keys, l, ignore_errors=ign), 'error', 'part under a wrong prefix')
        same(outcome(pw.partial_split_qr_encode, l), 'error', 'QR code of a part under a wrong prefix')
