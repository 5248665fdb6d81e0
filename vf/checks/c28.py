import struct, time
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C28', assumptions=['work is bounded by the CPU limit of a case and by the process memory limit; a lying count must not cost more than the same payload with an honest one',
                                'the reference parser in vf/proto.py, written from the wire format'])
CMDS = sorted(proto.MSGS)
MAGIC = b'\xf9nbc'


def judge(cmd, p, t):
    P = proto.mod()
    want = proto.rd_payload(cmd, p)
    try:
        obj = P.Message.parse(proto.frame(MAGIC, cmd, p), MAGIC)
    except (P.ParameterError, P.MsgFormatError, P.UnknownMsgError) as e:
        expect(want is None, '%s: a valid payload %s was refused', cmd, short(p))
        t.label('refused ' + cmd)
        return
    except (MemoryError, RecursionError) as e:
        raise Fail('%s: resources exhausted: %r' % (cmd, e))
    expect(want is not None, '%s: invalid payload %s was accepted as %s', cmd, short(p), obj.__class__.__name__)
    expect(type(obj).__name__ == proto.CLASSES[cmd], 'class')
    same(proto.see(obj, cmd), want[0], 'fields of %s' % cmd)
    t.label('accepted ' + cmd)
    b = obj.binary(MAGIC)[24:]
    same(b, b''.join(proto.enc_norm(ft, v) for (_, ft), v in zip(proto.MSGS[cmd], want[0])), 're-encoding of %s' % cmd)
    # the values are ones the constructor takes
    again = type(obj)(*[getattr(obj, n) for n, _ in proto.MSGS[cmd]])
    same(again.binary(MAGIC)[24:], b, 'rebuilt message')
    for n, ft in proto.MSGS[cmd]:
        check_parts(getattr(obj, n), ft, n)


def check_parts(v, ft, n):
    if ft[0] == 'list':
        for x in v[:50]:
            check_parts(x, ft[1], n)
    elif ft[0] in ('part', 'na0'):
        name = ft[1] if ft[0] == 'part' else 'NA'
        vals = [getattr(v, k) for k, _ in proto.PARTS[name]]
        type(v)(*vals)
        for x, (k, f) in zip(vals, proto.PARTS[name]):
            check_parts(x, f, k)


@PROP.sub('mutated', gen=st.tuples(proto.small_messages, st.lists(gen.mutation(), max_size=4), st.one_of(st.none(), st.sampled_from(CMDS))), quick=1200, thorough=150000, cpu=30,
          rule='valid payloads with 0-4 random edits, also under another command; non-trivial when edited')
def mutated(c, t):
    m, muts, cmd = c
    t.nontrivial(bool(muts) or cmd)
    judge(cmd or m[1], gen.mutate(proto.payload(m), muts), t)


raw = st.one_of(gen.data(200), st.lists(st.one_of(proto.varints.map(proto.varint), gen.data(40), st.sampled_from([b'\0' * 32, b'\1', b'\xfd\1\0', b'\xfe\1\0\0\0', b'\xff\1\0\0\0\0\0\0\0', b'\xff' * 9])), max_size=8).map(b''.join))


@PROP.sub('raw', gen=st.tuples(raw, st.sampled_from(CMDS)), quick=1200, thorough=150000, cpu=30, rule='arbitrary bytes and strings of length prefixes under every command; non-trivial when not empty')
def rawp(c, t):
    t.nontrivial(bool(c[0]))
    judge(c[1], c[0], t)


@PROP.sub('truncated', gen=proto.small_messages.filter(lambda m: len(repr(m)) < 900 and len(proto.payload(m)) < 3000), quick=60, thorough=3000, cpu=60, rule='every prefix (about 250 of a long one) of a valid payload, and a valid payload with trailing bytes')
def truncated(c, t):
    p = proto.payload(c)
    for i in sorted(set(range(0, len(p) + 1, max(1, len(p) // 250))) | set(range(max(0, len(p) - 5), len(p) + 1))):
        judge(c[1], p[:i], t)
    judge(c[1], p + b'\0\1\2', t)


LISTY = [c for c in CMDS if any(ft[0] in ('list', 'str') for _, ft in proto.MSGS[c])]


def counts(tier):
    big = [253, 1001, 50001, 2**16 - 1, 2**16, 2**20, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**62, 2**63 - 1, 2**63, 2**64 - 1]
    for cmd in LISTY:
        for n in big:
            for fill in ((0, 400) if tier == 'quick' else (0, 40, 2000)):
                yield cmd, n, fill


@PROP.sub('huge-counts', enum=counts, quick=48, cpu=20, rule='exhaustive: every list or text of every message announces a count far beyond the data (up to 2^64-1), with 0 to 2000 bytes behind it')
def huge(c, t):
    cmd, n, fill = c
    pre = b''
    for name, ft in proto.MSGS[cmd]:
        if ft[0] in ('list', 'str'):
            for prefix in (proto.varint(n),) + ((b'\xfe' + struct.pack('<I', n),) if n < 2**32 else ()):
                for f in (b'\0' * fill, b'\1' * fill):
                    judge(cmd, pre + prefix + f, t)
        pre += {'num': b'\0' * 8, 'bytes': b'\2' * 32, 'str': b'\0', 'list': b'\1' + b'\0' * 41}.get(ft[0], b'') if ft[0] != 'num' else b'\0' * struct.calcsize('<' + ft[1])
        if ft[0] == 'na0':
            pre += b'\0' * 26
        if ft[0] == 'list':
            break
    t.nontrivial(n > fill)


@PROP.sub('limits', enum=lambda tier: [('addr', 999), ('addr', 1000), ('addr', 1001), ('addr', 1500), ('inv', 50001), ('getdata', 50001), ('notfound', 50001), ('inv', 1500), ('getblocks', 0), ('getheaders', 0), ('tx', 0), ('headers', 1200), ('getblocks', 1500)] + [('inv', 50000)],
          quick=48, cpu=120, rule='complete lists at, below and above their limits')
def limits(c, t):
    cmd, n = c
    item = {'addr': b'\5' * 4 + b'\1' + b'\0' * 7 + b'\0' * 10 + b'\xff\xff\1\2\3\4\x20\x8d', 'headers': b'\1' * 80 + b'\0'}.get(cmd, b'\1\0\0\0' + b'\2' * 32)
    if cmd in ('getblocks', 'getheaders'):
        p = b'\1\0\0\0' + proto.varint(n) + b'\2' * (32 * n) + b'\3' * 32
    elif cmd == 'tx':
        for p in (b'\1\0\0\0\0\0\0\0\0\0', b'\1\0\0\0' + b'\1' + b'\2' * 36 + b'\0' + b'\xff' * 4 + b'\0' + b'\0' * 4, b'\1\0\0\0\0' + b'\1' + b'\2' * 8 + b'\0' + b'\0' * 4):
            judge(cmd, p, t)
        return
    else:
        p = proto.varint(n) + item * n
    judge(cmd, p, t)
    if n > 1100:
        judge(cmd, p[:-1], t)


TEXTS = [0, 1, 252, 253, 254, 65535, 65536, 65537, 70000, 2**17, 2**20, 2**20 + 1]


def short_texts(tier):
    for cmd in CMDS:
        for i, (name, ft) in enumerate(proto.MSGS[cmd]):
            if ft[0] == 'str':
                for n in TEXTS:
                    yield cmd, i, n


@PROP.sub('long-texts', enum=short_texts, quick=200, cpu=60, rule='exhaustive: every text field announcing lengths up to 2^20 with exactly the bytes, one too few, many too few and some too many')
def long_texts(c, t):
    cmd, i, n = c
    t.nontrivial(n > 252)
    fs = proto.MSGS[cmd]
    def blank(ft):
        return {'num': lambda: b'\0' * struct.calcsize('<' + ft[1]), 'opt': lambda: b'', 'bytes': lambda: b'\2' * ft[1], 'str': lambda: b'\0', 'na0': lambda: b'\0' * 26}[ft[0]]()
    pre = b''.join(blank(ft) for _, ft in fs[:i])
    post = b''.join(blank(ft) for _, ft in fs[i + 1:])
    for form, size in ((b'', 1), (b'\xfd', 2), (b'\xfe', 4), (b'\xff', 8)):
        if n >= 256**size or not form and n >= 0xfd:
            continue
        p = pre + form + n.to_bytes(size, 'little')
        text = b'ab\xff\0' * (n // 4) + b'tail'[:n % 4]
        judge(cmd, p + text + post, t)
        judge(cmd, p + text + post + b'more', t)
        for less in (1, 2, len(post), len(post) + 1, n // 2, n):
            if 0 < less <= n:
                judge(cmd, p + text[:n - less], t)
                judge(cmd, (p + text + post)[:len(p) + n + len(post) - less], t)


def walk_parts(ft, full):
    """The bytes of one small value of a field, as a list of pieces; lengths and counts are pieces of their own."""
    if ft[0] == 'list':
        return [('len', 1 if full or ft[2] else 0)] + (walk_parts(ft[1], full) if full or ft[2] else [])
    if ft[0] == 'str':
        return [('len', 2 if full else 0), b'ab' if full else b'']
    if ft[0] == 'varint':
        return [('len', 3 if full else 0)]
    if ft[0] == 'part':
        return [x for _, f in proto.PARTS[ft[1]] for x in walk_parts(f, full)]
    return [{'num': lambda: b'\0' * struct.calcsize('<' + ft[1]), 'be': lambda: b'\x20\x8d', 'opt': lambda: b'', 'bytes': lambda: b'\2' * ft[1], 'na0': lambda: b'\0' * 26,
             'ip': lambda: b'\0' * 10 + b'\xff\xff\1\2\3\4'}[ft[0]]()]


def cut_lengths(tier):
    for cmd in CMDS:
        for full in (False, True):
            ps = [x for _, ft in proto.MSGS[cmd] for x in walk_parts(ft, full)]
            for i, x in enumerate(ps):
                if type(x) is tuple:
                    yield cmd, full, i


@PROP.sub('cut-lengths', enum=cut_lengths, quick=200, cpu=60, rule='exhaustive: every length or count of a small message in each of the four forms, with the payload ending at every byte of it and at every later byte')
def cut_length(c, t):
    cmd, full, i = c
    ps = [x for _, ft in proto.MSGS[cmd] for x in walk_parts(ft, full)]
    done = lambda xs: b''.join(proto.varint(x[1]) if type(x) is tuple else x for x in xs)
    pre, post, n = done(ps[:i]), done(ps[i + 1:]), ps[i][1]
    t.nontrivial(True)
    for form, size in ((b'', 1), (b'\xfd', 2), (b'\xfe', 4), (b'\xff', 8)):
        for v in (n, 0, n + 1, n + 256):
            if not form and v >= 0xfd:
                continue
            p = pre + form + v.to_bytes(size, 'little') + post
            for k in range(len(pre), len(p) + 1):
                judge(cmd, p[:k], t)
