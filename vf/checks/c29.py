import ipaddress, struct
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen, proto

PROP = Prop('C29', assumptions=['bool counts as an integer and bytes as text; a text is an IP address when the ipaddress module says so (texts with a zone, a dotted IPv6 tail or leading zeros in IPv4 groups are not judged)'])
ALL = [('msg', c) for c in sorted(proto.MSGS)] + [('part', p) for p in sorted(proto.PARTS)]


def fields(target):
    return proto.MSGS[target[1]] if target[0] == 'msg' else proto.PARTS[target[1]]


def cls(target):
    return getattr(proto.mod(), proto.CLASSES[target[1]] if target[0] == 'msg' else proto.PARTCLS[target[1]])


# ------------------------------------------------------------ values as literals
# a field value is a good literal of vf.proto, or ('!', kind, argument)

def build(ft, x):
    if not (isinstance(x, tuple) and x and x[0] == '!'):
        return proto.make_val(ft, x)
    _, k, a = x
    if k == 'raw':
        return a
    if k == 'float':
        return float(a)
    if k == 'bytearray':
        return bytearray(a)
    if k == 'part':
        return proto.make_part(a)
    if k == 'msg':
        return proto.make(a)
    inner = ft[1] if ft[0] == 'list' else ('num', 'i')
    if k in ('list', 'tuple'):
        return (list if k == 'list' else tuple)(build(inner, i) for i in a)
    if k == 'times':
        v = build(inner, a[1])
        return [v] * a[0]
    if k == 'iter':
        return iter([build(inner, i) for i in a])
    if k == 'dict':
        return dict.fromkeys(range(len(a)), 1)
    raise ValueError(k)


UNSURE = object()


def valid(ft, o):
    k = ft[0]
    if k in ('num', 'be'):
        if isinstance(o, float):
            return 'f' in ft[2:] and o == o and proto.NUM[ft[1]][0] <= o < proto.NUM[ft[1]][1] + 1
        return isinstance(o, int) and proto.NUM[ft[1]][0] <= o <= proto.NUM[ft[1]][1]
    if k == 'opt':
        return o is None or isinstance(o, int) and 0 <= o <= 255
    if k == 'varint':
        return isinstance(o, int) and 0 <= o < 2**64
    if k == 'bytes':
        return isinstance(o, bytes) and len(o) == ft[1]
    if k == 'str':
        return isinstance(o, bytes) or isinstance(o, str) and all(ord(c) < 256 for c in o)
    if k == 'ip':
        return isinstance(o, str) and is_ip(o)
    if k in ('part', 'na0'):
        return type(o).__name__ == proto.PARTCLS[ft[1] if k == 'part' else 'NA'] and isinstance(o, getattr(proto.mod(), type(o).__name__))
    if not isinstance(o, (list, tuple)):
        return False
    if ft[2] and len(o) < ft[2] or ft[3] and len(o) > ft[3]:
        return False
    r = [valid(ft[1], i) for i in (o if len(o) < 2000 else o[:5])]
    return False if False in r else UNSURE if UNSURE in r else True


def is_ip(s):
    if '%' in s or ':' in s and '.' in s:
        return UNSURE
    try:
        ipaddress.ip_address(s)
        return True
    except ValueError:
        if ':' not in s and s.count('.') == 3 and all(g.isdigit() and g.isascii() for g in s.split('.')) and any(len(g) > 1 and g[0] == '0' for g in s.split('.')):
            return UNSURE
        return False


def encode(ft, o):
    k = ft[0]
    if k == 'num':
        return struct.pack('<' + ft[1], int(o))
    if k == 'list':
        memo = {}
        for i in o:
            if id(i) not in memo:
                memo[id(i)] = encode(ft[1], i)
        return proto.varint(len(o)) + b''.join(memo[id(i)] for i in o)
    if k in ('part', 'na0'):
        fs = proto.PARTS[ft[1] if k == 'part' else 'NA']
        return b''.join(encode(f, getattr(o, n)) for n, f in fs)[4 if k == 'na0' else 0:]
    return proto.enc_val(ft, o)


def equal(a, b):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    return a is b or type(a) is type(b) and a == b


wrong = st.one_of(
    st.sampled_from([None, True, False, '', b'', (), [], {}, '0', b'0', 'x' * 8, b'x' * 8, b'x' * 32, 'x' * 32, '1.2.3.4', 1.5, 0.0, -1.0, 'a\u0100', '\u20ac', [1, 2], [b'x' * 32], (1,), [None], {1: 2}, 2**64, 2**63, 2**32, -1, 2**31, 256, 65536, -2**31 - 1, -2**63 - 1]).map(lambda v: ('!', 'raw', v)),
    gen.ints(-2**66, 2**66).map(lambda v: ('!', 'raw', v)),
    gen.data(70).map(lambda v: ('!', 'raw', v)), st.text(max_size=20).map(lambda v: ('!', 'raw', v)),
    st.one_of(st.floats(allow_nan=True).map(repr), st.sampled_from(['nan', 'inf', '-inf', '4294967296.0', '4294967295.5', '9.223372036854775807e18', '-9.223372036854775808e18', '-0.5', '1e300'])).map(lambda v: ('!', 'float', v)),
    st.sampled_from([8, 32, 4]).map(lambda n: ('!', 'bytearray', b'x' * n)),
    st.sampled_from(['NA', 'IV', 'OP', 'TI', 'TO', 'TX', 'BH']).flatmap(proto.part).filter(lambda p: len(repr(p)) < 700).map(lambda p: ('!', 'part', p)),
    st.sampled_from(['ping', 'tx', 'verack', 'version']).flatmap(proto.message).filter(lambda p: len(repr(p)) < 700).map(lambda p: ('!', 'msg', p)),
    st.tuples(st.just('!'), st.sampled_from(['iter', 'dict']), st.just(())))


def near(ft):
    "values just off (or just at) the border of what the field takes"
    k = ft[0]
    if k in ('num', 'be', 'opt', 'varint'):
        lo, hi = proto.NUM[ft[1]] if k != 'varint' else (0, 2**64 - 1)
        return st.sampled_from([lo - 1, lo, hi, hi + 1, lo - 2**8, hi + 2**8, -hi, 2 * hi]).map(lambda v: ('!', 'raw', v))
    if k == 'bytes':
        return st.sampled_from([0, 1, ft[1] - 1, ft[1] + 1, ft[1], 2 * ft[1]]).flatmap(gen.blob).map(lambda v: ('!', 'raw', v))
    if k == 'str':
        return st.text(min_size=1, max_size=12).map(lambda v: ('!', 'raw', v))
    if k == 'ip':
        return st.one_of(proto.ips.flatmap(lambda s: st.tuples(st.integers(0, len(s)), st.sampled_from(['', ':', '::', '.', '0', 'g', ' ', '\n', '1', '-', 'x', '/8', ':0', '0:', '\0', '\u0661', ':1:', '.1'])).map(lambda p: s[:p[0]] + p[1] + s[p[0] + (p[1] in ('', '0')):])),
                         st.sampled_from(['', '1.2.3', '1.2.3.4.5', '256.1.1.1', '1.2.3.-4', ':', ':::', '1::2::3', '::', '1:2:3:4:5:6:7:8:9', '1:2:3:4:5:6:7', 'localhost', '12345::', '1.2.3.4\n', ' 1.2.3.4', '1:2:3:4:5:6:7:8::', '::1:2:3:4:5:6:7:8', '1,2,3,4', '...', '1..2.3', '+1.2.3.4', '0x1.2.3.4', 'g::'])).map(lambda v: ('!', 'raw', v))
    if k == 'list':
        good = proto.values(ft[1])
        return st.one_of(st.lists(st.one_of(good, good, wrong, near(ft[1])), max_size=4).filter(lambda l: len(repr(l)) < 2500).flatmap(lambda l: st.sampled_from([('!', 'list', l), ('!', 'tuple', l), ('!', 'iter', l)])),
                         st.just(('!', 'list', [])), st.just(('!', 'tuple', ())))
    return wrong


def cases(tier):
    def per(target):
        fs = fields(target)
        good = [proto.values(ft) for _, ft in fs]
        vals = st.tuples(*good).map(list)
        if fs:
            i = st.integers(0, len(fs) - 1)
            off = i.flatmap(lambda i: st.tuples(st.just(i), st.one_of(near(fs[i][1]), near(fs[i][1]), wrong)))
            vals = st.tuples(vals, st.one_of(st.lists(off, min_size=1, max_size=1), st.lists(off, max_size=2))).map(lambda a: [dict(a[1]).get(j, v) for j, v in enumerate(a[0])])
        return st.tuples(st.just(target), vals.filter(lambda v: len(repr(v)) < 4000), st.integers(0, len(fs)))
    return st.sampled_from(ALL).flatmap(per)


def construct(target, objs, npos):
    names = [n for n, _ in fields(target)]
    return cls(target)(*objs[:npos], **dict(list(zip(names, objs))[npos:]))


def accepted(target, obj, objs, what):
    fs = fields(target)
    for (n, ft), v in zip(fs, objs):
        got = getattr(obj, n)
        if ft[0] == 'opt' and v is None:
            same(int(got), 1, 'default of %s' % n)
        else:
            expect(equal(got, v), '%s keeps %s for %s', n, short(got), short(v))
    want = b''.join(encode(ft, v) for (_, ft), v in zip(fs, objs))
    magic = b'\xf9nbc'
    if target[0] == 'msg':
        same(obj.binary(magic), proto.frame(magic, target[1], want), 'encoding of %s' % what)
    else:
        same(obj.binary(), want, 'encoding of %s' % what)
    return want


@PROP.sub('values', gen=cases, quick=2500, thorough=300000, cpu=30, rule='every message and part type with good values and up to two replaced by values of another type, off a border or over a limit; accepted exactly when all are valid; non-trivial when refused')
def values(c, t):
    P = proto.mod()
    target, vals, npos = c
    fs = fields(target)
    try:
        objs = [build(ft, v) for (_, ft), v in zip(fs, vals)]
    except P.ParameterError as e:
        # only the inner literals of ('!', 'list') entries can be refused here: good parts never are
        raise Fail('a part made of valid values was refused: %s' % short(str(e)))
    verdicts = [valid(ft, o) for (_, ft), o in zip(fs, objs)]
    if UNSURE in verdicts:
        return
    ok = all(verdicts)
    t.nontrivial(not ok)
    t.label('accepted' if ok else 'refused')
    if not ok:
        e = raises(P.ParameterError, construct, target, objs, npos)
        bad = [n for (n, _), v in zip(fs, verdicts) if not v]
        expect(str(e), 'the error has no text')
        return
    obj = construct(target, objs, npos)
    want = accepted(target, obj, objs, target[1])
    # the caller's lists stay the caller's
    for o in objs:
        if isinstance(o, list):
            o.append(o[0] if o else None)
            o.reverse()
            if o:
                o[0] = None
    b = obj.binary(b'\xf9nbc')[24:] if target[0] == 'msg' else obj.binary()
    same(b, want, 'encoding after the list passed in was changed')


def shapes(tier):
    def per(target):
        fs = fields(target)
        return st.tuples(st.just(target), st.tuples(*[proto.values(ft) for _, ft in fs]).map(list).filter(lambda v: len(repr(v)) < 4000), st.integers(0, len(fs)),
                         st.sampled_from(['missing', 'extra-positional', 'unknown', 'double', 'none']), st.integers(0, 20),
                         st.sampled_from(['foo', 'command', 'magic', 'name', '_magic', 'properties', 'hash_', 'Nonce', 'self_', 'binary', 'not_regist', 'checksum', 'length', 'payload_']))
    return st.sampled_from(ALL).flatmap(per)


@PROP.sub('fields', gen=shapes, quick=2000, thorough=60000, rule='a field missing, one too many positional values, an unknown name or a field given twice, with any mixture of positional and keyword form')
def shape(c, t):
    target, vals, npos, how, i, name = c
    fs = fields(target)
    names = [n for n, _ in fs]
    objs = [build(ft, v) for (_, ft), v in zip(fs, vals)]
    args, kw = list(objs[:npos]), dict(list(zip(names, objs))[npos:])
    if how == 'missing':
        if not names:
            return
        if kw and (i % 2 or not args):
            del kw[sorted(kw)[i % len(kw)]]
        elif len(args) == len(names):
            args.pop()
        elif args:
            # dropping a positional value shifts the others: drop a keyword instead
            del kw[sorted(kw)[i % len(kw)]]
    elif how == 'extra-positional':
        args, kw = list(objs) + [objs[i % len(objs)] if objs else 0] * (1 + i % 2), {}
    elif how == 'unknown':
        if name in names:
            return
        kw[name] = 1
        if i % 3 == 0 and len(kw) > 1:      # in place of a field, so that the count is right
            del kw[sorted(k for k in kw if k != name)[0]]
    elif how == 'double':
        if not args:
            return
        j = i % len(args)
        kw[names[j]] = objs[j]
        if i % 3 == 0 and len(args) < len(names):
            del kw[names[-1]]
    else:
        accepted(target, cls(target)(*args, **kw), objs, target[1])
        return
    t.nontrivial()
    t.label(how)
    raises(TypeError, cls(target), *args, **kw)


LIMITS = [('inv', 50000), ('getdata', 50000), ('notfound', 50000), ('addr', 1000)]


def limits(tier):
    for cmd, n in LIMITS:
        for d in (-1, 0, 1, 2, n):
            yield cmd, n, n + d
    for cmd in ('getblocks', 'getheaders', 'tx'):
        for n in (0, 1, 2, 253, 3000):
            yield cmd, None, n
    for cmd in ('headers', 'block'):
        for n in (0, 1, 2001, 3000):
            yield cmd, None, n


ITEM = {'inv': ('IV', 1, b'\2' * 32), 'addr': ('NA', 5, 1, '1.2.3.4', 8333), 'headers': ('BH', 1, b'\1' * 32, b'\2' * 32, 7, 8, 9, 0),
        'block': ('TX', 1, [('TI', ('OP', b'\1' * 32, 0), b'', 0)], [('TO', 5, b'')], 0)}


@PROP.sub('limits', enum=limits, quick=24, rule='lists just below, at and above their documented limits, with lists and tuples, and empty lists where one item is needed')
def limit(c, t):
    cmd, lim, n = c
    P = proto.mod()
    t.nontrivial(lim is None or n > lim)
    fs = proto.MSGS[cmd]
    if cmd in ('inv', 'getdata', 'notfound', 'addr', 'headers', 'block'):
        item = proto.make_part(ITEM.get(cmd, ITEM['inv']))
    else:
        item = b'\7' * 32
    for kind in (list, tuple):
        lists = kind([item] * n)
        if cmd in ('getblocks', 'getheaders'):
            vals = [[1, lists, b'\0' * 32]]
        elif cmd == 'tx':
            ti, to = proto.make_part(ITEM['block'][2][0]), proto.make_part(ITEM['block'][3][0])
            vals = [[1, kind([ti] * n), [to], 0], [1, [ti], kind([to] * n), 0]]
        elif cmd == 'block':
            vals = [[1, b'\1' * 32, b'\2' * 32, 7, 8, 9, lists]]
        else:
            vals = [[lists]]
        for v in vals:
            good = n <= lim if lim is not None else n >= 1 or cmd in ('headers', 'block')
            if good:
                accepted(('msg', cmd), construct(('msg', cmd), v, n % 2), v, cmd)
            else:
                raises(P.ParameterError, construct, ('msg', cmd), v, n % 2)


op = proto.part('OP')


@PROP.sub('out-points', gen=st.tuples(op, op, st.integers(0, 3)), quick=400, thorough=10000, rule='out points are equal exactly when both their fields are, with equal hashes, and unlike anything else')
def outpoints(c, t):
    a, b, how = c
    if how == 1:
        b = a
    elif how == 2:
        b = (b[0], a[1], b[2])
    elif how == 3:
        b = (b[0], b[1], a[2])
    x, y = proto.make_part(a), proto.make_part(b)
    t.nontrivial(how)
    same(x == y, a[1:] == b[1:], 'equality')
    same(x != y, a[1:] != b[1:], 'inequality')
    same(len({x, y}), 2 if a[1:] != b[1:] else 1, 'set of both')
    if a[1:] == b[1:]:
        same(hash(x), hash(y), 'hash')
        same({x: 5}.get(y), 5, 'lookup')
    for other in (None, 1, a, 'x', proto.make_part(('IV', 1, a[1]))):
        expect(not (x == other) and x != other, 'equal to %r', other)


def good(ft, n=1):
    k = ft[0]
    if k in ('num', 'be', 'opt', 'varint'):
        return n
    if k == 'bytes':
        return bytes([n]) * ft[1]
    if k == 'str':
        return b'text'
    if k == 'ip':
        return '1.2.3.4'
    if k == 'list':
        return [good(ft[1])]
    return proto.make_part(((ft[1] if k == 'part' else 'NA'),) + tuple(literal(f) for _, f in proto.PARTS[ft[1] if k == 'part' else 'NA']))


def literal(ft):
    if ft[0] == 'list':
        return [literal(ft[1])]
    if ft[0] in ('part', 'na0'):
        name = ft[1] if ft[0] == 'part' else 'NA'
        return (name,) + tuple(literal(f) for _, f in proto.PARTS[name])
    return good(ft)


LONG = (1, 2, 31, 255, 256, 257, 300, 1023, 70000)
BADCHARS = ('\u0100', '\u20ac', '\ud800', '\udcff', '\udfff', '\U0001f600', '\xff', '\x80', '\0')
ODD = lambda: [None, True, False, 0, 1, -1, 0.0, 1.0, 1.5, '', b'', 'x', b'x', bytearray(b'x' * 32), memoryview(b'x' * 32), [], (), {}, set(), frozenset(), range(3), iter([]), object, type, b'x' * 32, 'x' * 32, b'x' * 8, 'x' * 8, '1.2.3.4', b'1.2.3.4', 1j, Ellipsis, NotImplemented]


def specials(ft):
    k = ft[0]
    yield from ODD()
    if k in ('num', 'be', 'opt', 'varint'):
        lo, hi = proto.NUM[ft[1]] if k != 'varint' else (0, 2**64 - 1)
        yield from [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, -lo, -hi, 2 * hi, hi + 256, lo - 256, 10**40, -10**40]
        yield from [float(x) for x in ('nan', '-nan', 'inf', '-inf')] + [float(hi), float(lo), float(hi) + 1.0, float(lo) - 1.0, float(hi) * 4, lo - 0.5, 0.5, -0.0, -0.5, 1e300, -1e300, 5e-324]
        if hi < 2**50:
            yield from [hi + 0.5, hi + 0.999]
    if k == 'bytes':
        for n in (0, 1, ft[1] - 1, ft[1], ft[1] + 1, 2 * ft[1], 256 + ft[1]):
            yield b'q' * n
            yield 'q' * n
            yield bytearray(b'q' * n)
    if k == 'str':
        for n in LONG:
            yield b'\xff' * n
            for ch in BADCHARS:
                for i in sorted({0, n // 2, n - 1}):
                    yield 'a' * i + ch + 'b' * (n - 1 - i)
    if k == 'ip':
        yield from ['', '1.2.3', '256.1.1.1', '1.2.3.4 ', '1.2.3.4\n', '\u0661.2.3.4', '::1', '::1\n', ':::', b'::1', 'localhost', 0x01020304, ipaddress.ip_address('1.2.3.4')]
    if k in ('part', 'na0'):
        for name in sorted(proto.PARTS):
            yield proto.make_part((name,) + tuple(literal(f) for _, f in proto.PARTS[name]))
        for cmd in ('tx', 'ping', 'verack'):
            yield proto.make(('msg', cmd, tuple(literal(f) for _, f in proto.MSGS[cmd])))
        yield literal(ft)
    if k == 'list':
        bads = [None, 0, '', b'', b'x' * 31, 'x' * 32, [], object, bytearray(b'x' * 32), float('nan')] + [proto.make_part((n,) + tuple(literal(f) for _, f in proto.PARTS[n])) for n in ('OP', 'TO', 'IV', 'TX', 'BH')]
        for n in (1, 2, 5, 16, 17, 64, 100, 253, 300, 1000):
            ok = [good(ft[1])] * n
            yield list(ok)
            yield tuple(ok)
            for i in sorted({0, 1, n // 2, n - 1}):
                for bad in bads if n < 300 else bads[:4]:
                    if i < n:
                        l = list(ok)
                        l[i] = bad
                        yield l
                        if i == n - 1:
                            yield tuple(l)


def every_field(tier):
    for target in ALL:
        for i in range(len(fields(target))):
            yield target, i


@PROP.sub('borders', enum=every_field, quick=200, cpu=120, rule='every field of every message and part with some hundred values each: other types, borders, not-a-number and infinite times, long texts with one character no Latin-1 text has, long lists with one bad item at any place')
def borders(c, t):
    P = proto.mod()
    target, i = c
    fs = fields(target)
    ft = fs[i][1]
    rest = [good(f) for _, f in fs]
    for v in specials(ft):
        verdict = valid(ft, v)
        if verdict is UNSURE:
            continue
        objs = rest[:i] + [v] + rest[i + 1:]
        for npos in (len(fs), 0):
            if verdict:
                accepted(target, construct(target, objs, npos), objs, target[1])
            else:
                t.nontrivial()
                try:
                    construct(target, objs, npos)
                except P.ParameterError as e:
                    expect(str(e), 'the error has no text')
                except Exception as e:
                    raise Fail('%s.%s = %s: %s instead of a parameter error' % (target[1], fs[i][0], short(v), type(e).__name__))
                else:
                    raise Fail('%s.%s takes %s' % (target[1], fs[i][0], short(v)))
