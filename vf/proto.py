"""Protocol messages as literals: an independent table of the wire format, a
reference encoder and parser, generators, and builders of the real objects.

A message is ('msg', command, (value, ...)); parts are ('NA', timestamp,
services, ip, port), ('IV', type, hash), ('OP', hash, index), ('TI', OP,
script, sequence), ('TO', value, script), ('TX', version, [TI], [TO], lock),
('BH', 7 values).  A list value may be ('*', n, items): items repeated to n.
"""
import hashlib, ipaddress, struct
from hypothesis import strategies as st
from . import gen

NUM = {'B': (0, 255), 'H': (0, 65535), 'i': (-2**31, 2**31 - 1), 'I': (0, 2**32 - 1), 'q': (-2**63, 2**63 - 1), 'Q': (0, 2**64 - 1)}

PARTS = {
    'NA': [('timestamp', ('num', 'I', 'f')), ('services', ('num', 'Q')), ('address', ('ip',)), ('port', ('be', 'H'))],
    'IV': [('object_type', ('num', 'I')), ('hash', ('bytes', 32))],
    'OP': [('hash', ('bytes', 32)), ('index', ('num', 'I'))],
    'TI': [('previous_output', ('part', 'OP')), ('signature_script', ('str',)), ('sequence', ('num', 'I'))],
    'TO': [('value', ('num', 'q')), ('pk_script', ('str',))],
    'TX': [('version', ('num', 'I')), ('tx_in', ('list', ('part', 'TI'), 1, None)), ('tx_out', ('list', ('part', 'TO'), 1, None)), ('lock_time', ('num', 'I'))],
    'BH': [('version', ('num', 'I')), ('prev_block', ('bytes', 32)), ('merkle_root', ('bytes', 32)), ('timestamp', ('num', 'I', 'f')), ('bits', ('num', 'I')), ('nonce', ('num', 'I')), ('txn_count', ('varint',))],
}
INV = [('inventory', ('list', ('part', 'IV'), 0, 50000))]
LOC = [('version', ('num', 'I')), ('block_locator_hashes', ('list', ('bytes', 32), 1, None)), ('hash_stop', ('bytes', 32))]
MSGS = {
    'version': [('version', ('num', 'i')), ('services', ('num', 'Q')), ('timestamp', ('num', 'q', 'f')), ('addr_recv', ('na0',)), ('addr_from', ('na0',)),
                ('nonce', ('bytes', 8)), ('user_agent', ('str',)), ('start_height', ('num', 'i')), ('relay', ('opt', 'B'))],
    'verack': [], 'getaddr': [], 'mempool': [],
    'addr': [('addr_list', ('list', ('part', 'NA'), 0, 1000))],
    'inv': INV, 'getdata': INV, 'notfound': INV,
    'getblocks': LOC, 'getheaders': LOC,
    'tx': PARTS['TX'],
    'block': PARTS['BH'][:6] + [('txns', ('list', ('part', 'TX'), 0, None))],
    'headers': [('headers', ('list', ('part', 'BH'), 0, None))],
    'ping': [('nonce', ('bytes', 8))], 'pong': [('nonce', ('bytes', 8))],
    'reject': [('message', ('str',)), ('ccode', ('num', 'B')), ('reason', ('str',))],
    'alert': [('payload', ('str',)), ('signature', ('str',))],
}
CLASSES = {'version': 'Version', 'verack': 'VersionAck', 'getaddr': 'GetAddress', 'mempool': 'MemoryPool', 'addr': 'Address', 'inv': 'Inventory',
           'getdata': 'GetData', 'notfound': 'NotFound', 'getblocks': 'GetBlocks', 'getheaders': 'GetHeaders', 'tx': 'Transaction', 'block': 'Block',
           'headers': 'Headers', 'ping': 'Ping', 'pong': 'Pong', 'reject': 'Reject', 'alert': 'Alert'}
NAMES = {'version': 'version', 'verack': 'version_ack', 'getaddr': 'get_address', 'mempool': 'memory_pool', 'addr': 'address', 'inv': 'inventory',
         'getdata': 'get_data', 'notfound': 'not_found', 'getblocks': 'get_blocks', 'getheaders': 'get_headers', 'tx': 'transaction', 'block': 'block',
         'headers': 'headers', 'ping': 'ping', 'pong': 'pong', 'reject': 'reject', 'alert': 'alert'}
UNSUPPORTED = ['filterload', 'filteradd', 'filterclear', 'merkleblock']
PARTCLS = {'NA': 'NetworkAddress', 'IV': 'InventoryVector', 'OP': 'OutPoint', 'TI': 'TxnIn', 'TO': 'TxnOut', 'TX': 'Txn', 'BH': 'BlockHeader'}


# ------------------------------------------------------------- reference codec

def varint(n):
    if n < 0xfd:
        return bytes([n])
    for lim, tag, f in ((1 << 16, 0xfd, '<H'), (1 << 32, 0xfe, '<I'), (1 << 64, 0xff, '<Q')):
        if n < lim:
            return bytes([tag]) + struct.pack(f, n)
    raise ValueError(n)


def ip_bytes(text):
    if ':' in text:
        return ipaddress.IPv6Address(text).packed
    return b'\0' * 10 + b'\xff\xff' + ipaddress.IPv4Address(text).packed


def ip_value(b):
    return ('4', b[12:]) if b[:12] == b'\0' * 10 + b'\xff\xff' else ('6', b)


def items(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == '*':
        return [v[2][i % len(v[2])] for i in range(v[1])]
    return v


def enc_val(ft, v):
    k = ft[0]
    if k == 'num':
        return struct.pack('<' + ft[1], int(v))
    if k == 'be':
        return struct.pack('>' + ft[1], v)
    if k == 'opt':
        return struct.pack('<' + ft[1], 1 if v is None else int(v))
    if k == 'bytes':
        return v
    if k == 'varint':
        return varint(v)
    if k == 'str':
        v = v.encode('latin-1') if isinstance(v, str) else v
        return varint(len(v)) + v
    if k == 'ip':
        return ip_bytes(v)
    if k == 'na0':
        return enc_fields(PARTS['NA'], v[1:])[4:]
    if k == 'part':
        return enc_fields(PARTS[ft[1]], v[1:])
    if k == 'list':
        l = items(v)
        memo = {}
        return varint(len(l)) + b''.join(enc_val(ft[1], i) for i in l)
    raise ValueError(ft)


def enc_fields(fields, vals):
    assert len(fields) == len(vals), (fields, vals)
    return b''.join(enc_val(ft, v) for (_, ft), v in zip(fields, vals))


def payload(m):
    return enc_fields(MSGS[m[1]], m[2])


def checksum(p):
    return hashlib.sha256(hashlib.sha256(p).digest()).digest()[:4]


def frame(magic, command, p, length=None, check=None):
    command = command.encode('latin-1') if isinstance(command, str) else command
    return magic + command.ljust(12, b'\0') + struct.pack('<I', len(p) if length is None else length) + (checksum(p) if check is None else check) + p


def binary(m, magic):
    return frame(magic, m[1], payload(m))


class Bad(Exception):
    pass


def rd_varint(b, i):
    if i >= len(b):
        raise Bad
    k = {0xfd: 2, 0xfe: 4, 0xff: 8}.get(b[i])
    if k is None:
        return b[i], i + 1
    if i + 1 + k > len(b):
        raise Bad
    return int.from_bytes(b[i + 1:i + 1 + k], 'little'), i + 1 + k


def rd_val(ft, b, i):
    "(normal value, next offset) or Bad"
    k = ft[0]
    if k in ('num', 'be'):
        f = ('<' if k == 'num' else '>') + ft[1]
        n = struct.calcsize(f)
        if i + n > len(b):
            raise Bad
        return struct.unpack(f, b[i:i + n])[0], i + n
    if k == 'opt':
        return (b[i], i + 1) if i < len(b) else (1, i)
    if k == 'bytes':
        if i + ft[1] > len(b):
            raise Bad
        return b[i:i + ft[1]], i + ft[1]
    if k == 'varint':
        return rd_varint(b, i)
    if k == 'str':
        n, i = rd_varint(b, i)
        if i + n > len(b):
            raise Bad
        return b[i:i + n], i + n
    if k == 'ip':
        if i + 16 > len(b):
            raise Bad
        return ip_value(b[i:i + 16]), i + 16
    if k == 'na0':
        v, i = rd_fields(PARTS['NA'][1:], b, i)
        return ('NA', 0) + v, i
    if k == 'part':
        v, i = rd_fields(PARTS[ft[1]], b, i)
        return (ft[1],) + v, i
    n, i = rd_varint(b, i)
    if ft[2] and n < ft[2] or ft[3] and n > ft[3] or n > len(b):
        raise Bad
    out = []
    for _ in range(n):
        v, i = rd_val(ft[1], b, i)
        out.append(v)
    return tuple(out), i


def rd_fields(fields, b, i=0):
    out = []
    for _, ft in fields:
        v, i = rd_val(ft, b, i)
        out.append(v)
    return tuple(out), i


def rd_payload(cmd, b):
    "(normal values, consumed) or None"
    try:
        return rd_fields(MSGS[cmd], b)
    except Bad:
        return None


def enc_norm(ft, v):
    "encode a normal value (lengths in the shortest form)"
    if ft[0] == 'ip':
        return v[1] if v[0] == '6' else b'\0' * 10 + b'\xff\xff' + v[1]
    if ft[0] == 'na0':
        return b''.join(enc_norm(f, x) for (_, f), x in zip(PARTS['NA'], v[1:]))[4:]
    if ft[0] == 'part':
        return b''.join(enc_norm(f, x) for (_, f), x in zip(PARTS[ft[1]], v[1:]))
    if ft[0] == 'list':
        return varint(len(v)) + b''.join(enc_norm(ft[1], x) for x in v)
    return enc_val(ft, v)


def norm_val(ft, v):
    "the value a message has after a trip over the wire"
    k = ft[0]
    if k == 'num':
        return int(v)
    if k == 'opt':
        return 1 if v is None else int(v)
    if k == 'str':
        return v.encode('latin-1') if isinstance(v, str) else v
    if k == 'ip':
        return ip_value(ip_bytes(v))
    if k == 'na0':
        return ('NA', 0) + norm_fields(PARTS['NA'][1:], v[2:])
    if k == 'part':
        return (ft[1],) + norm_fields(PARTS[ft[1]], v[1:])
    if k == 'list':
        return tuple(norm_val(ft[1], x) for x in items(v))
    return v


def norm_fields(fields, vals):
    return tuple(norm_val(ft, v) for (_, ft), v in zip(fields, vals))


def norm(m):
    return norm_fields(MSGS[m[1]], m[2])


# ------------------------------------------------------------- real objects

def mod():
    from nbc import protocol
    return protocol


def make_val(ft, v):
    k = ft[0]
    if k in ('na0', 'part'):
        return make_part(v)
    if k == 'list':
        v = items(v)
        if len(v) > 400:
            memo = {}
            for x in v:
                if id(x) not in memo:
                    memo[id(x)] = make_val(ft[1], x)
            return [memo[id(x)] for x in v]
        return [make_val(ft[1], x) for x in v]
    return v


def make_part(v):
    cls = getattr(mod(), PARTCLS[v[0]])
    return cls(*[make_val(ft, x) for (_, ft), x in zip(PARTS[v[0]], v[1:])])


def make(m, keyword=False):
    cls = getattr(mod(), CLASSES[m[1]])
    vals = [make_val(ft, x) for (_, ft), x in zip(MSGS[m[1]], m[2])]
    if keyword:
        return cls(**dict(zip([n for n, _ in MSGS[m[1]]], vals)))
    return cls(*vals)


def see_val(ft, v):
    "normal value of an attribute of a real object"
    k = ft[0]
    if k == 'num' and isinstance(v, float):
        return int(v)
    if k == 'opt':
        return int(v)
    if k == 'str':
        return v.encode('latin-1') if isinstance(v, str) else v
    if k == 'ip':
        return ip_value(ip_bytes(v))
    if k == 'na0':
        return ('NA', v.timestamp) + tuple(see_val(f, getattr(v, n)) for n, f in PARTS['NA'][1:])
    if k == 'part':
        return (ft[1],) + tuple(see_val(f, getattr(v, n)) for n, f in PARTS[ft[1]])
    if k == 'list':
        return tuple(see_val(ft[1], x) for x in v)
    return v


def see(obj, cmd):
    return tuple(see_val(ft, getattr(obj, n)) for n, ft in MSGS[cmd])


# ------------------------------------------------------------- generators

def numbers(f, fl=False):
    lo, hi = NUM[f]
    s = gen.ints(lo, hi)
    if fl:
        s = st.one_of(s, st.floats(max(lo, 0), min(hi, 2**53), allow_nan=False).map(float), st.integers(1, 2**31).map(lambda x: x + .5))
    return s


ipv4 = st.one_of(st.integers(0, 2**32 - 1), st.sampled_from([0, 1, 0x7f000001, 0xffffffff, 0x01020304, 0xffff0000])).map(lambda v: '.'.join(str(b) for b in v.to_bytes(4, 'big')))


@st.composite
def ipv6(draw):
    """every usual spelling of a random address"""
    g = draw(st.lists(st.one_of(st.integers(0, 65535), st.sampled_from([0, 0, 0, 1, 0xffff])), min_size=8, max_size=8))
    if draw(st.integers(0, 9)) == 0:
        g = [0] * 5 + [0xffff] + g[6:]
    style = draw(st.integers(0, 3))
    txt = ['%x' % v if style != 1 else '%04x' % v for v in g]
    if style == 2:
        txt = [x.upper() for x in txt]
    if style == 3:
        txt = [x.rjust(draw(st.integers(len(x), 4)), '0') for x in txt]
    runs = [(i, j) for i in range(8) for j in range(i + 1, 9) if not any(g[i:j])]
    if runs and draw(st.booleans()):
        i, j = draw(st.sampled_from(runs))
        return ':'.join(txt[:i]) + '::' + ':'.join(txt[j:])
    return ':'.join(txt)


ips = st.one_of(ipv4, ipv6())
texts = st.one_of(gen.data(60), st.text(alphabet=[chr(c) for c in range(256)], max_size=20), st.sampled_from([252, 253, 254, 255, 256, 300]).flatmap(gen.blob),
                  st.sampled_from([65534, 65535, 65536]).flatmap(lambda n: st.integers(0, 300).map(lambda s: gen._expand(s, 64) * (n // 64) + b'x' * (n % 64))) if False else gen.data(30))
varints = st.one_of(gen.ints(0, 2**64 - 1), st.sampled_from([0, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0xfffffffe, 0xffffffff, 0x100000000, 2**64 - 1]))


def values(ft, small=True):
    k = ft[0]
    if k == 'num':
        return numbers(ft[1], 'f' in ft[2:])
    if k == 'be':
        return numbers(ft[1])
    if k == 'opt':
        return st.one_of(st.none(), st.booleans(), st.integers(0, 255))
    if k == 'bytes':
        return gen.blob(ft[1])
    if k == 'varint':
        return varints
    if k == 'str':
        return texts
    if k == 'ip':
        return ips
    if k == 'na0':
        return part('NA')
    if k == 'part':
        return part(ft[1])
    lo, hi = ft[2] or 0, ft[3]
    inner = values(ft[1])
    short = st.lists(inner, min_size=lo, max_size=4)
    if ft[1] in (('part', 'TX'),):
        return st.lists(inner, min_size=lo, max_size=2)
    big = [n for n in (252, 253, 254, 300, 999, 1000) if hi is None or n <= hi]
    return st.one_of(short, short, short, short, short, short, short,
                     st.tuples(st.just('*'), st.sampled_from(big[:3] if ft[1][0] == 'part' and ft[1][1] in ('TI', 'TO', 'BH') else big), st.lists(inner, min_size=1, max_size=2).map(tuple)))


_cache = {}


def part(name):
    if name not in _cache:
        _cache[name] = st.deferred(lambda: st.tuples(st.just(name), *[values(ft) for _, ft in PARTS[name]]))
    return _cache[name]


def message(cmd):
    if cmd not in _cache:
        _cache[cmd] = st.tuples(st.just('msg'), st.just(cmd), st.tuples(*[values(ft) for _, ft in MSGS[cmd]]))
    return _cache[cmd]


messages = st.sampled_from(sorted(MSGS)).flatmap(message)
small_messages = messages.filter(lambda m: len(repr(m)) < 3000)
magics = st.one_of(st.just(b'\xf9\x6e\x62\x63'), gen.blob(4))
