"""Shared Hypothesis strategies.

Sizes and integers mix uniform draws with *interesting* values: powers of two
and their neighbours, and the integer / byte literals found in the source of
the code under test (so that a special case planted for some constant is met).
"""
import ast, os
from hypothesis import strategies as st
from .core import REPO


def _mine():
    ints, blobs = set(), set()
    for base, dirs, files in os.walk(os.path.join(REPO, 'nbc')):
        for fn in sorted(files):
            if not fn.endswith('.py') or fn.startswith('test'):
                continue
            try:
                tree = ast.parse(open(os.path.join(base, fn), encoding='utf-8').read())
            except Exception:
                continue
            big = set()
            for node in ast.walk(tree):
                if isinstance(node, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
                    ch = list(ast.walk(node))
                    if len(ch) > 80:
                        big.update(map(id, ch))
            for node in ast.walk(tree):
                if id(node) in big:
                    continue
                if isinstance(node, ast.Constant):
                    v = node.value
                    if type(v) is int:
                        ints.add(v)
                    elif type(v) is bytes and 0 < len(v) <= 16:
                        blobs.add(v)
                    elif type(v) is str and 0 < len(v) <= 6:
                        blobs.add(v.encode('utf-8'))
    return ints, blobs


_INTS, _BLOBS = _mine()
INTS = sorted({v + d for v in _INTS for d in (-1, 0, 1)} |
              {s * (1 << k) + d for k in range(0, 66) for d in (-1, 0, 1) for s in (1,)})
BLOBS = sorted(_BLOBS)


def ints(lo, hi):
    """Integers in [lo, hi]: boundaries, interesting values, uniform, small."""
    near = sorted({v for v in (lo, lo + 1, lo + 2, hi - 2, hi - 1, hi, 0, 1, -1) if lo <= v <= hi})
    dic = [v for v in INTS if lo <= v <= hi]
    opts = [st.integers(lo, hi), st.sampled_from(near)]
    if dic:
        opts.append(st.sampled_from(dic))
    span = (hi - lo).bit_length()
    if span > 16:
        opts.append(st.integers(0, span - 1).flatmap(
            lambda b: st.integers(max(lo, 0), min(hi, max(lo, 0) + (1 << b)))))
        opts.append(st.integers(0, span - 1).flatmap(
            lambda b: st.integers(max(lo, hi - (1 << b)), hi)))
    return st.one_of(*opts)


def sizes(hi, lo=0):
    dic = [v for v in INTS if lo <= v <= hi]
    opts = [st.integers(lo, min(hi, lo + 20)), st.integers(lo, hi)]
    if dic:
        opts.append(st.sampled_from(dic))
    return st.one_of(*opts)


def _expand(seed, n):
    import hashlib
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b'%d/%d' % (seed, i)).digest()
        i += 1
    return out[:n]


def blob(n):
    """bytes of exactly n"""
    opts = [st.integers(0, 2**32).map(lambda s: _expand(s, n)),
            st.sampled_from([b'\x00' * n, b'\xff' * n, (b'\x00' * n)[:-1] + b'\x01' if n else b'',
                             (b'\x80' + b'\x00' * n)[:n], (b'\x01' + b'\x00' * n)[:n]])]
    if n <= 64:
        opts.append(st.binary(min_size=n, max_size=n))
    return st.one_of(*opts)


EDGES = [b'', b'\0', b' ', b'\n', b'\t', b'\r\n', b'\0\0', b'0', b'=', b'\xff', b'\x80', b'\x01', b'\x1a', b'\xef']


def data(hi=300, lo=0):
    """byte strings up to hi, biased to short, boundary sizes and known blobs"""
    def mixed(parts):
        out = b''.join(parts)
        return out[:hi] if len(out) >= lo else (out + b'\x00' * lo)[:lo]
    opts = [st.binary(min_size=lo, max_size=min(hi, max(lo, 40))), sizes(hi, lo).flatmap(blob)]
    if BLOBS and lo == 0:
        opts.append(st.lists(st.one_of(st.sampled_from(BLOBS), st.binary(max_size=6)), max_size=6).map(mixed))
    if hi - lo > 4:
        # bytes that somebody might strip, pad with or end a text at, on either side
        opts.append(st.tuples(st.sampled_from(EDGES), sizes(hi - 4, lo), st.integers(0, 2**32), st.sampled_from(EDGES)).map(
            lambda v: v[0] + _expand(v[2], v[1]) + v[3]))
    return st.one_of(*opts)


def cuts(total, maxn=12):
    """a list of piece sizes; the last piece takes the rest"""
    return st.lists(st.one_of(st.integers(0, max(total, 1)), st.integers(0, 20), st.sampled_from([0, 1, 15, 16, 17, 31, 32, 33])), max_size=maxn)


def pieces(data, cut):
    """split data by piece sizes `cut` (the rest is the last piece)"""
    out, i = [], 0
    for c in cut:
        out.append(data[i:i + c])
        i += c
    out.append(data[i:])
    return out


# -- secp256k1 scalars --------------------------------------------------------
N256 = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def scalars(n=N256, lo=1):
    """private scalars in [lo, n-1]: uniform, tiny, near the order, sparse"""
    bits = n.bit_length()
    return st.one_of(
        st.integers(lo, n - 1),
        st.integers(0, 2**64).map(lambda s: lo + int.from_bytes(_expand(s, (bits + 71) // 8), 'big') % (n - lo)),
        st.integers(lo, min(n - 1, lo + 300)),
        st.integers(max(lo, n - 300), n - 1),
        st.integers(0, bits - 1).map(lambda b: min(max(1 << b, lo), n - 1)),
        st.integers(1, 31).flatmap(lambda z: st.integers(lo, max(lo, n >> (8 * min(z, bits // 8 - 1 if bits > 8 else 0))))),
        st.tuples(st.integers(1, 0xffff), st.integers(0, bits - 1)).map(lambda v: min(max(v[0] << v[1] & ((1 << bits) - 1), lo), n - 1)),   # zero bytes on both ends
    )


def mutation():
    """an abstract edit applied by mutate()"""
    return st.one_of(
        st.tuples(st.just('flip'), st.integers(0, 10**6), st.integers(0, 7)),
        st.tuples(st.just('set'), st.integers(0, 10**6), st.integers(0, 255)),
        st.tuples(st.just('del'), st.integers(0, 10**6), st.integers(1, 4)),
        st.tuples(st.just('ins'), st.integers(0, 10**6), st.binary(min_size=1, max_size=4)),
        st.tuples(st.just('cut'), st.integers(0, 10**6), st.just(0)),
        st.tuples(st.just('app'), st.just(0), st.binary(min_size=1, max_size=6)),
        st.tuples(st.just('swap'), st.integers(0, 10**6), st.integers(0, 10**6)),
    )


def mutate(b, muts):
    b = bytearray(b)
    for op, i, x in muts:
        n = len(b)
        if op == 'app':
            b += x
        elif n == 0:
            continue
        elif op == 'flip':
            b[i % n] ^= 1 << x
        elif op == 'set':
            b[i % n] = x
        elif op == 'del':
            del b[i % n:i % n + x]
        elif op == 'ins':
            i %= n + 1
            b[i:i] = x
        elif op == 'cut':
            del b[i % n:]
        elif op == 'swap':
            i, j = i % n, x % n
            b[i], b[j] = b[j], b[i]
    return bytes(b)
