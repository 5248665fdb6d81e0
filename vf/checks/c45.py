import hashlib, string
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen
from ..refs import ripemd

PROP = Prop('C45', assumptions=['hashlib is the reference for SHA-1 and SHA-256, vf/refs/ripemd.py (from the specification, checked against its published vectors) for RIPEMD-160',
                                'version parts: minor, revision and build are 0..99, major is any non-negative number'])


def util():
    from nbc import util
    return util


def check(d):
    u = util()
    s256 = hashlib.sha256(d).digest()
    for name, want in (('sha1', hashlib.sha1(d).digest()), ('sha256', s256), ('sha256d', hashlib.sha256(s256).digest()), ('ripemd160', ripemd.ripemd160(d)), ('hash160', ripemd.ripemd160(s256))):
        same(bytes(getattr(u, name)(d)), want, name)


@PROP.sub('lengths', enum=lambda tier: list(range(0, 300 if tier == 'quick' else 1500)), quick=48, rule='every length from 0')
def lengths(c, t):
    for k in range(3):
        check(gen._expand(k, c))
    check(b'\0' * c)


@PROP.sub('digests', gen=gen.data(5000), quick=800, thorough=60000, rule='byte strings of all sizes')
def digests(c, t):
    check(c)


part = st.one_of(st.integers(0, 99), st.sampled_from([0, 1, 9, 10, 50, 98, 99]))
off = st.one_of(st.integers(-300, 300), st.sampled_from([-1, 100, 101, 1000, -100, 10**6]))


@PROP.sub('versions', gen=st.tuples(st.one_of(st.integers(0, 99), gen.ints(0, 2**40)), part, part, part), quick=1000, thorough=60000, rule='versions from four parts split back into them, and order like their parts')
def versions(c, t):
    u = util()
    v = u.make_version(*c)
    same(v, c[0] * 10**6 + c[1] * 10**4 + c[2] * 100 + c[3], 'number of %r' % (c,))
    same(tuple(u.get_version(v)), c, 'parts of %d' % v)
    t.nontrivial(all(c))


@PROP.sub('bad-versions', gen=st.tuples(st.integers(0, 200), off, off, off), quick=1000, thorough=60000, rule='parts in and out of range; non-trivial when one is out')
def bad_versions(c, t):
    u = util()
    ok = all(0 <= x < 100 for x in c[1:])
    t.nontrivial(not ok)
    if ok:
        same(tuple(u.get_version(u.make_version(*c))), c, 'parts')
    else:
        raises(ValueError, u.make_version, *c)


@PROP.sub('numbers', gen=gen.ints(0, 2**40), quick=400, thorough=20000, rule='every number splits into four parts that make it again')
def numbers(c, t):
    u = util()
    p = u.get_version(c)
    expect(len(p) == 4 and all(0 <= x < 100 for x in p[1:]), 'parts %r', p)
    same(u.make_version(*p), c, 'number')


def lower(s):
    return ''.join(c.lower() if c in string.ascii_uppercase else c for c in s)


def known():
    from nbc import coins
    return coins.Coins


@st.composite
def word(draw):
    base = draw(st.sampled_from(['newbitcoin', 'nbc', 'bitcoin', 'btc', 'newbitcoin-testnet', 'new', 'coin']))
    how = draw(st.integers(0, 5))
    if how == 0:
        return base
    if how in (1, 2):
        return ''.join(c.upper() if draw(st.booleans()) else c for c in base)
    if how == 3:
        i = draw(st.integers(0, len(base)))
        return base[:i] + draw(st.sampled_from([' ', '\0', 'x', '', '-', '\n', '%'])) + base[i + draw(st.integers(0, 1)):]
    if how == 4:
        i = draw(st.integers(0, len(base)))
        return base[i:] if draw(st.booleans()) else base[:i]
    return draw(st.text(max_size=12))


opt = st.one_of(st.none(), word())


@PROP.sub('coins', gen=st.tuples(opt, opt), quick=2500, thorough=100000, rule='names and symbols in any letter case, pieces, extensions and other text; non-trivial when one of them is given')
def coin(c, t):
    from nbc import coins
    name, symbol = c
    t.nontrivial(bool(name or symbol))
    want = [k for k in known() if name and lower(name) == lower(k.name) or symbol and lower(symbol) in [lower(s) for s in k.symbols]]
    for got in (coins.get_coin(name, symbol), coins.get_coin(name=name, symbol=symbol)):
        expect(got in want if want else got is None, 'coin for %r, %r is %r', name, symbol, got)
    t.label('found' if want else 'nothing')
    if name is not None and not symbol:
        same(coins.get_coin(name), want[0] if want else None, 'coin by name')
    if symbol is not None and not name:
        same(coins.get_coin(symbol=symbol), want[0] if want else None, 'coin by symbol')


@PROP.sub('every-coin', enum=lambda tier: [0], rule='each coin is found by its own name and symbols')
def every(c, t):
    from nbc import coins
    expect(coins.Newbitcoin in known(), 'the coin is not listed')
    for k in known():
        for f in (str, str.upper, str.lower, str.title, str.swapcase):
            same(coins.get_coin(f(k.name)), k, 'by name')
            for s in k.symbols:
                same(coins.get_coin(symbol=f(s)), k, 'by symbol')
                same(coins.get_coin('no such', f(s)), k, 'by symbol with another name')
    same(coins.get_coin(), None, 'without a name')
