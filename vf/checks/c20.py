from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, toy
from ..refs import ec
from .c18 import NAMES, lib, scal

PROP = Prop('C20')


def toy_list(tier):
    ps = [5, 7, 11, 13, 17, 23] if tier == 'quick' else [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
    for p in ps:
        for a in ([0, 1, 2, p - 3, p - 1] if tier == 'quick' else range(min(p, 12))):
            for b in ([0, 1, 2, 3, 7] if tier == 'quick' else range(min(p, 12))):
                if toy.curve(p, a % p, b % p):
                    yield (p, a % p, b % p)


def forms(c):
    "the curve's a both reduced and as small negative number"
    return {c[1], c[1] - c[0]}


@PROP.sub('toy', enum=toy_list, cpu=300, rule='exhaustive on small curves: all pairs of points, all multiples up to three times the group size')
def toy_all(c, t):
    from nbc.util.ecdsa import ellipticcurve as E
    p, _, b = c
    for a in sorted(forms(c)):
        C = ec.Curve(p, a, b)
        cv, _g = toy.real(p, a, b)
        pts = toy.points(C)
        for x in range(p):
            for y in range(p):
                on = C.on((x, y))
                same(bool(cv.contains_point(x, y)), on, 'contains_point(%d, %d)' % (x, y))
                if not on:
                    raises(AssertionError, E.Point, cv, x, y)
        P = {q: toy.mk(cv, q) for q in pts}
        for q in pts[1:]:          # the same coordinates on another curve are another point
            for a2, b2 in ((a + 1, b - q[0]), (a - 2, b + 2 * q[0])):
                other = E.Point(E.CurveFp(p, a2, b2), *q)
                expect(not (P[q] == other) and not (other == P[q]) and P[q] != other, 'point %r of two different curves is equal', q)
        for q in pts:
            same(toy.lit(P[q].double()), C.add(q, q), 'double of %r' % (q,))
            for r in pts:
                got = P[q] + P[r]
                same(toy.lit(got), C.add(q, r), '%r + %r' % (q, r))
                expect((P[q] == P[r]) is (q == r), 'equality of %r and %r', q, r)
            acc = None
            o = toy.order(C, q) if q else 1
            Po = E.Point(cv, q[0], q[1], o) if q else E.INFINITY
            for k in range(0, 3 * len(pts) + 3):
                same(toy.lit(P[q] * k), acc, '%r * %d' % (q, k))
                if k <= 2 * o + 2:
                    same(toy.lit(k * P[q]), acc, '%d * %r' % (k, q))
                    same(toy.lit(Po * k), acc, '%r * %d with order %d' % (q, k, o))
                acc = C.add(acc, q)
            for k in range(1, 2 * o + 2):      # the order is known: negative numbers count backwards
                same(toy.lit(Po * -k), C.mul(-k % o, q), '%r * %d with order %d' % (q, -k, o))
                if k < 4:
                    same(toy.lit(-k * Po), C.mul(-k % o, q), '%d * %r with order %d' % (-k, q, o))


@PROP.sub('associative', gen=st.tuples(st.sampled_from(toy.prime_curves(113, 23, 2)), st.integers(0, 200), st.integers(0, 200), st.integers(0, 200), st.integers(0, 10**6), st.integers(0, 10**6)), quick=1000, thorough=30000,
          rule='triples of points on curves up to p = 113, and linearity of multiplication')
def assoc(c, t):
    from nbc.util.ecdsa import ellipticcurve as E
    (p, a, b, G, n), i, j, k, m1, m2 = c
    C = ec.Curve(p, a, b)
    cv, _ = toy.real(p, a, b)
    pts = toy.points(C)
    P, Q, R = (toy.mk(cv, pts[x % len(pts)]) for x in (i, j, k))
    same(toy.lit((P + Q) + R), toy.lit(P + (Q + R)), 'associativity')
    same(toy.lit(P + Q), toy.lit(Q + P), 'commutativity')
    same(toy.lit(P * m1 + P * m2), toy.lit(P * (m1 + m2)), 'linearity')
    same(toy.lit((P * m1) * m2), toy.lit(P * (m1 * m2)), 'composition')
    same(toy.lit(P * m1), C.mul(m1, toy.lit(P)), 'multiple')


def scalars(name):
    n = ec.BY_NAME[name].n
    return st.one_of(gen.scalars(n), gen.ints(0, n + 10), st.integers(0, 20).map(lambda d: n + d), st.integers(1, 8).flatmap(lambda m: st.integers(-3, 3).map(lambda d: m * n + d)), st.integers(0, n.bit_length()).flatmap(lambda b: st.integers(-2, 2).map(lambda d: max(0, (1 << b) + d))))


@PROP.sub('real', gen=st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), scalars(n), scal(n))), quick=240, thorough=10000,
          rule='the six curves: multiples of a random point with and without known order, sums, equal and opposite points')
def real(c, t):
    from nbc.util.ecdsa import ellipticcurve as E
    name, d, k, e = c
    cv, R = lib(name), ec.BY_NAME[name]
    t.label(name)
    B = R.mul(d, R.g)
    P = toy.mk(cv.curve, B)
    same(toy.lit(P * k), R.mul(k, B), 'multiple of a point')
    same(toy.lit(cv.generator * k), R.mul(k, R.g), 'multiple of the generator')
    same(toy.lit(k * cv.generator), R.mul(k, R.g), 'multiple from the left')
    same(toy.lit(cv.generator * -k), R.neg(R.mul(k, R.g)), 'negative multiple of the generator')
    D = R.mul(e, R.g)
    Q = toy.mk(cv.curve, D)
    same(toy.lit(P + Q), R.add(B, D), 'sum')
    same(toy.lit(P + P), R.add(B, B), 'sum with itself')
    same(toy.lit(P.double()), R.add(B, B), 'double')
    same(toy.lit(P + toy.mk(cv.curve, R.neg(B))), None, 'sum with the opposite')
    expect((P == Q) is (B == D), 'equality')
    expect(toy.mk(cv.curve, B) == P, 'equality of equal points')
    same(toy.lit(P + E.INFINITY), B, 'neutral element')
    same(toy.lit(E.INFINITY + P), B, 'neutral element on the left')
    same(toy.lit(E.INFINITY * k), None, 'multiple of the neutral element')


@PROP.sub('off-curve', gen=st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), scal(n), st.sampled_from(['x', 'y', 'xy']), st.integers(1, 2**192))), quick=200, thorough=5000,
          rule='coordinates changed: refused exactly when off the curve')
def off(c, t):
    from nbc.util.ecdsa import ellipticcurve as E
    name, d, w, x = c
    cv, R = lib(name), ec.BY_NAME[name]
    B = R.mul(d, R.g)
    X, Y = B
    if 'x' in w:
        X = (X + x) % R.p
    if 'y' in w:
        Y = (Y ^ x) % R.p
    on = R.on((X, Y))
    same(bool(cv.curve.contains_point(X, Y)), on, 'contains_point')
    if not on:
        raises(AssertionError, E.Point, cv.curve, X, Y)


@PROP.sub('validity', enum=lambda tier: toy.prime_curves(31 if tier == 'quick' else 73, 5, 1), quick=1000, cpu=300,
          rule='exhaustive on small curves, most of them with a group larger than the generator\'s: the pairs of numbers taken for a public point are those in range, on the curve and in the generator\'s group')
def validity(c, t):
    from nbc.util.ecdsa import ellipticcurve as E, ecdsa
    p, a, b, G, n = c
    C = ec.Curve(p, a, b)
    cv, g = toy.real(p, a, b, G, n)
    group, Q = set(), G
    while Q is not None:
        group.add(Q)
        Q = C.add(Q, G)
    pts = toy.points(C)[1:]
    t.nontrivial(len(pts) > len(group))
    for x in range(-2, 2 * p + 2):
        for y in range(-2, 2 * p + 2):
            ok = (x, y) in pts and C.mul(n, (x, y)) is None
            same(bool(ecdsa.point_is_valid(g, x, y)), ok, 'point_is_valid(%d, %d)' % (x, y))
    for q in pts:
        P = E.Point(cv, q[0], q[1])
        if C.mul(n, q) is None:
            same(ecdsa.Public_key(g, P).point == P, True, 'public key')
        else:
            raises(RuntimeError, ecdsa.Public_key, g, P)
