"""Small curves: points, orders and generators computed by brute force."""
from .refs import ec

_PRIMES = [p for p in range(5, 120) if all(p % d for d in range(2, p))]


def curve(p, a, b):
    if (4 * a ** 3 + 27 * b * b) % p == 0:
        return None
    return ec.Curve(p, a, b)


def points(c):
    sq = {}
    for y in range(c.p):
        sq.setdefault(y * y % c.p, []).append(y)
    return [None] + [(x, y) for x in range(c.p) for y in sq.get((x ** 3 + c.a * x + c.b) % c.p, [])]


def order(c, P):
    n, Q = 1, P
    while Q is not None:
        Q = c.add(Q, P)
        n += 1
    return n


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def prime_curves(maxp, minp=5, step=1):
    """curves with a point of prime order >= 3, as (p, a, b, G, n)"""
    out = []
    for p in _PRIMES[::step]:
        if not minp <= p <= maxp:
            continue
        for a in (0, 1, p - 3, 2):
            for b in (1, 2, 3, 7):
                c = curve(p, a % p, b % p)
                if c is None:
                    continue
                pts = points(c)
                best = None
                for P in pts[1:]:
                    n = order(c, P)
                    if n >= 3 and is_prime(n) and (best is None or n > best[1]):
                        best = (P, n)
                if best:
                    out.append((p, a % p, b % p, best[0], best[1]))
    return out


def real(p, a, b, G=None, n=None):
    """the library's curve and generator"""
    from nbc.util.ecdsa import ellipticcurve as E
    cv = E.CurveFp(p, a, b)
    return cv, (E.Point(cv, G[0], G[1], n) if G else None)


def lit(P):
    """library point -> literal"""
    from nbc.util.ecdsa import ellipticcurve as E
    return None if P == E.INFINITY else (P.x(), P.y())


def mk(cv, P):
    from nbc.util.ecdsa import ellipticcurve as E
    return E.INFINITY if P is None else E.Point(cv, P[0], P[1])
