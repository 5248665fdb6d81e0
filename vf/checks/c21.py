import math
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen

PROP = Prop('C21', assumptions=[
    'arguments are in the mathematical domain (positive moduli, non-negative integers for gcd/lcm, positive for factorisation), save where an error is demanded',
    'composites met at random stand for the documented error probability of the primality test; numbers built to fool all the bases tried for their size are outside the claim',
    'large primality, factorisation and totient references come from sympy'])


def T():
    from nbc.util.ecdsa import numbertheory
    return numbertheory


SP = [p for p in range(2, 2500) if all(p % d for d in range(2, int(p ** .5) + 1))]
BIG = [2**61 - 1, 2**89 - 1, 2**107 - 1, 2**127 - 1, 2**255 - 19, 2**256 - 2**32 - 977, gen.N256,
       2**192 - 2**64 - 1, 2**224 - 2**96 + 1, 2**256 - 2**224 + 2**192 + 2**96 - 1,
       2**384 - 2**128 - 2**96 + 2**32 - 1, 2**521 - 1, 10**9 + 7, 65537, 257, 17, 97, 193, 12289, 998244353, 2**64 - 59]


def brute_factor(n):
    out, d = [], 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1
    return out + ([(n, 1)] if n > 1 else [])


def ref_jacobi(a, n):
    "product of Legendre symbols by Euler's criterion"
    r = 1
    for p, e in brute_factor(n):
        l = 0 if a % p == 0 else 1 if pow(a, (p - 1) // 2, p) == 1 else -1
        r *= l ** e
    return r


def cmich(ff):
    l = 1
    for p, e in ff:
        v = 2 ** (e - 2) if p == 2 and e > 2 else (p - 1) * p ** (e - 1)
        l = l * v // math.gcd(l, v)
    return l


def small_cases(tier):
    for lo in range(0, 4000 if tier == 'quick' else 60000, 100):
        yield ('one', lo, lo + 100)
    for n in range(2, 60 if tier == 'quick' else 300):
        yield ('pair', n)
    for p in SP if tier == 'thorough' else SP[:120]:
        yield ('sqrt', p)


@PROP.sub('small', enum=small_cases, quick=48, cpu=300, rule='exhaustive: every argument in the interval, every pair below the bound, every residue of the prime')
def small(c, t):
    N = T()
    if c[0] == 'one':
        nxt = None
        for n in range(c[2] + 200, c[1] - 1, -1):
            prime = n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))
            if n < c[2]:
                expect(N.is_prime(n) is prime, 'is_prime(%d)', n)
                expect(nxt is not None, 'no prime within 200')
                same(N.next_prime(n), nxt, 'next_prime(%d)' % n)
                if n >= 1:
                    ff = brute_factor(n)
                    same([tuple(f) for f in N.factorization(n)], ff, 'factorization(%d)' % n)
                    ph = 1
                    for p, e in ff:
                        ph *= (p - 1) * p ** (e - 1)
                    same(N.phi(n), ph, 'phi(%d)' % n)
                    same(N.carmichael(n), cmich(ff), 'carmichael(%d)' % n)
            if prime:
                nxt = n
        for n in range(-c[2], -c[1]):
            expect(not N.is_prime(n), 'is_prime(%d)', n)
            same(N.next_prime(n), 2, 'next_prime(%d)' % n)
    elif c[0] == 'pair':
        n = c[1]
        if n > 8:
            units = [a for a in range(1, n) if math.gcd(a, n) == 1]
            lam = N.carmichael(n)
            expect(all(pow(a, lam, n) == 1 for a in units), 'carmichael(%d) does not annihilate', n)
        for a in range(-n, 3 * n):
            g = math.gcd(a, n)
            if g == 1:
                same(a * N.inverse_mod(a, n) % n, 1, 'inverse_mod(%d, %d)' % (a, n))
                expect(0 < N.inverse_mod(a, n) < n, 'inverse_mod(%d, %d) range', a, n)
                z, o = a % n, 1
                while z != 1:
                    z, o = z * a % n, o + 1
                if a > 0:
                    same(N.order_mod(a, n), o, 'order_mod(%d, %d)' % (a, n))
            else:
                raises(Exception, N.inverse_mod, a, n)
                raises(Exception, N.order_mod, a, n)
            if a >= 0:
                for args in ((a, n), (n, a), ([a, n],), ((n, a),)):
                    same(N.gcd(*args), g, 'gcd%r' % (args,))
                    same(N.lcm(*args), a * n // g, 'lcm%r' % (args,))
            if n % 2 and n > 2:
                same(N.jacobi(a, n), ref_jacobi(a, n), 'jacobi(%d, %d)' % (a, n))
            elif n % 2 == 0:
                raises(Exception, N.jacobi, a, n)
            for e in range(-2, 6):
                if e < 0:
                    raises(N.NegativeExponentError, N.modular_exp, a, e, n)
                else:
                    same(N.modular_exp(a, e, n), a ** e % n, 'modular_exp(%d, %d, %d)' % (a, e, n))
            if a > 0:
                v = N.largest_factor_relatively_prime(a, n)
                w = max(d for d in range(1, a + 1) if a % d == 0 and math.gcd(d, n) == 1)
                same(v, w, 'largest_factor_relatively_prime(%d, %d)' % (a, n))
                m2 = max(d for d in range(1, n + 1) if n % d == 0 and math.gcd(d, a) == 1)
                if m2 > 1:
                    z, o = a % m2, 1
                    while z != 1:
                        z, o = z * a % m2, o + 1
                    same(N.kinda_order_mod(a, n), o, 'kinda_order_mod(%d, %d)' % (a, n))
    else:
        p = c[1]
        squares = {x * x % p for x in range(p)}
        for a in range(p):
            if a in squares:
                r = N.square_root_mod_prime(a, p)
                expect(0 <= r < p and r * r % p == a, 'square_root_mod_prime(%d, %d) = %r', a, p, r)
            else:
                raises(N.SquareRootError, N.square_root_mod_prime, a, p)


@st.composite
def primes(draw):
    import sympy
    how = draw(st.integers(0, 2))
    if how == 0:
        return draw(st.sampled_from(BIG))
    if how == 1:
        return draw(st.sampled_from(SP[1:]))
    # any residue modulo 8, some with a large power of two in p-1
    bits = draw(st.integers(8, 300))
    k = draw(st.integers(1, 40))
    v = draw(st.integers(1 << bits, 2 << bits))
    return int(sympy.nextprime(v)) if k < 20 else _ntt(v, k)


def _ntt(v, k):
    import sympy
    n = (v << k) + 1
    while not sympy.isprime(n):
        n += 1 << k
    return n


big = st.one_of(gen.ints(0, 2**600), st.integers(0, 2**64), st.integers(0, 200))


@PROP.sub('modular', gen=st.tuples(primes(), big, st.integers(0, 2**520)), quick=800, thorough=40000,
          rule='random primes up to 340 bits of every residue class (also with a high power of two in p-1) and known field primes; non-trivial when p > 2000')
def modular(c, t):
    N = T()
    p, a, e = c
    t.nontrivial(p > 2000)
    t.label('p mod 8 = %d' % (p % 8))
    sq = a * a % p
    r = N.square_root_mod_prime(sq, p)
    expect(r in (a % p, -a % p), 'square root of %d mod %d: %r', sq, p, r)
    b = a % p
    if p > 2:
        leg = 0 if b == 0 else 1 if pow(b, (p - 1) // 2, p) == 1 else -1
        same(N.jacobi(a, p), leg, 'jacobi')
        same(N.jacobi(-a, p), leg * (1 if p % 4 == 1 else -1), 'jacobi(-a)')
        if leg == -1:
            raises(N.SquareRootError, N.square_root_mod_prime, b, p)
        else:
            x = N.square_root_mod_prime(b, p)
            same(x * x % p, b, 'square of the root')
    if b:
        for v in (a, b, -a, b - p):
            i = N.inverse_mod(v, p)
            expect(0 < i < p and i * v % p == 1, 'inverse_mod')
    else:
        raises(Exception, N.inverse_mod, a, p)
    same(N.modular_exp(a, e, p), pow(a, e, p), 'modular_exp')
    for x in (0, 1, e):
        same(N.modular_exp(a, x, 1), 0, 'modular_exp modulo one')
        same(N.modular_exp(x, a, p), pow(x, a, p), 'modular_exp')


@PROP.sub('composite', gen=st.tuples(big, big, gen.ints(2, 2**300), st.one_of(st.lists(gen.ints(1, 2**200), min_size=1, max_size=5), st.tuples(st.integers(1, 2**40), st.lists(st.integers(1, 2**40), min_size=2, max_size=24), st.integers(1, 2**40)).map(lambda x: [x[0] * v for v in x[1]] + [x[2]]))), quick=1200, thorough=60000,
          rule='gcd, lcm, inverse and Jacobi symbol for composite and shared-factor arguments; non-trivial when the factors are shared')
def composite(c, t):
    N = T()
    a, m, f, xs = c
    g = math.gcd(a, m)
    t.nontrivial(g > 1)
    if a or m:
        same(N.gcd(a, m), g, 'gcd')
        same(N.lcm(a, m), a * m // g, 'lcm')
        same(N.gcd(a * f, m * f), g * f, 'gcd with a common factor')
    gg, ll = 0, 1
    for x in xs:
        gg, ll = math.gcd(gg, x), ll * x // math.gcd(ll, x)
    for args in ((xs,), (tuple(xs),), tuple(xs)):
        same(N.gcd(*args), gg, 'gcd of several')
        same(N.lcm(*args), ll, 'lcm of several')
    if m > 1:
        if g == 1:
            i = N.inverse_mod(a, m)
            expect(i * a % m == 1 and 0 < i < m, 'inverse')
        else:
            raises(Exception, N.inverse_mod, a, m)
        raises(Exception, N.inverse_mod, a * f, m * f)
    o = m | 1
    if o > 2:
        import sympy
        same(N.jacobi(a, o), int(sympy.jacobi_symbol(a % o, o)), 'jacobi')
        same(N.jacobi(a * f, o), N.jacobi(a, o) * N.jacobi(f, o), 'jacobi is multiplicative')
    raises(Exception, N.jacobi, a, o - 1)


@st.composite
def prime_case(draw):
    how = draw(st.sampled_from(['any', 'odd', 'product', 'square', 'carmichael', 'prime', 'near']))
    bits = draw(st.one_of(st.integers(11, 64), st.integers(11, 500), st.sampled_from([99, 100, 101, 149, 150, 151, 199, 200, 201, 249, 250, 299, 300, 349, 350, 399, 400, 449, 450, 549, 550])))
    v = draw(st.integers(1 << (bits - 1), (1 << bits) - 1))
    w = draw(st.integers(2, 2**64))
    return how, v, w


@PROP.sub('primality', gen=prime_case(), quick=400, thorough=20000, cpu=120,
          rule='primes, products of two primes, squares, Carmichael numbers (6k+1)(12k+1)(18k+1), numbers around them; next_prime up to 500 bits; non-trivial without a factor below 12')
def primality(c, t):
    import sympy
    N = T()
    how, v, w = c
    if how == 'odd':
        v |= 1
    elif how == 'product':
        v = int(sympy.nextprime(w)) * int(sympy.nextprime(v >> (v.bit_length() // 2)))
    elif how == 'square':
        v = int(sympy.nextprime(w)) ** 2
    elif how == 'carmichael':
        k = w % 2**40
        while not (sympy.isprime(6 * k + 1) and sympy.isprime(12 * k + 1) and sympy.isprime(18 * k + 1)):
            k += 1
        v = (6 * k + 1) * (12 * k + 1) * (18 * k + 1)
    elif how == 'prime':
        v = int(sympy.nextprime(v))
    elif how == 'near':
        v = int(sympy.nextprime(v)) - 1 - 2 * (w % 2)
    t.nontrivial(math.gcd(v, 2310) == 1)
    t.label(how)
    expect(N.is_prime(v) is bool(sympy.isprime(v)), 'is_prime(%d) is not %s', v, sympy.isprime(v))
    if v.bit_length() < 500 and (how in ('prime', 'near') or v.bit_length() < 80):
        same(N.next_prime(v), int(sympy.nextprime(v)), 'next_prime(%d)' % v)


@PROP.sub('factors', gen=st.tuples(st.lists(st.tuples(st.one_of(st.sampled_from(SP[:20]), st.sampled_from(SP), st.sampled_from(SP[-170:])), st.integers(1, 3)), max_size=4), st.integers(0, 3), st.integers(2**20, 2**70)), quick=300, thorough=15000, cpu=120,
          rule='products of prime powers around and above the small-prime table, with or without one large prime; non-trivial with two or more primes')
def factors(c, t):
    import sympy
    N = T()
    fs, big, v = c
    ff = {}
    for p, e in fs:
        if e == 3:
            e = 3 + v % 200 if v % 3 else 3      # high powers too
        if big == 1 and p > 1229:
            p = SP[p % 50]     # what is left after a large prime is found by trial division only
        ff[p] = ff.get(p, 0) + e
    if big == 1:
        p = int(sympy.nextprime(v))
        ff[p] = 1
    n = 1
    for p, e in ff.items():
        n *= p ** e
    ff = sorted(ff.items())
    t.nontrivial(len(ff) > 1)
    same([tuple(x) for x in N.factorization(n)], ff, 'factorization(%d)' % n)
    ph = 1
    for p, e in ff:
        ph *= (p - 1) * p ** (e - 1)
    same(N.phi(n), ph, 'phi(%d)' % n)
    same(N.carmichael(n), cmich(ff), 'carmichael(%d)' % n)
    same(N.carmichael_of_factorized(ff), cmich(ff), 'carmichael_of_factorized')


PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 3317044064679887385961981,
       25326001 * 1, 161304001, 960946321, 1157839381, 3697278427, 5764643587, 6770862367, 4759123141, 1122004669633, 21652684502221, 31858317218647, 47636622961201, 55245642489451, 118670087467, 307768373641]


def strong(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    x = pow(a, d, n)
    return x in (1, n - 1) or any(pow(x, 1 << i, n) == n - 1 for i in range(1, s))


_spsp = {}


def spsp(bits, nth):
    "a product of two primes of about `bits` bits that passes the strong test to bases 2 and 3 and fails it to 5 or 7"
    import sympy
    if (bits, nth) not in _spsp:
        p = gen.N256 ** 3 % (1 << bits // 2) | 1 << bits // 2 - 1
        p = p ^ nth << 12 | 1
        while True:
            if pow(2, p - 1, p) == 1 and sympy.isprime(p) and sympy.isprime(2 * p - 1):
                n = p * (2 * p - 1)
                if strong(n, 2) and strong(n, 3) and not (strong(n, 5) and strong(n, 7)):
                    break
            p += 2
        _spsp[bits, nth] = n
    return _spsp[bits, nth]


def spsp_cases(tier):
    for v in PSI:
        yield ('known', v, 0)
    for i in range(3 if tier == 'quick' else 20):
        for bits in (26, 40, 64, 90, 110, 130, 170, 220) + (280, 320, 380, 430, 500, 600, 800) * (tier == 'thorough'):
            yield ('made', bits, i)


@PROP.sub('pseudoprimes', enum=spsp_cases, quick=60, cpu=300, rule='composite numbers that pass the strong test to the first bases: the least ones known for up to 13 bases, and products p(2p-1) of every size')
def pseudoprimes(c, t):
    import sympy
    N = T()
    how, v, i = c
    n = v if how == 'known' else spsp(v, i)
    if sympy.isprime(n):
        t.nontrivial(False)
    t.label(how)
    expect(N.is_prime(n) is bool(sympy.isprime(n)), 'is_prime(%d) is %s', n, not sympy.isprime(n))
    w = n - 2
    if n % 2 and not any(sympy.isprime(x) for x in (n, w)):
        same(N.next_prime(w), int(sympy.nextprime(w)), 'next_prime(%d)' % w)


BIGP = [1009, 1229, 1231, 4099, 65537, 1000003, 2**31 - 1, 2**61 - 1]


@PROP.sub('common-factors', enum=lambda tier: [(i, j, s) for i in range(len(BIGP)) for j in range(len(BIGP)) for s in range(4)], quick=256, rule='numbers whose common factor is large: greatest common divisor, least common multiple, what is left without it, and its order')
def common(c, t):
    import math
    N = T()
    i, j, s = c
    p, q = BIGP[i], BIGP[j]
    a = p ** (1 + s % 3) * q * (1, 3, 10, 12)[s]
    b = p ** (1 + (s + i) % 2) * (1, 7, 2, 1)[s]
    want = a
    while math.gcd(want, b) > 1:
        want //= math.gcd(want, b)
    same(N.gcd(a, b), math.gcd(a, b), 'gcd')
    same(N.lcm(a, b), a * b // math.gcd(a, b), 'lcm')
    same(N.largest_factor_relatively_prime(a, b), want, 'largest_factor_relatively_prime(%d, %d)' % (a, b))
    if want < 5000 and want > 1:
        k, z = 1, b % want
        while z != 1:
            k, z = k + 1, z * b % want
        same(N.kinda_order_mod(b, a), k, 'kinda_order_mod(%d, %d)' % (b, a))
