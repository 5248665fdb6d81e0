"""Independent reference: short-Weierstrass groups, ECDSA, RFC 6979, BIP32."""
import hashlib, hmac


class Curve(object):
    """y^2 = x^3 + ax + b over F_p; points are None (neutral) or (x, y)."""
    def __init__(self, p, a, b, g=None, n=None):
        self.p, self.a, self.b, self.g, self.n = p, a % p, b % p, g, n

    def on(self, P):
        if P is None:
            return True
        x, y = P
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return (x, (l * (P[0] - x) - P[1]) % p)

    # Jacobian ladder for speed
    def _jdbl(self, P):
        X, Y, Z = P
        p = self.p
        if Z == 0 or Y == 0:
            return (1, 1, 0)
        YY = Y * Y % p
        S = 4 * X * YY % p
        M = (3 * X * X + self.a * pow(Z, 4, p)) % p
        X3 = (M * M - 2 * S) % p
        return (X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p)

    def _jadd(self, P, Q):
        p = self.p
        if P[2] == 0:
            return Q
        if Q[2] == 0:
            return P
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        Z1Z1, Z2Z2 = Z1 * Z1 % p, Z2 * Z2 % p
        U1, U2 = X1 * Z2Z2 % p, X2 * Z1Z1 % p
        S1, S2 = Y1 * Z2 * Z2Z2 % p, Y2 * Z1 * Z1Z1 % p
        if U1 == U2:
            if S1 != S2:
                return (1, 1, 0)
            return self._jdbl(P)
        H, R = U2 - U1, S2 - S1
        HH = H * H % p
        HHH = H * HH % p
        V = U1 * HH % p
        X3 = (R * R - HHH - 2 * V) % p
        return (X3, (R * (V - X3) - S1 * HHH) % p, H * Z1 * Z2 % p)

    def mul(self, k, P):
        if P is None or k == 0:
            return None
        if k < 0:
            return self.mul(-k, self.neg(P))
        acc, B = (1, 1, 0), (P[0], P[1], 1)
        for bit in bin(k)[2:]:
            acc = self._jdbl(acc)
            if bit == '1':
                acc = self._jadd(acc, B)
        if acc[2] == 0:
            return None
        zi = pow(acc[2], -1, self.p)
        return (acc[0] * zi * zi % self.p, acc[1] * zi * zi * zi % self.p)

    def lift_y(self, y):
        "the x coordinates of the points with this y (curves with a = 0 and p = 7 mod 9)"
        assert self.a % self.p == 0 and self.p % 9 == 7
        v = (y * y - self.b) % self.p
        x = pow(v, (self.p + 2) // 9, self.p)
        return [x] if pow(x, 3, self.p) == v else []

    def lift(self, x, odd):
        """the point with this x and y parity, or None (p % 4 == 3 only)"""
        if not 0 <= x < self.p:
            return None
        yy = (x * x * x + self.a * x + self.b) % self.p
        y = pow(yy, (self.p + 1) // 4, self.p)
        if y * y % self.p != yy:
            return None
        if y & 1 != odd:
            y = -y % self.p
            if y & 1 != odd:
                return None
        return (x, y)


SECP256K1 = Curve(2**256 - 2**32 - 977, 0, 7,
    (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8),
    0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)
P192 = Curve(2**192 - 2**64 - 1, -3, 0x64210519E59C80E70FA7E9AB72243049FEB8DEECC146B9B1,
    (0x188DA80EB03090F67CBF20EB43A18800F4FF0AFD82FF1012, 0x07192B95FFC8DA78631011ED6B24CDD573F977A11E794811),
    0xFFFFFFFFFFFFFFFFFFFFFFFF99DEF836146BC9B1B4D22831)
P224 = Curve(2**224 - 2**96 + 1, -3, 0xB4050A850C04B3ABF54132565044B0B7D7BFD8BA270B39432355FFB4,
    (0xB70E0CBD6BB4BF7F321390B94A03C1D356C21122343280D6115C1D21, 0xBD376388B5F723FB4C22DFE6CD4375A05A07476444D5819985007E34),
    0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF16A2E0B8F03E13DD29455C5C2A3D)
P256 = Curve(2**256 - 2**224 + 2**192 + 2**96 - 1, -3, 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
    (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
    0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551)
P384 = Curve(2**384 - 2**128 - 2**96 + 2**32 - 1, -3,
    0xB3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF,
    (0xAA87CA22BE8B05378EB1C71EF320AD746E1D3B628BA79B9859F741E082542A385502F25DBF55296C3A545E3872760AB7,
     0x3617DE4A96262C6F5D9E98BF9292DC29F8F41DBD289A147CE9DA3113B5F0B8C00A60B1CE1D7E819D7A431D7C90EA0E5F),
    0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973)
P521 = Curve(2**521 - 1, -3,
    0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
    (0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
     0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650),
    0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409)
for _c in (SECP256K1, P192, P224, P256, P384, P521):
    assert _c.on(_c.g) and _c.mul(_c.n, _c.g) is None
BY_NAME = {'NIST192p': P192, 'NIST224p': P224, 'NIST256p': P256, 'NIST384p': P384, 'NIST521p': P521, 'SECP256k1': SECP256K1}


def ecdsa_sign(c, d, z, k):
    R = c.mul(k, c.g)
    r = R[0] % c.n
    return r, pow(k, -1, c.n) * (z + r * d) % c.n


def ecdsa_verify(c, Q, z, r, s):
    if not (1 <= r < c.n and 1 <= s < c.n):
        return False
    w = pow(s, -1, c.n)
    X = c.add(c.mul(z * w % c.n, c.g), c.mul(r * w % c.n, Q))
    return X is not None and X[0] % c.n == r


def rfc6979(q, x, h1, hashname):
    """candidates k as RFC 6979 section 3.2 step h yields them"""
    qlen = q.bit_length()
    rolen = (qlen + 7) // 8

    def bits2int(b):
        v = int.from_bytes(b, 'big')
        return v >> (8 * len(b) - qlen) if 8 * len(b) > qlen else v

    def i2o(v):
        return v.to_bytes(rolen, 'big')
    hl = hashlib.new(hashname).digest_size
    z = bits2int(h1)
    z2 = z - q if z >= q else z
    bx = i2o(x) + i2o(z2)
    V, K = b'\x01' * hl, b'\x00' * hl
    mac = lambda k, m: hmac.new(k, m, hashname).digest()
    for tag in (b'\x00', b'\x01'):
        K = mac(K, V + tag + bx)
        V = mac(K, V)
    while True:
        T = b''
        while 8 * len(T) < qlen:
            V = mac(K, V)
            T += V
        k = bits2int(T)
        if 1 <= k < q:
            yield k
        else:
            yield None
        K = mac(K, V + b'\x00')
        V = mac(K, V)


# -- BIP32 --------------------------------------------------------------------
def compress(P):
    return bytes([2 + (P[1] & 1)]) + P[0].to_bytes(32, 'big')


def full(P):
    return b'\x04' + P[0].to_bytes(32, 'big') + P[1].to_bytes(32, 'big')


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


class Node(object):
    def __init__(self, k, K, c, depth, fp, num):
        self.k, self.K, self.c, self.depth, self.fp, self.num = k, K, c, depth, fp, num

    @staticmethod
    def master(seed):
        I = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
        k = int.from_bytes(I[:32], 'big')
        return Node(k, SECP256K1.mul(k, SECP256K1.g), I[32:], 0, b'\0' * 4, 0)

    def neuter(self):
        return Node(None, self.K, self.c, self.depth, self.fp, self.num)

    def fingerprint(self):
        return hash160(compress(self.K))[:4]

    def child(self, i):
        C = SECP256K1
        if i >> 31:
            assert self.k is not None
            data = b'\0' + self.k.to_bytes(32, 'big')
        else:
            data = compress(self.K)
        I = hmac.new(self.c, data + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        t = int.from_bytes(I[:32], 'big')
        assert t < C.n
        k = None if self.k is None else (self.k + t) % C.n
        K = C.mul(k, C.g) if k is not None else C.add(C.mul(t, C.g), self.K)
        return Node(k, K, I[32:], self.depth + 1, self.fingerprint(), i)

    def extended(self, prv, testnet):
        ver = {(0, 0): 0x0488B21E, (0, 1): 0x0488ADE4, (1, 0): 0x043587CF, (1, 1): 0x04358394}[(int(testnet), int(prv))]
        key = b'\0' + self.k.to_bytes(32, 'big') if prv else compress(self.K)
        return ver.to_bytes(4, 'big') + bytes([self.depth]) + self.fp + self.num.to_bytes(4, 'big') + self.c + key
