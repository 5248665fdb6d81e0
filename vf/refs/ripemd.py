"RIPEMD-160 from its specification."
import struct
RL = [list(range(16)), [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8], [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
      [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2], [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]]
RR = [[5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12], [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2], [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13],
      [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14], [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]]
SL = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12], [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5],
      [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12], [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
SR = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6], [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11], [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5],
      [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8], [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
KL = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
KR = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]
M = 0xffffffff


def f(j, x, y, z):
    return (x ^ y ^ z, x & y | ~x & z, (x | ~y) ^ z, x & z | y & ~z, x ^ (y | ~z))[j]


def rol(x, n):
    x &= M
    return (x << n | x >> 32 - n) & M


def ripemd160(d):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    d2 = d + b'\x80' + b'\0' * (-(len(d) + 9) % 64) + struct.pack('<Q', 8 * len(d))
    for o in range(0, len(d2), 64):
        x = struct.unpack('<16I', d2[o:o + 64])
        out = []
        for R, S, K, rev in ((RL, SL, KL, 0), (RR, SR, KR, 1)):
            a, b, c, dd, e = h
            for j in range(5):
                for i in range(16):
                    t = (rol(a + f(4 - j if rev else j, b, c, dd) + x[R[j][i]] + K[j], S[j][i]) + e) & M
                    a, e, dd, c, b = e, dd, rol(c, 10), b, t
            out.append((a, b, c, dd, e))
        l, r = out
        h = [(h[1] + l[2] + r[3]) & M, (h[2] + l[3] + r[4]) & M, (h[3] + l[4] + r[0]) & M, (h[4] + l[0] + r[1]) & M, (h[0] + l[1] + r[2]) & M]
    return struct.pack('<5I', *h)


for _m, _h in ((b'', '9c1185a5c5e9fc54612808977ee8f548b2258d31'), (b'abc', '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'),
               (b'message digest', '5d0689ef49d2fae572b881b123a85ffa21595f36')):
    assert ripemd160(_m).hex() == _h
