"""Independent AES (computed S-box, byte-wise FIPS-197) and modes."""


def _xt(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def _gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


SB = [0] * 256
for _x in range(256):
    _i = next((y for y in range(256) if _gm(_x, y) == 1), 0)
    _s = 0
    for _k in range(5):
        _s ^= ((_i << _k) | (_i >> (8 - _k))) & 0xff
    SB[_x] = _s ^ 0x63
IS = [0] * 256
for _x in range(256):
    IS[SB[_x]] = _x
assert SB[0] == 0x63 and SB[0x53] == 0xed
M = {k: [_gm(x, k) for x in range(256)] for k in (1, 2, 3, 9, 11, 13, 14)}


class AES(object):
    def __init__(self, key):
        nk = len(key) // 4
        self.nr = nk + 6
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        rc = 1
        for i in range(nk, 4 * (self.nr + 1)):
            t = list(w[i - 1])
            if i % nk == 0:
                t = [SB[t[1]] ^ rc, SB[t[2]], SB[t[3]], SB[t[0]]]
                rc = _xt(rc)
            elif nk > 6 and i % nk == 4:
                t = [SB[x] for x in t]
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        self.rk = [sum(w[4 * r:4 * r + 4], []) for r in range(self.nr + 1)]

    @staticmethod
    def _mix(s, c):
        a, b, d, e = (M[k] for k in c)
        out = []
        for i in range(0, 16, 4):
            w, x, y, z = s[i:i + 4]
            out += [a[w] ^ b[x] ^ d[y] ^ e[z], e[w] ^ a[x] ^ b[y] ^ d[z],
                    d[w] ^ e[x] ^ a[y] ^ b[z], b[w] ^ d[x] ^ e[y] ^ a[z]]
        return out

    def enc(self, blk):
        s = [a ^ b for a, b in zip(blk, self.rk[0])]
        for r in range(1, self.nr + 1):
            s = [SB[x] for x in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < self.nr:
                s = self._mix(s, (2, 3, 1, 1))
            s = [a ^ b for a, b in zip(s, self.rk[r])]
        return bytes(s)

    def dec(self, blk):
        s = [a ^ b for a, b in zip(blk, self.rk[self.nr])]
        for r in range(self.nr - 1, -1, -1):
            s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
            s = [IS[x] for x in s]
            s = [a ^ b for a, b in zip(s, self.rk[r])]
            if r:
                s = self._mix(s, (14, 11, 13, 9))
        return bytes(s)


assert AES(bytes(range(16))).enc(bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
assert AES(bytes(range(32))).enc(bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '8ea2b7ca516745bfeafc49904b496089'
assert AES(bytes(range(24))).dec(bytes.fromhex('dda97ca4864cdfe06eaf70a0ec0d7191')).hex() == '00112233445566778899aabbccddeeff'


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def ecb(key, data, dec=False):
    c = AES(key)
    f = c.dec if dec else c.enc
    return b''.join(f(data[i:i + 16]) for i in range(0, len(data), 16))


def cbc_enc(key, iv, data):
    c, out = AES(key), b''
    for i in range(0, len(data), 16):
        iv = c.enc(xor(iv, data[i:i + 16]))
        out += iv
    return out


def cbc_dec(key, iv, data):
    c, out = AES(key), b''
    for i in range(0, len(data), 16):
        out += xor(c.dec(data[i:i + 16]), iv)
        iv = data[i:i + 16]
    return out


def cfb_enc(key, iv, data, seg):
    c, out, reg = AES(key), b'', iv
    for i in range(0, len(data), seg):
        o = xor(data[i:i + seg], c.enc(reg))
        out += o
        reg = (reg + o)[-16:]
    return out


def cfb_dec(key, iv, data, seg):
    c, out, reg = AES(key), b'', iv
    for i in range(0, len(data), seg):
        out += xor(data[i:i + seg], c.enc(reg))
        reg = (reg + data[i:i + seg])[-16:]
    return out


def ofb(key, iv, data):
    c, ks = AES(key), b''
    while len(ks) < len(data):
        iv = c.enc(iv)
        ks += iv
    return xor(data, ks)


def ctr(key, start, data):
    c, ks, v = AES(key), b'', start
    while len(ks) < len(data):
        ks += c.enc((v % (1 << 128)).to_bytes(16, 'big'))
        v += 1
    return xor(data, ks)
