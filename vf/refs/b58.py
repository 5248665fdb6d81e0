"""Independent base58 / base58check and address reference."""
import hashlib
A = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def enc(b):
    digits = []                       # little-endian base 58, schoolbook
    for byte in b:
        carry = byte
        for i in range(len(digits)):
            carry += digits[i] << 8
            digits[i] = carry % 58
            carry //= 58
        while carry:
            digits.append(carry % 58)
            carry //= 58
    zeros = 0
    for byte in b:
        if byte:
            break
        zeros += 1
    return b'1' * zeros + bytes(A[d] for d in reversed(digits))


def dec(s):
    """bytes, or None when a character is outside the alphabet"""
    out = []
    for ch in s:
        v = A.find(bytes([ch]))
        if v < 0:
            return None
        carry = v
        for i in range(len(out)):
            carry += out[i] * 58
            out[i] = carry & 255
            carry >>= 8
        while carry:
            out.append(carry & 255)
            carry >>= 8
    zeros = 0
    for ch in s:
        if ch != 0x31:
            break
        zeros += 1
    return b'\0' * zeros + bytes(reversed(out))


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def enc_check(b):
    return enc(b + dsha(b)[:4])


def dec_check(s):
    b = dec(s)
    if b is None or len(b) < 4 or dsha(b[:-4])[:4] != b[-4:]:
        return None
    return b[:-4]


def rmd(b):
    return hashlib.new('ripemd160', b).digest()


def address(pub, vcn, version):
    h = hashlib.sha512(pub).digest()
    d = hashlib.sha256(rmd(h[:32]) + rmd(h[32:])).digest()
    return enc_check(version + ('%04x' % (vcn & 0xffff)).encode() + d)
