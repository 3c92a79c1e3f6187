"""secp256k1 in Python: makes inputs and the table of multiples of G that the
specification uses (and checks: Secp!TableOK)."""
import hashlib, hmac, json

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def mul(k, p=G):
    r = None
    k %= N
    while k:
        if k & 1:
            r = add(r, p)
        p = add(p, p)
        k >>= 1
    return r


def limbs(v):
    return [v >> (13 * i) & 8191 for i in range(20)]


def gtable(path):
    t, base = [], G
    for w in range(32):
        row = [base, add(base, base)]
        for d in range(3, 256):
            row.append(add(row[-1], base))
        t.append([[limbs(x), limbs(y)] for x, y in row])
        base = add(row[254], base)
    json.dump(t, open(path, "w"), separators=(",", ":"))


def b32(v):
    return v.to_bytes(32, "big")


def ser33(p):
    return bytes([2 + (p[1] & 1)]) + b32(p[0])


def ser65(p):
    return b"\4" + b32(p[0]) + b32(p[1])


def lift(x):
    c = (x ** 3 + 7) % P
    y = pow(c, (P + 1) // 4, P)
    return (x, y) if y * y % P == c else None


def nonce(x, h, extra=b""):
    d = x + h + extra
    k, v = b"\0" * 32, b"\1" * 32
    H = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    k = H(k, v + b"\0" + d); v = H(k, v)
    k = H(k, v + b"\1" + d); v = H(k, v)
    while True:
        v = H(k, v)
        i = int.from_bytes(v, "big")
        if 0 < i < N:
            return i
        k = H(k, v + b"\0"); v = H(k, v)


def sign(x, h, k):
    r = mul(k)[0] % N
    s = pow(k, -1, N) * (int.from_bytes(h, "big") + r * int.from_bytes(x, "big")) % N
    return r, s


def low(r, s):
    return r, min(s, N - s)


def der(r, s):
    def i(v):
        b = v.to_bytes(v.bit_length() // 8 + 1, "big")
        return b"\2" + bytes([len(b)]) + b
    z = i(r) + i(s)
    return b"\x30" + bytes([len(z)]) + z
