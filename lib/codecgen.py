"""Inputs of the encoder/decoder properties (C01-C06, C09, C10, C33, C34)."""
import base64, hashlib

from check import Plan
from fx import Cmd

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def rb(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def mix(rng, n):
    """bytes with runs of extreme values"""
    k = rng.randrange(5)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes(rng.choice([0, 255, 0x7f, 0x80, 1]) for _ in range(n))
    return rb(rng, n)


def sizes(rng, small, big, nbig):
    return list(range(small)) + [rng.randrange(small, big) for _ in range(nbig)]


def corrupt(rng, s, alphabet=None):
    """a text with one or several small changes"""
    b = bytearray(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(6)
        p = rng.randrange(len(b)) if b else 0
        c = rng.choice(alphabet) if alphabet and rng.random() < .5 else rng.randrange(256)
        if k == 0 or not b:
            b[p:p] = bytes([c])
        elif k == 1:
            del b[p]
        elif k == 2 and len(b) > 1:
            q = rng.randrange(len(b))
            b[p], b[q] = b[q], b[p]
        else:
            b[p] = c
    return bytes(b)


def every_char(make, positions):
    """each byte value at each of the positions"""
    for p in positions:
        for c in range(256):
            yield make(p, c)


def words(plan, tier, ops, *kinds, module="MC_Codec"):
    """calls on everything a model reaches (MC_Codec: every short word over an alphabet)"""
    for kind, quick, thorough in kinds:
        plan.models.append((module, module + ".cfg", {"KIND": kind, "MAXLEN": str(
            thorough if tier == "thorough" else quick)}, 4))

    def from_cases(pl, cases):
        seen = set()
        for c in cases:
            for k in c.get("calls", ()):
                if k["op"] in ops:
                    a = [bytes(x) for x in k["a"]]
                    i = 1 if len(a) == 7 else len(a)          # a network of its own comes last
                    args = tuple(a[:i]) + tuple(k["n"]) + tuple(a[i:])
                    if (k["op"], args) not in seen:
                        seen.add((k["op"], args))
                        pl.cmds.append(Cmd(k["op"], *args))
    plan.from_cases = from_cases


def large(rng, thorough):
    return [65536 + rng.randrange(2, 4000)] + ([65535, 65536, 65537, 131072 + rng.randrange(99)] if thorough else [])


def vast(rng, thorough, which, *starts):
    """texts of more than 2 GiB: the start, then zero bytes (decoders, lengths)"""
    out = []
    for s in starts:
        totals = [(1 << 31) + rng.randrange(20), 1 << 32, (1 << 32) + rng.randrange(1, max(2, len(s)))]
        if which == 5:
            totals.append((1 << 32) + len(s))
        for t in totals + ([(1 << 33) + k for k in range(8)] if thorough else []):
            out.append(Cmd("vast", which, u64(t - len(s)), s, only=("rel",)))
    return out


# stated sizes of 2^31 and more, as the harness numbers them
BEYOND = (-1, -2, -3, -4, -5)


def vast_enc(rng, thorough, *which):
    """inputs of more than 4 GiB: zero bytes, then the end (encoders)"""
    out = []
    for w in which:
        for t in [(1 << 32) + rng.randrange(15)] + ([(1 << 31) - 3 + k for k in range(6)] if thorough else []):
            e = rb(rng, rng.randrange(7, 16))
            out.append(Cmd("vast_enc", w, u64(t), e, only=("rel",)))
    return out


# ------------------------------------------------------------------- hex
@prop("C01")
def c01(rng, tier):
    p = Plan()
    words(p, tier, ("to_hex", "from_hex"), ("hexd", 3, 4), ("hext", 4, 5))
    T = tier == "thorough"
    big = 4 if T else 1
    for b in range(256):
        for up in (0, 1, -3):
            p.cmds.append(Cmd("to_hex", bytes([b]), up))
    for n in sizes(rng, 40, 700, 60 * big):
        p.cmds.append(Cmd("to_hex", mix(rng, n), rng.choice([0, 1, 2, 256, -1])))
    HEX = b"0123456789abcdefABCDEF"
    for n in range(0, 9):
        for bad in range(n + 1):
            t = bytearray(rng.choice(HEX) for _ in range(n))
            if bad < n:
                t[bad] = rng.choice(b"gG/:@`\x00 \xff\x80")
            p.cmds.append(Cmd("from_hex", bytes(t)))
    for c in range(256):
        for pos in range(4):
            t = bytearray(rng.choice(HEX) for _ in range(6))
            t[pos] = c
            p.cmds.append(Cmd("from_hex", bytes(t)))
    for n in sizes(rng, 20, 900, 60 * big):
        t = bytes(rng.choice(HEX) for _ in range(n))
        p.cmds.append(Cmd("from_hex", t))
        p.cmds.append(Cmd("from_hex", corrupt(rng, t, HEX)))
        p.cmds.append(Cmd("from_hex", rb(rng, n).hex().encode()))
    for n in large(rng, T):                      # beyond 16-bit sizes
        p.cmds.append(Cmd("to_hex", rb(rng, n), n & 1))
        t = rb(rng, n // 2 + 1).hex().encode()
        p.cmds.append(Cmd("from_hex", t[:n]))
        p.cmds.append(Cmd("from_hex", t[:n - 1] + b"g"))
        for _ in range(2):
            q = rng.randrange(n)
            p.cmds.append(Cmd("from_hex", t[:q] + b"/" + t[q + 1:n]))
    p.cmds += vast(rng, T, 0, rb(rng, 4).hex().encode(), rb(rng, 40).hex().encode() + b"F")
    p.cmds += vast_enc(rng, T, 0)
    return p


# ---------------------------------------------------------------- base64
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64U = B64[:62] + b"-_"


@prop("C02")
def c02(rng, tier):
    p = Plan()
    words(p, tier, ("to_b64", "to_b64u", "from_b64", "from_b64u"), ("b64d", 4, 5), ("b64t", 5, 6), ("b64ut", 4, 6))
    k = 4 if tier == "thorough" else 1
    for n in range(0, 3):
        for b in range(256):
            x = bytes([rng.randrange(256) for _ in range(n)] + [b])
            p.cmds.append(Cmd("to_b64", x))
            p.cmds.append(Cmd("to_b64u", x))
    for n in sizes(rng, 40, 700, 50 * k):
        x = mix(rng, n)
        for op, e in (("b64", base64.b64encode(x)),
                      ("b64u", base64.urlsafe_b64encode(x).rstrip(b"="))):
            p.cmds.append(Cmd("to_" + op, x))
            p.cmds.append(Cmd("from_" + op, e))
            for _ in range(2 * k):
                p.cmds.append(Cmd("from_" + op, corrupt(rng, e, b"==-_+/ Aa")))
            p.cmds.append(Cmd("from_" + op, e.rstrip(b"=")))
            p.cmds.append(Cmd("from_" + op, e + b"="))
            p.cmds.append(Cmd("from_" + op, e + b"=="))
            if n % 3 == 0:
                p.cmds.append(Cmd("from_" + op, e + rng.choice([b"A", b"AB", b"ABC", b"A=", b"AB="])))
    # every character at every place of short texts
    for op, al in (("from_b64", B64), ("from_b64u", B64U)):
        for n in (1, 2, 3, 4, 5, 6, 7, 8):
            for pos in range(n):
                for c in range(256) if k > 1 or n in (2, 3, 8) else rng.sample(range(256), 40):
                    t = bytearray(rng.choice(al) for _ in range(n))
                    t[pos] = c
                    p.cmds.append(Cmd(op, bytes(t)))
        # '=' at every set of places
        for n in range(0, 9):
            for m in range(2 ** n) if n < 7 or k > 1 else rng.sample(range(2 ** n), 64):
                t = bytes(61 if m >> i & 1 else rng.choice(al) for i in range(n))
                p.cmds.append(Cmd(op, t))
    for n in large(rng, k > 1):
        x = rb(rng, n)
        p.cmds += [Cmd("to_b64", x), Cmd("to_b64u", x), Cmd("from_b64", base64.b64encode(x)),
                   Cmd("from_b64u", base64.urlsafe_b64encode(x).rstrip(b"="))]
        for op, e in (("from_b64", base64.b64encode(x)), ("from_b64u", base64.urlsafe_b64encode(x).rstrip(b"="))):
            q = rng.randrange(len(e) - 5000, len(e))
            p.cmds.append(Cmd(op, e[:q] + b"." + e[q + 1:]))
    for w in (1, 2):
        p.cmds += vast(rng, k > 1, w, *(bytes(rng.choice(B64[:62]) for _ in range(n)) for n in (8, 23)))
        p.cmds += vast_enc(rng, k > 1, w)
    return p


# ---------------------------------------------------------------- base32
B32 = b"abcdefghijklmnopqrstuvwxyz234567"


@prop("C03")
def c03(rng, tier):
    p = Plan()
    words(p, tier, ("to_b32", "to_b32raw", "from_b32", "from_b32raw"), ("b32d", 4, 6), ("b32t", 6, 8),
          ("b32rt", 7, 9))
    k = 4 if tier == "thorough" else 1
    for n in range(0, 5):
        for b in range(0, 256, 1 if k > 1 else 3):
            x = rb(rng, n) + bytes([b])
            p.cmds.append(Cmd("to_b32", x))
            p.cmds.append(Cmd("to_b32raw", x))
    for n in sizes(rng, 45, 600, 50 * k):
        x = mix(rng, n)
        e = base64.b32encode(x).lower()
        p.cmds.append(Cmd("to_b32", x))
        p.cmds.append(Cmd("to_b32raw", x))
        t = e.rstrip(b"=")
        case = bytes(c ^ 32 if chr(c).isalpha() and rng.random() < .5 else c for c in e)
        raw = bytes(B32.index(c) for c in t)
        for s in (e, t, case, e + rb(rng, 3), t + b"=" + t):
            p.cmds.append(Cmd("from_b32", s))
        for _ in range(2 * k):
            p.cmds.append(Cmd("from_b32", corrupt(rng, case, b"=018 9ABZz")))
            r = corrupt(rng, raw, b"\x1f\x20\x00\x80\xff").replace(b"=", b"\x1f")
            p.cmds.append(Cmd("from_b32raw", r))
        p.cmds.append(Cmd("from_b32raw", raw))
    for n in range(1, 10):
        for pos in range(n):
            full = k > 1 or n in (2, 7, 8)
            for c in range(256) if full else rng.sample(range(256), 30):
                t = bytearray(rng.choice(B32) for _ in range(n))
                t[pos] = c
                p.cmds.append(Cmd("from_b32", bytes(t)))
                r = bytearray(rng.randrange(32) for _ in range(n))
                r[pos] = c if c != 61 else 32
                p.cmds.append(Cmd("from_b32raw", bytes(r)))
    for n in large(rng, k > 1):
        x = rb(rng, n)
        p.cmds += [Cmd("to_b32", x), Cmd("to_b32raw", x), Cmd("from_b32", base64.b32encode(x)),
                   Cmd("from_b32raw", bytes(rng.randrange(32) for _ in range(n)))]
        e, r = base64.b32encode(x).lower(), bytes(rng.randrange(32) for _ in range(n))
        q = rng.randrange(n - 1500, n)
        p.cmds += [Cmd("from_b32", e[:q] + b"1" + e[q + 1:]), Cmd("from_b32", e[:q] + b"=" + e[q + 1:]),
                   Cmd("from_b32raw", r[:q].replace(b"=", b"a") + b"\x20" + r[q + 1:])]
    p.cmds += vast(rng, k > 1, 3, *(bytes(rng.choice(B32) for _ in range(n)) for n in (16, 30)), b"abcdefgh23=q")
    p.cmds += vast(rng, k > 1, 4, *(bytes(rng.randrange(32) for _ in range(n)) + b"\x80" for n in (16, 30)))
    p.cmds += vast_enc(rng, k > 1, 3, 4)
    return p


# ---------------------------------------------------------------- base58
B58 = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
WS = b" \t\n\v\f\r"


def b58(x):
    z = len(x) - len(x.lstrip(b"\0"))
    v, s = int.from_bytes(x, "big"), b""
    while v:
        v, r = divmod(v, 58)
        s = B58[r:r + 1] + s
    return b"1" * z + s


def b58c(x):
    return b58(x + hashlib.sha256(hashlib.sha256(x).digest()).digest()[:4])


def ws(rng, s):
    return bytes(rng.choice(WS) for _ in range(rng.randrange(4))) + s + \
        bytes(rng.choice(WS) for _ in range(rng.randrange(4)))


@prop("C04")
def c04(rng, tier):
    p = Plan()
    words(p, tier, ("to_b58", "from_b58"), ("b58d", 4, 5), ("b58t", 4, 5))
    k = 4 if tier == "thorough" else 1
    for b in range(256):
        p.cmds.append(Cmd("to_b58", bytes([b])))
        p.cmds.append(Cmd("from_b58", bytes([b])))
        t = bytearray(rng.choice(B58) for _ in range(rng.randrange(2, 9)))
        t[rng.randrange(len(t))] = b
        p.cmds.append(Cmd("from_b58", bytes(t)))
        t[0] = b
        p.cmds.append(Cmd("from_b58", bytes(t)))
        t[-1] = b
        p.cmds.append(Cmd("from_b58", bytes(t)))
    for n in sizes(rng, 50, 200, 20 * k) + [256, 300] + ([1000] if k > 1 else []):
        z = rng.choice([0, 0, 1, 2, n // 2, n])
        x = bytes(min(z, n)) + mix(rng, n - min(z, n))
        t = b58(x)
        p.cmds.append(Cmd("to_b58", x))
        p.cmds.append(Cmd("from_b58", t))
        p.cmds.append(Cmd("from_b58", ws(rng, t)))
        for _ in range(3 * k):
            p.cmds.append(Cmd("from_b58", corrupt(rng, t, b"10OIl zZ\0\t")))
        p.cmds.append(Cmd("from_b58", bytes(rng.choice(B58) for _ in range(n))))
        p.cmds.append(Cmd("from_b58", b"z" * n))
        p.cmds.append(Cmd("from_b58", b"1" * n))
        p.cmds.append(Cmd("to_b58", b"\0" * rng.randrange(3) + b"\xff" * n))
        # boundaries of the number of digits: 58^m - 1, 58^m
        v = 58 ** n
        for w in (v, v - 1, v + 1):
            if n < 60:
                p.cmds.append(Cmd("to_b58", w.to_bytes((w.bit_length() + 7) // 8, "big")))
    for n in range(0, 7):          # white space alone and around short texts
        for _ in range(6):
            p.cmds.append(Cmd("from_b58", bytes(rng.choice(WS + b"1z") for _ in range(n))))
    # beyond the sizes where a fixed-point estimate or a 16-bit count would do
    for n in [1700, 3200] + ([4500, 6000] if k > 1 else []):
        p.cmds.append(Cmd("from_b58", b"z" * n))
        p.cmds.append(Cmd("to_b58", b"\xff" * n))
        x = bytes(rng.randrange(5)) + rb(rng, n)
        t = b58(x)
        q = rng.randrange(len(t))
        p.cmds += [Cmd("to_b58", x), Cmd("from_b58", t), Cmd("from_b58", t[:q] + b"l" + t[q + 1:]),
                   Cmd("from_b58", t[:q] + b" " + t[q + 1:])]
    for n in large(rng, k > 1):
        p.cmds += [Cmd("to_b58", bytes(n) + b"\1\2"), Cmd("from_b58", b"1" * n + b"z2"),
                   Cmd("from_b58", b"1" * n), Cmd("to_b58", bytes(n))]
        p.cmds.append(Cmd("from_b58", b" " * n + b"2g" + b"\n" * n))
    return p


@prop("C05")
def c05(rng, tier):
    p = Plan()
    words(p, tier, ("to_b58c", "from_b58c"), ("b58c", 2, 4))
    k = 4 if tier == "thorough" else 1
    for n in sizes(rng, 34, 120, 12 * k):
        for _ in range(2):
            pre = mix(rng, rng.choice([0, 1, 1, 2, 4, 8]))
            x = mix(rng, n)
            t = b58c(pre + x)
            p.cmds.append(Cmd("to_b58c", x, pre))
            p.cmds.append(Cmd("from_b58c", t))
            p.cmds.append(Cmd("from_b58c", ws(rng, t)))
            p.cmds.append(Cmd("from_b58c", corrupt(rng, t, B58)))
            # a single changed checksum or payload byte / bit
            d = bytearray(pre + x + hashlib.sha256(hashlib.sha256(pre + x).digest()).digest()[:4])
            for q in range(4):
                e = bytearray(d)
                e[-1 - q] ^= 1 << rng.randrange(8)
                p.cmds.append(Cmd("from_b58c", b58(bytes(e))))
            e = bytearray(d)
            e[rng.randrange(len(e))] ^= 1 << rng.randrange(8)
            p.cmds.append(Cmd("from_b58c", b58(bytes(e))))
            # single hash, reversed checksum, checksum cut off
            p.cmds.append(Cmd("from_b58c", b58(pre + x + hashlib.sha256(pre + x).digest()[:4])))
            p.cmds.append(Cmd("from_b58c", b58(bytes(d[:-4]) + bytes(d[-4:][::-1]))))
            p.cmds.append(Cmd("from_b58c", b58(bytes(d[:-1]))))
    for m, n in [(20, 60), (60, 70), (129, 20), (255, 1), (256, 40), (300, 0), (4, 500), (2, 1500)] + \
            ([(1, 4000), (1000, 1000), (0, 300)] if k > 1 else []):
        pre, x = rb(rng, m), bytes(rng.choice([0, 0, 3])) + rb(rng, n)
        t = b58c(pre + x)
        p.cmds += [Cmd("to_b58c", x, pre), Cmd("from_b58c", t), Cmd("from_b58c", corrupt(rng, t, B58))]
        e = bytearray(pre + x + hashlib.sha256(hashlib.sha256(pre + x).digest()).digest()[:4])
        e[-1 - rng.randrange(4)] ^= 1 << rng.randrange(8)
        p.cmds.append(Cmd("from_b58c", b58(bytes(e))))
    t = b58c(b"\0" + rb(rng, 20))
    for n in (100, 129, 255, 256, 300):
        p.cmds += [Cmd("from_b58c", b" " * n + t), Cmd("from_b58c", t + b"\n" * n), Cmd("from_b58c", b" " * n + t + b" " * n + b"1")]
        z = bytes(n) + rb(rng, 9)
        p.cmds += [Cmd("to_b58c", z, b""), Cmd("from_b58c", b58c(z))]
    for n in range(0, 6):
        p.cmds.append(Cmd("from_b58c", b"1" * n))
        p.cmds.append(Cmd("from_b58c", b58(rb(rng, n))))
        p.cmds.append(Cmd("from_b58c", b58c(rb(rng, n))))
        p.cmds.append(Cmd("from_b58c", WS[:n]))
    return p


# ---------------------------------------------------------------- bech32
CHARSET = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def polymod(v):
    c = 1
    for x in v:
        t = c >> 25
        c = (c & 0x1ffffff) << 5 ^ x
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if t >> i & 1:
                c ^= g
    return c


def bech32(hrp, data, const=1):
    e = [c >> 5 for c in hrp] + [0] + [c & 31 for c in hrp]
    m = polymod(e + list(data) + [0] * 6) ^ const
    d = list(data) + [m >> 5 * (5 - i) & 31 for i in range(6)]
    return hrp + b"1" + bytes(CHARSET[x] for x in d)


def rhrp(rng, n):
    k = rng.randrange(3)
    if k == 0:
        return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(n))
    return bytes(rng.choice([c for c in range(33, 127) if not 65 <= c <= 90]) for _ in range(n))


@prop("C06")
def c06(rng, tier):
    p = Plan()
    words(p, tier, ("b32e", "b32d"), ("b32e", 3, 4))
    k = 5 if tier == "thorough" else 1
    for _ in range(90 * k):
        h = rhrp(rng, rng.choice([1, 2, 3, 4, 10, 30]))
        d = [rng.randrange(32) for _ in range(rng.choice([0, 1, 2, 5, 8, 33, 53, 80]))]
        p.cmds.append(Cmd("b32e", h, bytes(d)))
    for _ in range(170 * k):
        n = rng.choice([1, 1, 2, 3, 4, 8, 20, 50, 83])
        h = rhrp(rng, n)
        room = 90 - n - 7
        m = rng.choice([0, 1, 2, 10, 33, room, room, room + 1, room - 1, room + 2])
        d = [rng.randrange(32) for _ in range(max(0, m))]
        t = bech32(h, d)
        cap = rng.choice([n, n, n, n - 1, n + 1, 90, 0, 1])
        p.cmds.append(Cmd("b32d", t, cap))
        p.cmds.append(Cmd("b32d", t, rng.choice(BEYOND)))
        p.cmds.append(Cmd("b32d", t.upper(), 90))
        up = bytearray(t)
        i = rng.randrange(len(t))
        up[i:i + 1] = bytes(up[i:i + 1]).upper()
        p.cmds.append(Cmd("b32d", bytes(up), 90))
        c = rng.choice([p.cmds[-1].args[0], t, t])
        p.cmds.append(Cmd("b32d", corrupt(rng, t, CHARSET + b"1bio B~!\x7f"), 90))
        p.cmds.append(Cmd("b32d", corrupt(rng, t.upper(), CHARSET.upper()), 90))
        p.cmds.append(Cmd("b32d", bech32(h, d, rng.choice([0, 2, 0x2bc830a3, 1 << rng.randrange(30)])), 90))
        # the case of the parts
        p.cmds.append(Cmd("b32d", h + t[n:].upper(), 90))
        p.cmds.append(Cmd("b32d", h.upper() + t[n:], 90))
        p.cmds.append(Cmd("b32d", t[:n] + t[n + 1:], 90))           # no separator
        p.cmds.append(Cmd("b32d", t[n:], 90))                       # empty hrp
    for n in [84, 100, 255, 256, 300] + ([1000] if k > 1 else []):    # no bound when encoding
        p.cmds.append(Cmd("b32e", rhrp(rng, 3), bytes(rng.randrange(32) for _ in range(n))))
        p.cmds.append(Cmd("b32e", rhrp(rng, n), bytes(rng.randrange(32) for _ in range(9))))
    for n in [91, 92, 127, 128, 255, 256, 264, 300, 346, 347, 512 + 60, 600]:      # whatever the length wraps to
        for h in (b"bc", rhrp(rng, rng.choice([1, 5, 83]))):
            t = bech32(h, [rng.randrange(32) for _ in range(max(0, n - 7 - len(h)))])
            p.cmds += [Cmd("b32d", t, rng.choice([90, 300, 1000]))]
    for n in (1, 5, 83):
        h = rhrp(rng, n)
        for cap in (n, 255, 256, 257, 300, 1000):
            p.cmds.append(Cmd("b32d", bech32(h, []), cap))
    # every character at every place of one valid text
    t = bech32(b"a1b", [rng.randrange(32) for _ in range(4)])
    for i in range(len(t)):
        for c in range(256) if k > 1 else rng.sample(range(256), 30):
            p.cmds.append(Cmd("b32d", t[:i] + bytes([c]) + t[i + 1:], 90))
    # texts whose checksum is right although a character is outside 33..126 or upper case
    for c in list(range(0, 34)) + list(range(126, 256)) + list(range(65, 91)):
        h = bytearray(rhrp(rng, 3))
        h[rng.randrange(3)] = c
        p.cmds.append(Cmd("b32d", bech32(bytes(h), [1, 2, 3]), 90))
    for n in range(0, 10):
        for s in (b"1" * n, b"a" * n, b"a1" + b"q" * n, b"1q" * n, b"A1" + b"2UEL5L"[:n]):
            p.cmds.append(Cmd("b32d", s, 90))
    p.cmds += vast(rng, tier == "thorough", 5, bech32(b"bc", list(range(32))), bech32(b"bc", [1, 2])[:6])
    return p


# -------------------------------------------------------------- integers
def varint(v):
    out = [v & 127]
    while v > 127:
        v = (v >> 7) - 1
        out.append(v & 127 | 128)
    return bytes(out[::-1])


def edges():
    s = {0, 1, 2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 2 ** 63 + 1}
    base = 0
    for i in range(1, 10):
        base += 128 ** i
        for d in (-2, -1, 0, 1, 2):
            s.add(base + d)
    for i in range(64):
        for d in (-1, 0, 1):
            s.add(2 ** i + d)
    return sorted(v for v in s if 0 <= v < 2 ** 64)


def int_cmds(rng, k, enc, dec):
    c = []
    vals = edges() + [rng.randrange(2 ** rng.randrange(1, 65)) for _ in range(250 * k)]
    vals += list(range(0, 300, 7))
    for v in vals:
        c.append(Cmd(enc, v.to_bytes(8, "big")))
        if enc == "zigzag_enc":
            c.append(Cmd(enc, ((-v) % 2 ** 64).to_bytes(8, "big")))
        e = varint(v)
        c.append(Cmd(dec, e + rb(rng, rng.choice([0, 1, 5]))))
        if rng.random() < .4:
            c.append(Cmd(dec, e[:rng.randrange(len(e))]))
    for d in range(1, 130, 4):                      # just beyond 64 bits
        c.append(Cmd(dec, varint(2 ** 64 - 1 + d)))
    for _ in range(200 * k):
        n = rng.randrange(0, 13)
        b = bytearray(rng.choice([0x80, 0xff, 0xfe, 0x81, rng.randrange(128, 256)]) for _ in range(n))
        if n and rng.random() < .8:
            b[-1] = rng.choice([0, 0x7f, 1, rng.randrange(128)])
        c.append(Cmd(dec, bytes(b)))
    top = varint(2 ** 64 - 1)
    for i in range(10):
        for d in (-1, 1):
            b = bytearray(top)
            b[i] = (b[i] + d) % 256
            c.append(Cmd(dec, bytes(b) + b"\x00"))
    for n in (9, 10, 11, 12):
        c.append(Cmd(dec, b"\x80" * n + b"\0"))
        c.append(Cmd(dec, b"\xff" * n + b"\x7f"))
        c.append(Cmd(dec, b"\xff" * n))
    return c


@prop("C09")
def c09(rng, tier):
    p = Plan()
    words(p, tier, ("varint_enc", "varint_dec"), ("int", 3, 4))
    p.cmds = int_cmds(rng, 6 if tier == "thorough" else 1, "varint_enc", "varint_dec")
    p.cmds += vast(rng, tier == "thorough", 6, b"\x85\x81\x02", b"\xfe" * 9, b"\xff" * 8, b"")
    return p


@prop("C10")
def c10(rng, tier):
    p = Plan()
    words(p, tier, ("zigzag_enc", "zigzag_dec"), ("int", 3, 4))
    p.cmds = int_cmds(rng, 6 if tier == "thorough" else 1, "zigzag_enc", "zigzag_dec")
    p.cmds += vast(rng, tier == "thorough", 7, b"\x85\x81\x03", b"\xfe" * 9, b"\xff" * 8, b"")
    return p


# --------------------------------------------------- lengths, dump, order
def u64(v):
    return v.to_bytes(8, "big")


@prop("C33")
def c33(rng, tier):
    p = Plan()
    k = 4 if tier == "thorough" else 1
    big = [2 ** i + d for i in range(8, 49) for d in (-1, 0, 1)]
    ns = list(range(0, 70)) + rng.sample(range(70, 600), 20 * k) + rng.sample(big, 30 * k)
    for n in ns:
        for w in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10):
            p.cmds.append(Cmd("len", w, u64(n)))
        p.cmds.append(Cmd("len", 9, u64(n), u64(rng.randrange(0, 9))))
        p.cmds.append(Cmd("len", 11, u64(rng.choice([1, 2, 4, 83])), u64(n)))
    p.cmds.append(Cmd("len", 12, u64(0)))
    p.cmds.append(Cmd("len", 13, u64(0)))
    p.cmds += vast(rng, k > 1, 8, b"AAAA", b"=A") + vast(rng, k > 1, 9, b"aaaaa", b"aaaaaaa=")
    for n in range(0, 40):
        x = rb(rng, n)
        e = base64.b64encode(x)
        for t in (e, e.rstrip(b"="), rb(rng, n), b"=" * n, e + b"=", e + b"=="):
            p.cmds.append(Cmd("len_b64", t))
        e = base64.b32encode(x).lower()
        for t in (e, e.rstrip(b"="), rb(rng, n), b"=" * n, e + b"=a", rb(rng, 3) + b"=" + rb(rng, n)):
            p.cmds.append(Cmd("len_b32", t))
    # the conversions themselves, so that the predicted sizes are observed
    for n in range(0, 60):
        for x in (bytes(n), b"\xff" * n, rb(rng, n)):
            p.cmds.append(Cmd("to_b58", x))
            p.cmds.append(Cmd("from_b58", b58(x)))
        p.cmds.append(Cmd("from_b58", b"1" * n))
        p.cmds.append(Cmd("from_hex", b"a5" * n + b"b"))
        p.cmds.append(Cmd("to_b32raw", rb(rng, n)))
    p.runs = [("dbg", None), ("rel", None)]
    return p


@prop("C34")
def c34(rng, tier):
    p = Plan()
    k = 4 if tier == "thorough" else 1
    for n in list(range(0, 200, 1 if k > 1 else 2)) + list(range(1, 70)):
        p.cmds.append(Cmd("hex_dump", mix(rng, n), rng.choice([0, 1])))
    # around multiples of any internal block
    for n in [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
              8191, 8192, 8193] + [rng.randrange(200, 3000) for _ in range(30 * k)]:
        p.cmds.append(Cmd("hex_dump", rb(rng, n), rng.choice([0, 1, 5, -1])))
    p.cmds.append(Cmd("hex_dump", bytes(range(256)), 0))
    p.cmds.append(Cmd("hex_dump", bytes(range(256)), 1))
    for n in large(rng, k > 1):
        p.cmds.append(Cmd("hex_dump", rb(rng, n), n & 1))
    for n in [1 + rng.randrange(300), (1 << 20) + rng.randrange(99), (1 << 31) + rng.randrange(99),
              (1 << 32) + rng.randrange(99)] + ([(1 << 31) - 2 + i for i in range(4)] if k > 1 else []):
        p.cmds.append(Cmd("vast_dump", u64(n), n & 1, only=("rel",)))
    p.timeout = 600
    return p


@prop("C35")
def c35(rng, tier):
    p = Plan()
    k = 4 if tier == "thorough" else 1
    for w in range(10):
        for off in range(0, 18):
            for _ in range(2 * k):
                n = off + 8 + rng.randrange(4)
                p.cmds.append(Cmd("endian", w, mix(rng, n) if rng.random() < .3 else rb(rng, n),
                                  off, rb(rng, 8)))
        for i in range(8):
            b = bytearray(16)
            b[4 + i] = 0x80
            p.cmds.append(Cmd("endian", w, bytes(b), 4, u64(0x80 << 8 * i)))
            b[4 + i] = 1
            p.cmds.append(Cmd("endian", w, bytes(b), 4, u64(1 << 8 * i)))
        if w > 5:
            for off in [127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1 << 24, 1 << 31, (1 << 32) - 1, 1 << 32,
                        (1 << 40) + 3] + [rng.randrange(1 << rng.randrange(9, 42)) for _ in range(4 * k)]:
                p.cmds.append(Cmd("vast_endian", w, rb(rng, 8), u64(off)))
    p.runs = [("dbg", None), ("rel", None), ("dbg", "e"), ("dbg", "l")]
    return p
