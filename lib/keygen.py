"""Inputs of the address, key, signature and extended-key properties
(C07, C08, C17-C27)."""
import hashlib, hmac, json, os

import secp
from secp import N, P, b32
from check import Plan
from fx import Cmd
from codecgen import vast, words, BEYOND, rb, mix, corrupt, b58, b58c, ws, bech32, u64, B58

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def init_plan(runs=None):
    p = Plan()
    p.pre = [Cmd("key_init", stateful=True)]
    p.post = [Cmd("key_uninit", stateful=True)]
    if runs:
        p.runs = runs
    return p


WALLET = {  # programs of the model: instructions in the quick and the thorough tier
    "derive": (3, 4), "commute": (3, 4), "serial": (2, 3), "ident": (2, 3), "der": (2, 3), "sign": (3, 4), "all": (2, 3)}


def programs(rng, cases, n):
    """n wallet programs out of the model's: single ones, and pairs in which the second
    starts at a private key of the first.  Indices, messages and networks are drawn."""
    cases = [c for c in cases if "prog" in c]
    out = []
    for k in range(n if cases else 0):
        a = rng.choice(cases)
        prog, refused, lens = [list(i) for i in a["prog"]], a["refused"], len(a["prog"])
        if k % 3:
            b = rng.choice(cases)
            root = rng.choice([j + 1 for j, t in enumerate(a["types"]) if t == 1])
            for i in b["prog"]:
                i = list(i)
                i[1] = root if i[1] == 1 else i[1] + lens
                if i[0] == 8:
                    i[2] = root if i[2] == 1 else i[2] + lens
                prog.append(i)
            refused = refused or b["refused"]
        low = rng.sample([0, 1, 2 ** 31 - 1, 0x01020304, rng.randrange(2 ** 31), rng.randrange(2 ** 31)], 2)
        msg = {6: rb(rng, 4), 9: rb(rng, 4)}
        for i in prog:
            if i[0] == 1:
                i[4:] = (low[i[7] > 1] | (i[4] << 24)).to_bytes(4, "big")
            elif i[0] in (7, 8):
                i[4:] = msg[i[7]]
            elif i[0] in (4, 5, 9):
                i[2] = rng.randrange(3)
        out.append(Cmd("wallet", rb(rng, rng.choice([16, 32, 64, rng.randrange(100)])), b"".join(map(bytes, prog[:6])),
                       only=("rel", "asanrel") if refused else None))
    return out


def wallet(plan, rng, tier, alpha, quick=8, thorough=100):
    """compositions of key operations (Wallet.tla), every one of some length on the model's curve"""
    T = tier == "thorough"
    plan.models.append(("MC_Wallet", "MC_Wallet.cfg", {
        "P": "43", "N": "31", "GX": "2", "PART": "wallet", "STEP": "1", "ALPHA": alpha,
        "MAXLEN": str(WALLET[alpha][T]), "SEEDS": "7" if T else "2"}, 4))
    if alpha == "serial":                         # a model that must fail
        plan.models.append(("MC_Wallet", "MC_WalletBad.cfg", dict(plan.models[-1][2], MAXLEN="1"), 1))
    before = plan.from_cases

    def from_cases(pl, cases):
        if before:
            before(pl, cases)
        pl.cmds += programs(rng, cases, thorough if T else quick)
    plan.from_cases = from_cases


def depth(tier):
    return 5 if tier == "thorough" else 1


EDGE = [1, 2, 3, N - 1, N - 2, (N + 1) // 2, (N - 1) // 2, 2 ** 255, 2 ** 128, 0xFFFF, 255 << 240]


# keys and hashes with uncommon results (leading or trailing zero bytes in a coordinate, many
# attempts at a low R, ...): inputs only, the specification computes what they give
SPECIAL = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "special.ndjson"))]
SPECIAL_KEYS = [bytes.fromhex(x["key"]) for x in SPECIAL if "hash" not in x]
SPECIAL_SIGS = [(x["kind"], bytes.fromhex(x["key"]), bytes.fromhex(x["hash"])) for x in SPECIAL if "hash" in x]


def keys(rng, n):
    """valid private keys: extremes first, then some with uncommon public keys"""
    edge = EDGE[:max(3, n // 3)]
    for v in edge:
        yield b32(v)
    spec = rng.sample(SPECIAL_KEYS, min(len(SPECIAL_KEYS), max(0, n - len(edge)) // 2))
    yield from spec
    for i in range(max(0, n - len(edge) - len(spec))):
        k = rng.randrange(6)
        if k == 0:
            v = rng.randrange(1, 2 ** rng.randrange(1, 250))
        elif k == 1:
            v = N - rng.randrange(1, 2 ** 130)
        else:
            v = rng.randrange(1, N)
        yield b32(v)


# ------------------------------------------------------------------ networks
NETS = {
    0: dict(pubkey=b"\x00", script=b"\x05", secret=b"\x80", extpub=bytes.fromhex("0488B21E"),
            extsec=bytes.fromhex("0488ADE4"), hrp=b"bc"),
    1: dict(pubkey=b"\x6f", script=b"\xc4", secret=b"\xef", extpub=bytes.fromhex("043587CF"),
            extsec=bytes.fromhex("04358394"), hrp=b"tb"),
    2: dict(pubkey=b"\x6f", script=b"\xc4", secret=b"\xef", extpub=bytes.fromhex("043587CF"),
            extsec=bytes.fromhex("04358394"), hrp=b"bcrt"),
}
FIELDS = ("pubkey", "script", "secret", "extpub", "extsec", "hrp")


def custom(rng, **kw):
    """another network: prefixes of other sizes"""
    d = dict(pubkey=rb(rng, rng.choice([1, 2, 3])), script=rb(rng, rng.choice([1, 2, 3])),
             secret=rb(rng, rng.choice([1, 2, 3, 4, 7])),
             extpub=rb(rng, rng.choice([1, 2, 3, 4, 4, 4, 5, 6, 8, 20])),
             extsec=rb(rng, rng.choice([1, 2, 3, 4, 4, 4, 5, 6, 8, 20])),
             hrp=bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789!~") for _ in
                       range(rng.choice([1, 3, 5, 10, 15, 16, 17, 18]))))
    d.update(kw)
    if "script" not in kw and "pubkey" not in kw and rng.random() < .4:   # prefixes that begin alike
        d["script"] = d["pubkey"] + rb(rng, rng.choice([0, 1])) if len(d["pubkey"]) > 1 else d["script"]
        d["script"] = d["script"][:-1] + bytes([(d["script"][-1] + rng.randrange(1, 256)) % 256])
    if d["script"].startswith(d["pubkey"]) or d["pubkey"].startswith(d["script"]):
        d["script"] = bytes([d["pubkey"][0] ^ 1]) + d["script"][1:]
    return d


def hrp(rng, n):
    """a human-readable part of n characters"""
    return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789!~") for _ in range(n))


def netargs(net):
    """the arguments that name a network, and its parameters"""
    if isinstance(net, int):
        return [net], NETS[net]
    return [3] + [net[f] for f in FIELDS], net


def pick(rng):
    r = rng.random()
    return custom(rng) if r < .3 else rng.choice([0, 0, 1, 2])


# ------------------------------------------------------------------ addresses
def to5(x):
    v, n, o = 0, 0, []
    for c in x:
        v, n = v << 8 | c, n + 8
        while n >= 5:
            n -= 5
            o.append(v >> n & 31)
    if n:
        o.append(v << (5 - n) & 31)
    return bytes(o)


def room(n):
    return (n + 4) * 138 // 100 + 2


@prop("C07")
def c07(rng, tier):
    p = Plan()
    k = depth(tier)
    # a text of more than 90 characters is no Bech32 address: not asked for
    for net in [0, 1, 2] + [custom(rng) for _ in range(5 * k)] + \
            [custom(rng, hrp=hrp(rng, n)) for n in (rng.randrange(19, 30), 30, 31, 49, 50, rng.randrange(32, 49))]:
        a, d = netargs(net)
        for kind in (0, 1):
            pre = d["pubkey"] if kind == 0 else d["script"]
            for pay in [bytes(20), b"\xff" * 20] + [mix(rng, 20) for _ in range(3 * k)] + \
                    [rb(rng, rng.randrange(0, 60)) for _ in range(2 * k)]:
                r = room(len(pay) + len(pre))
                for cap in [r, r + 40, r - 1, rng.choice([256, 257, 300, 1024, 65536]), rng.choice(BEYOND)] + ([0, rng.randrange(r)] if rng.random() < .3 else []):
                    p.cmds.append(Cmd("addr", kind, pay, cap, *a))
        for kind, n in ((2, 20), (3, 32)):
            for pay in [bytes(n), b"\xff" * n] + [mix(rng, n) for _ in range(2 * k)]:
                t = len(d["hrp"]) + 7 + 1 + (n * 8 + 4) // 5
                if t > 90:
                    continue
                for cap in [t, t + 1, 91, t - 1, rng.choice([256, 257, 300, 1024, 65536]), rng.choice(BEYOND)]:
                    p.cmds.append(Cmd("addr", kind, pay, cap, *a))
            for n2 in [n - 1, n + 1, 0, 32 if n == 20 else 20, n + 256] + [n + 65536] * (net == 0):   # release builds refuse
                p.cmds.append(Cmd("addr", kind, rb(rng, n2), 120, *a, only=("rel",)))
        for v in list(range(0, 18)) + [31, 32, 128, 255]:
            for n in {2, 20, 32, 40, rng.randrange(2, 41)} if v in (1, 16) else {rng.randrange(2, 41)}:
                t = len(d["hrp"]) + 7 + 1 + (n * 8 + 4) // 5
                if t > 90:
                    continue
                for cap in [t, 140, rng.choice(BEYOND)] + ([t - 1] if rng.random() < .4 else []):
                    p.cmds.append(Cmd("addr", 4, bytes([v]) + mix(rng, n), cap, *a))
        for n in [0, 1, 2, 41, 42, 43, 60, 200, 256, 258, 259, 276, 297, 65556]:
            p.cmds.append(Cmd("addr", 4, (bytes([rng.randrange(1, 17)]) + mix(rng, n))[:n], 400, *a))
        for n in range(2, 42):
            if (rng.random() < .3 or k > 1) and len(d["hrp"]) + 8 + ((n - 1) * 8 + 4) // 5 <= 90:
                p.cmds.append(Cmd("addr", 4, bytes([rng.randrange(1, 17)]) + mix(rng, n - 1), 140, *a))
    for n in (255, 256, 257, 300):                    # long prefixes
        a, d = netargs(custom(rng, pubkey=rb(rng, n), script=rb(rng, rng.choice([1, 256]))))
        for kind in (0, 1):
            r = room(20 + len(d["pubkey" if kind == 0 else "script"]))
            for cap in (r, r - 1, rng.randrange(r), -1):
                p.cmds.append(Cmd("addr", kind, rb(rng, 20), cap, *a))
    for w, n in ((13, 20), (14, 32), (15, rng.randrange(3, 42))):
        for s in (32, 33):
            p.cmds.append(Cmd("vast", w, u64((1 << s) + n - 20), b"\1" + rb(rng, 19), only=("rel",)))
    return p


@prop("C08")
def c08(rng, tier):
    p = Plan()
    k = depth(tier)

    def dec(text, a):
        p.cmds.append(Cmd("addr_dec", text, len(text) + 64, *a))
        if rng.random() < .15:
            p.cmds.append(Cmd("addr_dec", text, rng.choice(BEYOND), *a))

    def everywhere(text, own):
        nets = [own, rng.choice([0, 1, 2])]
        for net in nets:
            dec(text, netargs(net)[0])

    hrps = [b"bc", b"tb", b"bcrt", b"bd", b"b", b"bcc", b"BC", b"int"]
    alike = rb(rng, 2)
    nets = [0, 1, 2, custom(rng, pubkey=rb(rng, 12), script=rb(rng, 20)),
            custom(rng, pubkey=alike, script=alike[:1] + bytes([alike[1] ^ 5]))] + \
        [custom(rng, hrp=hrp(rng, n)) for n in (17, 18, 19, 30, 31, 50, 51, rng.randrange(19, 84), 83)]
    for net in nets + [pick(rng) for _ in range(12 * k)]:
        a, d = netargs(net)
        far = rng.choice([60, 129, 255, 256, 300])
        dec(b" " * far + b58c(rng.choice([d["pubkey"], d["script"]]) + rb(rng, 20)) + b"\t" * rng.choice([0, far]), a)
        for pre in (d["pubkey"], d["script"], d["secret"], bytes([d["pubkey"][0] ^ 1]), b""):
            n = rng.choice([20, 20, 20, 0, 1, 19, 21, 32, rng.randrange(70)])
            t = b58c(pre + mix(rng, n))
            dec(t, a)
            dec(ws(rng, t), a)
            if rng.random() < .5:
                dec(corrupt(rng, t, B58), a)
            if rng.random() < .3:
                dec(t, netargs(rng.choice([0, 1, 2]))[0])
        # the prefix itself cut short
        dec(b58c(d["pubkey"][:-1]), a)
        for v, n in [(0, 20), (0, 32)] + [(rng.randrange(1, 17), rng.choice([2, 3, 20, 32, 39, 40]))] * 2:
            t = bech32(d["hrp"], bytes([v]) + to5(mix(rng, n)))
            everywhere(t, net)
            dec(t.upper(), a)
            dec(corrupt(rng, t, b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"), a)
            if rng.random() < .3:
                dec(ws(rng, t), a)
                dec(t[:1] + t[1:].upper(), a)
        # other versions, sizes, paddings
        for v in [0, 1, 16, 17, 31, rng.randrange(32)]:
            n = rng.choice([0, 1, 2, 19, 20, 21, 31, 32, 33, 40, 41, 42])
            t = bech32(d["hrp"], bytes([v]) + to5(rb(rng, n)))
            dec(t, a)
        for n in [2, 3, 4, 20, 32, rng.randrange(2, 41)]:
            g = bytearray(to5(rb(rng, n)))
            pad = len(g) * 5 - n * 8
            if pad:
                g[-1] |= rng.randrange(1, 1 << pad)
                dec(bech32(d["hrp"], bytes([rng.choice([1, 2, 16])]) + bytes(g)), a)
            dec(bech32(d["hrp"], bytes([rng.choice([0, 1])]) + to5(rb(rng, n)) + b"\0"), a)
        # any number of groups
        n = rng.randrange(0, 70)
        dec(bech32(d["hrp"], bytes([rng.randrange(17)]) + bytes(rng.randrange(32) for _ in range(n))), a)
        dec(bech32(d["hrp"], b""), a)
        h = rng.choice(hrps + [d["hrp"] + b"x", d["hrp"][:-1] or b"z"])
        dec(bech32(h, b"\0" + to5(rb(rng, 20))), a)
        dec(b58(rb(rng, 25)), a)
        dec(rb(rng, rng.randrange(12)), a)
    for n in (255, 256, 257, 300):                    # long prefixes, long data
        a, d = netargs(custom(rng, pubkey=rb(rng, n), script=rb(rng, rng.choice([1, 256]))))
        dec(b58c(d["pubkey"] + rb(rng, 20)), a)
        dec(b58c(d["script"] + rb(rng, 20)), a)
        dec(b58c(d["pubkey"][:n - 1] + bytes([d["pubkey"][-1] ^ 1]) + rb(rng, 20)), a)
        dec(b58c(NETS[0]["pubkey"] + rb(rng, n)), [0])
    for n in range(0, 12):
        dec(b"1" * n, [0])
        dec(b"bc1" + b"q" * n, [0])
        dec(b" " * n, [0])
    if k > 1:                                  # every single-character change of two addresses
        for t, al in ((bech32(b"bc", b"\0" + to5(rb(rng, 20))), range(33, 127)),
                      (b58c(b"\0" + rb(rng, 20)), B58)):
            for i in range(len(t)):
                for c in rng.sample(list(al), 12):
                    dec(t[:i] + bytes([c]) + t[i + 1:], [0])
    words(p, tier, ("addr_dec",), ("a58", 1, 2), ("abech", 1, 2), module="MC_Forms")
    return p


# ------------------------------------------------------------------ key strings
@prop("C17")
def c17(rng, tier):
    p = Plan()
    k = depth(tier)
    ks = [bytes(32), b"\xff" * 32, bytes(31) + b"\1", b"\1" * 32] + [mix(rng, 32) for _ in range(14 * k)]
    nets = [0, 1, 2, custom(rng, secret=b""), custom(rng, secret=rb(rng, 30))]
    for key in ks:
        net = nets.pop(0) if nets else pick(rng)
        a, d = netargs(net)
        for comp in (0, 1, rng.choice([2, -1, 256])):
            p.cmds.append(Cmd("wif_enc", key, comp, *a))
        for tail in (b"", b"\1"):
            t = b58c(d["secret"] + key + tail)
            p.cmds.append(Cmd("wif_dec", t, *a))
            p.cmds.append(Cmd("wif_dec", ws(rng, t), *a))
            p.cmds.append(Cmd("wif_dec", t, rng.choice([0, 1, 2])))
            for _ in range(3):
                p.cmds.append(Cmd("wif_dec", corrupt(rng, t, B58), *a))
        for bad in (b"\0", b"\2", b"\xff", b"\1\1", b"\0\1", b"\1\0", rb(rng, 1), rb(rng, 12), rb(rng, 40)):
            p.cmds.append(Cmd("wif_dec", b58c(d["secret"] + key + bad), *a))
        for cut in (1, 2, 31, 32):
            p.cmds.append(Cmd("wif_dec", b58c(d["secret"] + key[:-cut]), *a))
            p.cmds.append(Cmd("wif_dec", b58c(d["secret"] + key[:-cut] + b"\1"), *a))
        for j in range(min(5, len(d["secret"]))):
            pre = bytearray(d["secret"])
            pre[-1 - j] ^= 1 << rng.randrange(8)
            p.cmds.append(Cmd("wif_dec", b58c(bytes(pre) + key + rng.choice([b"", b"\1"])), *a))
        far = rng.choice([60, 129, 255, 256, 300])            # much white space around the text
        p.cmds.append(Cmd("wif_dec", b" " * far + b58c(d["secret"] + key + b"\1") + b"\n" * rng.choice([0, far]), *a))
        p.cmds.append(Cmd("wif_dec", b58c(d["secret"][:-1] + key + b"\1"), *a))
        p.cmds.append(Cmd("wif_dec", b58c(key + b"\1"), *a))
    for n in (255, 256, 257, 300):            # long prefixes, and longer by as much
        key = mix(rng, 32)
        a, d = netargs(custom(rng, secret=rb(rng, n)))
        for comp in (0, 1):
            p.cmds.append(Cmd("wif_enc", key, comp, *a))
            p.cmds.append(Cmd("wif_dec", b58c(d["secret"] + key + b"\1" * comp), *a))
            p.cmds.append(Cmd("wif_dec", b58c(d["secret"][:-1] + bytes([d["secret"][-1] ^ 1]) + key + b"\1" * comp), *a))
            p.cmds.append(Cmd("wif_dec", b58c(b"\x80" + key + rb(rng, n - 1) + b"\1" * (1 + comp)), 0))
    for n in (0, 1, 2, 3, 50, 51, 52, 53, 80, 128, 129, 200, 300 * k):
        p.cmds.append(Cmd("wif_dec", b"1" * n, 0))
        p.cmds.append(Cmd("wif_dec", bytes(rng.choice(B58) for _ in range(n)), 0))
        p.cmds.append(Cmd("wif_dec", b58c(b"\x80" + rb(rng, n * 3 // 4)), 0))
    words(p, tier, ("wif_dec",), ("wif", 1, 2), module="MC_Forms")
    return p


# ------------------------------------------------------------------ DER keys
def key_der(key, pub, comp):
    plain = lambda tag, b: bytes([tag]) + (bytes([len(b)]) if len(b) < 128 else
                                           b"\x81" + bytes([len(b)]) if len(b) < 256 else
                                           b"\x82" + len(b).to_bytes(2, "big")) + b
    num = lambda v: plain(2, v.to_bytes(v.bit_length() // 8 + 1, "big"))
    ser = secp.ser33 if comp else secp.ser65
    par = plain(48, num(1) + plain(48, bytes.fromhex("06072A8648CE3D0101") + num(P)) +
                plain(48, plain(4, b"\0") + plain(4, b"\7")) + plain(4, ser(secp.G)) + num(N) + num(1))
    return plain(48, num(1) + plain(4, key) + plain(160, par) + plain(161, plain(3, b"\0" + ser(pub))))


@prop("C18")
def c18(rng, tier):
    p = init_plan()
    k = depth(tier)
    for key in keys(rng, 24 * k):
        for n in (279, 214):
            p.cmds.append(Cmd("key_enc", key, n))
        pub = secp.mul(int.from_bytes(key, "big"))
        for comp in (0, 1):
            e = key_der(key, pub, comp)
            p.cmds.append(Cmd("key_dec", e))
            p.cmds.append(Cmd("key_dec", e + rb(rng, 3)))
            h = 3 if comp else 4
            body = e[h:]
            for cut in (1, 2, len(e) - 41, len(e) - 40 - h, len(e) - 8):
                p.cmds.append(Cmd("key_dec", e[:-cut]))
            for _ in range(3):
                p.cmds.append(Cmd("key_dec", corrupt(rng, e[:48], None) + e[48:]))
    for n in [0, 1, 32, 33, 65, 213, 215, 278, 280, 214 + 256, 279 + 256, 279 + 65536, -1, -3, -8, -9]:
        p.cmds.append(Cmd("key_enc", b32(5), n, only=("rel",)))
    # headers: every length byte, several lengths against the input
    for _ in range(60 * k):
        key = b32(rng.randrange(1, N))
        osl = rng.choice([32] * 4 + [0, 1, 2, 31, 33, 34, 127, 128, 255])
        os_ = (key + bytes(300))[:osl] if rng.random() < .6 else bytes(max(0, osl - 3)) + rb(rng, min(3, osl))
        body = b"\2\1" + bytes([rng.choice([1] * 6 + [0, 2])]) + b"\4" + bytes([osl]) + os_
        body = corrupt(rng, body[:5]) + body[5:] if rng.random() < .15 else body
        body += rb(rng, rng.choice([0, 0, 5, 250]))
        body = body[:rng.choice([len(body)] * 4 + [rng.randrange(len(body) + 1)])]
        L = max(0, len(body) + rng.choice([0, 0, 0, 0, -1, -5, 1, 2, 1000]))
        lf = rng.choice([b"\x81" + bytes([L & 255]), b"\x82" + (L & 65535).to_bytes(2, "big"),
                         b"\x82" + (L & 65535).to_bytes(2, "big"), b"\x80",
                         bytes([L & 127]), b"\x83\0" + (L & 65535).to_bytes(2, "big"),
                         b"\x81", b"\x82\0", b"\x84" + L.to_bytes(4, "big")])
        p.cmds.append(Cmd("key_dec", bytes([rng.choice([48] * 9 + [49])]) + lf + body))
    for v in (0, N, N + 1, 2 ** 256 - 1, N - 1, 1):
        body = b"\2\1\1\4\x20" + b32(v)
        p.cmds.append(Cmd("key_dec", b"\x30\x81" + bytes([len(body)]) + body))
        p.cmds.append(Cmd("key_dec", b"\x30\x82" + len(body).to_bytes(2, "big") + body))
    for osl in range(0, 36):                   # short strings are right-aligned
        body = b"\2\1\1\4" + bytes([osl]) + mix(rng, osl)
        p.cmds.append(Cmd("key_dec", b"\x30\x81" + bytes([len(body)]) + body))
    # two-byte lengths with both bytes in use
    for pad in (0, 1, 220, 221, 222, 260, 500):
        body = b"\2\1\1\4\x20" + b32(rng.randrange(1, N)) + bytes(pad)
        for L in (len(body), len(body) + 1, len(body) - 1, len(body) + 256, len(body) ^ 256):
            p.cmds.append(Cmd("key_dec", b"\x30\x82" + (L & 65535).to_bytes(2, "big") + body))
    for n in range(0, 12):
        p.cmds.append(Cmd("key_dec", (b"\x30\x81\x25\2\1\1\4\x20" + bytes(30))[:n]))
    key = b32(rng.randrange(1, N))
    e = key_der(key, secp.mul(int.from_bytes(key, "big")), 0)
    for n in (256, 257, 65535, 65536, 65536 + rng.randrange(300)):
        p.cmds.append(Cmd("key_dec", (e + rb(rng, n))[:rng.choice([n, n + len(e)])]))
    p.cmds += vast(rng, k > 1, 10, key_der(key, secp.mul(int.from_bytes(key, "big")), 1))
    words(p, tier, ("key_dec",), ("key", 2, 3), module="MC_Forms")
    wallet(p, rng, tier, "der")
    return p


# ------------------------------------------------------------------ public keys
def points(rng, n):
    for key in keys(rng, n):
        yield secp.mul(int.from_bytes(key, "big")), key


@prop("C19")
def c19(rng, tier):
    p = init_plan()
    k = depth(tier)
    if k > 1:
        p.models.append(("MC_Secp", None, None, 1))
        p.models.append(("MC_BigNat", None, {"MAXLEN": "3"}, 4))
    pts = list(points(rng, 34 * k))
    for pt, key in pts:
        p.cmds.append(Cmd("key_pub", key))
        e, u = secp.ser33(pt), secp.ser65(pt)
        p.cmds.append(Cmd("pub_dec", e))
        p.cmds.append(Cmd("pub_dec", u))
        p.cmds.append(Cmd("pub_enc", u, rng.choice([33, 65])))
        for t in (4, 6, 7, rng.choice([0, 2, 3, 5, 8, 255])):
            p.cmds.append(Cmd("pub_dec", bytes([t]) + u[1:]))
        p.cmds.append(Cmd("pub_dec", bytes([rng.choice([0, 1, 4, 5, 6, 7, 130])]) + e[1:]))
        b = bytearray(u)
        b[rng.randrange(1, 65)] ^= 1 << rng.randrange(8)
        p.cmds.append(Cmd("pub_dec", bytes(b)))
        b = bytearray(e)
        b[rng.randrange(1, 33)] ^= 1 << rng.randrange(8)
        p.cmds.append(Cmd("pub_dec", bytes(b)))
        # negated y, x and y swapped
        p.cmds.append(Cmd("pub_dec", b"\4" + u[1:33] + b32(P - pt[1])))
        p.cmds.append(Cmd("pub_dec", b"\4" + u[33:] + u[1:33]))
    table, base = {}, secp.G
    for w in range(32):
        pt = None
        for d in range(1, 256):
            pt = secp.add(pt, base)
            table[b32(d << 8 * w)] = pt
        base = secp.add(pt, base)
    some = list(table)
    rng.shuffle(some)
    for key in covering(some, lambda key: secp.ser65(table[key])[1:], 120 * k):
        p.cmds.append(Cmd("key_pub", key))
        pt = table[key]
        p.cmds.append(Cmd("pub_dec", secp.ser65(pt)))
        p.cmds.append(Cmd("pub_enc", secp.ser65(pt), rng.choice([33, 65])))
    # coordinates that are not below p: representable when x + p < 2^256
    xs, x = [], 0
    while len(xs) < 6:
        x += 1
        if secp.lift(x):
            xs.append(x)
    for x in xs:
        pt = secp.lift(x)
        for v in (x, x + P):
            for t in (2, 3):
                p.cmds.append(Cmd("pub_dec", bytes([t]) + b32(v)))
            p.cmds.append(Cmd("pub_dec", b"\4" + b32(v) + b32(pt[1])))
    for x in (0, P, P - 1, P + 1, 2 ** 256 - 1):
        p.cmds.append(Cmd("pub_dec", b"\2" + b32(x)))
        p.cmds.append(Cmd("pub_dec", b"\4" + b32(x) + b32(x)))
    p.cmds.append(Cmd("pub_dec", bytes(33)))
    p.cmds.append(Cmd("pub_dec", bytes(65)))
    for pt, key in pts[:3]:                   # other lengths are refused by release builds
        for n in (0, 1, 32, 34, 64, 66, 100, 33 + 256, 65 + 256, 33 + 65536):
            p.cmds.append(Cmd("pub_dec", (secp.ser33(pt) + secp.ser65(pt) + bytes(n))[:n], only=("rel",)))
        for n in (0, 32, 34, 64, 66, 33 + 256, 65 + 256, 65 + 65536, -1, -3, -6, -7):
            p.cmds.append(Cmd("pub_enc", secp.ser33(pt), n, only=("rel",)))
        for n in (33, 65):
            e = secp.ser33(pt) if n == 33 else secp.ser65(pt)
            for s in (31, 32, 33):
                p.cmds.append(Cmd("vast", 12, u64(1 << s), e, only=("rel",)))
    return p


# ------------------------------------------------------------------ ECDSA
def hashes(rng, n):
    """hashes below n as numbers"""
    out = [bytes(32), b32(1), b32(N - 1), b32(2 ** 255)]
    while len(out) < n:
        h = rb(rng, 32)
        if int.from_bytes(h, "big") < N:
            out.append(h)
    return out[:n]


@prop("C20")
def c20(rng, tier):
    p = init_plan()
    k = depth(tier)
    hs = hashes(rng, 80 * k)
    ks = list(keys(rng, 80 * k))
    rng.shuffle(ks)
    seen = set()
    for kind, key, h in SPECIAL_SIGS:
        if k > 1 or kind not in seen:
            p.cmds.append(Cmd("sign", key, h))
        seen.add(kind)
    over = [N, N + 1, 2 ** 256 - 1, 2 ** 256 - 2, N + 2 ** 100] + [rng.randrange(N, 2 ** 256) for _ in range(4 * k)]
    for v in over:                             # hashes that are reduced
        p.cmds.append(Cmd("sign", rng.choice(ks), b32(v)))
    # pairs that need several attempts are worth more
    for i, (key, h) in enumerate(zip(ks, hs)):
        if i % 3:
            for _ in range(200):
                c, ext = 0, b""
                while c < 9 and secp.mul(secp.nonce(key, h, ext))[0] % N >> 255 == 1:
                    c += 1
                    ext = c.to_bytes(32, "little")
                if c >= (i % 3 if i % 2 else 2 * (i % 3)):
                    break
                h = b32(rng.randrange(N))
                if _ > 8:
                    break
        p.cmds.append(Cmd("sign", key, h))
    signed(p, rng, 500 * depth(tier))
    return p


@prop("C21")
def c21(rng, tier):
    p = init_plan()
    k = depth(tier)

    def ver(pt, key, h, r, s, form=None):
        e = (secp.ser65 if (form or rng.choice([33, 65])) == 65 else secp.ser33)(pt)
        p.cmds.append(Cmd("verify", e, h, b32(r) + b32(s), judge="m", hint=list(key) if key else None))

    for i, key in enumerate(keys(rng, 16 * k)):
        pt = secp.mul(int.from_bytes(key, "big"))
        h = rng.choice([b32(rng.randrange(N)), rb(rng, 32), bytes(32), b"\xff" * 32, b32(N), b32(N + 5)])
        r, s = secp.sign(key, h, rng.randrange(1, N))
        lo, hi = min(s, N - s), max(s, N - s)
        ver(pt, key, h, r, lo)
        ver(pt, key, h, r, hi)
        if i < 3:
            ver(pt, None, h, r, lo)            # without a logarithm: the general equation
        m = int.from_bytes(h, "big") ^ (1 << rng.randrange(256))
        ver(pt, key, b32(m), r, s)
        o = b32(rng.randrange(1, N))
        ver(secp.mul(int.from_bytes(o, "big")), o, h, r, s)
        ver((pt[0], P - pt[1]), b32(N - int.from_bytes(key, "big")), h, r, rng.choice([lo, hi]))
        ver(pt, key, h, (r ^ (1 << rng.randrange(250))) % N or 1, s)
        ver(pt, key, h, r, (s ^ (1 << rng.randrange(250))) % N or 1)
        ver(pt, key, h, N - r, s)
        ver(pt, key, h, s, r)
        z = rng.choice([(0, s), (r, 0), (0, 0)])
        ver(pt, key, h, *z)
    # signatures with a small or extreme S: choose s and r, solve for the hash
    for s in (1, 2, (N - 1) // 2, (N + 1) // 2, N - 1, N - 2):
        key = b32(rng.randrange(1, N))
        d, q = int.from_bytes(key, "big"), rng.randrange(1, N)
        r = secp.mul(q)[0] % N
        h = b32((s * q - r * d) % N)
        ver(secp.mul(d), key, h, r, s)
        ver(secp.mul(d), key, h, r, N - s)
    # the sum in the equation is infinity, and u1 = 0
    key = b32(rng.randrange(1, N)); d = int.from_bytes(key, "big")
    r = rng.randrange(1, N); s = rng.randrange(1, N)
    ver(secp.mul(d), key, b32(-r * d % N), r, s)
    q = rng.randrange(1, N); r = secp.mul(q)[0] % N
    ver(secp.mul(d), key, bytes(32), r, r * d * pow(q, -1, N) % N)
    # the key's own point as R: both halves of the sum are equal
    q = 2 * d % N; r = secp.mul(q)[0] % N
    ver(secp.mul(d), key, b32((r * d) % N), r, (2 * r * d) * pow(q, -1, N) % N)
    # a point whose x is not below the group order: r is x reduced
    for i in range(2 * k):
        x = N + rng.randrange(1, 2 ** 20)
        while not secp.lift(x):
            x += 1
        R = secp.lift(x)
        u1, u2 = rng.randrange(1, N), rng.randrange(1, N)
        Q = secp.mul(pow(u2, -1, N), secp.add(R, secp.mul(N - u1)))
        r = x - N
        s = r * pow(u2, -1, N) % N
        h = b32(u1 * s % N)
        ver(Q, None, h, r, min(s, N - s))
        ver(Q, None, h, r + 1, min(s, N - s))
    signed(p, rng, 500 * k)
    wallet(p, rng, tier, "sign")
    return p


def der_len(rng, n, kind):
    if kind == 0 and n < 128:
        return bytes([n])
    if kind == 1:
        z = rng.choice([0, 0, 1, 2, 5, 100])
        b = n.to_bytes(rng.choice([1, 2, 3]), "big") if n < 256 else n.to_bytes(2, "big")
        return bytes([128 + z + len(b)]) + bytes(z) + b
    if kind == 2:
        b = n.to_bytes(4, "big")
        return b"\x84" + b
    if kind == 3:                              # four significant bytes: refused
        return b"\x84" + bytes([rng.randrange(1, 256)]) + n.to_bytes(3, "big")
    return bytes([n & 127])


@prop("C22")
def c22(rng, tier):
    p = init_plan()
    k = depth(tier)
    NUMS = [0, 1, 127, 128, 255, 256, 2 ** 255 - 1, 2 ** 255, N - 1, (N - 1) // 2, (N + 1) // 2,
            2 ** 248, 2 ** 247, 2 ** 247 - 1, 2 ** 128, 2 ** 127]

    def num():
        c = rng.random()
        return rng.choice(NUMS) if c < .5 else rng.randrange(2 ** rng.randrange(1, 256)) if c < .8 else rng.randrange(N)

    for r in NUMS:
        for s in NUMS:
            if k > 1 or rng.random() < .3 or 0 in (r, s):
                p.cmds.append(Cmd("sig_enc", b32(r) + b32(s)))
    for _ in range(60 * k):
        r, s = num() % N, num() % N
        p.cmds.append(Cmd("sig_enc", b32(r) + b32(s)))
        p.cmds.append(Cmd("sig_dec", secp.der(r, s)))
        p.cmds.append(Cmd("sig_dec", corrupt(rng, secp.der(r, s), b"\x30\x02\x80\x81\x00")))
        p.cmds.append(Cmd("sig_dec", secp.der(r, s)[:-rng.randrange(1, 12)]))
        p.cmds.append(Cmd("sig_dec", secp.der(r, s) + rb(rng, 4)))
    BIG = [N, N + 1, 2 ** 256 - 1, 2 ** 256, 2 ** 264 - 1, 2 ** 300]

    def integer():
        v = rng.choice(BIG) if rng.random() < .15 else num()
        b = v.to_bytes((v.bit_length() + 7) // 8, "big")
        if rng.random() < .8:
            b = v.to_bytes(v.bit_length() // 8 + 1, "big")
        if rng.random() < .3:
            b = bytes(rng.choice([1, 2, 30, 60, 130])) + b
        if rng.random() < .1:
            b = b[1:] or b"\xff"
        L = len(b) + (rng.choice([-1, 1, 2, 200]) if rng.random() < .1 else 0)
        kind = rng.choice([0, 0, 0, 1, 1, 2, 3] if L >= 0 else [0])
        return bytes([2 if rng.random() < .96 else rng.choice([0, 3, 0x30, 0x82])]) + der_len(rng, max(0, L), kind) + b

    for _ in range(330 * k):
        body = integer() + integer()
        if rng.random() < .15:
            body += rb(rng, rng.randrange(5))
        if rng.random() < .15:
            body = body[:rng.randrange(len(body) + 1)]
        # the sequence length is ignored, but its bytes must be there
        sl = rng.choice([bytes([len(body) & 127]), bytes([rng.randrange(128)]), b"\x80",
                         b"\x81" + bytes([len(body) & 255]), b"\x82" + len(body).to_bytes(2, "big"),
                         b"\x8a" + bytes(10), b"\xff", b"\x85"])
        p.cmds.append(Cmd("sig_dec", bytes([48 if rng.random() < .95 else 49]) + sl + body))
    # lengths of two and three significant bytes
    for n in [128, 255, 256, 257, 300, 511, 512] + ([4096, 65535, 65536, 65537, 70001] if k > 1 else [65537]):
        v = rb(rng, 3)
        b = bytes(n - 3) + v
        for z in (0, 1, 9):
            L = n.to_bytes((n.bit_length() + 7) // 8, "big")
            L = bytes([128 + z + len(L)]) + bytes(z) + L
            for off in ((0,) if z or n > 4096 else (-1, 0, 1)):
                r, s = b"\2" + L + b, b"\2\1\7"
                for body in ((r + s, s + r, r + r) if n <= 4096 else (r + s, s + r)):
                    d = b"\x30\0" + body
                    p.cmds.append(Cmd("sig_dec", d + bytes(off) if off > 0 else d[:len(d) + off]))
    t = secp.der(N - 5, 3)
    for n in range(len(t)):                   # every truncation
        p.cmds.append(Cmd("sig_dec", t[:n]))
    for n in (255, 256, 257, 65535 - len(t), 65536, 65536 + rng.randrange(300)):
        p.cmds.append(Cmd("sig_dec", t + rb(rng, n)))
    for lb in range(128, 256):                # every count of length bytes
        if k > 1 or rng.random() < .4:
            n = rng.choice([lb - 128, lb - 129, lb - 127])
            p.cmds.append(Cmd("sig_dec", b"\x30\x06\2" + bytes([lb]) + bytes(max(0, n - 1)) + b"\1\5\2\1\7"))
            p.cmds.append(Cmd("sig_dec", b"\x30\x06\2\1\5\2" + bytes([lb]) + bytes(max(0, n - 1)) + b"\1\7"))
    p.cmds += vast(rng, k > 1, 11, secp.der(rng.randrange(1, N), rng.randrange(1, N)))
    words(p, tier, ("sig_dec",), ("sig", 2, 3), module="MC_Forms")
    return p


# ------------------------------------------------------------------ BIP32
def cheap(rng, n=12):
    """keys with one byte that is not zero: the specification finds their points in its table"""
    return [b32(rng.randrange(1, 256) << 8 * rng.randrange(32)) for _ in range(n)]


NOTABLE = {0, 1, 0x7f, 0x80, 0xfe, 0xff}


def covering(cands, outcome, n):
    """n of the candidates, chosen so that notable values occur at as many places of the outcome as possible"""
    feats = [(c, {(i, v) for i, v in enumerate(outcome(c)) if v in NOTABLE}) for c in cands]
    seen, got = set(), []
    while feats and len(got) < n:
        c, f = max(feats[:600], key=lambda x: len(x[1] - seen))
        if not f - seen:
            seen = set()
            if not f:
                got += [c for c, _ in feats[:n - len(got)]]
                break
        got.append(c)
        seen |= f
        feats.remove((c, f))
        feats = feats[300:] + feats[:300]      # the others have their turn
    return got


def soft(rng, parents, pubs, n):
    """children of few parents: (parent, chain code, number), notable values in addends, keys and chain codes"""
    cands = [(rng.choice(parents), rb(rng, 32), rng.choice([child(rng, False), rb(rng, 4)])) for _ in range(30 * n)]
    cands = [(k, c, bytes([i[0] & 127]) + i[1:]) for k, c, i in cands]

    def outcome(t):
        h = hmac.digest(t[1], pubs[t[0]] + t[2], "sha512")
        return h + b32((int.from_bytes(h[:32], "big") + int.from_bytes(t[0], "big")) % N)
    return covering(cands, outcome, n)


def signed(p, rng, n):
    """the library's own signatures, of any key and hash"""
    for _ in range(n):
        key, other = (b32(rng.randrange(1, N)) for _ in "ab")
        h = rb(rng, rng.choice([32, 32, 31, 30, 16])).rjust(32, b"\0")
        p.cmds.append(Cmd("signed", rng.choice([key, b32(rng.randrange(1, 2 ** rng.randrange(1, 256)))]), h, other, rng.randrange(256)))


def child(rng, hard=None):
    i = rng.choice([0, 1, 2 ** 31 - 1, 0x01020304, rng.randrange(2 ** 31), rng.randrange(2 ** 31)])
    if hard is None:
        hard = rng.random() < .5
    return (i | (0x80000000 if hard else 0)).to_bytes(4, "big")


@prop("C23")
def c23(rng, tier):
    p = init_plan()
    k = depth(tier)
    ks = list(keys(rng, 20 * k))
    for key in ks:
        c = mix(rng, 32)
        for hard in (0, 1, 1):
            p.cmds.append(Cmd("key_derive", key, c, child(rng, hard), judge="m"))
        p.cmds.append(Cmd("key_derive", key, mix(rng, 32), child(rng, rng.choice([0, 1, 1])), tweak=True, judge="m"))
    # boundary of the two kinds, and the smallest and largest indices
    for i in (0, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1):
        p.cmds.append(Cmd("key_derive", rng.choice(ks), rb(rng, 32), i.to_bytes(4, "big"), judge="m"))
    # a child key, an addend or a chain code that begins with zero bytes; sums next to the order
    def search(want):
        key, c = b32(rng.randrange(1, N)), rb(rng, 32)
        for j in rng.sample(range(2 ** 31), 300000):
            i = (j | 1 << 31).to_bytes(4, "big")
            h = hmac.digest(c, b"\0" + key + i, "sha512")
            if want(h, (int.from_bytes(h[:32], "big") + int.from_bytes(key, "big")) % N):
                p.cmds.append(Cmd("key_derive", key, c, i, judge="m"))
                return
    for bits in (8, 8, 12, 16):
        search(lambda h, v: v >> (256 - bits) == 0)
        search(lambda h, v: h[:4] < (1 << (32 - bits)).to_bytes(4, "big"))
        search(lambda h, v: h[32:36] < (1 << (32 - bits)).to_bytes(4, "big"))
    # sums that pass the group order
    for _ in range(20 * k):
        c, i = rb(rng, 32), child(rng, True)
        key = b32(N - rng.randrange(1, 2 ** 20))
        p.cmds.append(Cmd("key_derive", key, c, i, judge="m"))
    # many chain codes and numbers for few parents
    ks = cheap(rng)
    pubs = {key: secp.ser33(secp.mul(int.from_bytes(key, "big"))) for key in ks}
    for t in soft(rng, ks, pubs, 400 * k):
        p.cmds.append(Cmd("key_derive", *t))
    for _ in range(250 * k):
        p.cmds.append(Cmd("key_derive", b32(rng.randrange(1, N)), rb(rng, 32), bytes([128 | rng.randrange(128)]) + rb(rng, 3)))
    return p


def ckd_priv(key, c, i):
    d = (b"\0" + key if i[0] >= 128 else secp.ser33(secp.mul(int.from_bytes(key, "big")))) + i
    h = hmac.new(c, d, hashlib.sha512).digest()
    return b32((int.from_bytes(h[:32], "big") + int.from_bytes(key, "big")) % N), h[32:]


@prop("C24")
def c24(rng, tier):
    p = init_plan()
    k = depth(tier)
    for key in keys(rng, 18 * k):
        c, i = rb(rng, 32), child(rng, False)
        pt = secp.mul(int.from_bytes(key, "big"))
        # both ways to the child's public key; the specification derives each
        meta = bytes([rng.choice([0, 1, 254])]) + rb(rng, 4) + rb(rng, 4) + c
        fpr = rb(rng, 4)
        p.cmds.append(Cmd("pub_derive", secp.ser33(pt), c, i))
        if rng.random() < .5:                     # the other point with this x
            p.cmds.append(Cmd("pub_derive", bytes([secp.ser33(pt)[0] ^ 1]) + secp.ser33(pt)[1:], c, i))
        p.cmds.append(Cmd("xp_derive", meta + secp.ser33(pt), i, fpr))
        if rng.random() < .5:
            p.cmds.append(Cmd("xk_derive", meta + key, i, fpr))
        ck, cc = ckd_priv(key, c, i)
        p.cmds.append(Cmd("xk_pub", bytes([meta[0] + 1]) + fpr + i + cc + ck))
        if rng.random() < .5:
            p.cmds.append(Cmd("pub_derive", secp.ser33(pt), c, i, tweak=True))
            p.cmds.append(Cmd("xp_derive", meta + secp.ser33(pt), i, fpr, tweak=True))
        p.cmds.append(Cmd("pub_derive", secp.ser33(pt), c, child(rng, True), only=("rel",)))
        p.cmds.append(Cmd("xp_derive", meta + secp.ser33(pt), child(rng, True), fpr, only=("rel",)))
        for t in (rng.choice([0, 1, 4, 5, 6, 7, 255]),):
            p.cmds.append(Cmd("pub_derive", bytes([t]) + secp.ser33(pt)[1:], c, i, only=("rel",)))
            p.cmds.append(Cmd("xp_derive", meta + bytes([t]) + secp.ser33(pt)[1:], i, fpr, only=("rel",)))
        x = rng.randrange(P)
        while secp.lift(x):
            x += 1
        bad = bytes([rng.choice([2, 3])]) + b32(rng.choice([x, P, P + 1, 2 ** 256 - 1, 5]))
        p.cmds.append(Cmd("pub_derive", bad, c, i))
        p.cmds.append(Cmd("xp_derive", meta + bad, i, fpr))
    # a child at infinity: the parent's key is the negation of the addend
    for _ in range(2 * k):
        p.cmds.append(Cmd("xp_derive", b"\xff" + rb(rng, 40) + secp.ser33(secp.mul(7)), child(rng, False), rb(rng, 4)))
    ks = cheap(rng)
    pubs = {key: secp.ser33(secp.mul(int.from_bytes(key, "big"))) for key in ks}
    for key, c, i in soft(rng, ks, pubs, 320 * k):
        p.cmds.append(Cmd("commute", bytes([rng.randrange(256)]) + rb(rng, 8) + c + key, i, rb(rng, 4)))
    wallet(p, rng, tier, "commute")
    return p


def fields(rng, hard=None):
    """a parent's fingerprint and number, and a child's number, often the same"""
    i = child(rng, hard) if hard is not None else child(rng)
    own = rng.choice([rb(rng, 4), rb(rng, 4), bytes(4), b"\xff" * 4, i]) + rng.choice([rb(rng, 4), i, i, bytes(4), child(rng)])
    return own, i


@prop("C25")
def c25(rng, tier):
    p = init_plan()
    k = depth(tier)
    for n in [0, 1, 16, 32, 64, 127, 128, 129, 200, 255, 256, 257, 300, 4096, 65535, 65536, 65537 + rng.randrange(200)] + [rng.randrange(16, 65) for _ in range(8 * k)]:
        p.cmds.append(Cmd("xk_init", mix(rng, n)))
    for key in keys(rng, 20 * k):
        for d in (rng.choice([0, 1, 127, 128, rng.randrange(254)]), 254, 255):
            own, i = fields(rng)
            meta = bytes([d]) + own + rb(rng, 32)
            fpr = rng.choice([rb(rng, 4), bytes(4), own[:4], own[4:], i, b"\xff" * 4])
            if d != 254 or rng.random() < .5:
                p.cmds.append(Cmd("xk_derive", meta + key, i, fpr, judge="m"))
            if d == 255:
                p.cmds.append(Cmd("xp_derive", meta + secp.ser33(secp.mul(int.from_bytes(key, "big"))), child(rng, False), fpr, judge="m"))
        p.cmds.append(Cmd("xk_pub", bytes([rng.randrange(256)]) + rb(rng, 40) + key, judge="m"))
        if rng.random() < .3:
            own, i = fields(rng, False)
            p.cmds.append(Cmd("xp_derive", bytes([rng.randrange(255)]) + own + rb(rng, 32) +
                              secp.ser33(secp.mul(int.from_bytes(key, "big"))), i,
                              rng.choice([rb(rng, 4), bytes(4), own[:4], i]), judge="m"))
    ks = cheap(rng)
    for _ in range(100 * k):
        i = rng.choice([child(rng), b32(rng.getrandbits(32))[28:]])
        p.cmds.append(Cmd("xk_derive", rb(rng, 41) + rng.choice(ks), i, rb(rng, 4)))
    pubs = {key: secp.ser33(secp.mul(int.from_bytes(key, "big"))) for key in ks}
    for key, c, i in soft(rng, ks, pubs, 150 * k):
        p.cmds.append(Cmd("xk_derive", rb(rng, 9) + c + key, i, rb(rng, 4)))
    for seed in covering([rb(rng, rng.choice([16, 32, 64, rng.randrange(16, 65)])) for _ in range(6000 * k)],
                         lambda seed: hmac.digest(b"Bitcoin seed", seed, "sha512"), 180 * k):
        p.cmds.append(Cmd("xk_init", seed))
    for key in cheap(rng, 60 * k):
        p.cmds.append(Cmd("xk_pub", rb(rng, 41) + key))
    # a path from a seed, each step from the previous result
    for _ in range(2 * k):
        h = hmac.new(b"Bitcoin seed", rb(rng, 32), hashlib.sha512).digest()
        x = bytes(9) + h[32:] + h[:32]
        for step in range(6 * k):
            i = child(rng)
            fpr = hashlib.new("sha256", x).digest()[:4]
            p.cmds.append(Cmd("xk_derive", x, i, fpr, judge="m"))
            ck, cc = ckd_priv(x[41:], x[9:41], i)
            x = bytes([x[0] + 1]) + fpr + i + cc + ck
    wallet(p, rng, tier, "serial")
    return p


@prop("C26")
def c26(rng, tier):
    p = Plan()
    k = depth(tier)
    nets = [0, 1, 2, custom(rng, extpub=b"", extsec=b""), custom(rng, extpub=rb(rng, 40), extsec=rb(rng, 33))]
    for net in nets + [pick(rng) for _ in range(12 * k)]:
        a, d = netargs(net)
        meta = bytes([rng.choice([0, 1, 255, rng.randrange(256)])]) + rb(rng, 4) + rb(rng, 4) + mix(rng, 32)
        key, pub = mix(rng, 32), bytes([rng.choice([2, 3])]) + rb(rng, 32)
        p.cmds += [Cmd("xk_enc", meta + key), Cmd("xp_enc", meta + pub),
                   Cmd("xk_dec", meta + b"\0" + key), Cmd("xp_dec", meta + pub),
                   Cmd("xk_str", meta + key, *a), Cmd("xp_str", meta + pub, *a)]
        ts = b58c(d["extsec"] + meta + b"\0" + key)
        tp = b58c(d["extpub"] + meta + pub)
        for t in (ts, tp):
            p.cmds.append(Cmd("xk_unstr", t, *a))
            p.cmds.append(Cmd("xp_unstr", t, *a))
        for op, t in (("xk_unstr", ts), ("xp_unstr", tp)):
            for _ in range(3):
                p.cmds.append(Cmd(op, corrupt(rng, t, B58), *a))
            p.cmds.append(Cmd(op, ws(rng, t), *a))
            p.cmds.append(Cmd(op, t, rng.choice([0, 1, 2])))
            pre = d["extsec"] if op == "xk_unstr" else d["extpub"]
            body = meta + (b"\0" + key if op == "xk_unstr" else pub)
            for bad in (body[:-1], body + b"\0", body + rb(rng, 5), body[1:], b"", body * 2):
                p.cmds.append(Cmd(op, b58c(pre + bad), *a))
            for j in range(min(5, len(pre))):
                q = bytearray(pre)
                q[-1 - j] ^= 1 << rng.randrange(8)
                p.cmds.append(Cmd(op, b58c(bytes(q) + body), *a))
            p.cmds.append(Cmd(op, b58(pre + body), *a))
        for m in (1, 2, 3, 128, 255):
            p.cmds.append(Cmd("xk_unstr", b58c(d["extsec"] + meta + bytes([m]) + key), *a))
    for n in (255, 256, 257, 300):            # long prefixes, and longer by as much
        a, d = netargs(custom(rng, extpub=rb(rng, n), extsec=rb(rng, n)))
        meta, key, pub = rb(rng, 41), mix(rng, 32), b"\2" + rb(rng, 32)
        p.cmds += [Cmd("xk_str", meta + key, *a), Cmd("xp_str", meta + pub, *a)]
        for op, pre, std, body in (("xk_unstr", d["extsec"], NETS[0]["extsec"], meta + b"\0" + key),
                                   ("xp_unstr", d["extpub"], NETS[0]["extpub"], meta + pub)):
            p.cmds.append(Cmd(op, b58c(pre + body), *a))
            p.cmds.append(Cmd(op, b58c(pre[:-1] + bytes([pre[-1] ^ 1]) + body), *a))
            p.cmds.append(Cmd(op, b58c(std + body + rb(rng, n)), 0))
    for n in (0, 1, 3, 111, 112, 150, 256, 400):
        p.cmds.append(Cmd("xk_unstr", b"1" * n, 0))
        p.cmds.append(Cmd("xp_unstr", bytes(rng.choice(B58) for _ in range(n)), 0))
    words(p, tier, ("xk_unstr", "xp_unstr"), ("ext", 1, 2), module="MC_Forms")
    return p


@prop("C27")
def c27(rng, tier):
    p = init_plan()
    k = depth(tier)
    for key in keys(rng, 26 * k):
        pt = secp.mul(int.from_bytes(key, "big"))
        for comp in (0, 1):
            c = comp * rng.choice([1, 1, 2, -1, 256])
            p.cmds.append(Cmd("keyid", key, c))
            p.cmds.append(Cmd("pub_keyid", rng.choice([secp.ser33, secp.ser65])(pt), c))
            p.cmds.append(Cmd("key_fpr", key, c))
        p.cmds.append(Cmd("pub_fpr", secp.ser33(pt)))
        p.cmds.append(Cmd("pub_fpr", mix(rng, 33)))
    for key in cheap(rng, 150 * k):
        e = rng.choice([secp.ser33, secp.ser65])(secp.mul(int.from_bytes(key, "big")))
        c = rng.randrange(2)
        p.cmds += [Cmd("keyid", key, c), Cmd("pub_keyid", e, c), Cmd("key_fpr", key, rng.randrange(2)),
                   Cmd("pub_fpr", rng.choice([b"\2", b"\3"]) + rb(rng, 32))]
    wallet(p, rng, tier, "ident")
    return p
