"""Randomness, life cycle, effects and schedules (C15, C16, C28-C32)."""
import copy, hashlib, random

import codecgen, hashgen, keygen
from check import Plan
from codecgen import rb, mix, b58c, corrupt
import fx
from fx import Cmd, run_driver, parse_response, ToolError
from keygen import b32, NETS, keys, custom, netargs

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def script(log, rng):
    """environment log of the specification -> script of the recorder"""
    t = []
    for x in log:
        if x["k"] == "open":
            t.append("o" if x["ok"] else "O%d" % rng.choice([2, 13, 24]))
        elif x["k"] == "read":
            if not x["ok"]:
                t.append("f%d" % rng.choice([5, 13]))
            else:
                t.append("d" + bytes(x["got"]).hex() if x["got"] else "z")
    return ",".join(t)


# ---------------------------------------------------------------- C15, C16
@prop("C15")
def c15(rng, tier):
    T = tier == "thorough"
    p = Plan()
    p.models = [("MC_Random", "MC_Random.cfg", {"MAXSIZE": "10" if T else "7"}, 4)]
    p.runs = [("dbg", None), ("rel", None)]

    def from_cases(plan, cases):
        for c in cases:
            plan.cmds.append(Cmd("os_rand", c["n"], env=script(c["log"], rng), fork=c["fails"], judge="d"))

    p.from_cases = from_cases
    big = [31, 32, 33, 64, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 6000]
    for n in big + [rng.randrange(20, 5000) for _ in range(200 if T else 40)]:
        for k in range(6):
            left, t = n, []
            while left > 0 and len(t) < 200:
                d = min(left, rng.choice([1, 2, 31, 255, 256, 257, left, max(1, left - 1), rng.randrange(1, n + 1)]))
                t.append("n%d" % d)
                left -= d
            if k < 3:
                p.cmds.append(Cmd("os_rand", n, env=",".join(t), judge="d"))
            else:
                t = t[:rng.randrange(len(t))] if rng.random() < .6 else t[:-1]
                t.append("z" if k == 3 else "f5" if k == 4 else "f%d" % rng.choice([1, 9, 12, 21, 22]))
                p.cmds.append(Cmd("os_rand", n, env=",".join(t), fork=True, judge="d"))
        p.cmds.append(Cmd("os_rand", n, env="O%d" % rng.choice([2, 13, 24]), fork=True, judge="d"))
    p.cmds.append(Cmd("os_rand", 0, judge="d"))
    for n in [65535, 65536, 65537, 100003]:               # beyond 16-bit counts
        for t in ("", "n%d" % (n - 1), "n256,n65535,n1", "n1,n32767,n32768"):
            p.cmds.append(Cmd("os_rand", n, env=t, judge="d"))
        p.cmds.append(Cmd("os_rand", n, env="n65536,z" if n > 65536 else "n65534,z", fork=True, judge="d"))
    for n, d in ((1500, 1), (3000, 2), (2100, 1)) + (((20000, 1),) if T else ()):      # very many short deliveries
        p.cmds.append(Cmd("os_rand", n, env=",".join(["n%d" % d] * (n // d - 1)), judge="d"))
    for t in ("o0", "o0,n3,n4", "o0,n5,z", "o0,f5"):          # the source gets descriptor 0
        p.cmds.append(Cmd("os_rand", 40, env=t, fork=True))
    for n in (1 << 31, (1 << 31) + 77, 1 << 32, (1 << 32) + rng.randrange(1, 300)) + ((1 << 33, (1 << 33) + 1) if T else ()):
        p.cmds.append(Cmd("vast_rand", codecgen.u64(n), only=("rel",)))
    return p


@prop("C16")
def c16(rng, tier):
    T = tier == "thorough"
    p = keygen.init_plan([("dbg", None), ("rel", None)])
    p.models = [("MC_KeyNew", "MC_KeyNew.cfg", {"MAXBAD": "3" if T else "2"}, 4)]

    def from_cases(plan, cases):
        for c in cases:
            plan.cmds.append(Cmd("key_new", env=script(c["log"], rng), fork=c["fails"], judge="d"))

    p.from_cases = from_cases
    n = keygen.N
    for _ in range(400 if T else 80):        # other draws near the bounds
        t = []
        for _ in range(rng.randrange(4)):
            v = rng.choice([0, n, n + rng.randrange(2 ** 128), 2 ** 256 - 1 - rng.randrange(2 ** 100),
                            n + 2 ** rng.randrange(128)])
            t.append(min(v, 2 ** 256 - 1))
        t.append(rng.choice([1, n - 1, rng.randrange(1, 2 ** 64), n - rng.randrange(1, 2 ** 130),
                             1 << rng.randrange(255), rng.randrange(1, n)]))
        cut = []
        for v in t:
            b, at = b32(v), sorted({0, 32} | {rng.randrange(33) for _ in range(rng.randrange(3))})
            cut += ["d" + b[i:j].hex() for i, j in zip(at, at[1:])]
        p.cmds.append(Cmd("key_new", env=",".join(cut), judge="d"))
    for m in (8, 9, 16, 17, 33, 65) + ((101, 200) if T else ()):         # many rejected draws
        t = [rng.choice([0, n, n + rng.randrange(2 ** 128), 2 ** 256 - 1]) for _ in range(m)] + [rng.randrange(1, n)]
        p.cmds.append(Cmd("key_new", env=",".join("d" + b32(v).hex() for v in t), judge="d"))
    p.cmds += [Cmd("key_new", judge="d") for _ in range(20)]
    return p


# --------------------------------------------------------------------- C30
def curve_kinds(rng):
    """a few concrete calls of each kind"""
    ks = [b32(1), b32(keygen.N - 1)] + [b32(rng.randrange(1, keygen.N)) for _ in range(2)]
    h = [rb(rng, 32) for _ in range(2)]
    pub = [keygen.secp.ser33(keygen.secp.mul(int.from_bytes(k, "big"))) for k in ks]
    d = {
        "pub": [Cmd("key_pub", k) for k in ks] + [Cmd("pub_dec", q) for q in pub] +
               [Cmd("keyid", k, 1) for k in ks[2:]],
        "sign": [Cmd("sign", k, x) for k in ks for x in h],
        "derive": [Cmd("key_derive", k, x, (j << 31 | 5).to_bytes(4, "big")) for k in ks[1:3] for x in h[:1] for j in (0, 1)] +
                  [Cmd("pub_derive", q, h[0], b"\0\0\0\7") for q in pub[:2]],
        "conv": [Cmd("to_b58c", rb(rng, 40), b"\x05"), Cmd("wif_enc", ks[2], 1, 0), Cmd("sha256", rb(rng, 70))],
    }
    return d


@prop("C30")
def c30(rng, tier):
    T = tier == "thorough"
    p = Plan()
    p.runs = [("dbg", None), ("rel", None), ("asan", "a")]
    p.timeout = 300
    p.models = [("MC_Lifecycle", "MC_Lifecycle.cfg", {"MAXCALLS": "7" if T else "5"}, 4)]
    kinds = curve_kinds(rng)
    seeds = [b"\0" * 32, b"\xff" * 32, b32(keygen.N), b32(1), b"\x55" * 32]

    def init():
        k = rng.randrange(8)
        if k < 4:
            s = rng.choice(seeds)
            j = rng.randrange(33)
            env = ",".join("d" + x.hex() for x in (s[:j], s[j:]) if x)
        else:
            env = None
        return Cmd("key_init", env=env, stateful=True, judge="d", thread=rng.random() < .2)

    def uninit():
        return Cmd("key_uninit", stateful=True, thread=rng.random() < .2)

    def elsewhere(l):                             # some of these calls in other threads
        out = []
        for c in l:
            if rng.random() < .25:
                c = copy.copy(c)
                c.thread = True
            out.append(c)
        return out

    def heap():
        return Cmd("heap", raw="HEAP @ID", stateful=True)

    def failing_init():
        return Cmd("key_init", env=rng.choice(["O2", "z", "f5", "n7,z", "d" + "ab" * 31 + ",f5"]), fork=True,
                   stateful=True)

    keygen.wallet(p, rng, tier, "all", 0, 0)

    def from_cases(plan, cases):
        every = [c for l in kinds.values() for c in l] + [
            c for c in keygen.programs(rng, cases, 40 if T else 12) if c.only is None]
        cases = [c for c in cases if "calls" in c]
        rng.shuffle(cases)
        n = 8
        shards = []
        for i in range(n):
            h = []
            for _ in range(2):                    # warm up, then take the baseline
                h += [init()] + elsewhere(every) + [uninit()]
            h.append(heap())
            for c in cases[i::n]:
                for k in c["calls"][:-1] if c["dead"] else c["calls"]:
                    h.append(init() if k == "init" else uninit() if k == "uninit" else elsewhere([rng.choice(kinds[k])])[0])
                if c["dead"]:
                    h.append(failing_init())
                h.append(heap())
            for _ in range(60 if T else 15):      # longer lives
                h.append(init())
                for _ in range(rng.randrange(12)):
                    h += elsewhere([rng.choice(every)])
                h += [uninit(), heap()]
            for m in ((300, 70000) if T and i < 2 else (300,) if i < 2 else ()):       # very many lives
                h += [Cmd("cycles", m, stateful=True, judge="d"), heap(), init()] + elsewhere(every) + [uninit(), heap()]
            shards.append([h])
        plan.shards = shards

    p.from_cases = from_cases
    return p


# --------------------------------------------------------------------- C31
def flip(b):
    return bytes(x ^ 0xff for x in b)


@prop("C31")
def c31(rng, tier):
    T = tier == "thorough"
    p = Plan()
    p.runs = [("dbg", "c"), ("rel", "c")]
    twins = []                                   # (first, second, kind)
    for n in list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 10000, 65535, 65536, 65537] + \
            [rng.randrange(1, 3000) for _ in range(60 if T else 15)]:
        for off, tail in ((0, 0), (rng.randrange(1, 20), rng.randrange(1, 20))):
            x = mix(rng, off + n + tail)
            y = x[:off] + flip(x[off:off + n]) + x[off + n:]
            twins.append((Cmd("cleanse", x, off, n, stateful=True), Cmd("cleanse", y, off, n, stateful=True), "cleanse2"))

    def add(a, b):
        for c in (a, b):
            c.heap = c.stateful = True
        twins.append((a, b, "release"))

    lens = [0, 1, 20, 21, 32, 33, 50, 74, 78, 80, 92, 93, 94, 95, 100, 123, 124, 125, 126, 127, 128, 129, 130, 150, 200, 300, 450, 1000, 2100]
    B58 = codecgen.B58 if hasattr(codecgen, "B58") else b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
    reps = 4 if T else 1
    for n in lens * reps:
        # the first byte and the leading zeros are equal, so that lengths are
        z = rng.choice([0, 0, 1, min(3, n)])

        def data(n=n, z=z):
            return (b"\0" * min(z, n) + b"\x80" + rb(rng, n))[:n]

        def same_len(make, tries=200):
            a = data()
            ta = make(a)
            for _ in range(tries):
                b = data()
                tb = make(b)
                if len(tb) == len(ta) and b != a:
                    return a, b, ta, tb
            return a, a, ta, ta
        a, b, ta, tb = same_len(codecgen.b58)
        add(Cmd("to_b58", a), Cmd("to_b58", b))
        add(Cmd("from_b58", ta), Cmd("from_b58", tb))
        for bad in (0, len(ta) // 2, len(ta) - 1):          # an invalid character
            if 0 <= bad < len(ta):
                add(Cmd("from_b58", ta[:bad] + b"0" + ta[bad + 1:]), Cmd("from_b58", tb[:bad] + b"0" + tb[bad + 1:]))
        for w in (b"  ", b" \t0", b"\n1"):                   # something after the white space at the end
            k = rng.randrange(len(ta) + 1)
            add(Cmd("from_b58", ta[:k] + w + ta[k:]), Cmd("from_b58", tb[:k] + w + tb[k:]))
            add(Cmd("from_b58", b" " + ta + w), Cmd("from_b58", b" " + tb + w))
        for pl in (0, 1, 4, 40):
            pre = rb(rng, pl)
            a, b, ta, tb = same_len(lambda x: b58c(pre + x))
            add(Cmd("to_b58c", a, pre), Cmd("to_b58c", b, pre))
            add(Cmd("from_b58c", ta), Cmd("from_b58c", tb))
            if len(ta) > 8:                                 # checksum failures, bad characters
                def spoil(t):
                    last = b"2" if t[-1:] != b"2" else b"3"
                    return t[:-1] + last
                add(Cmd("from_b58c", spoil(ta)), Cmd("from_b58c", spoil(tb)))
                k = rng.randrange(len(ta))
                add(Cmd("from_b58c", ta[:k] + b"l" + ta[k + 1:]), Cmd("from_b58c", tb[:k] + b"l" + tb[k + 1:]))
    def mid(t):
        return t[:len(t) // 2] + b"0" + t[len(t) // 2 + 1:]
    for net in (0, 1, 3, 3, 3) * reps:
        cu = custom(rng)
        if net == 3 and rng.random() < .7:
            cu["extsec"] = rb(rng, rng.choice([8, 60, 110, 128, 200]))
            cu["extpub"] = rb(rng, rng.choice([8, 60, 110, 128, 200]))
            cu["secret"] = rb(rng, rng.choice([1, 4, 100, 130]))
        tail, N = netargs(net if net < 3 else cu)
        def twin_texts(make, tries=100):
            a = make()
            for _ in range(tries):
                b = make()
                if b[0] != a[0] and len(b[1]) == len(a[1]):
                    return a, b
            return a, a
        for comp in (0, 1):
            def mk():
                k = b"\x41" + rb(rng, 31)
                return k, b58c(N["secret"] + k + (b"\1" if comp else b""))
            (k1, t1), (k2, t2) = twin_texts(mk)
            add(Cmd("wif_enc", k1, comp, *tail), Cmd("wif_enc", k2, comp, *tail))
            add(Cmd("wif_dec", t1, *tail), Cmd("wif_dec", t2, *tail))
            add(Cmd("wif_dec", mid(t1), *tail), Cmd("wif_dec", mid(t2), *tail))
            # the right shape on another network, and of another size
            def mk2():
                k = b"\x41" + rb(rng, 31)
                return k, b58c(flip(N["secret"]) + k + (b"\1" if comp else b""))
            (k1, t1), (k2, t2) = twin_texts(mk2)
            add(Cmd("wif_dec", t1, *tail), Cmd("wif_dec", t2, *tail))
            def mk3():
                k = b"\x41" + rb(rng, 39)
                return k, b58c(N["secret"] + k)
            (k1, t1), (k2, t2) = twin_texts(mk3)
            add(Cmd("wif_dec", t1, *tail), Cmd("wif_dec", t2, *tail))
        for op, f, kl in (("xk", "extsec", 32), ("xp", "extpub", 33)):
            def mk():
                m, k = rb(rng, 41), bytes([2 + rng.randrange(2)] if kl == 33 else []) + b"\x41" + rb(rng, 31)
                return m + k, b58c(N[f] + m + (b"\0" if kl == 32 else b"") + k)
            (x1, t1), (x2, t2) = twin_texts(mk)
            add(Cmd(op + "_str", x1, *tail), Cmd(op + "_str", x2, *tail))
            add(Cmd(op + "_unstr", t1, *tail), Cmd(op + "_unstr", t2, *tail))
            add(Cmd(op + "_unstr", mid(t1), *tail), Cmd(op + "_unstr", mid(t2), *tail))
            def mk2():
                m = rb(rng, 74)
                return m, b58c(flip(N[f]) + m)
            (x1, t1), (x2, t2) = twin_texts(mk2)
            add(Cmd(op + "_unstr", t1, *tail), Cmd(op + "_unstr", t2, *tail))
    # addresses are public, their conversion shares the scratch
    kind = {id(b): k for _, b, k in twins}

    def transform(h, evs, resps):
        out = []
        for i, e in enumerate(evs):
            k = kind.get(id(h.cmds[i]))
            if k and e["oc"] == "ok" and i > 0:
                a = evs[i - 1]
                if k == "cleanse2":
                    e = dict(e, op="cleanse2", a=a["a"] + e["a"], o=a["o"] + e["o"])
                elif len(evs[i - 1]["o"][0] if a["o"] else []) == len(e["o"][0] if e["o"] else []) and a["r"] == e["r"]:
                    e = dict(e, op="release", f=[resps[i - 1]["f"], resps[i]["f"]])
            out.append(e)
        return out
    p.transform = transform
    p.shards = [[[c for t in twins[i::8] for c in t[:2]]] for i in range(8)]
    for n in (1 << 31, (1 << 32) + 10, (1 << 32) + rng.randrange(100)) + ((1 << 32, (1 << 33) + 5) if T else ()):
        p.shards[0].append([Cmd("vast_cleanse", codecgen.u64(n), only=("rel",))])
    return p


# --------------------------------------------------------------------- C32
@prop("C32")
def c32(rng, tier):
    T = tier == "thorough"
    p = Plan()
    p.runs = [("dbg", None), ("rel", None)]
    PR = bytes(range(32, 127))

    def text(n, extra=b""):
        return bytes(rng.choice(PR + extra) for _ in range(n))
    s8 = lambda v: (v & (2 ** 64 - 1)).to_bytes(8, "big")
    lines = [0, 1, 7, 99, 32767, 32768, 65536, 70000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 9, 10 ** 18,
             2 ** 63 - 1, -1, -2 ** 31, -2 ** 63]
    nums = lines + [42, 10, 100, 999999999]
    sizes = [0, 1, 2, 20, 60, 79, 80, 127, 128, 255, 256, 300, 511, 512, 1000, 1023, 1024, 2047, 4095, 4096, 5000]

    def fatal(kind, err, sink=0, line=None):
        n = rng.choice(sizes)
        t = text(n, b"%%%%\n" if kind != 2 and rng.random() < .3 else b"")
        if kind == 2:
            t = t.replace(b"%", b"#")
        name = lambda: text(rng.choice([1, 12, 12, 60, rng.choice(sizes)]))
        p.cmds.append(Cmd("fatal", name(), name(), s8(rng.choice(lines) if line is None else line), kind, t,
                          s8(rng.choice(nums)), s8(err), sink, fork=True, judge=("S",)))
    for err in list(range(134)) + [134, 255, 256, 512, 1000, 4095, 65535, 65536, 2 ** 31 - 1,
                                   -1, -2, -5, -133, -4095, -2 ** 31]:
        fatal(rng.randrange(5), err)
    for line in lines:
        for err in (0, 2):
            fatal(rng.randrange(5), err, 0, line)
    for kind in range(5):
        for err in (0, 0, 2, 5, 13, 24):
            for _ in range(30 if T else 6):
                fatal(kind, err)
            for sink in (1, 2, 3):
                fatal(kind, err, sink)
    return p


# --------------------------------------------------------------------- C28
VAST = ("huge", "vast", "vast_enc", "vast_dump", "vast_rand", "vast_cleanse", "vast_endian")


def all_commands(rng, tier, skip=()):
    """the commands of every other check, by operation"""
    byop = {}
    for m in (codecgen, hashgen, keygen):
        for pid in sorted(m.CHECKS):
            plan = m.CHECKS[pid](random.Random("%s/%s" % (pid, rng.random())), "quick")
            for c in plan.cmds:
                if c.op not in skip and not c.fork:
                    byop.setdefault(c.op, []).append(c)
    return byop


@prop("C28")
def c28(rng, tier):
    T = tier == "thorough"
    p = keygen.init_plan([("asan", "a"), ("asanrel", "a"), ("dbg", "e"), ("dbg", "l"), ("rel", "e"), ("rel", None)])
    p.module = "Footprint"
    heavy = {"sign", "verify", "key_pub", "key_derive", "pub_derive", "xk_derive", "xp_derive", "xk_pub", "pub_dec",
             "pub_enc", "keyid", "pub_keyid", "key_fpr", "key_enc", "key_dec"}
    for op, l in sorted(all_commands(rng, tier, skip=VAST).items()):
        k = (500 if op not in heavy else 120) * (6 if T else 1)
        small = l if len(l) <= k else rng.sample(l, k)
        for c in small:
            only = tuple(c.only) + ("asanrel",) if c.only else None
            p.cmds.append(Cmd(c.op, *c.args, env=c.env, tweak=c.tweak, heap=True, only=only, judge="mxdl"))
    for n in [0, 1, 31, 32, 33, 255, 256, 257, 4096]:
        p.cmds.append(Cmd("os_rand", n, heap=True, judge="mxdl"))
    for _ in range(5):
        p.cmds.append(Cmd("key_new", heap=True, judge="mxdl", env="d" + "00" * 32))
    rng.shuffle(p.cmds)
    for c in p.pre + p.post:
        c.judge = tuple("mxd")

    def transform(h, evs, resps):
        out = []
        for e, r in zip(evs, resps):
            out.append({"op": e["op"], "oc": e["oc"], "m": r.get("m", 1), "x": r["x"], "d": r.get("d", 1), "l": r.get("l", 1)})
        return out
    p.transform = transform
    return p


# --------------------------------------------------------------------- C29
def changed(rng, c, others):
    """calls that differ from c in one place"""
    out = []
    for i, a in enumerate(c.args):
        def put(v):
            out.append(c.args[:i] + [v] + c.args[i + 1:])
        if isinstance(a, bytes) and a:
            for k in {0, len(a) - 1, len(a) // 2, rng.randrange(len(a)), min(len(a) - 1, 32)}:
                put(a[:k] + bytes([a[k] ^ 1]) + a[k + 1:])
        for d in others:
            if len(d.args) == len(c.args) and d.args[i] != a and isinstance(d.args[i], bytes) == isinstance(a, bytes) \
                    and (not isinstance(a, bytes) or len(a) == len(d.args[i])):
                put(d.args[i])
                break
    return out


def alike(rng, a):
    """byte strings that a weak summary of a (a sum, a parity, a polynomial, a CRC) does not tell from it"""
    n, out = len(a), []

    def add(*ds):                                 # bytes at (place, difference), modulo 256
        b = bytearray(a)
        for i, d in ds:
            b[i] = (b[i] + d) & 255
        if all(0 <= a[i] + d < 256 for i, d in ds):
            out.append(bytes(b))

    def xor(at, m):
        out.append(bytes(x ^ (m[i - at] if 0 <= i - at < len(m) else 0) for i, x in enumerate(a)))
    for d in (1, 2, 4, 8):                        # the same in another place
        if n > d:
            i = rng.randrange(n - d)
            b = bytearray(a)
            b[i], b[i + d] = b[i + d], b[i]
            out.append(bytes(b))
            xor(i, bytes([64] + [0] * (d - 1) + [64]))
    if n > 1:
        i = rng.randrange(n - 1)
        for q in (1, 3, 5, 7, 13, 17, 31, 33, 37, 65, 101, 131, 251):
            for i in rng.sample(range(n - 1), min(n - 1, 12)):
                k = len(out)
                add((i, 1), (i + 1, -q))
                add((i, -1), (i + 1, q)) if len(out) == k else None
                if len(out) > k:
                    break
    if n >= 5:                                    # multiples of the CRC-32 polynomials, both bit orders
        for poly in (0x104C11DB7, 0x11EDC6F41):
            bits = [poly >> (32 - i) & 1 for i in range(33)]
            i = rng.randrange(n - 4)
            xor(i, bytes(sum(b << j for j, b in enumerate((bits + [0] * 7)[k:k + 8])) for k in range(0, 40, 8)))
            xor(i, bytes(sum(b << 7 - j for j, b in enumerate((bits + [0] * 7)[k:k + 8])) for k in range(0, 40, 8)))
    return [b for b in out if b != a]


RANDOM_OPS = VAST + ("key_new", "os_rand", "key_init", "key_uninit", "hex_dump", "fatal")


# operations on data of any length
BIG = ("to_hex", "from_hex", "to_b64", "from_b64", "to_b64u", "from_b64u", "to_b32", "from_b32", "to_b32raw",
       "from_b32raw", "to_b58", "from_b58", "to_b58c", "sha1", "sha256", "sha512", "rmd160", "hash160", "hash256",
       "hmac256", "hmac512", "d64")
SLOW = ("sig_enc", "sig_dec", "xk_init", "d64n", "cleanse", "to_b58", "from_b58")


@prop("C29")
def c29(rng, tier):
    T = tier == "thorough"
    p = Plan()
    p.module = "Memo"
    p.runs = [("sched", "c")]
    p.models = [("MC_Sched", "MC_Sched.cfg", {"STEPS": "24" if T else "16"}, 4),
                ("MC_Sched", "MC_SchedBad.cfg", {"STEPS": "4"}, 1)]
    per = 6 if T else 3
    byop = all_commands(rng, tier, skip=RANDOM_OPS)
    byop["wallet"] = [Cmd("wallet", bytes(rng.randrange(256) for _ in range(n)), bytes(i)) for n, i in (
        (16, [1, 1, 0, 0, 0, 0, 0, 9, 2, 2, 0, 0, 0, 0, 0, 0, 4, 2, 1, 0, 0, 0, 0, 0, 10, 3, 0, 1, 0, 0, 0, 0]),
        (32, [7, 1, 0, 0, 1, 2, 3, 4, 8, 1, 2, 0, 1, 2, 3, 4]),
        (64, [2, 1, 0, 0, 0, 0, 0, 0, 1, 2, 0, 0, 0, 0, 0, 1, 9, 3, 2, 3, 0, 0, 0, 0]),
        (24, [1, 1, 0, 0, 128, 0, 0, 0, 5, 2, 0, 1, 0, 0, 0, 0, 6, 3, 0, 0, 0, 0, 0, 0]))]
    calls = []                                    # one Cmd per distinct call
    for op, l in sorted(byop.items()):
        l = [c for c in l if not c.only and not c.tweak and sum(len(a) for a in c.args if isinstance(a, bytes)) < 700]
        pick = rng.sample(l, min(len(l), per * 3))
        pick.sort(key=lambda c: -sum(len(a) for a in c.args if isinstance(a, bytes)))
        pick = (pick[:per - 1] + pick[-1:]) if len(pick) > per else pick   # long and short ones
        for c in pick:
            calls.append(Cmd(c.op, *c.args, ident=len(calls), stateful=True, fill=0))
    sib = {}
    for c in calls:
        sib.setdefault(c.op, []).append(c)
    families = []                                 # a call and calls that differ from it in one place
    count = len(calls)

    def numbered(op, args):
        nonlocal count
        count += 1
        return Cmd(op, *args, ident=count - 1, stateful=True, fill=0)
    for op, l in sorted(sib.items()):
        bases = [numbered(op, c.args) for c in rng.sample(l, min(len(l), per))]
        if op in ("sha1", "sha256", "sha512", "rmd160", "hash160", "hash256"):
            bases += [numbered(op, [bytes(rng.randrange(256) for _ in range(n))]) for n in (20, 32, 33, 64, 65, 74, 128)]
        for b in bases:
            families.append((b, [numbered(op, a) for a in changed(rng, b, byop[op])]))
        for b in bases[:2 if op in fx.CURVE else None]:
            for i, a in enumerate(b.args):
                if isinstance(a, bytes) and a:
                    families.append((b, [numbered(op, b.args[:i] + [v] + b.args[i + 1:]) for v in alike(rng, a)]))
    bigs = []                                     # two calls with large arguments
    for op in BIG:
        c = max((c for c in byop[op] if not c.only and not c.tweak), key=lambda c: sum(
            len(a) for a in c.args if isinstance(a, bytes) and (len(a) < 6000 or "b58" not in op)))
        j = max(range(len(c.args)), key=lambda j: len(c.args[j]) if isinstance(c.args[j], bytes) else -1)
        whole = c.args[j]
        for n in (1000, 2560, 5120, 70000):
            a = whole[:n - n % 40 if n < len(whole) else len(whole)]
            if n == 1000 or len(a) > 1000:
                if n != 70000 and op in ("to_b58", "from_b58"):
                    a = a[:1200]
                b = a[8:] + a[:8] if len(a) % 8 == 0 and a[8:] + a[:8] != a else a
                if "from" not in op and op != "b32d":
                    a, b = bytes(rng.randrange(256) for _ in a), bytes(rng.randrange(256) for _ in a)
                bigs.append([numbered(op, c.args[:j] + [x] + c.args[j + 1:]) for x in (a, b)])
    sweeps = []                                   # many different calls of a kind, then all of them again
    for op, l in sorted(byop.items()):
        l = [c for c in l if not c.only and not c.tweak and sum(len(a) for a in c.args if isinstance(a, bytes)) < 400]
        n = (60 if op in fx.CURVE else 150) * (3 if T else 1)
        sweeps.append([numbered(op, c.args) for c in rng.sample(l, min(len(l), n))])
    cuts = []

    def init():
        return Cmd("key_init", stateful=True)

    def short(v):                                 # results are only compared
        t = repr(v)
        return v if len(t) < 4000 else hashlib.sha256(t.encode()).hexdigest()

    def slim(h, evs, resps):                      # the identity stands for the arguments
        out = []
        for e in evs:
            e = {k: v for k, v in e.items() if k not in ("a", "n", "env")}
            if "p" in e:
                e["p"] = [{k: short(x[k]) for k in ("r", "o", "c")} for x in e["p"]]
            elif "o" in e:
                e["o"] = short(e["o"])
            out.append(e)
        return out
    p.transform = slim

    def pair(a, b, k):
        la, lb = a.line("-", "c", 0).split(" ", 1)[1], b.line("-", "c", 0).split(" ", 1)[1]
        return Cmd("pair", raw="P @ID %d %s | %s" % (k, la, lb), twin=(a, b), stateful=True)

    def repeat(c, n):
        return Cmd("pair", raw="N @ID %d %s" % (n, c.line("-", "c", 0).split(" ", 1)[1]), twin=(c, c), stateful=True)

    def from_cases(plan, cases):
        cuts.extend(c["cut"] for c in cases)

    def prepare(plan, work):
        # how many steps each call takes, running alone
        exe = work.built["sched"]
        lines = ["SEED 1", init().line(0, "c", 0)]
        lines += [pair(c, c, -1).line(i, "c", 0) for i, c in enumerate(calls)]
        got, ended, rc, err = run_driver(exe, lines, 120)
        if len(got) != len(calls) + 1:
            # a call that fails even alone: the histories below will show it
            steps = [100] * len(calls)
        else:
            steps = [parse_response(g.split(" ")[2:]).get("blocks", 1) or 1 for g in got[1:]]
        S = len(cuts) + 1
        for _, vs in families:                     # without those the library refuses to be called with
            while True:
                lines = ["SEED 1", init().line(0, "c", 0)] + [v.line(i, "c", 0) for i, v in enumerate(vs)]
                got, ended, rc, err = run_driver(exe, lines, 60)
                ok = [g.split(" ")[2] == "ok" and "BADARG" not in g for g in got]
                if len(ok) == len(vs) + 1 and all(ok):
                    break
                bad = ok.index(False) - 1 if False in ok else len(ok) - 1
                if bad < 0:
                    break
                del vs[bad]

        def at(i, cut):
            return max(0, min(steps[i] - 1, steps[i] * cut // S + rng.randrange(-1, 2)))
        steps2 = {}
        for ab in bigs:
            lines = ["SEED 1", init().line(0, "c", 0)] + [pair(c, c, -1).line(i, "c", 0) for i, c in enumerate(ab)]
            got = run_driver(exe, lines, 60)[0]
            for c, g in zip(ab, got[1:]):
                steps2[c.ident] = parse_response(g.split(" ")[2:]).get("blocks", 1) or 1
        shards = []
        for s in range(8):
            hs = [[init(), c] for c in calls]                   # each call in a process of its own
            mine = calls[s::8]
            for _ in range(6 if T else 2):                      # one long process, any order
                h = [init()]
                for _ in range(3):
                    o = list(calls)
                    rng.shuffle(o)
                    h += o
                    if rng.random() < .7:
                        h += [Cmd("key_uninit", stateful=True), init()]
                hs.append(h)
            for c in mine:                                      # neighbours: repeat, then others of the kind
                h = [init()]
                for d in sib[c.op]:
                    h += [d, c, c, d]
                hs.append(h)
            for a in mine:                                      # cold schedules: nothing was called before
                for cut in rng.sample(cuts, min(len(cuts), 8 if T else 4)) + [0]:
                    b = rng.choice(sib[a.op])
                    k = at(a.ident, cut) if cut else rng.randrange(min(4, steps[a.ident]))
                    hs.append([init(), pair(a, b, k), a, b])
            for b, vs in families[s::8]:                        # a call and its variations, both ways round
                hs.append([init()] + [c for v in vs for c in (b, v)] + [b])
                hs.append([init()] + vs[::-1] + [b])
            for a, b in bigs[s::8]:
                hs += [[init(), a], [init(), b], [init(), a, b, b, a]]
                for x, y in ((a, b), (b, a)):
                    n = steps2.get(x.ident, 100)
                    hs.append([init()] + [pair(x, y, k) for k in (2, n // 3, n // 2, n - n // 8, max(0, n - 9))])
            for l in sweeps[s::8]:
                hs.append([init()] + l + l + l[::-1])
            h = [init()]                                        # one call very often
            for l in list(sib.values())[s::8]:
                c = min(l, key=lambda c: sum(len(a) for a in c.args if isinstance(a, bytes)))
                h += [repeat(c, (10000 if T else 600) if c.op in fx.CURVE or c.op in SLOW else 70000), c]
            hs.append(h)
            h = [init()]
            for a in mine:                                      # warm schedules
                for b in calls:
                    for cut in (cuts if b.op == a.op else rng.sample(cuts, min(len(cuts), 6 if T else 2))):
                        h.append(pair(a, b, at(a.ident, cut)))
            hs.append(h)
            shards.append(hs)
        plan.shards = shards
    p.from_cases, p.prepare = from_cases, prepare
    return p
