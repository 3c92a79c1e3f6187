"""Inputs of the hash properties (C11-C14)."""
from check import Plan
from fx import Cmd
from codecgen import rb, mix, u64, large, words

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def msgs(rng, k, blk):
    """messages of every length over two padding boundaries, and longer ones"""
    for n in range(0, 2 * blk + 20):
        yield mix(rng, n) if rng.random() < .3 else rb(rng, n)
    for n in (1024, 4096 + rng.randrange(-70, 70)):
        yield rb(rng, n)
    for _ in range(12 * k):
        n = blk * rng.randrange(2, 9) + rng.choice([-9, -8, -1, 0, 1, blk - 9, blk - 8, blk // 2])
        yield rb(rng, n)


def huge(rng, which, tier, ks=None):
    """2^k zero bytes and a tail"""
    out = []
    if tier == "thorough" or not ks:
        ks = range(14, 34) if tier == "thorough" else [16, rng.randrange(17, 24), rng.randrange(24, 29), 29, 31, 32]
    for w in which:
        for k in ks:
            tails = [rng.randrange(1, 130)]
            if tier == "thorough" and k in (16, 24, 29) or k == 16:
                tails += [0, 55, 56, 64, 111, 112, 119, 120, 127, 128]
            for t in tails:
                out.append(Cmd("huge", w, u64(1 << k), rb(rng, t), only=("rel",) if k > 20 else None))
    return out


@prop("C11")
def c11(rng, tier):
    p = Plan()
    words(p, tier, ("sha1", "rmd160"), ("stream", 140, 300), ("mid", 10, 13), module="MC_Hash")
    k = 5 if tier == "thorough" else 1
    for m in list(msgs(rng, k, 64)) * 1:
        p.cmds.append(Cmd("sha1", m))
        p.cmds.append(Cmd("rmd160", m))
    if k > 1:
        for m in msgs(rng, k, 64):
            p.cmds.append(Cmd("sha1", m))
            p.cmds.append(Cmd("rmd160", m))
    p.cmds += huge(rng, (0, 1), tier)
    p.timeout = 600
    return p


@prop("C12")
def c12(rng, tier):
    p = Plan()
    words(p, tier, ("sha256", "sha512"), ("stream", 140, 300), ("mid", 10, 13), module="MC_Hash")
    k = 5 if tier == "thorough" else 1
    for m in msgs(rng, k, 64):
        p.cmds.append(Cmd("sha256", m))
    for m in msgs(rng, k, 128):
        p.cmds.append(Cmd("sha512", m))
    p.cmds += huge(rng, (2, 3), tier)
    p.timeout = 600
    return p


@prop("C13")
def c13(rng, tier):
    p = Plan()
    words(p, tier, ("hmac256", "hmac512"), ("hmac", 140, 270), module="MC_Hash")
    for n in large(rng, tier == "thorough")[:2]:
        for op in ("hmac256", "hmac512"):
            p.cmds += [Cmd(op, rb(rng, n), b"abc", judge="m"), Cmd(op, b"key", rb(rng, n), judge="m")]
    k = 5 if tier == "thorough" else 1
    for op, blk in (("hmac256", 64), ("hmac512", 128)):
        ks = sorted(set([0, 1, 20, 31, 32, 33, blk - 1, blk, blk + 1, blk + 2, 2 * blk, 2 * blk + 1,
                         3 * blk] + [rng.randrange(0, 3 * blk) for _ in range(12 * k)]))
        for kn in ks:
            for mn in [0, 1, rng.randrange(0, blk), rng.randrange(blk, 3 * blk), blk - 9, blk]:
                key = mix(rng, kn)
                p.cmds.append(Cmd(op, key, mix(rng, mn), judge="m"))
        for kn in (blk - 1, blk, blk + 1):      # trailing zeros, equal buffers
            key = rb(rng, kn - 1) + b"\0"
            p.cmds.append(Cmd(op, key, key, judge="m"))
            p.cmds.append(Cmd(op, key[:-1], b"", judge="m"))
    p.cmds += huge(rng, (8, 9), tier, (16, rng.randrange(24, 29), 31, 32))
    p.cmds += huge(rng, (6, 7), tier, (16, rng.randrange(17, 24), rng.randrange(24, 29), 32))
    p.timeout = 600
    return p


@prop("C14")
def c14(rng, tier):
    p = Plan()
    k = 5 if tier == "thorough" else 1
    for n in list(range(0, 70, 1 if k > 1 else 2)) + [33, 65, 119, 120, 127, 128] + \
            [rng.randrange(70, 400) for _ in range(10 * k)]:
        m = mix(rng, n)
        p.cmds.append(Cmd("hash160", m))
        p.cmds.append(Cmd("hash256", m))
    for n in list(range(0, 9)) + [11, 15, 16, 17] + ([33, 64, 100] if k > 1 else []):
        p.cmds.append(Cmd("d64", rb(rng, 64 * n)))
        if n > 1:
            x = rb(rng, 64)
            p.cmds.append(Cmd("d64", x * n))
    for n in large(rng, k > 1):
        p.cmds += [Cmd("hash160", rb(rng, n)), Cmd("hash256", rb(rng, n))]
    for runs in [(1, 2, 1), (127, 1, 2), (255, 2), (256, 1), (65533, 2, 3), (65537, 1)] + \
            ([(1, 65536), (131070, 3), (300000, 1), (1, 1, 1048576, 2)] if k > 1 else []):
        p.cmds.append(Cmd("d64n", rb(rng, 64 * len(runs)), *runs))
    for n in range(32 * k):                   # every number of blocks modulo 32
        n += 32 * rng.randrange(1, 9)
        m = rng.randrange(1, n)
        p.cmds.append(Cmd("d64n", rb(rng, 128), m, n - m))
    for i in [0, 1, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 0x01020304] + \
            [rng.randrange(2 ** 32) for _ in range(25 * k)]:
        p.cmds.append(Cmd("bip32h", mix(rng, 32), i.to_bytes(4, "big"),
                          rng.choice([0, 2, 3, 4, 255, rng.randrange(256)]), mix(rng, 32)))
    p.cmds += huge(rng, (4, 5), tier, (16, rng.randrange(20, 29), 32))
    p.timeout = 600
    return p
