"""The checks: which behaviours of the specification and of the code are explored."""
import functools
import codecgen, hashgen, keygen, sysgen

CHECKS = {}
for m in (codecgen, hashgen, keygen, sysgen):
    CHECKS.update(m.CHECKS)

# properties with published vectors (MC_Standards!OpsOf)
STANDARDS = "C01 C02 C03 C04 C06 C07 C08 C11 C12 C13 C17 C19 C20 C21 C23 C24 C25 C26 C27".split()

# definitions evaluated on small curves: property -> parts of MC_Toy
TOY = {"C19": ["group", "parse"], "C20": ["sign"], "C21": ["verify"], "C23": ["bip32"], "C24": ["bip32", "group"], "C25": ["bip32"]}
CURVES = [(43, 31, 2), (79, 67, 1), (67, 79, 2)]      # field, order, x of the generator


def toy(part, tier):
    T = tier == "thorough"
    cfg = "MC_ToyEcdsa.cfg" if part in ("verify", "sign") else "MC_Toy.cfg"
    step = {"verify": (13, 4), "sign": (7, 1)}.get(part, (1, 1))
    for p, n, gx in CURVES if T else CURVES[:1]:
        k = step[T]
        if part == "verify" and n > 31:
            k = 25
        yield "MC_Toy", cfg, {"P": str(p), "N": str(n), "GX": str(gx), "PART": part, "STEP": str(k)}, 4


def anchored(maker, pid):
    @functools.wraps(maker)
    def f(rng, tier):
        p = maker(rng, tier)
        p.models.append(("MC_Standards", "MC_Standards.cfg", {"PROP": pid}, 1))
        for part in TOY.get(pid, []):
            p.models += toy(part, tier)
        return p
    return f


for pid in STANDARDS:
    CHECKS[pid] = anchored(CHECKS[pid], pid)
