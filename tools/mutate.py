#!/usr/bin/env python3
"""Mutants of /repo's sources that still pass its tests, and which checks see them.
  mutate.py make OUT.json [per-file [seed]]   find mutants that compile, differ in object code and pass the tests
  mutate.py run OUT.json [n]                  run checks against each until one reports it (scratch copy /tmp/mut/repo)
Needs /repo/_build (bash /opt/vp/build.sh)."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time, itertools
REPO, T = "/repo", "/tmp/mut"
FILES = {
    "src/hex.c": "C01 C34 C28 C33", "src/base64.c": "C02 C28 C33", "src/base32.c": "C03 C28 C33",
    "src/base58.c": "C04 C31 C28 C33 C05", "src/btc/base58_check.c": "C05 C31 C28 C33", "src/btc/bech32.c": "C06 C28 C33",
    "src/btc/address.c": "C07 C08 C28", "src/compress_integer.c": "C09 C10 C28", "src/hash/sha1.c": "C11 C28 C29",
    "src/hash/ripemd160.c": "C11 C28 C29", "src/hash/sha2.c": "C12 C13 C14 C28 C29", "src/btc/hash.c": "C14 C28 C12",
    "src/random.c": "C15 C16 C28", "src/btc/key.c": "C17 C18 C19 C20 C21 C22 C27 C16 C30 C31 C23 C24 C28 C29 C33",
    "src/btc/exkey.c": "C25 C26 C23 C24 C27 C31 C28 C33", "src/cleanse.c": "C31 C28", "src/error.c": "C32 C15 C28",
    "src/btc/chain_parameters.c": "C07 C08 C17 C26",
    "include/fingera_libc/endian.h": "C35 C12 C11", "include/fingera_libc/base32.h": "C33 C03", "include/fingera_libc/base58.h": "C33 C04",
    "include/fingera_libc/base64.h": "C33 C02", "include/fingera_libc/hex.h": "C33 C01", "include/fingera_libc/sl/buffer.h": "C31 C28 C04 C05",
    "include/fingera_libc/btc/base58_check.h": "C33 C05", "include/fingera_libc/btc/bech32.h": "C33 C06",
}
SWAP = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"],
        "*": ["+"], "/": ["*"], "%": ["/"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&", "^"], "^": ["|"],
        "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"], "+=": ["-=", "="], "-=": ["+="], "|=": ["=", "&="],
        "&=": ["|="], "<<=": [">>="], ">>=": ["<<="], "!": [""], "~": [""]}
TOK = re.compile(r'//.*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|[A-Za-z_]\w*|'
                 r'<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.', re.S)


def mutants(path, text):
    out = []
    pos = 0
    line_start = True
    for m in TOK.finditer(text):
        t, a, b = m.group(), m.start(), m.end()
        line = text.count("\n", 0, a) + 1
        ls = text.rfind("\n", 0, a) + 1
        whole = text[ls:text.find("\n", a)]
        if whole.lstrip().startswith(("#include", "#if", "#end", "#pragma", "*", "//", "typedef", "extern")):
            continue
        if whole.lstrip().startswith("#define") and re.search(r"_H_?\b", whole):
            continue
        if t in SWAP:
            prev = text[:a].rstrip()[-1:]
            if t in "*&-+" and (prev in "(,=<>+-*/%&|^!~?:;{}[" or re.search(r"\b(return|char|int|void|uint8_t|const|\w+_t)\s*$", text[:a])):
                continue
            for r in SWAP[t]:
                out.append((a, b, r, line))
        elif re.match(r"\d", t):
            mm = re.match(r"(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$", t)
            if mm and not (mm.group(1).startswith("0") and len(mm.group(1)) > 1 and mm.group(1)[1] not in "xX"):
                v = int(mm.group(1), 0)
                for w in {v + 1, v - 1, 0, v ^ 0x80 if v > 127 else v + 1} - {v}:
                    if w >= 0:
                        out.append((a, b, hex(w) + mm.group(2), line))
        elif re.match(r"'", t) and len(t) == 3:
            out.append((a, b, "'%s'" % chr(ord(t[1]) + 1) if chr(ord(t[1]) + 1) not in "'\\" else "'~'", line))
        elif t == "if" or t == "while":
            i = text.find("(", b)
            d, j = 0, i
            while True:
                d += {"(": 1, ")": -1}.get(text[j], 0)
                if d == 0:
                    break
                j += 1
            c = text[i + 1:j]
            out.append((i + 1, j, "!(%s)" % c, line))
            out.append((i + 1, j, "0", line))
            if t == "if":
                out.append((i + 1, j, "1", line))
        elif t == "return":
            j = text.find(";", b)
            e = text[b:j].strip()
            if e not in ("", "0"):
                out.append((b, j, " 0", line))
            if e and not e.startswith("-"):
                out.append((b, j, " (%s) + 1" % e, line))
        elif t in ("break", "continue"):
            out.append((a, b, "", line))
    # statements left out
    for m in re.finditer(r"^[ \t]+([^\n{}#/]*;)[ \t]*$", text, re.M):
        s = m.group(1)
        if re.match(r"(return|break|continue|const|static|typedef|struct|goto)\b", s) or not re.search(r"[=(]", s):
            continue
        if re.match(r"(unsigned |signed )?\w+( \*|\* ?| )\w+(\[.*\])?( =|;)", s) and " = " not in s:
            continue
        prev = text[:m.start(1)].rstrip()[-1:]
        if prev not in ";{}:":
            continue
        out.append((m.start(1), m.end(1), ";", text.count("\n", 0, m.start(1)) + 1))
    return sorted(set(out))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


OBJ = REPO + "/_build/repo/CMakeFiles/fingera_libc.dir/"
CFL = "-g -std=gnu99 "


def objects(inc, d, files):
    for f in files:
        r = sh("gcc -I%s/include %s -c -o %s/%s.o %s" % (inc, CFL, d, f.replace("/", "_"), os.path.join(inc, f)))
        if r.returncode:
            return False
    return True


def text_of(inc, f, d, std="-O2 -std=gnu99"):
    o = os.path.join(d, "t.o")
    r = sh("gcc -I%s/include %s -w -c -o %s %s" % (inc, std, o, os.path.join(inc, f)))
    if r.returncode:
        return None
    return sh("objcopy -g --strip-unneeded %s %s.2 && objdump -dsr --no-show-raw-insn %s.2 | tail -n +4" % (o, o, o)).stdout


def sources():
    return sorted(os.path.relpath(os.path.join(a, f), REPO) for a, _, fs in os.walk(REPO + "/src") for f in fs if f.endswith(".c"))


def one(job):
    path, a, b, r, line = job
    d = tempfile.mkdtemp(dir=T)
    try:
        inc = os.path.join(d, "r")
        os.mkdir(inc)
        shutil.copytree(REPO + "/include", inc + "/include")
        shutil.copytree(REPO + "/src", inc + "/src")
        p = os.path.join(inc, path)
        s = open(p).read()
        open(p, "w").write(s[:a] + r + s[b:])
        header = path.endswith(".h")
        srcs = sources() if header else [path]
        if not header:
            t = text_of(inc, path, d)
            if t is None or t == text_of(REPO, path, d):
                return "same"
        if not objects(inc, d, srcs):
            return "bad"
        tests = " ".join(REPO + "/_build/repo/tests/CMakeFiles/test_fingera.dir/%s" % f
                         for f in os.listdir(REPO + "/_build/repo/tests/CMakeFiles/test_fingera.dir") if f.endswith(".o"))
        if header:
            os.makedirs(d + "/tt")
            src = [f for f in os.listdir(REPO + "/tests") if f.endswith(".cpp")]
            for f in src:
                if sh("g++ -I%s/include -isystem /usr/src/googletest/googletest/include -g -std=gnu++14 -c -o %s/tt/%s.o %s/tests/%s" % (inc, d, f, REPO, f)).returncode:
                    return "bad"
            tests = d + "/tt/*.o"
        rest = " ".join(OBJ + f + ".o" for f in sources() if f not in srcs)
        x = d + "/x"
        if sh("g++ -o %s %s %s/*.c.o %s %s/_build/lib/libgtest.a %s/_build/lib/libgtest_main.a -lsecp256k1 -lpthread" %
              (x, tests, d, rest, REPO, REPO)).returncode:
            return "nolink"
        try:
            q = sh(x + " > /dev/null 2>&1", timeout=60, cwd=d)
        except subprocess.TimeoutExpired:
            return "killed"
        return "killed" if q.returncode else "survivor"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    os.makedirs(T, exist_ok=True)
    if sys.argv[1] == "make":
        per = int(sys.argv[3]) if len(sys.argv) > 3 else 100
        rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
        only = sys.argv[5:] 
        jobs = []
        for f in FILES:
            if only and f not in only:
                continue
            ms = mutants(f, open(os.path.join(REPO, f)).read())
            src = open(os.path.join(REPO, f)).read()
            # entries of tables are many and alike
            ms = [m for m in ms if src[src.rfind("\n", 0, m[0]) + 1:src.find("\n", m[0])].count(",") < 8 or rng.random() < .03]
            ms = rng.sample(ms, min(len(ms), per))
            jobs += [(f,) + m for m in ms]
        res = {}
        with cf.ThreadPoolExecutor(6) as ex:
            for j, r in zip(jobs, ex.map(one, jobs)):
                res.setdefault(r, []).append(j)
        print({k: len(v) for k, v in res.items()})
        out = []
        for f, a, b, r, line in res.get("survivor", []):
            s = open(os.path.join(REPO, f)).read()
            out.append({"file": f, "line": line, "a": a, "b": b, "new": r, "old": s[a:b],
                        "text": s[s.rfind("\n", 0, a) + 1:s.find("\n", a)].strip()})
        json.dump(out, open(sys.argv[2], "w"), indent=0)
    else:
        ms = json.load(open(sys.argv[2]))
        lim = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
        dest = T + "/repo"
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        for d in ("include", "src"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(dest, d))
        for f in os.listdir(REPO):
            if os.path.isfile(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), dest)
        n = 0
        for m in ms:
            if m.get("verdict") or n >= lim:
                continue
            n += 1
            p = os.path.join(dest, m["file"])
            s = open(os.path.join(REPO, m["file"])).read()
            open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])
            t0 = time.time()
            v = "MISSED"
            for c in FILES[m["file"]].split():
                try:
                    r = subprocess.run(["python3", "/verif/bin/check", c], env=dict(os.environ, VERIF_REPO=dest, VERIF_TIER="quick", VERIF_SEED="1"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc == 1:
                    v = c
                    break
                if rc != 0:
                    v = "MISSED"
                    m.setdefault("trouble", []).append([c, rc])
            m["verdict"] = v
            open(p, "w").write(s)
            print("%-24s %4d %-40.40s -> %-24.24s %s %.0fs %s" % (m["file"], m["line"], m["text"], m["new"].replace("\n", " "), v, time.time() - t0, m.get("trouble", "")), flush=True)
            json.dump(ms, open(sys.argv[2], "w"), indent=0)


main()
