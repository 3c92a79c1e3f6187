#!/usr/bin/env python3
"""Planted bugs: authoring and verification (never run by a check).

plant.py make FILE.py [id...]   write seeded/<id>/ from a list BUGS and verify
plant.py verify [id...]         verify the committed ones

Verification happens in a scratch copy of /repo: the patch applies, builds,
passes the stable tests, the demo exits 0 without and nonzero with it, and
(-c) the property's check reports it.
"""
import concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BASE = "2c5f044"
ENV = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", GTEST_COLOR="no")

DEMO = {
    "lib": 'gcc -g -I include -o "$T/demo" "$D/demo.c" %(x)s _build/repo/libfingera_libc.a -lsecp256k1 -lpthread',
    "asan": 'gcc -g -fsanitize=address -I include -o "$T/demo" "$D/demo.c" $(find src -name "*.c") %(x)s -lsecp256k1 -lpthread',
    "rel": 'gcc -O2 -DNDEBUG -w -I include -o "$T/demo" "$D/demo.c" $(find src -name "*.c") %(x)s -lsecp256k1 -lpthread',
}
SH = '''#!/bin/bash
# Run in the repository after its build; exit 0: behaves as stated.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
%s || exit 3
timeout %d "$T/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    sh(["cp", "-a", "/repo", d + "/repo"])
    shutil.rmtree(d + "/repo/_build", ignore_errors=True)
    shutil.copytree("/opt/vp/cmake", d + "/cmake")
    p = d + "/cmake/CMakeLists.txt"
    t = open(p).read().replace("set(REPO_DIR /repo)", "set(REPO_DIR %s/repo)" % d)
    open(p, "w").write(t)
    return d


def build(d):
    return sh("cmake -S %s/cmake -B %s/repo/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON "
              "-DFINGERA_LIBC_ENABLE_BENCHMARKS=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "
              "-DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C %s/repo/_build -j4" % (d, d, d), env=ENV)


def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    b = d + "/repo/_build/repo/tests/test_fingera"
    bad = []
    for n in names:
        n = n if isinstance(n, str) else n["id"]
        f = n.split("::", 1)
        try:
            r = sh([b, "--gtest_filter=" + ".".join(f)], cwd=os.path.dirname(b), timeout=120)
            if r.returncode or "1 test from" not in r.stdout:
                bad.append(n)
        except subprocess.TimeoutExpired:
            bad.append(n)
    return bad


def demo(d, bug):
    t = tempfile.mkdtemp(prefix="demo-")
    s = os.path.join(SEEDED, bug)
    for f in os.listdir(s):
        if f != "meta.json" and not f.endswith(".diff"):
            shutil.copy(os.path.join(s, f), t)
    try:
        r = sh(["bash", t + "/demo.sh"], cwd=d + "/repo", timeout=300)
        return r.returncode, r.stdout[-300:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    finally:
        shutil.rmtree(t)


def original(d, diff):
    """At least one removed/changed line (or the context of a pure addition) is the base's."""
    for f in re.findall(r"^--- a/(\S+)", diff, re.M):
        old = sh(["git", "-C", "/repo", "show", BASE + ":" + f]).stdout.splitlines()
        rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if any(l in old for l in rem):
            return True
    return False


def make(d, bug):
    s = os.path.join(SEEDED, bug["id"])
    os.makedirs(s, exist_ok=True)
    for e in bug["edits"]:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = d + "/repo/" + f
        t = open(p).read()
        n = t.count(old)
        if n == 0 or (n > 1 and nth is None):
            raise Exception("%s: %d matches of %r" % (bug["id"], n, old))
        i = -1
        for _ in range((nth or 0) + 1):
            i = t.index(old, i + 1)
        open(p, "w").write(t[:i] + new + t[i + len(old):])
    diff = subprocess.run(["git", "-C", d + "/repo", "diff"], stdout=subprocess.PIPE).stdout
    open(s + "/patch.diff", "wb").write(diff)
    sh(["git", "-C", d + "/repo", "checkout", "--", "."])
    if "demo" in bug:
        open(s + "/demo.c", "w").write(bug["demo"])
    kind = bug.get("kind", "lib")
    open(s + "/demo.sh", "w").write(SH % (DEMO[kind] % {"x": bug.get("flags", "")}, bug.get("timeout", 60)))
    os.chmod(s + "/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(s + "/meta.json", "w"), indent=1)
    open(s + "/meta.json", "a").write("\n")


def run(arg):
    bug, spec, check = arg
    d = copy()
    try:
        if spec:
            make(d, spec)
        s = os.path.join(SEEDED, bug)
        meta = json.load(open(s + "/meta.json"))
        out = {"id": bug, "property": meta["property"]}
        r = build(d)
        if r.returncode:
            return dict(out, error="clean build: " + r.stdout[-500:])
        rc, o = demo(d, bug)
        if rc:
            return dict(out, error="demo on clean tree: %d %s" % (rc, o))
        r = sh(["git", "-C", d + "/repo", "apply", s + "/patch.diff"])
        if r.returncode:
            return dict(out, error="apply: " + r.stdout)
        if not original(d, open(s + "/patch.diff", errors="replace").read()):
            return dict(out, error="changes no original line")
        r = build(d)
        if r.returncode:
            return dict(out, error="patched build: " + r.stdout[-500:])
        bad = tests(d)
        if bad:
            return dict(out, error="tests notice: %s" % bad)
        rc, o = demo(d, bug)
        if rc == 0 or rc == 3:
            return dict(out, error="demo with patch: %d %s" % (rc, o))
        out["demo"] = rc
        if check:
            t = time.time()
            props = [meta["property"]] if check == 1 else check
            for p in props:
                try:
                    r = sh([VERIF + "/bin/check", p], env=dict(os.environ, VERIF_REPO=d + "/repo",
                           VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d), timeout=900)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    out["check " + p] = "%d %s (%.0f s)" % (r.returncode, v[:1] or r.stdout[-150:], time.time() - t)
                except subprocess.TimeoutExpired:
                    out["check " + p] = "timeout"
        return out
    except Exception as e:
        return {"id": bug, "error": repr(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    check = 0
    if "-c" in a:
        a.remove("-c"); check = 1
    jobs = 8
    if a[0] == "make":
        bugs = runpy.run_path(a[1])["BUGS"]
        todo = [(b["id"], b, check) for b in bugs if len(a) == 2 or b["id"] in a[2:]]
    else:
        ids = a[1:] or sorted(os.listdir(SEEDED))
        todo = [(i, None, check) for i in ids]
    if check:
        jobs = 3
    ok = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(run, todo):
            ok += "error" not in r
            print(json.dumps(r), flush=True)
    print("%d of %d fine" % (ok, len(todo)))


main()
