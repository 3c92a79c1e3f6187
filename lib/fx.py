"""Recording histories of the real library and validating them with TLC."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

import secp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

FLAGS = {  # variant: (build type, C flags, library flags, driver flags, link flags)
    "dbg": ("Debug", "-O0 -g -U_FORTIFY_SOURCE", "", "", ""),
    "rel": ("Release", "-U_FORTIFY_SOURCE", "", "", ""),
    "asan": ("Debug", "-O1 -g -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE",
             "", "", "-fsanitize=address"),
    "asanrel": ("Release", "-O1 -g -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE",
                "", "", "-fsanitize=address"),
    "sched": ("Debug", "-O1 -g -U_FORTIFY_SOURCE", "-fsanitize-coverage=trace-pc", "", ""),
}


# operations for which the specification computes on the curve
CURVE = {"key_enc", "key_pub", "pub_dec", "pub_enc", "sign", "verify", "key_derive", "pub_derive", "keyid",
         "pub_keyid", "key_fpr", "xk_derive", "xp_derive", "xk_pub", "wallet", "commute"}


class ToolError(Exception):
    pass


class Work:
    """A scratch directory with the built variants; removed at the end."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.built = {}
        self._locale = None
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def gtable(self):
        with self.lock:
            p = os.path.join(self.dir, "gtable.json")
            if not os.path.exists(p):
                secp.gtable(p)
            return p

    def locale(self):
        """Environment for a process in a Turkish locale: tolower('I') is not 'i' there, and
        bytes above 127 are letters.  Empty where localedef cannot make that locale."""
        with self.lock:
            if self._locale is None:
                d, name = os.path.join(self.dir, "locale"), "tr_TR.ISO-8859-9"
                env = {"LOCPATH": d, "VERIF_LOCALE": name}
                try:
                    os.makedirs(d)
                    subprocess.run(["localedef", "-i", "tr_TR", "-f", "ISO-8859-9", os.path.join(d, name)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                    ok = subprocess.run([sys.executable, "-c", "import locale; locale.setlocale(locale.LC_CTYPE, '%s')"
                                         % name], env=dict(os.environ, **env), stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL, timeout=60).returncode == 0
                except (OSError, subprocess.TimeoutExpired):
                    ok = False
                self._locale = env if ok else {}
            return self._locale

    def build(self, variants):
        todo = [v for v in variants if v not in self.built]
        with cf.ThreadPoolExecutor(4) as ex:
            for v, p in zip(todo, ex.map(self._build, todo)):
                self.built[v] = p

    def _build(self, v):
        bt, cflags, lib, drv, link = FLAGS[v]
        b = os.path.join(self.dir, "build-" + v)
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS"):
            env.pop(k, None)
        cmds = [["cmake", "-S", os.path.join(VERIF, "harness"), "-B", b, "-G", "Ninja",
                 "-DCMAKE_BUILD_TYPE=" + bt, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                 "-DREPO_DIR=" + REPO, "-DCMAKE_C_FLAGS=" + cflags,
                 "-DLIB_FLAGS=" + lib, "-DDRV_FLAGS=" + drv,
                 "-DCMAKE_EXE_LINKER_FLAGS=" + link],
                ["ninja", "-C", b, "-j4", "driver"]]
        for c in cmds:
            p = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
            if p.returncode:
                raise ToolError("build of variant %s failed:\n%s" % (v, p.stdout[-4000:]))
        return os.path.join(b, "driver")


class Cmd:
    """One abstract call.  args: bytes or int, in the driver's order."""
    __slots__ = ("op", "args", "env", "tweak", "fork", "heap", "only", "judge", "mode",
                 "fill", "raw", "twin", "stateful", "hint", "ident", "thread")

    def __init__(self, op, *args, env=None, tweak=False, fork=False, heap=False, only=None,
                 judge=(), mode=None, fill=None, raw=None, twin=None, stateful=False, hint=None, ident=None, thread=False):
        self.op, self.args = op, [bytes(a) if isinstance(a, (bytes, bytearray)) else int(a)
                                  for a in args]
        self.env, self.tweak, self.fork, self.heap = env, tweak, fork, heap
        self.only, self.judge, self.mode, self.fill = only, tuple(judge), mode, fill
        self.raw, self.twin, self.stateful, self.hint = raw, twin, stateful, hint
        self.thread = thread      # in a thread of its own
        self.ident = ident        # number of the call, for judging equal calls

    def key(self):
        return (self.op, tuple(self.args), self.env, self.tweak, self.mode, self.hint is not None)

    def line(self, ident, mode, fill):
        if self.raw:
            return self.raw.replace("@ID", str(ident))
        t = [str(ident), self.op, self.mode or mode, "%02x" % (self.fill if self.fill is not None else fill)]
        if self.fork:
            t.append("F")
        if self.thread:
            t.append("T")
        if self.heap:
            t.append("H")
        if self.env is not None:
            t.append("e" + self.env)
        if self.tweak:
            t.append("t1")
        for a in self.args:
            t.append("x" + a.hex() if isinstance(a, bytes) else "i%d" % a)
        return " ".join(t)

    def describe(self):
        d = {"op": self.op, "args": [a.hex() if isinstance(a, bytes) else a for a in self.args]}
        for k in ("env", "tweak", "fork", "thread", "heap", "only", "mode", "raw"):
            if getattr(self, k):
                d[k] = getattr(self, k)
        return d


def clamp(v):
    return v if 0 <= v < 2 ** 31 else -1


def parse_response(toks):
    """The tokens after 'R <id>' as a dictionary."""
    r = {"oc": toks[0], "r": 0, "o": [], "x": [], "E": [], "f": [], "S": None}
    for t in toks[1:]:
        k, v = t[0], t[1:]
        if k == "r":
            r["r"] = clamp(int(v))
        elif k == "o":
            r["o"].append(list(bytes.fromhex(v)))
        elif k == "m":
            r["m"] = int(v)
        elif k == "d":
            r["d"] = int(v)
        elif k == "l":
            r["l"] = int(v)
        elif k == "t":
            r["tweaks"] = int(v)
        elif k == "n":
            r["blocks"] = int(v)
        elif k == "b":
            r["ran"] = int(v)
        elif k == "x":
            p = v.split(":")
            cap = int(p[-1])
            r["x"].append([0, 0, cap] if p[0] == "-" else [int(p[0]), int(p[1]), cap])
        elif k == "E":
            r["E"].append(v)
        elif k == "f":
            r["f"].append(list(bytes.fromhex(v)))
        elif k == "S":
            r["S"] = list(bytes.fromhex(v))
        elif t in ("BADARG", "NOMEM"):
            r["oc"] = t.lower()
    return r


def env_events(tokens):
    """Environment log -> sequence of records for the specification."""
    out = []
    for t in tokens:
        if t[0] == "o":
            out.append({"k": "open", "ok": t[1] == "+", "got": []})
        elif t == "c":
            out.append({"k": "close", "ok": True, "got": []})
        elif t == "r-":
            out.append({"k": "read", "ok": False, "got": []})
        else:
            out.append({"k": "read", "ok": True, "got": list(bytes.fromhex(t[1:]))})
    return out


def event(cmd, resp):
    e = {"op": cmd.op, "a": [list(a) for a in cmd.args if isinstance(a, bytes)],
         "n": [a for a in cmd.args if not isinstance(a, bytes)],
         "oc": resp["oc"], "r": resp["r"], "o": resp["o"]}
    m = re.match(r"(exit|sig)(\d+)$", resp["oc"])
    if m:
        e["oc"], e["r"] = m.group(1), int(m.group(2))
    if cmd.env is not None or cmd.op in ("key_init", "os_rand", "key_new"):
        e["env"] = env_events(resp["E"])
    if cmd.tweak and resp.get("tweaks"):
        e["tw"] = 1
    if cmd.fork:
        e["fk"] = 1
    for k in cmd.judge:
        if k in resp and resp[k] is not None:
            e[k] = resp[k]
    if cmd.hint is not None:
        e["h"] = cmd.hint
    if cmd.ident is not None:
        e["c"] = cmd.ident
    if cmd.op == "heap":
        e["n"] = [resp.get("d", -1)]
    if cmd.twin:                       # two interleaved calls
        b = resp.get("pair") or parse_response(["crash"])
        e["p"] = [{"op": c.op, "a": [list(x) for x in c.args if isinstance(x, bytes)],
                   "n": [x for x in c.args if not isinstance(x, bytes)], "r": r["r"], "o": r["o"],
                   "c": c.ident}
                  for c, r in zip(cmd.twin, (resp, b))]
        if resp["oc"] == "ok" and not resp.get("ran"):
            e["p"] = e["p"][:1]        # the first call was over before the second could start
        e["r"], e["o"] = 0, []
    return e


CTX = [b"\0", b"=", b"1", b" ", b"A", b"\xff", b"a", b"0", b"\x01", b"==", b"11", b"q", b"\x80",
       b"=\0", b" 1", b"f0", b"l", b"\x05"]


LONG = {"huge", "vast", "vast_enc", "vast_dump", "vast_rand", "vast_cleanse", "vast_endian", "cycles", "N", "P"}


def patience(fout, lines, timeout):
    """seconds the call that is running may take"""
    fd = fout.fileno()                 # the offset is shared with the writer
    got = os.pread(fd, os.fstat(fd).st_size, 0)
    n = sum(ln.startswith(b"R ") for ln in got.split(b"\n")[:-1])
    todo = [ln.split(" ", 2) for ln in lines if not ln.startswith("SEED ")][n:n + 1]
    return timeout if not todo or LONG & set(todo[0][:2]) else 60


def run_driver(exe, lines, timeout, more=None):
    """Run one driver process on lines; returns (response tokens by position, ended)."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=1",
               MALLOC_ARENA_MAX="2", GLIBC_TUNABLES="glibc.malloc.tcache_count=0", TZ="UTC", LANG="C", LC_ALL="C",
               **(more or {}))
    with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as fout, \
            tempfile.TemporaryFile() as ferr:
        fin.write(("\n".join(lines) + "\n").encode())
        fin.seek(0)
        p = subprocess.Popen([exe], stdin=fin, stdout=fout, stderr=ferr, env=env,
                             start_new_session=True)
        ended = "crash"
        seen, since = -1, time.time()
        while True:                    # timeout: the time without any new answer
            try:
                p.wait(0.2 if time.time() - since < 5 else 1)
                break
            except subprocess.TimeoutExpired:
                size = os.fstat(fout.fileno()).st_size
                if size != seen:
                    seen, since = size, time.time()
                elif time.time() - since > min(60, timeout) and time.time() - since > patience(fout, lines, timeout):
                    ended = "hang"
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        fout.seek(0)
        got = []
        for ln in fout.read().decode("ascii", "replace").split("\n"):
            if ln.startswith("R ") :
                got.append(ln)
        ferr.seek(0)
        err = ferr.read()[-4000:].decode("utf-8", "replace")
    return got, ended, p.returncode, err


class History:
    """A sequence of calls made by one process."""

    def __init__(self, cmds, variant="dbg", seed=0, mode=None, timeout=100):
        self.cmds, self.variant, self.seed, self.mode, self.timeout = cmds, variant, seed, mode, timeout
        self.cmds = [c for c in cmds if c.only is None or variant in c.only]

    def locale(self, work):
        """release builds run in a Turkish locale"""
        return work.locale() if self.variant in ("rel", "asanrel") else {}

    def lines(self):
        rng = random.Random("%s/%s" % (self.seed, self.variant))
        out = ["SEED %d" % rng.randrange(2 ** 31)]
        for i, c in enumerate(self.cmds):
            if self.mode:
                m = self.mode
            else:
                m = "g" if rng.random() < 0.15 else "c" + (rng.choice(CTX) + bytes(
                    rng.randrange(256) for _ in range(rng.choice([0, 0, 3])))).hex()
            fill = rng.choice([0x00, 0xA5, 0xFF, 0x31, 0x3D])
            out.append(c.line(i, m, fill))
        return out

    def record(self, work, upto=None):
        lines = self.lines()
        if upto is not None:
            lines = lines[:upto + 2]
        cmds = self.cmds if upto is None else self.cmds[:upto + 1]
        got, ended, rc, err = run_driver(work.built[self.variant], lines, self.timeout, self.locale(work))
        evs, resps = [], []
        for i, c in enumerate(cmds):
            if i >= len(got):
                r = parse_response([ended])
                r["stderr"] = err[-1500:]
                resps.append(r)
                evs.append(event(c, r))
                break
            t = got[i].split(" ")
            if t[1] != str(i):
                raise ToolError("driver answers out of step: %s" % got[i][:200])
            if t[2] == "nosuchop":
                raise ToolError("driver does not know %s" % c.op)
            body = t[2:]
            r = parse_response([x for x in body if x != "" and x != "|"] if "|" not in body
                               else body[:body.index("|")])
            if "|" in body:
                r["pair"] = parse_response(["ok"] + body[body.index("|") + 1:])
            if r["oc"] in ("badarg", "nomem"):
                raise ToolError("driver refuses the arguments of %s" % c.line(i, "c", 0)[:300])
            resps.append(r)
            evs.append(event(c, r))
        return evs, resps


# ------------------------------------------------------------------ TLC
CURVE_PROPS = ("C19", "C20", "C21", "C23", "C24", "C25", "C27")


def tlc(work, module, cfg=None, env=None, workers=1, timeout=800, heap="2g", extra=(), table=False):
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work.dir)
    env = dict(env or {})
    if table or module == "MC_Secp" or env.get("PROP") in CURVE_PROPS or \
            env.get("KIND") == "key" and env.get("MAXLEN") == "3":
        env["GTABLE"] = work.gtable()
    if module == "MC_Standards":
        env["VECTORS"] = os.path.join(SPEC, "standards.ndjson")
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-XX:CICompilerCount=2", "-Djava.io.tmpdir=" + meta,
           "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config",
           os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, env=dict(os.environ, **env), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout,
                       cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, out, gen, dist


def validate(work, events, module="Trace"):
    """None if the trace is a behaviour of the specification, else the index of the
    first event that is not.  Returns (index, states)."""
    if not events:
        return None, 0
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=work.dir, delete=False)
    for e in events:
        f.write(json.dumps(e, separators=(",", ":")) + "\n")
    f.close()
    rc, out, gen, dist = tlc(work, module, env={"TRACE": f.name},
                             table=any(e["op"] in CURVE for e in events))
    os.unlink(f.name)
    m = re.search(r'<<"REJECT", (\d+)>>', out)
    if m:
        return int(m.group(1)) - 1, dist
    m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
    if m and int(m.group(1)) == len(events) and rc == 0:
        return None, dist
    m = re.findall(r"^/\\ l = (\d+)$|^l = (\d+)$", out, re.M)
    if rc in (75, 76) and m and not re.search("OutOfMemory|StackOverflow", out):
        # an event of a shape for which the specification has no meaning
        return int(m[-1][0] or m[-1][1]) - 1, dist
    raise ToolError("TLC could not evaluate the trace (exit %d):\n%s" % (rc, out[-3000:]))


def run_models(work, models):
    """Exhaustive checks of design models: (module, cfg, workers).  Returns a list of
    dicts; a violated invariant is an error of the model, not of the code."""
    def one(model):
        module, cfg, env, workers = model
        rc, out, gen, dist = tlc(work, module, cfg, env=env, workers=workers, heap="4g")
        if (cfg or "").endswith("Bad.cfg"):     # a model that must fail: the invariant bites
            if rc != 12:
                raise ToolError("model %s/%s should violate its invariant (exit %d):\n%s" %
                                (module, cfg, rc, out[-3000:]))
            gen = dist = 0
        elif rc != 0:
            raise ToolError("model %s/%s fails (exit %d):\n%s" % (module, cfg, rc, out[-3000:]))
        cases = [json.loads(json.loads(s)) if s.startswith('"') else json.loads(s)
                 for s in sorted(set(re.findall(r'^<<"CASE", (.*)>>$', out, re.M)))]
        return {"model": module, "config": cfg or module, "parameters": env, "generated": gen,
                "distinct": dist, "cases": cases}
    with cf.ThreadPoolExecutor(3) as ex:
        res = list(ex.map(one, models))
    return res
