"""Talking to the simulator: scenario building, server processes, result parsing."""
import os, re, select, subprocess, sys, hashlib
from urllib.parse import unquote_to_bytes
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DICTU_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "sim"))

class SimError(Exception):
    """The simulator or the machinery failed (never a verdict)."""

_safe = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.,;:/(){}[]<>=+*!?@#$^&|~'\"`\\")
_pt = ["%%%02X" % i if i not in _safe else chr(i) for i in range(256)]
def pct(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return "".join(_pt[c] for c in b)
def upath(s):
    return unpct(s).decode("latin-1")
def unpct(s):
    return unquote_to_bytes(s)

def lit(s):
    """A Dictu string literal for text or bytes (no NUL)."""
    if isinstance(s, bytes):
        s = s.decode("latin-1")
        enc = True
    out = ['"']
    for c in s:
        if c == "\\": out.append("\\\\")
        elif c == '"': out.append('\\"')
        elif c == "\n": out.append("\\n")
        elif c == "\t": out.append("\\t")
        elif c == "\r": out.append("\\r")
        elif c == "\0": out.append("\\x00")
        else: out.append(c)
    out.append('"')
    return "".join(out)

class Scn:
    def __init__(self):
        self.l = ["env0"]
    def add(self, *a):
        self.l.append(" ".join(str(x) for x in a)); return self
    def opt(self, **kw):
        for k in sorted(kw):
            self.l.append("opt %s %d" % (k, kw[k]))
        return self
    def fault(self, call, eff, ppm, mx=1000000, nth=0):
        self.l.append("fault %s %s %d %d%s" % (call, eff, ppm, mx, " %d" % nth if nth else "")); return self
    def dir(self, p, mode=0o755):
        self.l.append("dir %s %o" % (pct(p), mode)); return self
    def file(self, p, data=b"", mode=0o644):
        self.l.append("file %s %o %s" % (pct(p), mode, pct(data))); return self
    def filepat(self, p, n, seed, mode=0o644):
        self.l.append("filepat %s %o %d %d" % (pct(p), mode, n, seed)); return self
    def symlink(self, p, target):
        self.l.append("symlink %s %s" % (pct(p), pct(target))); return self
    def node(self, i, **kw):
        self.l.append("node %d %s" % (i, " ".join("%s=%s" % (k, pct(str(v))) for k, v in kw.items()))); return self
    def args(self, i, *a):
        for x in a:
            self.l.append("arg %d %s" % (i, pct(x)))
        return self
    def script(self, i, src, name="main.du", cwd="/w", **kw):
        """A node running the interpreter's main program on a script file."""
        self.file(cwd.rstrip("/") + "/" + name, src)
        self.node(i, cwd=cwd, **kw)
        return self.args(i, "dictu", name)
    def item(self, i, mod, src):
        self.l.append("item %d %s %s" % (i, pct(mod), pct(src))); return self
    def stdin(self, i, delay, data):
        self.l.append("stdin %d %d %s" % (i, delay, pct(data))); return self
    def env(self, k, v):
        self.l.append("env %s %s" % (pct(k), pct(v))); return self
    def prog(self, name, *acts):
        self.l.append("prog %s %s" % (name, " ".join(acts))); return self
    def proc(self, name, phase, *acts):
        self.l.append("proc %s %d %s" % (name, phase, " ".join(acts))); return self
    def http(self, spec):
        self.l.append("http " + spec); return self
    def text(self):
        return "\n".join(self.l) + "\n"

def patbytes(sd, n, off=0):
    M = (1 << 64) - 1
    A = b"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ+/"
    out = bytearray()
    last = None
    for i in range(off, off + n):
        k = i >> 3
        if k != last:
            z = (sd * 1000003 + k + 0x9e3779b97f4a7c15) & M
            z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
            z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
            z ^= z >> 31
            last = k
        out.append(A[(z >> ((i & 7) * 7)) & 63])
    return bytes(out)

class Result:
    __slots__ = ("wstatus", "timeout", "finished", "log", "dec", "err", "hash", "_p", "schedhash")
    def __init__(self, wstatus, timeout, finished, log, dec, err, schedhash):
        self.wstatus, self.timeout, self.finished, self.log, self.dec, self.err = wstatus, timeout, finished, log, dec, err
        self.schedhash = schedhash
        self._p = None
    @property
    def loghash(self):
        return hashlib.sha256(self.log).hexdigest()[:16]
    def _parse(self):
        if self._p is not None:
            return self._p
        p = {"out": {}, "err": {}, "serr": {}, "exit": {}, "lost": {}, "viol": [], "fds": [], "results": {}, "errlen": {}, "counts": {}, "faults": [], "lines": [], "end": None,
             "deadlock": [], "cat": [], "heap": {}, "leak": {}, "leaked": [], "tree": {}, "dirs": {}, "procs": [], "kills": [], "execs": [], "http": [],
             "time": 0, "steps": 0, "clk": [], "peerrecv": {}, "peereof": [], "seq": []}
        for ln in self.log.decode("latin-1").split("\n"):
            if not ln:
                continue
            p["lines"].append(ln)
            t = ln.split(" ")
            k = t[0]
            if k == "OUT":
                o = unpct(t[2]) if len(t) > 2 else b""
                m = re.search(rb"Total bytes lost: (-?\d+)\n$", o)   # printed by the debug build when an interpreter is freed
                if m: p["lost"][int(t[1])] = int(m.group(1)); o = o[:m.start()]
                p["out"][int(t[1])] = o
            elif k == "ERR": p["err"][int(t[1])] = p["serr"][int(t[1])] = unpct(t[2]) if len(t) > 2 else b""
            elif k == "EXIT":
                d = dict(x.split("=") for x in t[2:]); p["exit"][int(t[1])] = {a: int(b) for a, b in d.items()}
            elif k == "VIOL": p["viol"].append((t[1], " ".join(t[2:])))
            elif k == "FDS":
                d = {"why": t[1], "node": int(t[2][5:]), "kids": int(t[3][5:]), "zombies": int(t[4][8:]), "fds": {}}
                for x in t[5:]:
                    a, b = x.split(":", 1); d["fds"][int(a)] = b
                p["fds"].append(d); p["seq"].append(("fds", d))
            elif k == "RESULT": p["results"].setdefault(int(t[1]), []).append(int(t[3])); p["errlen"].setdefault(int(t[1]), []).append(int(t[4]))
            elif k == "COUNT": p["counts"][t[1]] = p["counts"].get(t[1], 0) + int(t[2])
            elif k == "FAULT": p["faults"].append(ln[6:]); p["seq"].append(("fault", ln[6:]))
            elif k == "END": p["end"] = t[1]
            elif k == "DEADLOCK": p["deadlock"].append(ln[9:])
            elif k == "CAT": p["cat"].append((upath(t[1]), unpct(t[2]) if len(t) > 2 else b"")); p["seq"].append(("cat", p["cat"][-1]))
            elif k == "CATNONE": p["cat"].append((upath(t[1]), None)); p["seq"].append(("cat", p["cat"][-1]))
            elif k == "HEAP": p["heap"][t[1]] = (int(t[2]), int(t[3])); p["seq"].append(("heap", t[1], int(t[2]), int(t[3])))
            elif k == "LEAK": p["leak"][int(t[1][5:])] = (int(t[2][7:]), int(t[3][6:]))
            elif k == "LEAKED": p["leaked"].append((int(t[1]), t[2]))
            elif k == "TREE":
                if t[1] == "dir": p["dirs"][upath(t[5])] = (int(t[2], 8), int(t[3]), int(t[4]))
                else: p["tree"][upath(t[5])] = (t[1], int(t[2], 8), int(t[3]), int(t[4]), unpct(t[6]) if len(t) > 6 else b"")
            elif k == "PROC": p["procs"].append(dict(x.split("=", 1) for x in t[1:]))
            elif k == "KILL": p["kills"].append((int(t[1]), int(t[2])))
            elif k == "EXEC": p["execs"].append((int(t[1]), t[2], unpct(t[3]) if len(t) > 3 else b"")); p["seq"].append(("exec", p["execs"][-1]))
            elif k == "HREQ" and len(t) > 2: p["http"].append(ln); p["seq"].append(("http", ln))
            elif k == "TIME": p["time"] = int(t[1])
            elif k == "STEPS": p["steps"] = int(t[1])
            elif k == "CLK": p["clk"].append((t[1], int(t[2]))); p["seq"].append(("clk", t[1], int(t[2])))
            elif k == "MTIME": p["seq"].append(("mtime", t[1], int(t[2]), int(t[3])))
            elif k == "PEERRECV": p["peerrecv"][t[1]] = p["peerrecv"].get(t[1], b"") + (unpct(t[2]) if len(t) > 2 else b"")
            elif k == "PEEREOF": p["peereof"].append(t[1])
            elif k in ("CPU", "SLEEP", "RAND", "UUID", "SRAND", "EV"): p["seq"].append((k.lower(), ln[len(k) + 1:]))
            elif k == "SIMERROR": raise SimError(ln)
        self._p = p
        return p
    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        p = self._parse()
        if k in p:
            return p[k]
        raise AttributeError(k)
    def text(self, node=0):
        return self.out.get(node, b"").decode("utf-8", "surrogateescape")

_setarch = None
def can_setarch():
    global _setarch
    if _setarch is None:
        try: _setarch = subprocess.run(["/usr/bin/setarch", "-R", "/bin/true"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError: _setarch = False
    return _setarch

class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.n = 0
    def _start(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": "/root", "TZ": "UTC0", "LANG": "C.UTF-8"}
        # no address randomisation: addresses never reach a decision, but identical layouts make replays byte-identical
        cmd = [self.exe]
        if can_setarch():
            cmd = ["/usr/bin/setarch", "-R", self.exe]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")
        self.n = 0
    def run(self, text, wall_ms=60000):
        if self.p is None:
            self._start()
        b = text.encode("utf-8", "surrogateescape")
        try:
            self.p.stdin.write(b"RUN %d %d\n" % (len(b), wall_ms) + b); self.p.stdin.flush()
            h = self.p.stdout.readline().split()
            if len(h) != 8:
                raise SimError("simulator server ended unexpectedly")
            log = self.p.stdout.read(int(h[4])); dec = self.p.stdout.read(int(h[5])); err = self.p.stdout.read(int(h[6]))
        except (BrokenPipeError, OSError) as e:
            raise SimError("simulator server failed: %s" % e)
        self.n += 1
        return Result(int(h[1]), int(h[2]), int(h[3]), log, dec.decode(), err.decode("utf-8", "replace"), int(h[7]))
    def close(self):
        if self.p:
            try:
                self.p.stdin.close(); self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
            self.p = None

def crash_of(res):
    """None, or (class, detail) when the run ended abnormally."""
    if res.timeout:
        return ("hang", "the run did not finish within its wall-clock limit without making an external call")
    if os.WIFSIGNALED(res.wstatus):
        return ("crash:signal%d" % os.WTERMSIG(res.wstatus), res.err[-1500:])
    code = os.WEXITSTATUS(res.wstatus)
    if code == 99 or (code != 0 and "AddressSanitizer" in res.err):
        m = re.search(r"AddressSanitizer:? ([\w-]+)", res.err)
        kind = m.group(1) if m else "?"
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", res.err)
        own = [f for f in frames[:12] if not f.startswith(("__wrap", "__interceptor", "__asan", "ck_", "net_", "chk"))]
        fn = next((f for f in own if f not in ("memcpy", "memmove", "strlen", "free", "realloc", "malloc", "memset", "printf", "vprintf", "puts", "fwrite", "strcpy", "strncpy", "memcmp", "fputs")), own[0] if own else "?")
        return ("crash:%s" % kind, "in %s\n%s" % (fn, res.err[:3000]))
    if code != 0 or not res.finished:
        if code == 98 or code == 96 or code == 97:
            return ("crash:exit%d" % code, res.err[-1500:])
        return ("crash:exit%d" % code, res.err[-1500:])
    return None

def self_containing(res):
    """The run died walking a structure that contains itself (the same walker over and over)."""
    c = crash_of(res)
    if not c or c[0] not in ("crash:stack-overflow", "crash:SEGV", "crash:heap-buffer-overflow"): return False
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", res.err)
    n = {}
    for f in fr: n[f] = n.get(f, 0) + 1
    return any(k > 40 and re.search(r"(?i)tostr|copy|stringify|pretty|compar|equal|hash|json", f) for f, k in n.items())

# ------------------------------------------------------------------ value protocol between generated scripts and the checks
PRELUDE = """
def P(v) {
  if (type(v) == "string") { print("S" + v.len().toString()); print(v); }
  else if (type(v) == "result") {
    if (v.success()) { print("R"); P(v.unwrap()); } else { print("E"); P(v.unwrapError()); }
  } else if (type(v) == "list") { print("L" + v.len().toString()); for (var i = 0; i < v.len(); i += 1) { P(v[i]); } }
  else { print("V"); print(v); }
}
"""
class Short(Exception):
    """The output ends in the middle of a value (the script ended there)."""
def parse_values(b, notes=False):
    """The values printed with P(): str (bytes), ('V', text), ('R', value), ('E', message), list. Returns (values, rest)."""
    pos = 0
    def line():
        nonlocal pos
        e = b.find(b"\n", pos)
        if e < 0: raise Short()
        r = b[pos:e]; pos = e + 1
        return r
    def val():
        nonlocal pos
        l = line()
        k = l[:1]
        if k == b"S":
            n = int(l[1:])
            if pos + n + 1 > len(b): raise Short()
            r = b[pos:pos + n]
            if b[pos + n:pos + n + 1] != b"\n": raise ValueError("string length and bytes disagree")
            pos += n + 1
            return r
        if k == b"V": return ("V", line().decode("latin-1"))
        if k == b"R": return ("R", val())
        if k == b"E": return ("E", val())
        if k == b"L": return [val() for _ in range(int(l[1:]))]
        raise ValueError("unexpected output line %r" % l[:80])
    out = []
    while pos < len(b):
        save = pos
        try:
            out.append(val())
        except Short:
            return out, b[save:]
    return out, b""

STRERR = {}
def strerror(name):
    import errno
    return os.strerror(getattr(errno, name))

def gc_opts(rng, s):
    """which collections run is itself part of the schedule"""
    r = rng.random()
    if r < 0.55: s.opt(gcmode=9)
    elif r < 0.75: s.opt(gcmode=2, gc_ppm=rng.choice([2000, 20000, 200000]))
    elif r < 0.85: s.opt(gcmode=1)
    elif r < 0.95: s.opt(gcmode=3, gc_every=rng.randint(2, 40))
    else: s.opt(gcmode=0)
