"""C07: filesystem calls do what they report, and report what they did."""
from fw import *
from simlib import *
import errno, re

class E(Exception):
    def __init__(self, *n): self.n = n

class Ino:
    __slots__ = ("t", "mode", "uid", "gid", "ents", "data", "parent", "live")
    def __init__(self, t, mode, data=b""):
        self.t = t; self.mode = mode; self.uid = self.gid = 0; self.ents = {} if t == "dir" else None; self.data = data; self.parent = None; self.live = True

class FS:
    """Reference filesystem (Linux path semantics, running as root, umask 022)."""
    def __init__(self):
        self.root = Ino("dir", 0o755); self.root.parent = self.root; self.cwd = self.root
    def add(self, d, n, i):
        d.ents[n] = i
        if i.t == "dir": i.parent = d
    def put(self, path, ino):
        d = self.root; parts = [x for x in path.split("/") if x]
        for x in parts[:-1]:
            if x not in d.ents: self.add(d, x, Ino("dir", 0o755))
            d = d.ents[x]
        self.add(d, parts[-1], ino)
    def walk(self, path, follow=True, start=None, depth=0):
        """(inode or None, parent or None, last name, trailing slash, errno)"""
        if depth > 40: return None, None, "", False, "ELOOP"
        if not path: return None, None, "", False, "ENOENT"
        if len(path.encode()) >= 4096: return None, None, "", False, "ENAMETOOLONG"
        st = start or self.cwd
        if path[0] != "/" and not st.live: return None, None, "", False, "ENOENT"
        c = self.root if path[0] == "/" else st
        parts = [x for x in path.split("/") if x]
        par, last = c, "."
        for k, n in enumerate(parts):
            final = k == len(parts) - 1; trail = not final or path.endswith("/")
            if len(n.encode()) > 255: return None, None, "", False, "ENAMETOOLONG"
            if c.t != "dir": return None, None, "", False, "ENOTDIR"
            d = c
            nx = d if n == "." else d.parent if n == ".." else d.ents.get(n)
            if final: par, last = d, n
            if nx is None: return None, par if final else None, last, trail, "ENOENT"
            if nx.t == "lnk" and (not final or follow or trail):
                i, p2, l2, t2, e = self.walk(nx.data.decode(), True, d, depth + 1)
                if final: par, last = p2, l2
                if i is None: return None, par if final else None, last, trail or t2, e
                nx = i
            c = nx
            if trail and c.t != "dir": return None, None, "", False, "ENOTDIR"
        return c, par, last, False, ""
    def need(self, path, follow=True):
        i, p, l, t, e = self.walk(path, follow)
        if i is None: raise E(e)
        return i
    def path(self, i):
        out = []
        while i is not self.root:
            n = [k for k, v in i.parent.ents.items() if v is i]
            if not n or not i.live: raise E("ENOENT")
            out.append(n[0]); i = i.parent
        return "/" + "/".join(reversed(out))
    # operations: each returns the value reported on success or raises E
    def mkdir(self, p, m=0o777):
        i, par, l, t, e = self.walk(p, False)
        if i is not None: raise E("EEXIST")
        if e != "ENOENT" or par is None: raise E(e)
        if not par.live: raise E("ENOENT")
        self.add(par, l, Ino("dir", m & 0o7777 & ~0o022))
    def unlink(self, p, kind):
        i, par, l, t, e = self.walk(p, False)
        if i is None: raise E(e)
        if i.t == "dir":
            if kind == "file": raise E("EISDIR")
            if i is self.root: raise E("EBUSY")
            if l == ".": raise E("EINVAL")
            if l == "..": raise E("ENOTEMPTY")
            if i.ents: raise E("ENOTEMPTY")
        elif kind == "dir": raise E("ENOTDIR")
        del par.ents[l]; i.live = False
    def rename(self, a, b):
        i, pa, la, ta, e = self.walk(a, False)
        if i is None: raise E(e)
        if la in (".", "..") or i is self.root: raise E("EBUSY")
        j, pb, lb, tb, e = self.walk(b, False)
        if j is None and (e != "ENOENT" or pb is None): raise E(e)
        if j is None and tb and i.t != "dir": raise E("ENOTDIR")
        if j is not None and (lb in (".", "..") or j is self.root): raise E("EBUSY")
        if i is j: return
        d = pb
        while True:
            if i.t == "dir" and d is i: raise E("EINVAL")
            if d is self.root or d.parent is None: break
            d = d.parent
        if not pb.live: raise E("ENOENT")
        if j is not None:
            if j.t == "dir":
                if i.t != "dir": raise E("EISDIR")
                if j.ents: raise E("ENOTEMPTY")
            elif i.t == "dir": raise E("ENOTDIR")
            j.live = False
        pa.ents.pop(la); pb.ents.pop(lb, None); self.add(pb, lb, i)
    def flat(self, d=None, pre=""):
        d = d or self.root; out = {}
        for n, i in d.ents.items():
            p = pre + "/" + n
            if i.t == "dir": out[p] = ("dir", i.mode, i.uid, i.gid, b""); out.update(self.flat(i, p))
            else: out[p] = (i.t, i.mode, i.uid, i.gid, i.data)
        return out

LONG = "n" * 200
NAMES = ["a", "b", "c", "d e", "f%s", "\u00fc", "a.txt", "x", "lnk", "ldir", "dang", "loop", "..d", ".h", "...", "-n"]
def path(rng, dirs):
    r = rng.random()
    if r < 0.03: return ""
    if r < 0.05: return rng.choice(["/", ".", "..", "//", "./", "../"])
    if r < 0.08: return "/w/" + "y" * rng.choice([255, 256, 300, 5000])
    if r < 0.14: return "/".join([rng.choice("abc") * rng.choice([1, 50, 120])] * rng.choice([3, 5, 21, 40]))
    p = "/".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))
    if rng.random() < 0.5 and dirs: p = rng.choice(dirs) + "/" + p
    if rng.random() < 0.08: p = p.replace("/", rng.choice(["//", "/./", "/../"]), 1)
    if rng.random() < 0.3 and p[0] != "/": p = "/w/" + p
    if rng.random() < 0.08 and not p.endswith("dang"): p += "/"    # (a dangling link named with a trailing slash: kernels differ)
    return p

FAULTS = [("mkdir", ["ENOSPC", "EDQUOT", "EROFS", "EACCES", "EIO", "EMLINK"]), ("rmdir", ["EBUSY", "EACCES", "EIO", "EROFS"]), ("unlink", ["EBUSY", "EACCES", "EIO", "EPERM"]),
          ("rename", ["EXDEV", "ENOSPC", "EACCES", "EIO"]), ("chmod", ["EPERM", "EROFS", "EIO"]), ("chown", ["EPERM", "EROFS"]), ("chdir", ["EACCES", "EIO"]), ("getcwd", ["ENOENT", "EACCES", "ERANGE"]),
          ("realpath", ["EACCES", "EIO"]), ("mkdtemp", ["EACCES", "ENOSPC", "EROFS"]), ("opendir", ["EACCES", "EMFILE", "ENOMEM"]), ("readdir", ["EIO", "EBADF"]), ("stat", ["EACCES", "EIO", "EOVERFLOW"]), ("access", ["EACCES", "EROFS", "EIO"])]

class C07(Prop):
    id = "C07"
    quick = 9000
    thorough = 180000
    technique = "random operation sequences on a simulated file system with failing calls, compared step by step with a reference file system"
    rule = "A case is non-trivial when at least one operation changed the tree and one reported an error."
    assumptions = ["the interpreter runs as the superuser with umask 022, so permission bits are stored but do not refuse anything; refusals are injected instead",
                   "paths contain no backslashes (mkdirAll treats them as separators) and no NUL characters"]
    def gen(self, rng, i, tier):
        ops = []; dirs = ["a", "/w/a", "ldir", "/w", "a/b", ".."]
        for _ in range(rng.choice([4, 8, 12, 20, 30])):
            k = rng.choices(["mkdir", "mkdirAll", "rmdir", "remove", "rename", "chmod", "chown", "setCWD", "getCWD", "access", "exists", "isDir", "listDir", "realpath", "mkdirTemp", "create"],
                            [5, 4, 3, 3, 4, 2, 1, 3, 2, 2, 3, 3, 4, 3, 1.5, 3])[0]
            p = path(rng, dirs); o = [k, p]
            if k in ("mkdir", "mkdirAll"):
                o.append(rng.choice([-1, -1, 0o777, 0o700, 0o755, 0o1777, 0o500, 0]))
                if len(p) < 300: dirs.append(p.rstrip("/") or "/")
            elif k == "rename": o.append(path(rng, dirs))
            elif k == "chmod": o.append(rng.choice(["755", "0644", "0", "7777", "1700", "600"]))
            elif k == "chown": o += [rng.choice([0, 1000, 65534]), rng.choice([0, 1000])]
            elif k == "access": o.append(rng.choice([0, 0, 1, 2, 4, 6, 7, 8]))
            elif k == "listDir" and rng.random() < 0.25: o = [k, None]
            elif k == "mkdirTemp": o[1] = rng.choice([None, "", "XXXXXX", "a/tXXXXXX", "/w/kXXXXXX", "noexist/XXXXXX", "short", "XXXXX", "pre_XXXXXXsuf", "t%d_XXXXXX", "q" * 240 + "XXXXXX"])
            ops.append(o)
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                c, es = rng.choice(FAULTS); faults.append([c, rng.choice(es), rng.choice([50000, 200000, 600000])])
        return {"ops": ops, "faults": faults, "gc": rng.randrange(1 << 30), "order": rng.choice([0, 300000])}
    def call(self, o):
        k, a = o[0], o[1:]
        m = "Path" if k in ("exists", "isDir", "listDir", "realpath") else "System"
        if k == "create": return "with(%s, \"w\") { P(file.write(\"data\")); }" % lit(a[0])
        if k in ("mkdir", "mkdirAll") and a[1] < 0: a = a[:1]
        if a and a[0] is None or k == "getCWD": a = []
        return "P(%s.%s(%s));" % (m, k, ", ".join(lit(x) if isinstance(x, str) else str(x) for x in a))
    def tree(self, s, fs):
        def d(p, mode=0o755):
            if s: s.dir(p, mode)
            fs.put(p, Ino("dir", mode))
        def f(p, b):
            if s: s.file(p, b)
            fs.put(p, Ino("file", 0o644, b))
        def l(p, t):
            if s: s.symlink(p, t)
            fs.put(p, Ino("lnk", 0o777, t.encode()))
        for p, m in (("/tmp", 0o777), ("/root", 0o755), ("/dev", 0o755)): fs.put(p, Ino("dir", m))
        fs.put("/dev/null", Ino("file", 0o666))
        d("/w"); d("/w/a"); d("/w/a/b"); f("/w/a/b/x", b"1"); f("/w/x", b"two"); f("/w/a/a.txt", b"")
        l("/w/lnk", "x"); l("/w/ldir", "a/b"); l("/w/dang", "nowhere"); l("/w/loop", "loop"); l("/w/a/lnk", "/w/x")
        d("/w/c"); f("/w/..data", b""); f("/w/a/.hid", b"h"); d("/w/a/..."); f("/w/\u00fc", b"u")
    def scenarios(self, case):
        s = Scn(); self.tree(s, FS())
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        s.item(0, "m", "import System; import Path;" + PRELUDE + "System.access(\"/.sim/armfaults\", 0);")
        for i, o in enumerate(case["ops"]):
            s.item(0, "m", "System.access(\"/.sim/o%d\", 0); print(\"#%d\"); %s" % (i, i, self.call(o)))
        s.item(0, "m", "System.access(\"/.sim/o9999\", 0);")
        for c, e, p in case["faults"]: s.fault(c, e, p)
        s.opt(dump=1, fault_wait=1, dirorder_ppm=case["order"])
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]; out = []
        fs = FS(); self.tree(None, fs); fs.cwd = fs.need("/w")
        self.evs = {}; at = -1
        for l in r.lines:
            if l.startswith("FDS o"): at = int(l.split()[1][1:])
            elif l.startswith("EV mkdir "): self.evs.setdefault(at, set()).add(l)
        # outputs and faults per operation
        faults = {}; at = -1
        for e in r.seq:
            if e[0] == "fds" and e[1]["why"].startswith("o"): at = int(e[1]["why"][1:])
            elif e[0] == "fault": faults.setdefault(at, []).append(e[1].split()[-1])
        text = r.out[0]; got = {}
        pos = 0
        for i in range(len(case["ops"])):
            m = b"#%d\n" % i; k = text.find(m, pos)
            if k < 0: return [("protocol", "no output for operation %d: %s" % (i, r.serr[0][-300:]))]
            nx = text.find(b"#%d\n" % (i + 1), k); got[i] = text[k + len(m):nx if nx >= 0 else len(text)]; pos = k
        changed = errors = 0
        for i, o in enumerate(case["ops"]):
            k = o[0]; fl = faults.get(i, []); names = [f for f in fl]
            rterr = r.results[0][i + 1] != 0
            vals, rest = parse_values(got[i])
            desc = "operation %d %s: " % (i, self.call(o)[:200])
            if rterr:
                if k == "listDir" or k == "create":
                    exp = self.model(fs, o, dry=True)
                    if exp[0] == "ok" and not fl: out.append(("spurious-error", desc + "raised an error: %s" % r.serr[0][-200:])); return out
                    errors += 1
                    continue
                out.append(("raised", desc + "raised a runtime error: %s" % r.serr[0][-200:])); return out
            if len(vals) != 1: out.append(("protocol", desc + "printed %r" % got[i][:200])); return out
            v = vals[0]
            exp = self.model(fs, o, dry=True)
            if k in ("exists", "isDir"):
                want = ("V", "true" if exp[1] else "false")
                if v != want and not (fl and v == ("V", "false")): out.append(("predicate", desc + "returned %s, expected %s" % (v, want))); return out
                continue
            if isinstance(v, tuple) and v[0] == "E":
                if k == "mkdirAll" and fl: fl = fl + ["EEXIST"]     # what mkdir said about a parent that then cannot be examined
                errors += 1
                msg = v[1].decode("utf-8", "replace")
                allowed = set(strerror(n) for n in (exp[1] if exp[0] == "err" else ()))
                allowed |= set(strerror(n) for n in fl)
                if not allowed: out.append(("spurious-error", desc + "reported %r where nothing failed" % msg)); return out
                if msg not in allowed: out.append(("reason", desc + "reported %r, the failure was %s" % (msg, sorted(allowed)))); return out
                if k == "mkdirAll": self.partial(fs, o, i)
                continue
            if exp[0] == "err": out.append(("false-success", desc + "reported success (%s) but must fail with %s" % (v, exp[1]))); return out
            if k == "listDir":
                if sorted(x if isinstance(x, bytes) else str(x).encode() for x in v) != sorted(x.encode() for x in exp[1]): out.append(("listing", desc + "returned %s, the directory holds %s" % (v, sorted(exp[1])))); return out
                continue
            if k == "create":
                self.model(fs, o); changed += 1; continue
            if not (isinstance(v, tuple) and v[0] == "R"): out.append(("value", desc + "returned %r" % (v,))); return out
            v = v[1]
            if k == "mkdirTemp":
                t = o[1] or "XXXXXX"; n = v.decode("utf-8", "replace") if isinstance(v, bytes) else str(v)
                if n[:len(t) - 6] != t[:-6] or len(n) != len(t) or not re.fullmatch(r"[A-Za-z0-9]{6}", n[-6:]): out.append(("value", desc + "returned %r" % n)); return out
                try: fs.mkdir(n, 0o700)
                except E as e: out.append(("value", desc + "returned %r, which cannot have been created now" % n)); return out
                changed += 1; continue
            res = self.model(fs, o)
            want = ("V", "nil") if res[1] is None else res[1].encode()
            if v != want: out.append(("value", desc + "returned %s, expected %s" % (v, want))); return out
            if k in ("mkdir", "mkdirAll", "rmdir", "remove", "rename", "chmod", "chown"): changed += 1
        case["_nt"] = changed > 0 and errors > 0
        # the tree at the end
        want = {p: x for p, x in fs.flat().items() if p == "/w" or p.startswith("/w/")}
        have = {p.encode("latin-1").decode("utf-8", "replace"): (x[0], x[1], x[2], x[3], x[4]) for p, x in r.tree.items() if p.startswith("/w/")}
        have.update({p.encode("latin-1").decode("utf-8", "replace"): ("dir", m, u, g, b"") for p, (m, u, g) in r.dirs.items() if p == "/w" or p.startswith("/w/")})
        opt = getattr(fs, "optional", set())
        for p in sorted(set(want) | set(have)):
            a, b = want.get(p), have.get(p)
            if a != b:
                if a is None and p in opt: continue
                out.append(("tree", "%s is %s in the end, expected %s" % (p[:300], b, a))); break
        for e in r.fds:
            if e["why"] in ("preexit", "exit", "o9999"):
                x = [v for f, v in e["fds"].items() if f > 2]
                if x: out.append(("left-open", "descriptors left open: %s" % x)); break
        return out
    def partial(self, fs, o, i0):
        """parents a failed recursive creation may have left behind: taken over from what was observed"""
        evs = self.evs.get(i0, ())
        fs.optional = getattr(fs, "optional", set())
        p = o[1]; parts = p.rstrip("/").split("/")
        for k in range(1, len(parts) + 1):
            pre = "/".join(parts[:k])
            if not pre: continue
            i, par, l, t, e = fs.walk(pre, False)
            if i is not None: continue
            if e != "ENOENT" or par is None: return
            # present in the simulated tree? ask the event log for this creation
            if "EV mkdir %s" % pct(pre) in evs and k < len(parts):
                mode = 0o777 if o[2] < 0 else o[2]
                try: fs.mkdir(pre, mode)
                except E: return
            else: return
    def model(self, fs, o, dry=False):
        """('ok', value) or ('err', errnos); with dry the tree is left alone"""
        import copy as cp
        f = fs
        if dry and o[0] in ("mkdir", "mkdirAll", "rmdir", "remove", "rename", "chmod", "chown", "setCWD", "create", "mkdirTemp"):
            f = cp.deepcopy(fs)
        try: return ("ok", self.run(f, o))
        except E as e: return ("err", e.n)
    def run(self, fs, o):
        k = o[0]; p = o[1]
        if k == "mkdir": return fs.mkdir(p, 0o777 if o[2] < 0 else o[2])
        if k == "mkdirAll":
            m = 0o777 if o[2] < 0 else o[2]
            parts = p.rstrip("/").split("/")
            if not p: raise E("ENOENT")
            for n in range(1, len(parts)):
                pre = "/".join(parts[:n])
                if not pre: continue
                i = fs.walk(pre, True)[0]
                if i is not None:
                    if i.t != "dir": raise E("EEXIST", "ENOTDIR")
                    continue
                try: fs.mkdir(pre, m)
                except E as e: raise E(*(set(e.n) | {"ENOTDIR", "ENOENT"} if "EEXIST" in e.n else e.n))
            return fs.mkdir("/".join(parts) or "/", m)
        if k == "rmdir": return fs.unlink(p, "dir")
        if k == "remove": return fs.unlink(p, "file")
        if k == "rename": return fs.rename(p, o[2])
        if k == "chmod": fs.need(p).mode = int(o[2], 8) & 0o7777; return None
        if k == "chown": i = fs.need(p); i.uid, i.gid = o[2], o[3]; return None
        if k == "setCWD":
            i = fs.need(p)
            if i.t != "dir": raise E("ENOTDIR")
            fs.cwd = i; return None
        if k == "getCWD":
            if not fs.cwd.live: raise E("ENOENT")
            c = fs.path(fs.cwd)
            if len(c.encode()) + 1 > 4096: raise E("ERANGE")
            return c
        if k == "access":
            i = fs.need(p)
            if o[2] & ~7: raise E("EINVAL")
            if o[2] & 1 and i.t == "file" and not i.mode & 0o111: raise E("EACCES")
            return None
        if k == "exists": return fs.walk(p)[0] is not None
        if k == "isDir": i = fs.walk(p)[0]; return i is not None and i.t == "dir"
        if k == "listDir":
            i = fs.need("." if p is None else p)
            if i.t != "dir": raise E("ENOTDIR")
            return list(i.ents)
        if k == "realpath":
            i, par, l, t, e = fs.walk(p)
            if i is None: raise E(e)
            c = fs.path(i) if i.t == "dir" else fs.path(par).rstrip("/") + "/" + l
            if len(c.encode()) >= 4096: raise E("ENAMETOOLONG")
            return c
        if k == "mkdirTemp":
            t = p or "XXXXXX"
            if len(t) < 6 or not t.endswith("XXXXXX"): raise E("EINVAL")
            return fs.mkdir(t[:-6] + "\x01\x01\x01\x01\x01\x01", 0o700)
        if k == "create":
            i, par, l, t, e = fs.walk(p)
            if i is not None:
                if i.t == "dir": raise E("EISDIR")
                i.data = b"data"; return 4
            if e != "ENOENT" or par is None: raise E(e)
            if t: raise E("EISDIR")
            if not par.live: raise E("ENOENT")
            fs.add(par, l, Ino("file", 0o644, b"data")); return 4
    def nontrivial(self, case, rs):
        return case.pop("_nt", False)
    def probes(self, case, rs):
        return {"operations": len(case["ops"]), "cases with faults": int(bool(rs[0].faults))}

PROP = C07()
