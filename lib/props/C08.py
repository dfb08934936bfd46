"""C08: a successful file copy is a complete, identical copy."""
from fw import *
from simlib import *

SIZES = [0, 1, 2, 100, 511, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 200000, 300000]

class C08(Prop):
    id = "C08"
    quick = 3500
    thorough = 150000
    technique = "copies over a simulated kernel that splits, interrupts and fails every step; bytes of both files compared after each call"
    rule = "A case is non-trivial when at least one copy reported success."
    assumptions = ["files are not changed by another process while they are copied"]
    def gen(self, rng, i, tier):
        files = {}
        for n in "abc":
            if rng.random() < 0.8: files[n] = [rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(0, 70000), rng.randrange(1000)]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            s = rng.choice(["a", "b", "c", "a", "dir", "nofile", "lna", "dir/../a", "/w/b", "", "dang"])
            d = rng.choice(["a", "b", "c", "new", "new2", "dir", "dir/n", "nodir/x", "lna", "/w/c", "./a", "dang", "/dev/null", "", "hard"])
            if rng.random() < 0.6: s = rng.choice("abc"); d = rng.choice(["a", "b", "c", "new", "new2", "dir/n"])
            ops.append([s, d])
        faults = []
        r = rng.random()
        if r < 0.75:
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = rng.choice(["open", "close", "sendfile", "sendfile", "sendfile", "write", "read", "fstat", "stat", "ftruncate"])
                e = rng.choice(["EIO", "ENOSPC", "EINTR", "EDQUOT", "EAGAIN", "ENOMEM", "EMFILE"]) if c != "sendfile" or rng.random() < 0.6 else "short"
                if c in ("write", "read") and rng.random() < 0.5: e = "short"
                faults.append([c, e, rng.choice([50000, 200000, 500000])])
            if rng.random() < 0.5: faults.append(["sendfile", "short", 600000]); faults.append(["read", "short", 600000]); faults.append(["write", "short", 600000])
        return {"files": files, "ops": ops, "faults": faults, "gc": rng.randrange(1 << 30)}
    def scenarios(self, case):
        s = Scn(); s.dir("/w"); s.dir("/w/dir")
        for n, (k, sd) in case["files"].items(): s.filepat("/w/" + n, k, sd, 0o640)
        s.symlink("/w/lna", "a"); s.symlink("/w/dang", "fresh")
        src = "import System; import IO;" + PRELUDE + "System.access(\"/.sim/armfaults\", 0);\n"
        for i, (a, b) in enumerate(case["ops"]):
            src += "System.access(\"/.sim/o%d\", 0); P(IO.copyFile(%s, %s));\n" % (i, lit(a), lit(b))
            src += "System.access(\"/.sim/cat%s\", 0); System.access(\"/.sim/cat%s\", 0);\n" % (self.real(a), self.real(b))
        src += "System.access(\"/.sim/end\", 0);"
        s.node(0, kind="embed", cwd="/w").args(0, "dictu").item(0, "m", src)
        for f in case["faults"]: s.fault(*f)
        s.opt(dump=1, fault_wait=1)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def real(self, p):
        p = p.replace("dir/../", "").replace("./", "")
        p = {"lna": "a", "dang": "fresh"}.get(p, p)
        return p if p.startswith("/") else "/w/" + p
    def check(self, case, rs):
        r = rs[0]; out = []
        content = {"/w/" + n: patbytes(sd, k) for n, (k, sd) in case["files"].items()}
        if r.results[0] != [0]: return [("raised", "the program ended with an error: %s" % r.serr[0][-300:])]
        vals, rest = parse_values(r.out[0])
        if len(vals) != len(case["ops"]): return [("protocol", "output %r" % r.out[0][-200:])]
        faults = {}; fds = {}; at = -1
        for e in r.seq:
            if e[0] == "fds":
                if e[1]["why"].startswith("o"): at = int(e[1]["why"][1:])
                fds.setdefault(at, e[1])
                last = e[1]
                if e[1]["why"].startswith("o") or e[1]["why"] == "end":
                    x = [v for f, v in e[1]["fds"].items() if f > 2]
                    if x: out.append(("left-open", "descriptors left open: %s" % x)); return out
            elif e[0] == "fault": faults.setdefault(at, []).append(e[1])
        good = 0
        for i, (a, b) in enumerate(case["ops"]):
            v = vals[i]; ra, rb = self.real(a), self.real(b)
            sa, sb = r.cat[2 * i][1], r.cat[2 * i + 1][1]
            fl = faults.get(i, []); hard = [f.split()[-1] for f in fl if f.split()[1] != "short"]
            before = content.get(ra)
            desc = "copy %d of %r to %r: " % (i, a, b)
            possible = a != "" and b != "" and ra in content and ra != rb and rb not in ("/w/dir", "/w/nodir/x")
            if before is not None and sa != before and ra != rb:
                out.append(("source-changed", desc + "the source changed from %d to %s bytes" % (len(before), None if sa is None else len(sa)))); return out
            if v == ("R", ("V", "nil")):
                if ra == rb and ra in content:
                    if sa != before: out.append(("source-changed", desc + "success reported, but the file went from %d to %d bytes" % (len(before), len(sa)))); return out
                    continue
                if not possible: out.append(("false-success", desc + "reported success")); return out
                if rb == "/dev/null": good += 1; continue
                if sb != before:
                    out.append(("incomplete", desc + "success reported; source %d bytes, destination %s bytes, equal up to %d" % (len(before), None if sb is None else len(sb), common(before, sb or b"")))); return out
                content[rb] = before; good += 1
            elif isinstance(v, tuple) and v[0] == "E":
                if possible and not hard: out.append(("spurious-error", desc + "reported %r where nothing failed" % (v[1],))); return out
                if hard and possible and v[1].decode() not in [strerror(h) for h in hard]: out.append(("reason", desc + "reported %r, the failures were %s" % (v[1], hard))); return out
                if ra == rb and before is not None and sa != before: out.append(("source-changed", desc + "the file was changed to %s bytes" % (None if sa is None else len(sa)))); return out
                if ra != rb and rb != "/dev/null":
                    if sb is None: content.pop(rb, None)
                    else: content[rb] = sb          # a failed copy may leave any part behind
            else: out.append(("value", desc + "returned %r" % (v,))); return out
        case["_nt"] = good > 0
        # nothing else changed
        have = {p: x[4] for p, x in r.tree.items() if p.startswith("/w/") and x[0] == "file"}
        for p in sorted(set(have) | set(content)):
            if have.get(p, b"")[:300000] != content.get(p, b"")[:300000]: out.append(("tree", "%s differs in the end" % p)); break
        return out
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        if case["faults"]: yield from drop_parts(case, "faults")

def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y: break
        n += 1
    return n

PROP = C08()
