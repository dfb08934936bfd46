"""C22: what a script prints appears exactly once and its exit status is truthful."""
from fw import *
from simlib import *

TXT = ["a", "hello world", "", "z" * 100, "w" * 1023, "w" * 1024, "q" * 4095, "q" * 4096, "q" * 4097, "r" * 9000, "ünï", "%s%d%n%%", "n\0ul", "tab\tx", "two\nlines", "\\back", "{}"]
VALS = [("1", "1"), ("-2.5", "-2.5"), ("true", "true"), ("nil", "nil"), ("[1, 2]", "[1, 2]"), ("\"s\"", "s"), ("[\"s\"]", "[\"s\"]"), ("{\"k\": 1}", "{\"k\": 1}"), ("1000000", "1000000"), ("[]", "[]"), ("[nil, false]", "[nil, false]")]
ENDS = ["ok", "ok", "exit", "exit", "exitfn", "exitmod", "exitwith", "rt", "rtfn", "rtmeth", "rtmod", "rtwith", "assert", "ce", "cemod", "fatal", "fatalln", "missing", "dir", "openfail", "readfail", "sizefail"]
RT = ["nil.foo();", "var zz = 1 + nil;", "undefinedThing;", "[1][5];", "\"a\".nope();", "print(nil());", "{\"a\": 1}[\"b\"].c();", "var qq = -\"x\";"]
RTX = [x for x in RT if not x.startswith("{")]
CE = ["var = 3;", "print(1;", "def (a) {}", "return = 1;", "const 5 = 1;", "if (true { }", "class { }", "print(\"a\" \"b\");"]

class C22(Prop):
    id = "C22"
    quick = 14000
    thorough = 220000
    technique = "scripts that print in every way, start children and end in every way run as simulated processes whose streams are terminals, pipes or small buffers taking any number of bytes; both streams and the exit status compared with a model"
    rule = "A case is non-trivial when the script printed something or ended with a status other than 0."
    assumptions = ["the streams accept all output eventually", "output of children is compared by its own bytes, its place between the script's own output is open"]
    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.choice([0, 1, 3, 6, 10])):
            r = rng.random()
            if r < 0.3: ops.append(["p", rng.choice(TXT)])
            elif r < 0.4: ops.append(["pm", [rng.randrange(len(VALS)) for _ in range(rng.choice([0, 1, 2, 3]))]])
            elif r < 0.52: ops.append(["io", rng.choice(["print", "println"]), [rng.choice(TXT[:9]) for _ in range(rng.choice([1, 2]))]])
            elif r < 0.62: ops.append(["e", rng.choice(TXT[:4] + TXT[10:])])
            elif r < 0.68: ops.append(["loop", rng.choice([3, 50, 700]), rng.choice(["x", "line of text"])])
            elif r < 0.74: ops.append(["fn", rng.choice([1, 3, 30])])
            elif r < 0.84: ops.append(["run", rng.choice(["cap", "pass", "none", "none", "exec", "execnone"])])
            elif r < 0.9: ops.append(["imp"])
            elif r < 0.95: ops.append(["with", rng.choice(TXT[:5])])
            else: ops.append(["log"])
        e = rng.choice(ENDS)
        f = []
        if rng.random() < 0.5: f.append(["writeout", "short", rng.choice([100000, 700000]), 1000000])
        return {"ops": ops, "end": e, "code": rng.choice([0, 1, 2, 3, 65, 70, 71, 74, 127, 128, 254, 255]), "what": rng.randrange(8), "depth": rng.choice([1, 2, 5, 20]), "cmd": e not in ("missing", "dir", "openfail", "readfail", "sizefail") and rng.random() < 0.2,
                "name": rng.choice(["main.du", "sub/prog.du", "/w/sub/prog.du", "x y.du", "noext"]), "faults": f, "tty": rng.random() < 0.3, "outbuf": rng.choice([0, 0, 0, 1, 16, 1024]), "yield": rng.choice([0, 200000]), "gc": rng.randrange(1 << 30)}
    def source(self, case):
        """(text, expected output, expected errors text of printError, line facts)"""
        L = ["import System; import IO; import Process; import Log;", "def down(n, f) { print(\"d\" + n.toString()); if (n > 1) { down(n - 1, f);", "} else { f();", "} print(\"u\" + n.toString()); }", "def nothing() { }",
             "class K { go() {", {"rtmeth": RTX[case["what"] % len(RTX)]}.get(case["end"], "return 1;"), "} }"]
        out = b""; err = b""; passed = []; B = lambda x: x.encode()
        imported = False
        for k, o in enumerate(case["ops"]):
            op = o[0]
            if op == "p": L.append("print(%s);" % lit(o[1])); out += B(o[1]) + b"\n"
            elif op == "pm": L.append("print(%s);" % ", ".join(VALS[v][0] for v in o[1])); out += B("".join(VALS[v][1] + "\n" for v in o[1])) or b"\n"
            elif op == "io": L.append("IO.%s(%s);" % (o[1], ", ".join(lit(x) for x in o[2]))); out += B("".join(x + ("\n" if o[1] == "println" else "") for x in o[2]))
            elif op == "e": L.append("printError(%s);" % lit(o[1])); err += B(o[1]) + b"\n"
            elif op == "loop": L.append("for (var i%d = 0; i%d < %d; i%d += 1) { print(%s, i%d); }" % (k, k, o[1], k, lit(o[2]), k)); out += B("".join("%s\n%d\n" % (o[2], j) for j in range(o[1])))
            elif op == "fn": L.append("down(%d, nothing);" % o[1]); out += B("".join("d%d\n" % j for j in range(o[1], 0, -1)) + "".join("u%d\n" % j for j in range(1, o[1] + 1)))
            elif op == "run":
                if o[1] == "cap": L.append("print(Process.run([\"/cap\"], true).unwrap());"); out += b"captured\n"
                elif o[1] == "pass": L.append("Process.run([\"/pass\"]).unwrap();"); passed.append(b"\x01P\x02")
                elif o[1] == "exec": L.append("Process.exec([\"/exec\"]).unwrap();"); passed.append(b"\x01X\x02")
                else: L.append("print(Process.%s([\"/nope\"]).success());" % ("run" if o[1] == "none" else "exec")); out += b"false\n"
            elif op == "imp":
                L.append("import \"/w/mod.du\" as M%d; print(M%d.v);" % (k, k)); out += (b"" if imported else b"in mod\n") + b"7\n"; imported = True
            elif op == "with": L.append("with(\"/w/data.txt\", \"r\") { print(file.readLine()); print(%s); }" % lit(o[1])); out += b"first\n" + B(o[1]) + b"\n"
            else: L.append("IO.println(\"before\"); Log.print(\"rec\"); print();"); out += b"before\n" + b"\x03rec\n"
        e = case["end"]; ln = len(L) + 1; frames = []; c = case["code"]; w = case["what"]; d = case["depth"]; code = 0
        nm = "repl" if case["cmd"] else case["name"]
        if e == "exit": L.append("System.exit(%d);" % c); code = c
        elif e == "exitfn": L.append("def bye() { System.exit(%d); } down(%d, bye);" % (c, d)); code = c; out += B("".join("d%d\n" % j for j in range(d, 0, -1)))
        elif e == "exitmod": L.append("import \"/w/bye.du\";"); code = c; out += b"bye mod\n"
        elif e == "exitwith": L.append("with(\"/w/data.txt\", \"r\") { print(\"w\"); System.exit(%d); }" % c); code = c; out += b"w\n"
        elif e == "rt": L.append(RT[w % len(RT)] if not RT[w % len(RT)].startswith("{") else "var t = " + RT[w % len(RT)]); code = 70; frames = [("File", nm, ln)]
        elif e == "rtfn":
            L.append("def bad() {"); L.append(RTX[w % len(RTX)]); L.append("}"); L.append("down(%d, bad);" % d); code = 70
            frames = [("bad", nm, ln + 1)] + [("down", nm, 3)] + [("down", nm, 2)] * (d > 1) + [("File", nm, ln + 3)]; out += B("".join("d%d\n" % j for j in range(d, 0, -1)))
        elif e == "rtmeth": L.append("K().go();"); code = 70; frames = [("go", nm, 7), ("File", nm, ln)]
        elif e == "rtmod": L.append("import \"/w/bad.du\";"); code = 70; frames = [("File", "/w/bad.du", 2)]; out += b"bad mod\n"
        elif e == "rtwith": L.append("with(\"/w/data.txt\", \"r\") {"); L.append("print(\"w\");"); L.append(RTX[w % len(RTX)]); L.append("}"); code = 70; frames = [("File", nm, ln + 2)]; out += b"w\n"
        elif e == "assert": L.append("assert(1 == 2);"); code = 70; frames = [("File", nm, ln)]
        elif e == "ce": L.append(CE[w % len(CE)]); code = 65; out = b""; err = b""; passed = []; frames = [("File", nm, ln)]
        elif e == "cemod": L.append("import \"/w/ce.du\";"); code = (65, 70); frames = [("File", "/w/ce.du", 2)]
        elif e in ("fatal", "fatalln"): L.append("Log.%s(\"the end\");" % e); code = 1; out += b"\x03the end" + (b"\n" if e == "fatalln" else b"")
        elif e != "ok": code = 74; out = b""; err = b""; passed = []
        if e != "ok": L.append("print(\"never\");")
        return "\n".join(L) + "\n", out, err, passed, frames, code
    def scenarios(self, case):
        s = Scn(); s.dir("/w"); s.dir("/w/sub")
        s.file("/w/data.txt", b"first\nsecond\n"); s.file("/w/mod.du", b"print(\"in mod\"); var v = 7;\n"); s.file("/w/bye.du", b"import System; print(\"bye mod\"); System.exit(%d);\nprint(\"never\");" % case["code"])
        s.file("/w/bad.du", b"print(\"bad mod\");\nnil.foo();\nprint(\"never\");\n"); s.file("/w/ce.du", b"print(\"never\");\nvar = 1;\n")
        s.prog("/cap", "lit:captured", "exit:0"); s.prog("/pass", "sleep:5", "lit:%01P%02", "exit:0"); s.prog("/exec", "sleep:3", "lit:%01X%02", "exit:3")
        kw = {}
        if case["tty"]: kw["outtty"] = 1
        if case["outbuf"]: kw["outbuf"] = case["outbuf"]
        src = self.source(case)[0].encode(); e = case["end"]
        if case["cmd"]: s.node(0, cwd="/w", **kw).args(0, "dictu", "-c", src.replace(b"\0", b"?"))
        else:
            p = case["name"] if case["name"][0] == "/" else "/w/" + case["name"]
            if e == "dir": s.dir(p)
            elif e != "missing": s.file(p, src)
            s.node(0, cwd="/w", **kw).args(0, "dictu", case["name"])
        for f in case["faults"]: s.fault(*f)
        if e == "openfail": s.fault("open", "EACCES", 1000000, 1)
        if e == "readfail": s.fault("read", "EIO", 1000000, 1)
        if e == "sizefail": s.fault("lseek", "EIO", 1000000, 2)
        s.opt(yield_ppm=case["yield"])
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]; src, out, err, passed, frames, code = self.source(case)
        if case["cmd"] and b"\0" in src.encode(): out = out.replace(b"\0", b"?"); err = err.replace(b"\0", b"?")
        g = r.out.get(0, b""); ge = r.serr.get(0, b""); ex = r.exit[0]
        what = "ending %r%s" % (case["end"], " with -c" if case["cmd"] else "")
        if case["end"] == "sizefail" and not r.faults: return []
        if ex["sig"]: return [("killed", what + ": ended by signal %d" % ex["sig"])]
        if ex["code"] != code and not (isinstance(code, tuple) and ex["code"] in code): return [("status", what + ": exit status %d instead of %r; %r" % (ex["code"], code, ge[-200:]))]
        g = re.sub(rb"Total bytes lost: -?\d+\n", b"", g)
        for p in passed:
            n = g.count(p)
            if n == 0 and p == b"\x01X\x02": continue       # an unwaited child may write after the script ended
            if n != passed.count(p) and not (p == b"\x01X\x02" and n < passed.count(p)): return [("child", what + ": a child's output appears %d times instead of %d" % (n, passed.count(p)))]
        g = g.replace(b"\x01P\x02", b"").replace(b"\x01X\x02", b"")
        g = re.sub(rb"\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (?=rec\n|the end)", b"\x03", g)
        if g != out:
            d = next((j for j, (a, b) in enumerate(zip(g, out)) if a != b), min(len(g), len(out)))
            return [("output", what + ": %d bytes of output instead of %d; after %r comes %r instead of %r" % (len(g), len(out), out[max(0, d - 40):d], g[d:d + 40], out[d:d + 40]))]
        if not ge.startswith(err): return [("errors", what + ": the error stream starts with %r instead of %r" % (ge[:80], err[:80]))]
        ge = re.sub(rb"\x1b\[[0-9;]*m", b"", ge[len(err):])
        if not code or case["end"].startswith("exit") or case["end"].startswith("fatal"):
            if ge: return [("errors", what + ": unexpected errors %r" % ge[:200])]
        elif not ge: return [("diagnostic", what + ": no diagnostic")]
        at = 0
        for f, nm, ln in frames:
            t = ("File '%s', line %d\n" % (nm, ln) if f == "File" else "Function '%s' in '%s', line %d\n" % (f, nm, ln)).encode()
            p = ge.find(t, at)
            if p < 0: return [("diagnostic", what + ": no %r in %r" % (t, ge[:600]))]
            at = p
        if code == 74 and case["end"][:4] != "exit" and case["name"].encode() not in ge: return [("diagnostic", what + ": the diagnostic does not name the script: %r" % ge[:200])]
        case["_nt"] = bool(out) or bool(code)
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        for a, b in (("faults", []), ("tty", False), ("outbuf", 0), ("cmd", False), ("yield", 0), ("name", "main.du"), ("depth", 1)):
            if case[a] != b: yield dict(case, **{a: b})

PROP = C22()
