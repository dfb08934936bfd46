"""C06: a with block closes its file on every way out, exactly once, and nothing else."""
from fw import *
from simlib import *

class Budget(Exception): pass

class Gen:
    def __init__(self, rng):
        self.rng = rng; self.n = 0; self.marks = 0
    def body(self, depth, loops, infn, files, vars_):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            if out and out[-1][0] == "with" and loops and r.random() < 0.35: out.append([r.choice(["break", "continue"])])
            else: out.append(self.stmt(depth, loops, infn, files, vars_))
            if out[-1][0] in ("break", "continue", "return", "returnv"): break
        return out
    def stmt(self, depth, loops, infn, files, vars_):
        r = self.rng
        w = [("mark", 3)]
        if files: w += [("write", 2), ("shadow", 0.4), ("closure", 0.4), ("escape", 0.15)]
        if depth > 0: w += [("with", 4), ("while", 2), ("for", 2), ("if", 3), ("block", 0.7), ("switch", 0.6), ("foreach", 0.5)]
        w += [("decl", 0.6), ("decl2", 0.3), ("pad", 0.2)]
        if loops: w += [("break", 1.2), ("continue", 1.2)]
        if infn: w += [("return", 0.8), ("returnv", 0.8)]
        if self.fns and not infn: w += [("call", 2)]
        if self.fns and infn and self.level: w += [("call", 1)]
        w += [("mod", 0.15), ("error", 0.05)]
        k = r.choices([a for a, _ in w], [b for _, b in w])[0]
        self.n += 1; i = self.n
        if k == "mark": return ["mark", i]
        if k == "write": return ["write", "w%d;" % i]
        if k == "with": return ["with", r.choice("abc"), r.choice(["a", "a", "a", "a+", "r+", "r"]), [["mark", i * 1000]] + self.body(depth - 1, loops, infn, files + 1, vars_)]
        if k == "while": return ["while", i, r.choice([1, 2, 3]), self.body(depth - 1, loops + 1, infn, files, vars_ + [i])]
        if k == "for": return ["for", i, r.choice([1, 2, 3]), self.body(depth - 1, loops + 1, infn, files, vars_ + [i])]
        if k == "foreach": return ["foreach", i, r.choice([1, 2]), self.body(depth - 1, 0, False, files, vars_)]
        if k == "if": return ["if", r.choice(vars_) if vars_ and r.random() < 0.85 else 0, r.choice([0, 1, 1, 2]), self.body(depth - 1, loops, infn, files, vars_), self.body(depth - 1, loops, infn, files, vars_) if r.random() < 0.3 else []]
        if k == "block": return ["block", self.body(depth - 1, loops, infn, files, vars_)]
        if k == "switch": return ["switch", r.choice(vars_) if vars_ else 0, self.body(depth - 1, loops, infn, files, vars_), self.body(depth - 1, loops, infn, files, vars_)]
        if k == "shadow": return ["shadow", self.body(max(0, depth - 1), loops, infn, 0, vars_)]
        if k == "call": return ["call", r.choice([f for f in self.fns])]
        if k == "pad": return [k, i, r.randint(1, 40)]
        if k in ("decl", "decl2", "closure", "escape"): return [k, i]
        return [k]
    def program(self):
        r = self.rng
        self.fns = []; self.level = 0
        fns = []
        for f in range(r.choice([0, 1, 1, 2, 3])):
            kind = r.choice(["def", "def", "method", "init", "arrow", "static"])
            self.level = 1 if f else 0
            b = self.body(r.choice([2, 3, 4]), 0, True, 0, [])
            if r.random() < 0.35: b.insert(0, ["pad", 0, r.randint(1, 50)])
            fns.append([f, kind, b]); self.fns.append(f)
        main = []
        for _ in range(r.choice([2, 3, 4])):
            main.append(self.stmt(r.choice([2, 3, 4]), 0, False, 0, []))
        main.append(["mark", 999999])
        return {"fns": fns, "main": main}

def valid(p):
    """an initialiser returns no value"""
    def fix(b, init):
        for s in b:
            if init and s[0] == "returnv": s[0] = "return"
            for x in s:
                if isinstance(x, list): fix(x, init and s[0] != "foreach")
    for f in p["fns"]: fix(f[2], f[1] == "init")
    return p

def emit(p):
    kinds = {f[0]: f[1] for f in p["fns"]}
    def stmts(b, ind):
        return "".join("  " * ind + stmt(s, ind) + "\n" for s in b)
    cnt = [0]
    def cond(v, c): return "%s == %d" % ("i%d" % v if v else "1", c)
    def stmt(s, ind):
        k = s[0]
        if k == "mark": return "System.access(\"/.sim/m%d\", 0);" % s[1]
        if k == "write": return "file.write(\"%s\");" % s[1]
        if k == "with": return "with(\"%s\", \"%s\") {\n%s%s}" % (s[1], s[2], stmts(s[3], ind + 1), "  " * ind)
        if k == "while": return "var i%d = 0; while (i%d < %d) { i%d += 1;\n%s%s}" % (s[1], s[1], s[2], s[1], stmts(s[3], ind + 1), "  " * ind) if False else \
            "{ var i%d = 0; while (i%d < %d) { i%d += 1;\n%s%s} }" % (s[1], s[1], s[2], s[1], stmts(s[3], ind + 1), "  " * ind)
        if k == "for": return "for (var i%d = 0; i%d < %d; i%d += 1) {\n%s%s}" % (s[1], s[1], s[2], s[1], stmts(s[3], ind + 1), "  " * ind)
        if k == "foreach": return "[%s].forEach(def (e%d) => {\n%s%s});" % (", ".join(str(x) for x in range(s[2])), s[1], stmts(s[3], ind + 1), "  " * ind)
        if k == "if":
            r = "if (%s) {\n%s%s}" % (cond(s[1], s[2]), stmts(s[3], ind + 1), "  " * ind)
            if s[4]: r += " else {\n%s%s}" % (stmts(s[4], ind + 1), "  " * ind)
            return r
        if k == "block": return "if (true) {\n%s%s}" % (stmts(s[1], ind + 1), "  " * ind)
        if k == "switch": return "switch (%s) {\n case 1: {\n%s}\n default: {\n%s}\n%s}" % ("i%d" % s[1] if s[1] else "0", stmts(s[2], ind + 1), stmts(s[3], ind + 1), "  " * ind)
        if k == "shadow": return "if (true) { var file = 5;\n%s%s}" % (stmts(s[1], ind + 1), "  " * ind)
        if k == "call":
            f = s[1]
            return {"def": "f%d();", "arrow": "f%d();", "method": "K%d().m();", "init": "K%d();", "static": "K%d.m();"}[kinds[f]] % f
        cnt[0] += 1; u = cnt[0]
        if k == "decl": return "var d%d = %d;" % (s[1] * 100 + u, s[1])
        if k == "pad": return " ".join("var p%d_%d;" % (u, q) for q in range(s[2]))
        if k == "decl2": return "if (true) { var e%d = [1, 2]; e%d.push(3); }" % (u, u)
        if k == "closure": return "const c%d = def () => { return file; };" % u
        if k == "escape": return "esc = file;"
        if k == "return": return "return;"
        if k == "returnv": return "return \"v\".upper();"
        if k == "mod": return "from Mod import bump; bump();" if False else "bump();"
        if k == "error": return "nil.oops();"
        return k + ";"
    o = ["import System;", "var esc = nil;", "var n = 0;", "def bump() { n += 1; }"]
    for f, kind, b in p["fns"]:
        t = stmts(b, 2)
        if kind == "def": o.append("def f%d() {\n%s}" % (f, t))
        elif kind == "arrow": o.append("const f%d = def () => {\n%s};" % (f, t))
        elif kind == "method": o.append("class K%d { m() {\n%s} }" % (f, t))
        elif kind == "init": o.append("class K%d { init() {\n%s} }" % (f, t))
        else: o.append("class K%d { static m() {\n%s} }" % (f, t))
    o.append(stmts(p["main"], 0))
    return "\n".join(o)

class RuntimeErr(Exception): pass

def model(p, openfails=None, exists=("a", "b", "c")):
    """runs the program; returns marks [(id, sorted open paths)], contents, error?"""
    fns = {f[0]: f for f in p["fns"]}
    st = {"steps": 0, "opens": 0}
    opened = []                    # stack of open handles: [path, mode, pos]
    content = {x: b"0123456789" for x in exists}
    marks = []; esc = [None]
    def run(b, env, file):
        for s in b:
            st["steps"] += 1
            if st["steps"] > 400: raise Budget()
            k = s[0]
            if k == "mark": marks.append((s[1], sorted(h[0] for h in opened)))
            elif k == "write":
                if file is None: raise Budget()
                if file[1] == "r": raise RuntimeErr()
                d = s[1].encode()
                c = content[file[0]]
                if file[1] == "r+": pos = file[2]
                else: pos = len(c)
                content[file[0]] = c[:pos] + d + c[pos + len(d):]; file[2] = pos + len(d)
            elif k == "with":
                st["opens"] += 1
                if openfails and st["opens"] in openfails: raise RuntimeErr()
                h = [s[1], s[2], 0]; opened.append(h)
                r = run(s[3], env, h)
                opened[:] = [x for x in opened if x is not h]
                if r: return r
            elif k in ("while", "for"):
                for i in range(s[2]):
                    e = dict(env); e[s[1]] = i + 1 if k == "while" else i
                    r = run(s[3], e, file)
                    if r == "break": break
                    if r == "return": return r
            elif k == "foreach":
                for i in range(s[2]): run(s[3], dict(env), file)
            elif k == "if":
                r = run(s[3] if (env[s[1]] if s[1] else 1) == s[2] else s[4], env, file)
                if r: return r
            elif k == "block":
                r = run(s[1], env, file)
                if r: return r
            elif k == "shadow":
                r = run(s[1], env, None)
                if r: return r
            elif k == "switch":
                r = run(s[2] if (env[s[1]] if s[1] else 0) == 1 else s[3], env, file)
                if r: return r
            elif k == "call": run(fns[s[1]][2], {}, None)
            elif k == "break": return "break"
            elif k == "continue": return "continue"
            elif k in ("return", "returnv"): return "return"
            elif k == "error": raise RuntimeErr()
            elif k == "escape":
                if file is None: raise Budget()
        return None
    err = False
    try: run(p["main"], {}, None)
    except RuntimeErr: err = True
    return marks, content, err

class C06(Prop):
    id = "C06"
    quick = 40000
    thorough = 220000
    rule = "A case is non-trivial when at least two files were opened by with blocks."
    def gen(self, rng, i, tier):
        while True:
            p = valid(Gen(rng).program())
            try: m, c, e = model(p)
            except (Budget, RecursionError, KeyError): continue
            if len(m) < 2 or not any(x[1] for x in m): continue
            break
        faults = []
        r = rng.random()
        if r < 0.15: faults.append(["close", rng.choice(["EIO", "EINTR", "ENOSPC"]), 300000])
        elif r < 0.3: faults.append(["open", rng.choice(["EMFILE", "EACCES", "ENFILE", "EINTR"]), 150000])
        elif r < 0.45: faults.append(["write", "short", 500000])
        use = rng.random()
        tail = None
        if use < 0.12: tail = rng.choice(["esc.write(\"zz\");", "esc.read();", "esc.readLine();", "esc.writeLine(\"zz\");", "esc.seek(0);"])
        return {"p": p, "faults": faults, "gc": rng.randrange(1 << 30), "tail": tail, "main": rng.random() < 0.35}
    def script(self, case):
        s = emit(case["p"])
        if case["tail"]:
            s += "\nwith(\"a\", \"a\") { esc = file; }\nSystem.access(\"/.sim/m888888\", 0);\nwith(\"b\", \"r+\") { %s }\nprint(\"unreached\");\n" % case["tail"]
        return s
    def scenarios(self, case):
        s = Scn()
        s.dir("/w")
        for x in "abc": s.file("/w/" + x, b"0123456789")
        src = self.script(case)
        if case["main"]: s.script(0, src)
        else: s.node(0, kind="embed", cwd="/w").args(0, "dictu").item(0, "m", src).item(0, "m", "import System; System.access(\"/.sim/after\", 0);")
        s.opt(dump=1)
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def outside(self, case, rs):    # the documented limits of one function
        return any(any(x in r.serr.get(0, b"") for x in (b"Too many constants in one chunk", b"Too many local variables", b"Loop body too large", b"Too much code")) for r in rs)
    def check(self, case, rs):
        r = rs[0]; out = []
        try: marks, content, err = model(case["p"])
        except (Budget, KeyError): return []
        openfault = any(f.startswith("open E") for f in r.faults)
        got = []
        for e in r.seq:
            if e[0] == "fds":
                if e[1]["why"].startswith("m"):
                    got.append((int(e[1]["why"][1:]), sorted(x[5:] for x in e[1]["fds"].values() if x.startswith("file="))))
        want = list(marks)
        if case["tail"] and not err: want.append((888888, []))
        terr = err or bool(case["tail"])
        for k, (g, w) in enumerate(zip(got, want)):
            if g[0] != w[0]:
                out.append(("path", "statement mark %d reached where %d was expected" % (g[0], w[0]))); return out
            if g[1] != w[1]:
                out.append(("open-files", "at mark %d (number %d) the open files are %s, expected %s" % (g[0], k, g[1], w[1]))); return out
        if len(got) > len(want): out.append(("path", "more statements ran than expected"))
        code = r.exit[0]["code"] if case["main"] else None
        res = (code != 0) if case["main"] else (r.results[0][0] != 0)
        if openfault:
            if not res: out.append(("open", "opening a file failed but the program ended normally"))
            if len(got) >= len(want) and not terr and not case["tail"]: pass
        else:
            if len(got) < len(want): out.append(("path", "the program ended early: %s" % r.serr.get(0, b"")[:300]))
            elif res != terr: out.append(("status", "error=%s expected %s: %s" % (res, terr, r.serr.get(0, b"")[:300])))
            for x in "abc":
                t = r.tree["/w/" + x][4]
                if t != content[x]: out.append(("data", "%s holds %r, expected %r" % (x, t[-80:], content[x][-80:])))
        if b"unreached" in r.out[0]: out.append(("closed-file-used", "an operation on a file whose block had ended was accepted"))
        if not case["main"]:
            for e in r.fds:
                if e["why"] == "exit":
                    left = [x for x in e["fds"].values() if x.startswith("file=")]
                    if left: out.append(("left-open", "files still open after the interpreter was freed: %s" % left))
                if e["why"] == "after" and not err and not openfault and not case["tail"]:
                    left = [x for x in e["fds"].values() if x.startswith("file=")]
                    if left: out.append(("left-open", "files still open after the program: %s" % left))
        return out
    def nontrivial(self, case, rs):
        return rs[0].log.count(b"EV open ") >= 2
    def probes(self, case, rs):
        t = emit(case["p"])
        return {"programs with break/continue": int("break;" in t or "continue;" in t), "with return": int("return" in t), "close faults": sum(f.startswith("close") for f in rs[0].faults)}
    def shrinks(self, case):
        def sub(b):
            for i in range(len(b)):
                yield b[:i] + b[i + 1:]
            for i, s in enumerate(b):
                for j, x in enumerate(s):
                    if isinstance(x, list):
                        for y in sub(x):
                            yield b[:i] + [s[:j] + [y] + s[j + 1:]] + b[i + 1:]
        p = case["p"]
        for m in sub(p["main"]):
            c = dict(case); c["p"] = {"fns": p["fns"], "main": m}; yield c
        for k, f in enumerate(p["fns"]):
            for b in sub(f[2]):
                c = dict(case); c["p"] = {"fns": p["fns"][:k] + [[f[0], f[1], b]] + p["fns"][k + 1:], "main": p["main"]}; yield c
        if case["faults"]:
            c = dict(case); c["faults"] = []; yield c

PROP = C06()
