"""C20: a module is executed exactly once and resolves relative to its importer."""
import posixpath
from fw import *
from simlib import *

DIRS = ["/w/src", "/w/src/sub", "/w/lib", "/w/lib/deep/er", "/w/other", "/w"]
BAD = {"bad": "/w/lib/bad.du", "dir": "/w/lib/deep", "miss": "/w/lib/missing.du", "rt": "/w/lib/rt.du", "empty": "/w/lib/empty.du", "badin": "/w/lib/badin.du"}
BLT = ["import Env; print(Env.get(\"nope\"));", "from Math import pi; print(pi > 3);", "from UnitTest import UnitTest; print(type(UnitTest));", "import Object; print(type(Object));", "import Random; print(Random.range(3, 3));",
       "from JSON import parse, stringify; print(stringify([1]).unwrap());", "import HTTP; print(type(HTTP));", "import Argparse; print(type(Argparse));", "{ import Path; print(Path.basename(\"/a/b\")); }", "{ from Env import get; print(get(\"nope\")); }"]
BLTOUT = ["nil", "true", "class", "module", "3", "[1]", "module", "module", "b", "nil"]

class End(Exception): pass

class C20(Prop):
    id = "C20"
    quick = 14000
    thorough = 200000
    technique = "seeded graphs of script and library modules on a simulated filesystem, imported through many spellings, links and working directories, rewritten between imports and with failing opens, reads and resolutions, under seeded collections; output compared with a model of module loading"
    rule = "A case is non-trivial when at least two modules were executed."
    assumptions = ["the script the interpreter is started with is not itself imported", "a module whose code ended in a runtime error counts as executed"]
    # ---------------------------------------------------------------- generation
    def spell(self, rng, frm, to):
        d, b = posixpath.split(to)
        r = rng.random()
        if r < 0.12: p = to
        elif r < 0.2 and d.startswith("/w/lib"): p = posixpath.relpath("/w/lnk" + d[len("/w/lib"):], frm) + "/" + b
        elif r < 0.25 and d.startswith("/w/lib"): p = "/w/src/lnk2" + d[len("/w/lib"):] + "/" + b
        else: p = posixpath.relpath(to, frm)
        if p[0] != "/":
            if rng.random() < 0.3: p = "./" + p
            if rng.random() < 0.1: p = ".//" + p
            if frm == "/w/src" and rng.random() < 0.2: p = "sub/../" + p
            if rng.random() < 0.1: p = "../" + posixpath.basename(frm) + "/" + p
        return p
    def stmts(self, rng, d, nm, n, u0, me):
        out = []; al = []
        for j in range(n):
            r = rng.random(); u = u0 + j; t = rng.randrange(nm)
            if r < 0.32: out.append(["imp", self.spell(rng, d, self.paths[t]), t, u]); al.append((u, t))
            elif r < 0.38: out.append(["plain", self.spell(rng, d, self.paths[t]), t, u])
            elif r < 0.56: out.append(["from", self.spell(rng, d, self.paths[t]), t, u])
            elif r < 0.68 and al: a = rng.choice(al); out.append(["call", a[0], a[1]])
            elif r < 0.82 and al: a = rng.choice(al); out.append(["lazy", a[0], a[1]])
            elif r < 0.89: out.append(["blt", rng.randrange(len(BLT))])
            elif r < 0.93: out.append(["rewrite", t, u])
            elif r < 0.965: out.append(["chdir", rng.choice(DIRS + ["/"])])
            elif r < 0.98 and rng.random() < 0.6: out.append(["dec", u])
            elif r < 0.98 or me < 0: k = rng.choice(["bad", "dir", "miss", "rt", "empty", "badin"]); out.append([k, posixpath.relpath(BAD[k], d), u])
            else: out.append(["file"])
        return out
    def gen(self, rng, i, tier):
        nm = rng.choice([2, 3, 4, 6])
        self.paths = []
        for k in range(nm): self.paths.append(posixpath.join(rng.choice(DIRS), "m%d.du" % k))
        mods = [{"path": self.paths[k], "st": self.stmts(rng, posixpath.dirname(self.paths[k]), nm, rng.choice([0, 1, 2, 3, 5]), 100 * (k + 1), k),
                 "lazy": [[rng.choice(["imp", "from", "plain"]), self.spell(rng, posixpath.dirname(self.paths[k]), self.paths[t]), t, 100 * (k + 1) + 50 + q] for q, t in enumerate(rng.sample(range(nm), min(nm, rng.choice([0, 1, 1, 2]))))]} for k in range(nm)]
        main = rng.choice(["/w/src/main.du", "/w/main.du", "/w/lib/deep/er/main.du"])
        cli = rng.random() < 0.4
        items = [self.stmts(rng, posixpath.dirname(main), nm, rng.choice([1, 2, 4, 6]), 10000 + 100 * q, -1) for q in range(1 if cli else rng.choice([1, 2, 4]))]
        f = []
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.choice(["realpath", "open", "readin", "fstat", "lseek"])
                f.append([c, {"realpath": rng.choice(["EACCES", "ENOMEM", "EIO"]), "open": rng.choice(["EACCES", "EMFILE", "EINTR"]), "readin": "EIO", "fstat": "EIO", "lseek": "EINVAL"}[c], rng.choice([20000, 100000, 400000]), rng.choice([1, 2, 10])])
        decs = rng.sample(DIRS + ["/", "/w/dictu_modules", "/w/src/dictu_modules", "/w/lib/deep/er/dictu_modules"], rng.choice([1, 2, 3, 5]))
        if f: decs = [d for d in decs if not d.endswith("dictu_modules")]
        return {"decs": decs, "mods": mods, "items": items, "main": main, "cli": cli, "cwd": rng.choice(DIRS), "abs": rng.random() < 0.3, "faults": f, "chunk": rng.choice([0, 0, 700000]), "gc": rng.randrange(1 << 30)}
    # ---------------------------------------------------------------- texts
    def stext(self, st, case, ind=""):
        k = st[0]; m = lambda u: "System.access(\"/.sim/i%d\", 0); " % u
        if k == "imp": return m(st[3]) + "import \"%s\" as A%d; print(A%d.n_%d);" % (st[1], st[3], st[3], st[2])
        if k == "plain": return m(st[3]) + "import \"%s\"; print(\"after\");" % st[1]
        if k == "from": return m(st[3]) + "from \"%s\" import n_%d, bump_%d; print(n_%d); print(bump_%d());" % ((st[1],) + (st[2],) * 4)
        if k == "call": return "print(A%d.bump_%d());" % (st[1], st[2])
        if k == "lazy": return "A%d.lazy_%d();" % (st[1], st[2])
        if k == "blt": return BLT[st[1]]
        if k == "rewrite": return m(st[2]) + "with(%s, \"w\") { file.write(%s); } print(\"rewritten\");" % (lit(case["mods"][st[1]]["path"]), lit(self.mtext(case, st[1], 1)))
        if k == "chdir": return "System.setCWD(%s);" % lit(st[1])
        if k == "file": return "print(__file__);"
        if k == "dec": return m(st[1]) + "import \"decoy.du\"; print(\"past\");"
        return m(st[2]) + "import \"%s\"; print(\"passed\");" % st[1]
    def mtext(self, case, k, ver):
        m = case["mods"][k]
        lz = "print(\"lazy %d\");" % k
        for st in m["lazy"]: lz += " { " + self.stext(st, case) + " }"
        t = "import System; print(\"enter %d.%d\"); var n_%d = %d; def bump_%d() { n_%d += 1; return n_%d; } def lazy_%d() { %s }\n" % (k, ver, k, 1000 * ver + 10 * k, k, k, k, k, lz)
        if ver == 0:
            for st in m["st"]: t += self.stext(st, case) + "\n"
        return t + "print(\"leave %d\");\n" % k
    def itext(self, case, q): return "import System; print(\"@@\");\n" + "\n".join(self.stext(st, case) for st in case["items"][q]) + "\nprint(\"end\");"
    def scenarios(self, case):
        s = Scn()
        for d in DIRS: s.dir(d)
        s.symlink("/w/lnk", "lib"); s.symlink("/w/src/lnk2", "../lib")
        for k, m in enumerate(case["mods"]): s.file(m["path"], self.mtext(case, k, 0).encode())
        s.file(BAD["bad"], b"print(\"never\"); var = 3;\n"); s.file(BAD["rt"], b"print(\"in rt\");\nnil.foo();\n"); s.file(BAD["empty"], b"")
        s.file(BAD["badin"], b"print(\"in badin\");\ndef f() {\n  import \"bad.du\";\n}\nf();\nprint(\"never\");\n")
        if case["cli"]:
            s.file(case["main"], self.itext(case, 0).encode())
            s.node(0, cwd=case["cwd"]).args(0, "dictu", case["main"] if case["abs"] else posixpath.relpath(case["main"], case["cwd"]))
        else:
            s.file(case["main"], b"")
            s.node(0, kind="embed", cwd=case["cwd"]).args(0, "dictu")
            for q in range(len(case["items"])): s.item(0, case["main"] if case["abs"] else posixpath.relpath(case["main"], case["cwd"]) if q == 0 else case["main"], self.itext(case, q))
        for d in case.get("decs", []):
            if d.endswith("dictu_modules"): s.dir(d)
            s.file(posixpath.join(d, "decoy.du"), b"print(\"decoy %s\");\n" % d.encode())
        for f in case["faults"]: s.fault(*f)
        s.opt(chunk_ppm=case["chunk"], step_cap=3000000)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    # ---------------------------------------------------------------- model
    def check(self, case, rs):
        r = rs[0]
        fl = []; fresh = True; early = False
        for e in r.seq:
            if e[0] == "fds" and e[1]["why"][:1] == "i" and e[1]["why"][1:].isdigit(): fl.append([int(e[1]["why"][1:]), []]); fresh = False
            elif e[0] == "ev" and e[1].startswith("node=0 item"): fresh = True
            elif e[0] == "fault" and e[1].split()[1] != "short":
                if not fresh: fl[-1][1].append(e[1])
                else: early = True
        if early: return []           # the directory of an input itself could not be determined
        texts = r.out.get(0, b"").split(b"@@\n")
        if len(texts) != len(case["items"]) + 1 or texts[0]: return [("output", "%d of %d inputs produced output %r" % (len(texts) - 1, len(case["items"]), texts[0][:80]))]
        codes = r.results.get(0) if not case["cli"] else [{0: 0, 65: 1, 70: 2}.get(r.exit[0]["code"], r.exit[0])]
        ver = [0] * len(case["mods"]); loaded = {}; n = {}; mainal = {}; special = set(); nm = len(case["mods"])
        inst = [0]; execd = 0; cwd = [case["cwd"]]
        main = None
        for q, sts in enumerate(case["items"]):
            out = []; got = texts[q + 1]
            say = lambda x: out.append(str(x))
            def flush(): return ("".join(x + "\n" for x in out)).encode()
            def mark(u):
                """True when this step met a failure and the input ended with it"""
                j = inst[0]; inst[0] += 1
                if j >= len(fl) or fl[j][0] != u: raise Bad("step %d of the model is %d, of the run %r" % (j, u, fl[j] if j < len(fl) else None))
                return bool(fl[j][1]) and codes[q] != 0 and flush() == got
            class Bad(Exception): pass
            def run(k):
                loaded[k] = True; v = ver[k]; al = {}
                say("enter %d.%d" % (k, v)); n[k] = 1000 * v + 10 * k; vers[k] = v
                if v == 0: body(case["mods"][k]["st"], al, case["mods"][k]["path"])
                say("leave %d" % k)
            def imp(t, u, who):
                if mark(u): raise End(who)
                if t not in loaded: run(t)
            def body(sts, al, who):
                for st in sts:
                    k = st[0]
                    if k == "imp": imp(st[2], st[3], who); al[st[3]] = st[2]; say(n[st[2]])
                    elif k == "plain": imp(st[2], st[3], who); say("after")
                    elif k == "from":
                        imp(st[2], st[3], who); say(n[st[2]])
                        n[st[2]] += 1; say(n[st[2]])
                    elif k == "call":
                        if st[1] not in al: raise End(who)
                        n[st[2]] += 1; say(n[st[2]])
                    elif k == "lazy":
                        if st[1] not in al: raise End(who)
                        say("lazy %d" % st[2])
                        for s2 in case["mods"][st[2]]["lazy"]: body([s2], {}, case["mods"][st[2]]["path"])
                    elif k == "blt": say(BLTOUT[st[1]])
                    elif k == "rewrite":
                        if mark(st[2]): raise End(who)
                        ver[st[1]] = 1; say("rewritten")
                    elif k == "chdir": cwd[0] = st[1]
                    elif k == "dec":
                        if mark(st[1]): raise End(who)
                        d = posixpath.dirname(who)
                        if d not in case["decs"]: d = posixpath.join(cwd[0], "dictu_modules")
                        if d not in case["decs"]: raise End(who)
                        if ("dec", d) not in special: special.add(("dec", d)); say("decoy " + d)
                        say("past")
                    elif k == "file": say(who)
                    else:
                        if mark(st[2]): raise End(who)
                        if k in ("miss", "dir", "bad"): raise End(who)
                        if k == "rt" and k not in special: special.add(k); say("in rt"); raise End(BAD["rt"])
                        if k == "badin" and k not in special: special.add(k); say("in badin"); raise End(BAD["badin"])
                        say("passed")
            vers = {}
            want = 0; who = None
            try:
                body(sts, mainal, case["main"]); say("end")
            except End as e: want = 2; who = str(e)
            except Bad as e:
                g = flush(); c = 0
                return [("order", "input %d: %s; output so far expected %r, got %r" % (q, e, g[-120:], got[:len(g) + 80][-200:]))]
            except RecursionError: return []
            w = flush()
            if got != w:
                c = next((j for j, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
                return [("module", "input %d: after %r expected %r, got %r (code %r) %r" % (q, w[max(0, c - 60):c], w[c:c + 80], got[c:c + 80], codes[q], r.serr.get(0, b"")[-200:]))]
            if (codes[q] != 0) != (want != 0) or codes[q] not in (0, 1, 2): return [("code", "input %d ended with code %r, expected %s" % (q, codes[q], "an error" if want else "none"))]
            if who and who != case["main"] and who.encode() not in r.serr.get(0, b""): return [("importer", "input %d: the error does not name its importer %s: %r" % (q, who, r.serr.get(0, b"")[-300:]))]
        if inst[0] != len(fl): return [("order", "%d imports were executed where the model has %d" % (len(fl), inst[0]))]
        case["_nt"] = len(loaded) > 1
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        if len(case["items"]) > 1: yield from drop_parts(case, "items")
        for q, it in enumerate(case["items"]):
            for j in range(len(it)): yield dict(case, items=case["items"][:q] + [it[:j] + it[j + 1:]] + case["items"][q + 1:])
        for k, m in enumerate(case["mods"]):
            for w in ("st", "lazy"):
                for j in range(len(m[w])): yield dict(case, mods=case["mods"][:k] + [dict(m, **{w: m[w][:j] + m[w][j + 1:]})] + case["mods"][k + 1:])
        if case["faults"]: yield dict(case, faults=[])
        if case["chunk"]: yield dict(case, chunk=0)

PROP = C20()
