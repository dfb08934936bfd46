"""C25: a session goes on after an error as if the failing input had stopped there."""
import re
from random import Random
from fw import *
from simlib import *
import progs
from props.C01 import where

ERR = ["nope", "nil.foo()", "1 + \"a\"", "[1][9]", "[1][\"x\"]", "({})[\"q\"]", "K0(1).nope", "K0(1).nope()", "K0()", "f0(1, 2, 3)", "Error(\"x\").unwrap()", "nil[0]", "5()", "set().add([])", "\"a\".repeat(\"b\")", "[].pop()", "Math.floor(\"x\")", "JSON.stringify()",
  "Abs()", "\"\".format(1)", "-\"x\"", "K1(1, 2).secret", "K1(1, 2).secret()", "assert(false)", "Queue.new().pop()", "[1, \"a\", nil].sort()", "[1].map(1)", "[1].join(1)", "[[1]].remove(5)", "[1, 2].reduce(def(a, b) => a + [b])",
  "inf(0)", "Path.realpath(\"/none\").unwrap()", "[1, 2].forEach(def(x) => { nope; })", "[3, 1, 2].sortFunc(def(a, b) => a + nope)", "[1, 2].map(def(x) => [x].map(def(y) => y.nope()))", "[1].filter(def(x) => x())", "\"x\".nope()", "Ec.zzz", "Inspect.getFile(99)", "K0.zzz", "K0.zzz()", "(def() => { nope; })()",
  "Success(1).match(def(x) => nope, def(e) => e)", "Success(1).matchWrap(def(x) => x.y.z, def(e) => e)", "true.x", "(1)[1:2]", "[1, 2][\"a\":]", "f1()", "K0.init", "nil < 1", "\"a\" < 1", "Object.getClassRef()", "[1, 2].find()", "({}).get()", "System.mkdir()", "Env.get()", "\"a\".split()", "K2(1).m(9, 9, 9)", "o0 and nope", "f0(...5)",
  "Sqlite.connect()", "Base64.decode()", "JSON.parse(5)", "[1].extend(5)", "[[1, 2], [3]].map(def(x) => { const [p, q] = x; return nope; })", "Term.nope()", "K1(1, 2).meth()", "deep(30)", "Tr()"]
CERR = ["var = 1;", "print(1", "class Q9 { init( }", "def z9(a, a2 { }", "1 = 2;", "break;", "return 1;", "\"abc", "class X9 { m() { var a = [1, \"q\", ; } }", "@A({\"a\": [1, 2 }) class Y9 {}", "def h9() { var x = \"lit\"; def g() { return x + ; } }", "this.x;", "super.y();", "{ var b = 1; var b = 2; }", "with(\"x\") {",
  "switch (1) { case 1 {} }", "enum { a }", "for (;;", "from Math import ;", "import Nope;", "class C9 { var v = ; }", "trait T9 { init() {} ", "@X class Z9 { @F(1) var a = 1; m( }", "def o9(a=1, b) { }", "if (true) { print(1); } else", "const K9 = 1; K9 = 2;", "abstract class Q8 { abstract m() { } }", "var x9; { var f = def() => { var q = x9 + ; }; }", "[1, 2",
  "{\"a\": }", "f0(,)", "def q7(...r, s) { }", "class W9 < { }", "use Tr;", "class V9 { use ; }", "print(\"x\" \"y\");", "const [a7, b7 = [1, 2];", "while (true) { def w() { break; } }", "continue;", "class S9 { static }", "d0[;", "o0.;", "x ? 1 ;", "not ;", "1 +", "}", ")", "class N9 { init() { super.init(); } }"]

class C25(Prop):
    id = "C25"
    quick = 4500
    thorough = 70000
    same_seed = True
    technique = "seeded sessions (embedded inputs and the interactive prompt) in which inputs fail to compile or end in runtime errors at seeded depths under seeded collections; everything observable compared with the same session in which each failing input ends where its error was"
    rule = "A case is non-trivial when at least one input failed and a later one succeeded."
    assumptions = ["an error in an import leaves the imported module as executed up to the error", "structures that contain themselves are not copied, compared, stringified or printed"]
    # each failing input comes with its counterpart that stops where the error is: [text, counterpart]
    def fail(self, g):
        e = g.c(ERR); x = g.fresh("Z"); A = lambda: g.C(g.A, 1); S = lambda: g.C(g.S, 1)
        k = g.r.randrange(33)
        pre = " ".join(st for st in [g.stmt(1) for _ in range(g.c([0, 1, 2]))] if "import" not in st)
        never = g.c(["s0 = \"never\";", "l0 = [\"never\"];", "print(\"never\");", "d0 = {};", "def f0(x) { return \"never\"; }"])
        if k < 3: return ["%s %s; %s" % (pre, e, never), pre]
        a, s = A(), S()
        if k == 3: return ["%s def er%s(a) { l0.push(a); print(\"in\", a); %s; l0.push(\"never\"); } er%s(%s); %s" % (pre, x, e, x, a, never), "%s def er%s(a) { l0.push(a); print(\"in\", a); } if (er%s(%s)) {}" % (pre, x, x, a)]
        if k == 4: return ["%s [1, 2, 3].forEach(def(x) => { l0.push(x); if (x == 2) { %s; } }); %s" % (pre, e, never), "%s if ([1, 2].forEach(def(x) => { l0.push(x); })) {}" % pre]
        if k == 5: return ["with(\"/w/log\", \"a\") { file.write(%s); %s; file.write(\"never\"); } %s" % (s, e, never), "with(\"/w/log\", \"a\") { file.write(%s); }" % s]
        if k == 6: return ["class E%s { init(a) { this.a = [a]; l0 = [this.a]; %s; l0 = \"never\"; } } o0 = E%s(%s); %s" % (x, e, x, a, never), "class E%s { init(a) { this.a = [a]; l0 = [this.a]; } } if (E%s(%s)) {}" % (x, x, a)]
        if k == 7: return ["{ var a = %s; for (var i = 0; i < 3; i += 1) { var b = [a, i]; l0.push(def() => { b.push(1); return b; }); if (i == 1) { %s; } } } %s" % (a, e, never), "{ var a = %s; for (var i = 0; i < 3; i += 1) { var b = [a, i]; l0.push(def() => { b.push(1); return b; }); if (i == 1) { break; } } }" % a]
        if k == 8: return ["l0 = [s0 = %s, %s];" % (s, e), "s0 = %s;" % s]
        if k == 9: return ["const c%s = %s; var v%s = %s; %s; const d%s = 1;" % (x, a, x, s, e, x), "const c%s = %s; var v%s = %s;" % (x, a, x, s)]
        if k == 10: return ["const c%s = %s;" % (x, e), ""]
        if k == 11: return ["var v%s = %s;" % (x, e), ""]
        if k == 12:
            j = g.r.randrange(4)
            return ["import \"/m/e%d.du\"; %s" % (j, never if j not in g.loaded else ""), "import \"/m/e%d.du\";" % j, j]
        if k == 13: return ["d0[%s] = %s;" % (s, e), "{ const t = %s; }" % s]
        if k == 14: return ["class D%s < %s { var a = %s; const b = %s; m() { return 1; } } %s" % (x, g.c(["nope", "5", "nil", "f0"]), a, s, never), ""]
        if k == 15: return ["def g%s() { var a = [%s]; def h() { a.push(1); %s; } l0 = def() => { a.push(2); return a; }; h(); } g%s(); %s" % (x, a, e, x, never), "def g%s() { var a = [%s]; def h() { a.push(1); } l0 = def() => { a.push(2); return a; }; h(); } if (g%s()) {}" % (x, a, x)]
        if k == 16: return ["switch (2) { case 1: { print(1); } case 2: { l0 = [%s]; %s; } default: { print(3); } } %s" % (a, e, never), "l0 = [%s];" % a]
        if k == 17: return ["o0.extra = [%s, %s];" % (a, e), "{ const t = %s; }" % a]
        if k == 18: return ["with(\"/w/in\", \"r\") { with(\"/w/log\", \"a\") { file.writeLine(%s); [1].forEach(def(x) => { %s; }); } } %s" % (s, e, never), "with(\"/w/in\", \"r\") { with(\"/w/log\", \"a\") { file.writeLine(%s); } }" % s]
        if k == 19: return ["def r%s(n) { l0 = [n]; if (n == 0) { %s; } return [n, r%s(n - 1)]; } print(r%s(%s)); %s" % (x, e, x, x, g.c("1 5 40".split()), never), "def r%s(n) { l0 = [0]; } if (r%s(0)) {}" % (x, x)]
        if k == 20: return ["enum N%s { a, b } print(N%s.a); %s; enum M%s { a }" % (x, x, e, x), "enum N%s { a, b } print(N%s.a);" % (x, x)]
        if k == 21: return ["{ var u = %s; { const w = [u]; l0 = def() => w; if (true) { while (true) { %s; } } } } %s" % (a, e, never), "{ var u = %s; { const w = [u]; l0 = def() => w; } }" % a]
        if k == 22: return ["print(f2(%s, ...[1, %s]), \"never\"); %s" % (a, e, never), "{ const t = %s; }" % a]
        if k == 24: return ["vZ%s = %s; %s" % (x[1:], a, never), "{ const t = %s; }" % a]
        if k == 25: return ["def s%s(a) { l0 = [a]; var t = [a]; vZ%s = def() => t; } s%s(%s); %s" % (x, x[1:], x, a, never), "def s%s(a) { l0 = [a]; } if (s%s(%s)) {}" % (x, x, a)]
        if k == 26: return ["%s %s; %s" % (g.c(["d0[\"absent%s\"] += 1" % x, "o0.absent%s += 1" % x, "l0[9999] = 1", "l0[-9999] = [2]", "const [vZ%s, cZ%s] = [1]" % (x[1:], x[1:]), "K0.absent%s += 1" % x, "K0.cc = 1", "l0[9999] += 1", "var [vZ%s, cZ%s] = 5" % (x[1:], x[1:])]), never, never), ""]
        if k == 27: return ["for (var i = 0; i < 3; i += 1) { l0.push([i]); vZ%s = i; } %s" % (x[1:], never), "l0.push([0]);"]
        if k == 28: return ["class D%s { var a = [%s]; const b = %s; m() { return 1; } } %s" % (x, a, e, never), "{ const t = [%s]; }" % a]
        if k == 29: return ["class D%s < K0 { use %s; m() { return 1; } } %s" % (x, g.c(["nope", "K0", "s0", "nil_", "f0"]), never), ""]
        if k == 30: return ["d0[\"in%s\"] = %s; d0[\"in%s\"] = [%s, %s]; %s" % (x, a, x, a, e, never), "d0[\"in%s\"] = %s; { const t = %s; }" % (x, a, a)]
        if k == 31: return ["{ class L%s { init() { this.x = [%s]; } m() { l0 = [this]; %s; } } const t = L%s(); t.m(); } %s" % (x, a, e, x, never), "{ class L%s { init() { this.x = [%s]; } m() { l0 = [this]; } } const t = L%s(); t.m(); }" % (x, a, x)]
        if k == 32: return ["const c%s = 1; { const c%s = [%s]; def q() { l0 = def() => c%s; %s; } q(); } %s" % (x, x, a, x, e, never), "const c%s = 1; { const c%s = [%s]; def q() { l0 = def() => c%s; } q(); }" % (x, x, a, x)]
        return ["class M%s { m(a) { l0 = [a]; return [1, 2].map(def(x) => { print(x, a); %s; }); } static s() { return M%s().m(%s); } } M%s.s(); %s" % (x, e, x, a, x, never), "class M%s { m(a) { l0 = [a]; print(1, a); } static s() { return M%s().m(%s); } } if (M%s.s()) {}" % (x, x, a, x)]
    def good(self, g):
        r = g.r.random()
        if r < 0.08 and g.loaded:
            j = g.c(sorted(g.loaded))
            return [g.c(["import \"/m/e%d.du\";", "import \"/m/e%d.du\" as q; print(q.val, q.fn(1));", "from \"/m/e%d.du\" import val, fn; print(val, fn(2)); var val = 1;"]) % j, None, j]
        return [self.good1(g, r), None]
    def good1(self, g, r):
        if r < 0.45: return g.stmt(1)
        if r < 0.6: return g.define()
        if r < 0.66 and g.n: return g.c(["print(cZ%d, vZ%d);", "cZ%d = 1; vZ%d = 2;", "var cZ%d = 3; cZ%d = 4; print(cZ1);", "print(dZ%d, cZ%d);", "const vZ%d = 5; print(vZ%d);", "print(vZ%d); print(vZ%d + 1);", "vZ%d = 7; print(vZ%d);", "print(DZ%d.a); print(DZ%d().m());", "print(d0.exists(\"inZ%d\"), d0.get(\"inZ%d\"));"]) % ((g.r.randint(1, g.n),) * 2)
        return g.c(["print(l0, l1, s0, s1);", "print(d0, d1, e0, n0, n1);", "print(l0.len() > 0 ? type(l0[-1]) : nil);", "l0.forEach(def(f) => { if (type(f) == \"function\" and \"anonymous\" in [1]) { print(1); } });", "print(type(l0) == \"function\" ? l0() : l0); l0 = [1];",
                   "{ const r = []; l0.forEach(def(x) => { if (type(x) == \"function\") { r.push(x()); } }); print(r); l0 = []; }", "print(o0.getAttributes());", "print(K0(1).meth(2), K1(1, 2).meth(3), K2(1).meth(2));", "print(deep2(50).len());", "with(\"/w/log\", \"r\") { print(file.read()); }",
                   "print(Inspect.getFrameCount(), __file__);", "def lf() { var a = 1; var b = [a]; return def() => [a, b]; } print(lf()());",
                   "import \"/m/ok1.du\" as okm; print(okm.val);"])
    def gen(self, rng, i, tier):
        g = progs.G(rng)
        ops = []; g.loaded = set()
        for _ in range(rng.choice([2, 4, 7, 12])):
            r = rng.random()
            if r < 0.35: 
                f = self.fail(g)
                if len(f) == 3:
                    if not loads(g.loaded, f[2]): continue
                ops.append(["rt"] + f)
            elif r < 0.5: ops.append(["ct", (g.c(["", "var ok9 = 1; ", "const cZ%d = 9; " % rng.randint(1, 9), "def f0(x) { return \"never\"; } ", "s0 = \"never\"; ", "class K0 {} ", "enum Ec { never } "]) + g.c(CERR)), ""])
            else: ops.append(["ok"] + self.good(g))
            while rng.random() < 0.4: ops.append(["ok"] + self.good(g))
        repl = rng.random() < 0.3
        if repl: ops = [o for o in ops if complete(o[1])]
        return {"seed": rng.randrange(1 << 40), "ops": ops, "repl": repl, "errs": [rng.choice(ERR) for _ in range(4)], "gc": rng.choice([["gcmode", 1], ["gcmode", 1], ["gcmode", 9], ["gcmode", 0], ["gcmode", 3, "gc_every", rng.randint(2, 30)]])}
    def scenarios(self, case):
        return [self.text(case, False), self.text(case, True)]
    def text(self, case, ref):
        s = Scn(); progs.files(s); s.dir("/root"); s.file("/w/log", b"start\n")
        e = case["errs"]
        imp = "import Path; import JSON; import BigInt; import Queue; import Math; import Sqlite; import Base64; import System; import Env; import Term; import Object; import Inspect;\nvar K0 = nil; var K1 = nil; var K2 = nil; var o0 = 1; def inf(n) { return inf(n + 1); } def deep(n) { if (n == 0) { nope; } return deep(n - 1); } def f0(x) { } def f1(x) { } \n"
        body = ["var val = [0, \"e0\"]; def fn(a) { return [a, val]; } print(\"e0\");\n", "var val = {\"k\": \"e1\"}; def fn(a) { var c = [a, val]; return def() => c; } class MC { init(var x) {} } const mo = MC(5); print(\"e1\", mo.x);\n",
                "import \"e0.du\";", "var val = 3; def fn(a) { return a; }\n"]
        s.file("/m/e0.du", imp + body[0] + ("" if ref else e[0] + "; print(\"never\"); val = nil;"))
        s.file("/m/e1.du", imp + body[1] + ("" if ref else "def run() { return [1].map(def(x) => { var k = [x]; %s; }); } run(); print(\"never\");" % e[1]))
        s.file("/m/e2.du", imp + "var val = \"e2\"; def fn(a) { return val; }\n" + body[2] + ("" if ref else " print(\"never\"); val = nil;"))
        s.file("/m/e3.du", imp + body[3] + ("" if ref else e[3] + ";"))
        src = []
        for op in case["ops"]:
            t = op[1] if op[0] == "ok" or not ref else op[2]
            src.append(t)
        pre = progs.SETUP + ["def inf(n) { return inf(n + 1); } def deep(n) { if (n == 0) { nope; } return [n, deep(n - 1)]; } def deep2(n) { if (n == 0) { return []; } const r = deep2(n - 1); r.push(n); return r; }"]
        if case["repl"]:
            s.node(0, cwd="/w").args(0, "dictu")
            lines = []
            for x in pre: lines += [x.replace("\n", " ")]
            for op, x in zip(case["ops"], src): lines += [x.replace("\n", " ") if ref or op[0] != "ok" else broken(x.replace("\n", " "), case["seed"])]
            s.stdin(0, 0, ("\n".join(lines) + "\n").encode("utf-8"))
        else:
            s.node(0, kind="embed", cwd="/w").args(0, "dictu")
            for x in pre + src: s.item(0, "m", x)
        s.opt(**dict(zip(case["gc"][::2], case["gc"][1::2])))
        return s.text()
    def outside(self, case, rs):
        got = set()
        for op in case["ops"]:
            if len(op) > 3:
                if op[0] == "ok" and op[3] not in got: return True
                if op[0] == "rt":
                    fresh = op[3] not in got
                    if not loads(got, op[3]) or ("never" in op[1]) and not fresh: return True
        return any(self_containing(r) for r in rs)
    def check(self, case, rs):
        a, b = rs
        if not case["repl"]:
            n = len(progs.SETUP) + 1
            ra, rb = a.results.get(0, []), b.results.get(0, [])
            if len(ra) != len(rb) or len(ra) != n + len(case["ops"]): return [("session-ended", "inputs run: %d and %d of %d" % (len(ra), len(rb), n + len(case["ops"])))]
            for k, op in enumerate(case["ops"]):
                x, y = ra[n + k], rb[n + k]
                if op[0] == "ok" and x != y: return [("outcome", "input %d %r ends with %d after the failed inputs, %d when they stop at the error" % (k, op[1][:200], x, y))]
                if op[0] == "ct" and x != 1: return [("outcome", "input %d %r does not compile but ends with %d" % (k, op[1][:200], x))]
        for what, x, y in (("output", a.out.get(0), b.out.get(0)), ("exit status", a.exit[0]["code"], b.exit[0]["code"]), ("files", {p: v[4] for p, v in a.tree.items() if p.startswith("/w/")}, {p: v[4] for p, v in b.tree.items() if p.startswith("/w/")}), ("live bytes after shutdown", a.lost.get(0), b.lost.get(0)), ("memory left after shutdown", a.leak.get(0), b.leak.get(0))):
            if what == "output" and case["repl"]: x, y = repl_out(x), repl_out(y)
            if x != y: return [("session-differs", "%s after the failed inputs / when they stop at the error: %s" % (what, where(x, y)))]
        line = (lambda x: re.sub(rb"\n *\d+ \|[^\n]*", b"", re.sub(rb"line \d+", b"line N", x))) if case["repl"] else (lambda x: x)
        ea, eb = line(a.serr.get(0, b"")).split(b"\n\n"), line(b.serr.get(0, b"")).split(b"\n\n")
        i = 0
        for blk in eb:
            while i < len(ea) and ea[i] != blk: i += 1
            if i == len(ea): return [("session-differs", "error %r is missing after the failed inputs" % blk[:300])]
            i += 1
        return []
    def nontrivial(self, case, rs):
        k = [op[0] for op in case["ops"]]
        return any(x != "ok" and "ok" in k[i:] for i, x in enumerate(k))
    def probes(self, case, rs):
        out = {"sessions:" + ("repl" if case["repl"] else "embedded"): 1}
        for op in case["ops"]: out["inputs:" + op[0]] = out.get("inputs:" + op[0], 0) + 1
        if not case["repl"] and all(len(r.results.get(0, [])) == len(progs.SETUP) + 1 + len(case["ops"]) for r in rs):
            n = len(progs.SETUP) + 1
            for k, op in enumerate(case["ops"]):
                if op[0] == "rt":
                    x, y = rs[0].results[0][n + k], rs[1].results[0][n + k]
                    w = "failing input ended with error, counterpart without" if x == 2 and y == 0 else "failing input and counterpart ended %d/%d" % (x, y)
                    out[w] = out.get(w, 0) + 1
        return out

def loads(got, j):
    """importing module j for the first time ends in its error; false when it would not (the module it imports is there already)"""
    if j == 2 and j not in got and 0 in got: return False
    got.add(j)
    if j == 2: got.add(0)
    return True

def complete(t):
    """the prompt takes an input as complete once its braces outside strings match or one closes too many"""
    d = 0; q = None; i = 0
    while i < len(t):
        ch = t[i]
        if q:
            if ch == "\\": i += 1
            elif ch == q: q = None
        elif ch in "\"'": q = ch
        elif ch == "{": d += 1
        elif ch == "}":
            d -= 1
            if d < 0: return True
        i += 1
    return d == 0 and not q

def broken(t, seed):
    """the same input over several lines, broken inside braces"""
    r = Random(seed); o = []; d = 0; q = None; i = 0
    while i < len(t):
        ch = t[i]; o.append(ch)
        if q:
            if ch == "\\" and i + 1 < len(t): i += 1; o.append(t[i])
            elif ch == q: q = None
        elif ch in "\"'": q = ch
        elif ch == "{": d += 1
        elif ch == "}": d -= 1
        elif ch == " " and d > 0 and r.random() < 0.2: o[-1] = r.choice(["\n", " \n", "\n  "])
        i += 1
    return "".join(o)

def repl_out(b):
    """what the inputs printed, without the prompts and the echoed input"""
    return [re.sub(rb"^(\.\.\. [^\n]*\n)*", b"", c.split(b"\n", 1)[-1]) for c in b.split(b">>> ")[1:]]
PROP = C25()
