"""Generated Dictu programs that exercise the language and the library with freshly allocated values everywhere."""
from simlib import lit

IMPORTS = ["System", "Math", "JSON", "Path", "Buffer", "BigInt", "Queue", "Stack", "Base64", "Hashlib", "Datetime", "Env", "IO", "Net", "Object", "Inspect", "Random", "UUID", "Sqlite", "Log", "Term", "Process", "Socket", "HTTP", "Argparse"]
WORDS = ["", "a", "b", "key", "x1", "hello", "Hello World", "foo bar baz", "the quick brown fox", "12", "-3.5", "abcabcabc", "{}", "a,b,,c", "  pad  ", "Zz", "ünï", "x" * 40, "line\nbreak"]
NUMS = ["0", "1", "2", "3", "7", "-1", "10", "255", "2.5", "-0.5", "1000000", "0.1", "4", "5"]

class G:
    """Expressions of each kind; nothing but the random source decides."""
    def __init__(self, rng, avoid=()):
        self.r = rng; self.n = 0; self.closed = False; self.avoid = set(avoid)
        self.cls = ["K0", "K1", "K2"]; self.fns = ["f0", "f1", "f2"]
        self.vars = {"s": ["s0", "s1"], "n": ["n0", "n1"], "l": ["l0", "l1"], "d": ["d0", "d1"], "e": ["e0"], "o": ["o0", "o1"], "a": ["a0", "a1", "a2", "a3"]}
    def c(self, x): return self.r.choice(x)
    def p(self, x): return self.r.random() < x
    def V(self, k):
        """a global variable; while self.closed, a new value instead, so that nothing is ever stored into itself"""
        if not self.closed: return self.c(self.vars[k])
        return self.c({"s": ["s0", "s1"], "n": ["n0", "n1"], "l": ["[1, [2]]", "[]"], "d": ["{\"a\": [1]}", "{}"], "e": ["set(\"m\")"], "o": ["K0(1, [2])", "K1(\"p\", \"q\")", "K2([], 2)"], "a": ["nil", "[[1], {\"k\": \"v\"}]", "\"str\"", "{\"x\": [\"z\"]}"]}[k])
    def C(self, f, *a):
        """an expression that mentions no global variable"""
        o = self.closed; self.closed = True
        try: return f(*a)
        finally: self.closed = o
    def fresh(self, p="t"):
        self.n += 1; return "%s%d" % (p, self.n)
    # strings that did not exist before
    def S(self, d=2):
        k = self.r.randrange(34) if d > 0 else self.r.randrange(4)
        S, N, L, A = (lambda: self.S(d - 1)), (lambda: self.N(d - 1)), (lambda: self.L(d - 1)), (lambda: self.A(d - 1))
        if k < 2: return lit(self.c(WORDS))
        if k == 2: return self.V("s")
        if k == 3: return "(%s + \"%d\")" % (lit(self.c(WORDS)), self.r.randrange(1000))
        if k < 9: return "(%s + %s)" % (S(), S())
        if k == 9: return "%s.format(%s)" % (lit(self.c(["{}", "<{}> {}", "{}{}{}", "none", "a {} b"])), ", ".join(A() for _ in range(self.c([0, 1, 2, 2, 3]))))
        if k == 10: return "%s.replace(%s, %s)" % (S(), S(), S())
        if k == 11: return "%s.%s()" % (S(), self.c(["upper", "lower", "title", "leftStrip", "rightStrip", "strip", "collapseSpaces"]))
        if k == 12: return "%s.repeat(%s)" % (S(), self.c(["0", "1", "2", "3", "9"]))
        if k == 13: return "%s.wrap(%s)" % (S(), self.c(["3", "10", "1", "80"]))
        if k == 14: return "%s.toString()" % A()
        if k == 15: return "%s.join(%s)" % (L(), self.c(["", "\",\"", "\"\"", S()]))
        if k == 16: return "%s[%s:%s]" % (S(), self.c(["", "0", "1", "-2"]), self.c(["", "1", "2", "-1"]))
        if k == 17: return "%s[%s]" % (S(), self.c(["0", "-1", "1", "3"]))
        if k == 18: return "JSON.stringify(%s).unwrap()" % A()
        if k == 19: return "JSON.stringify(%s, %s).unwrap()" % (A(), self.c(["1", "2", "4"]))
        if k == 20: return "Base64.encode(%s)" % S()
        if k == 21: return "Base64.decode(Base64.encode(%s)).unwrap()" % S()
        if k == 22: return self.c(["Hashlib.sha256(%s)" % S(), "Hashlib.hmac(%s, %s)" % (S(), S()), "Hashlib.hmac(%s, %s, %s)" % (S(), S(), self.c(["true", "false"]))])
        if k == 23: return self.c(["Path.basename(%s)", "Path.dirname(%s)", "Path.extname(%s)"]) % self.c(["\"/a/b.c\"", "(\"/w/\" + %s)" % S(), "\"x/y/\" "])
        if k == 24: return "Path.join(%s)" % self.c(["%s, %s" % (S(), S()), "[%s, \"b\"]" % S(), "\"/a\", %s" % S()])
        if k == 25: return "type(%s)" % A()
        if k == 26: return self.c(["Object.prettyPrint(%s)" % A(), "Object.prettyPrint(%s, 2)" % A(), "UUID.generate()", "UUID.generateRandom()"])
        if k == 27: return self.c(["BigInt.new(%s).unwrap().toString()" % self.c(["\"12345678901234567890\"", "%s" % N()]), "%s.toString()" % self.I(d - 1)])
        if k == 28: return "%s.string()" % self.U(d - 1)
        if k == 29: return "Datetime.strftime(%s, %s)" % (self.c(["\"%Y-%m-%d\"", "\"%H:%M:%S\"", "(\"%A\" + " + S() + ")"]), self.c(["0", "86400", "1500000000", "951782400"]))
        if k == 30: return "\"${%s}\"" % N() if False else "(%s + %s.toString())" % (S(), N())
        if k == 31: return "Env.get(%s, %s)" % (self.c(["\"HOME\"", "\"NOPE\"", S()]), S())
        if k == 32: return self.c(["Inspect.getFile()", "Path.realpath(\"/w\").unwrap()", "System.getCWD().unwrap()" if False else "Path.realpath(\".\").unwrap()", "__file__"])
        return self.call("s", d)
    def N(self, d=2):
        k = self.r.randrange(26) if d > 0 else self.r.randrange(3)
        S, N, L, A = (lambda: self.S(d - 1)), (lambda: self.N(d - 1)), (lambda: self.L(d - 1)), (lambda: self.A(d - 1))
        if k < 2: return self.c(NUMS)
        if k == 2: return self.V("n")
        if k < 6: return "(%s %s %s)" % (N(), self.c(["+", "-", "*", "+", "-", "**" if self.p(0.1) else "+"]), N())
        if k == 6: return "(%s %s %s)" % (self.c(["7", "10", "6"]), self.c(["&", "|", "^", "%"]), self.c(["3", "5", "2"]))
        if k == 7: return "%s.len()" % S()
        if k == 8: return "%s.len()" % L()
        if k == 9: return "%s.len()" % self.D(d - 1)
        if k == 10: return "%s.find(%s)" % (S(), S())
        if k == 11: return "%s.count(%s)" % (S(), self.c(["\"a\"", "\"o\"", S()]))
        if k == 12: return "%s.wordCount()" % S()
        if k == 13: return "\"%s\".toNumber().unwrap()" % self.c(["1", "2.5", "0x1F", "-7"])
        if k == 14: return "Math.%s(%s)" % (self.c(["floor", "ceil", "abs", "round"]), N())
        if k == 15: return "Math.%s(%s)" % (self.c(["max", "min", "sum", "average"]), self.c(["[1, %s, 3]" % N(), "%s, %s" % (N(), N())]))
        if k == 16: return "%s.reduce(def(a, b) => a + 1)" % L()
        if k == 17: return "%s.len()" % self.E(d - 1)
        if k == 18: return "%s.compare(%s)" % (self.I(d - 1), self.I(d - 1))
        if k == 19: return "%s.get(0).unwrap()" % self.U(d - 1)
        if k == 20: return "(%s ? %s : %s)" % (self.B(d - 1), N(), N())
        if k == 21: return "(def(x) => { return x + %s; })(%s)" % (N(), N())
        if k == 22: return "Random.range(1, %s)" % self.c(["1", "5", "100"])
        if k == 23: return "%s.len()" % self.c([self.Q(d - 1), self.U(d - 1)])
        if k == 24: return "Object.hash(%s)" % self.c(NUMS + ["nil", "true"])
        return self.call("n", d)
    def B(self, d=2):
        k = self.r.randrange(13) if d > 0 else 0
        if k == 0: return self.c(["true", "false"])
        if k < 3: return "(%s %s %s)" % (self.N(d - 1), self.c(["<", ">", "<=", ">="]), self.N(d - 1))
        if k < 5: return "(%s %s %s)" % (self.A(d - 1), self.c(["==", "!="]), self.A(d - 1))
        if k == 5: return "%s.contains(%s)" % (self.S(d - 1), self.S(d - 1))
        if k == 6: return "%s.contains(%s)" % (self.L(d - 1), self.A(d - 1))
        if k == 7: return "%s.%s(%s)" % (self.S(d - 1), self.c(["startsWith", "endsWith"]), self.S(d - 1))
        if k == 8: return "%s.exists(%s)" % (self.D(d - 1), self.S(d - 1))
        if k == 9: return "%s.contains(%s)" % (self.E(d - 1), self.S(d - 1))
        if k == 10: return "(%s %s %s)" % (self.B(d - 1), self.c(["and", "or"]), self.B(d - 1))
        if k == 11: return "not %s" % self.A(d - 1)
        return "%s.toBool()" % self.A(d - 1)
    def L(self, d=2):
        CA = lambda: self.C(self.A, d - 1)
        k = self.r.randrange(30) if d > 0 else self.r.randrange(2)
        S, N, L, A = (lambda: self.S(d - 1)), (lambda: self.N(d - 1)), (lambda: self.L(d - 1)), (lambda: self.A(d - 1))
        if k == 0: return self.V("l")
        if k == 1: return self.c(["[]", "[1, 2, 3]", "[\"p\", \"q\"]", "[nil]"])
        if k < 7: return "[%s]" % ", ".join(A() for _ in range(self.c([1, 2, 3, 5])))
        if k == 7: return "(%s + %s)" % (L(), L())
        if k == 8: return "%s.split(%s)" % (S(), self.c(["\" \"", "\",\"", "\"\"", "\"a\"", S()]))
        if k == 9: return "%s.split(%s, %s)" % (S(), self.c(["\" \"", "\",\"", "\"\""]), self.c(["0", "1", "2"]))
        if k == 10: return "%s.copy()" % L()
        if k == 11: return "%s.deepCopy()" % L()
        if k == 12: return "%s.map(def(x) => [x, %s])" % (L(), A())
        if k == 13: return "%s.filter(def(x) => %s)" % (L(), self.B(d - 1))
        if k == 14: return "%s[%s:%s]" % (L(), self.c(["", "0", "1"]), self.c(["", "1", "2"]))
        if k == 15: return "%s.keys()" % self.D(d - 1)
        if k == 16: return "%s.values()" % self.c([self.E(d - 1), self.U(d - 1)])
        if k == 17: return "(def(l) => { l.sort(); return l; })([%s])" % ", ".join(N() for _ in range(4))
        if k == 18: return "(def(l) => { l.push(%s); l.insert(%s, 0); l.extend([%s, %s]); return l; })(%s)" % (CA(), CA(), CA(), CA(), self.c([L(), L() + ".copy()"]))
        if k == 19: return "(def(l) => { l.pop(%s); l.reverse(); return l; })([%s, %s, %s])" % (self.c(["", "0", "1"]), A(), A(), A())
        if k == 20: return "%s.unique()" % L()
        if k == 21: return "[%s, %s].splice(%s)" % (A(), A(), self.c(["0, 1", "1, 0, \"q\"", "0, 2, [1, 2]"])) if False else "(def(...r) => r)(%s)" % ", ".join(A() for _ in range(self.c([0, 1, 3])))
        if k == 22: return "(def(a, ...r) => { r.push(a); return r; })(...[%s, %s, %s])" % (A(), A(), A())
        if k == 23: return "%s.sortFunc(def(a, b) => a - b)" % ("[%s]" % ", ".join(self.c(NUMS) for _ in range(5)))
        if k == 24: return "%s.methods()" % self.c(self.cls)
        if k == 25: return "%s.unwrap()" % self.c(["JSON.parse(%s)" % lit("[1, [\"%s\", {\"k\": [true, null, \"%s\"]}], \"\\u0041b\"]" % (self.c("abc") * self.r.randrange(5), self.c("xyz") * 9)), "JSON.parse(JSON.stringify(%s).unwrap())" % L()])
        if k == 26: return "Path.listDir(\"/w\")" if False else "(def() => { var r = []; for (var i = 0; i < %s; i += 1) { r.push(%s); } return r; })()" % (self.c(["3", "9", "20"]), A())
        if k == 27: return "Net.parseIp4(\"10.0.0.1\")" if False else "[%s].map(def(x) => def() => x).map(def(f) => f())" % ", ".join(A() for _ in range(3))
        if k == 28: return "(def() => { var a = %s; var b = [a, %s]; const [x, y] = b; return [y, x]; })()" % (A(), A())
        return self.call("l", d)
    def key(self, d): return self.c([self.S(d), self.S(d), self.S(d), self.N(d), "nil", "true"])
    def D(self, d=2):
        CA = lambda: self.C(self.A, d - 1)
        k = self.r.randrange(12) if d > 0 else self.r.randrange(2)
        A = lambda: self.A(d - 1)
        if k == 0: return self.V("d")
        if k == 1: return self.c(["{}", "{\"a\": 1}", "{\"a\": [1], \"b\": {\"c\": nil}}"])
        if k < 5: return "{%s}" % ", ".join("%s: %s" % (self.key(d - 1), A()) for _ in range(self.c([1, 2, 4])))
        if k == 5: return "%s.copy()" % self.D(d - 1)
        if k == 6: return "%s.deepCopy()" % self.D(d - 1)
        if k == 7: return "%s.merge(%s)" % (self.D(d - 1), self.D(d - 1))
        if k == 8: return "(def(d) => { d[%s] = %s; d[%s] = %s; d.remove(%s); return d; })(%s)" % (self.key(d - 1), CA(), "\"rm\"", CA(), "\"rm\"", self.D(d - 1))
        if k == 9: return "(def() => { const r = {}; for (var i = 0; i < %s; i += 1) { r[\"k\" + i.toString()] = %s; } return r; })()" % (self.c(["4", "20"]), A())
        if k == 10: return "JSON.parse(%s).unwrap()" % lit("{\"a\": {\"b\": [1, \"%s\"]}, \"c\": \"d\"}" % ("q" * self.r.randrange(9)))
        return self.c(["%s._class.toDict()" % self.O(d - 1), "%s.getAttributes()" % self.O(d - 1), "%s.toDict()" % self.c(self.cls), "{\"c\": Ec.values()}"])
    def E(self, d=2):
        k = self.r.randrange(4) if d > 0 else 0
        if k == 0: return self.c([self.V("e"), "set()"])
        if k < 3: return "set(%s)" % ", ".join(self.S(d - 1) for _ in range(self.c([0, 1, 3])))
        return "(def(s) => { s.add(%s); s.add(\"rm\"); s.remove(\"rm\"); return s; })(%s)" % (self.S(d - 1), self.E(d - 1))
    def O(self, d=2):
        CA = lambda: self.C(self.A, d - 1)
        k = self.r.randrange(9) if d > 0 else 0
        if k == 0: return self.V("o")
        if k < 4: return "%s(%s)" % (self.c(self.cls), ", ".join(self.A(d - 1) for _ in range(2)))
        if k == 4: return "%s.copy()" % self.O(d - 1)
        if k == 5: return "%s.deepCopy()" % self.O(d - 1)
        if k == 6: return "(def(o) => { o.extra = %s; o.setAttribute(%s, %s); return o; })(%s)" % (CA(), self.S(d - 1), CA(), self.O(d - 1))
        if k == 7: return "{\"p\": %s}.toObj(%s)" % (CA(), self.O(d - 1))
        return "Object.createFrom(%s).unwrap()" % lit(self.c(["Z0"]))
    def I(self, d=1):
        x = self.c(["BigInt.new(%s).unwrap()" % self.c(["\"123456789012345678901\"", "7", "-42", "0", "\"%d\"" % self.r.randrange(10 ** 30)])])
        if d > 0 and self.p(0.6): return "%s.%s(%s)" % (self.I(d - 1), self.c(["add", "subtract", "multiply", "bitwiseAnd", "bitwiseOr", "bitwiseXor"]), self.I(d - 1))
        if d > 0 and self.p(0.2): return "%s.%s()" % (self.I(d - 1), self.c(["negate", "abs"]))
        return x
    def U(self, d=1):
        if d > 0 and self.p(0.5): return "Buffer.fromString(%s).unwrap()" % self.c(["(\"x\" + %s)" % self.S(d - 1), "\"buf\""])
        if d > 0 and self.p(0.3): return "Buffer.fromString(\"abcdef\").unwrap().subarray(%s, %s).unwrap()" % (self.c("012"), self.c("345"))
        return "Buffer.new(%s).unwrap()" % self.c(["1", "8", "30"])
    def Q(self, d=1):
        k = self.c(["Queue", "Stack"])
        return "(def(q) => { q.push(%s); q.push(%s); q.push(%s); %s return q; })(%s)" % (self.A(d - 1), self.A(d - 1), self.A(d - 1), self.c(["", "q.pop();", "q.peek();"]), self.c([k + ".new()", k + ".newWithSize(%s).unwrap()" % self.c(["1", "3", "5"])]))
    def R(self, d=1):
        return self.c(["Success(%s)" % self.A(d - 1), "Error(%s)" % self.S(d - 1), "%s.toNumber()" % self.S(d - 1), "JSON.parse(%s)" % self.S(d - 1), "JSON.parse(\"[1, 2\")", "BigInt.new(%s)" % self.S(d - 1), "Buffer.new(%s)" % self.N(d - 1),
                       "Base64.decode(%s)" % self.S(d - 1), "Path.realpath(%s)" % self.S(d - 1), "Datetime.strptime(\"%%Y\", %s)" % self.S(d - 1), "Object.getClassRef(%s)" % self.S(d - 1), "Object.createFrom(%s)" % self.S(d - 1), "Net.parseIp4(%s)" % self.S(d - 1),
                       "Success(%s).matchWrap(def(x) => [x, %s], def(e) => e)" % (self.A(d - 1), self.A(d - 1)), "System.mkdir(%s)" % self.S(d - 1), "Random.select([%s])" % self.A(d - 1) if False else "Success([%s])" % self.A(d - 1),
                       "Queue.newWithSize(2)", "Hashlib.verify(%s, %s)" % (self.S(d - 1), self.S(d - 1)) if False else "Error([%s].toString())" % self.A(d - 1)])
    def F(self, d=1):
        return self.c(["def(x) => x", "def(x) => [x, %s]" % self.A(d - 1), self.c(self.fns), "def(x) => { var y = [x]; return def() => y; }", "def(x, y=%s) => [x, y]" % self.A(d - 1), "K1.stat", self.V("o") + ".meth"])
    def A(self, d=2):
        k = self.r.randrange(24) if d > 0 else self.r.randrange(3)
        if k == 0: return self.c(["nil", "true", "false", "1", "\"lit\""])
        if k < 3: return self.V(self.c("aaaassll"))
        if k < 9: return self.S(d)
        if k < 12: return self.N(d)
        if k < 15: return self.L(d)
        if k < 17: return self.D(d)
        if k == 17: return self.E(d)
        if k < 20: return self.O(d)
        if k == 20: return self.c([self.R(d), self.R(d), self.Q(d), self.U(d), self.I(d)])
        if k == 21: return self.F(d)
        if k == 22: return "%s.unwrap()" % self.R(d)
        return self.call("a", d)
    def call(self, kind, d):
        """through user code: functions, methods, closures, super, static, attributes, match"""
        k = self.r.randrange(16)
        a, b = self.c([self.S, self.A, self.L])(d - 1), self.A(d - 1)
        if k < 2: return "%s(%s)" % (self.c(self.fns), a)
        if k == 2: return "%s(%s, %s)" % (self.c(["f1", "f2"]), a, b)
        if k == 3: return "%s.meth(%s)" % (self.O(d - 1), a)
        if k == 4: return "%s.own(%s, %s)" % (self.O(d - 1), self.C(self.A, d - 1), self.C(self.A, d - 1))
        if k == 5: return "K1.stat(%s)" % a
        if k == 6: return "%s.%s" % (self.O(d - 1), self.c(["p", "q", "cv", "extra", "cc"]))
        if k == 7: return "%s.getAttribute(%s, %s)" % (self.O(d - 1), self.c(["\"p\"", "\"nope\"", self.S(d - 1)]), b)
        if k == 8: return "%s.match(def(x) => [x, %s], def(e) => e + %s)" % (self.R(d - 1), b, self.S(d - 1))
        if k == 9: return "%s.get(%s, %s)" % (self.D(d - 1), self.S(d - 1), b)
        if k == 10: return "%s[%s]" % (self.D(d - 1), self.c(["\"a\"", self.S(d - 1)]))
        if k == 11: return "%s[%s]" % (self.L(d - 1), self.c(["0", "-1", "1"]))
        if k == 12: return "(def() => { var c = %s; return def(z) => [c, z]; })()(%s)" % (a, b)
        if k == 13: return "%s?.meth(%s)" % (self.c([self.O(d - 1), "nil"]), a)
        if k == 14: return "%s.find(def(x) => x == %s)" % (self.L(d - 1), a)
        return "%s.unwrap%s()" % (self.R(d - 1), self.c(["", "Error"]))
    # ---- statements
    def stmt(self, d=2, local=False):
        k = self.r.randrange(30)
        A = lambda: self.A(d)
        if k < 7: return "print(%s);" % A()
        if k < 9: return "print(%s, %s);" % (A(), self.A(1))
        if k < 16 and not local:
            t = self.c("ssnlldeoaaaa")
            return "%s = %s;" % (self.c(self.vars[t]), {"s": self.S, "n": self.N, "l": self.L, "d": self.D, "e": self.E, "o": self.O, "a": self.A}[t](d))
        if k == 16: return self.c(["l0.push(%s);", "l1[0] = %s;", "l0.insert(%s, 0);", "l1.remove(%s);", "l0 += [%s];"]) % self.C(self.A, d)
        if k == 17: return self.c(["d0[%s] = %s;" % (self.key(1), self.C(self.A, d)), "d1.remove(%s);" % self.S(1), "d0[\"a\"] = %s;" % self.C(self.A, d), "d1 = d1.merge(%s);" % self.C(self.D, 1)])
        if k == 18: return self.c(["o0.p = %s;", "o1.q = %s;", "o0.extra = %s;", "K0.cv = %s;", "o1.setAttribute(\"p\", %s);", "e0.add(%s.toString());"]) % self.C(self.A, d)
        if k == 19: return "for (var i = 0; i < %s; i += 1) { var t = [%s, i]; if (i %% 3 == 1) { continue; } %s if (i > 6) { break; } }" % (self.c(["3", "8", "20"]), self.A(1), self.stmt(1, True))
        if k == 20: return "{ var a = %s; { const b = [a, %s]; print(b); } print(a); }" % (A(), self.A(1))
        if k == 21: return "if (%s) { %s } else { %s }" % (self.B(1), self.stmt(1, local), self.stmt(1, local))
        if k == 22: return "switch (%s) { case %s: { print(\"one\"); } case 2, %s: { %s } default: { print(\"other\", %s); } }" % (A(), self.A(1), self.S(1), self.stmt(1, True), self.A(1))
        if k == 23: return "%s.forEach(def(x) => { print(x, %s); });" % (self.L(1), self.A(1))
        if k == 24: return "{ var i = 0; while (i < %s) { i += 1; print(\"w\" + i.toString(), %s); } }" % (self.c("1 4 9".split()), self.A(1))
        if k == 25: return "with(%s, \"w\") { file.write(%s); file.writeLine(%s); }" % (self.c(["\"/w/out\"", "(\"/w/o\" + \"%d\")" % self.r.randrange(3)]), self.S(1), self.S(1))
        if k == 26: return "with(\"/w/in\", \"r\") { print(file.read()); }" if self.p(0.5) else "with(\"/w/in\", \"r\") { var l; while ((l = file.readLine()) != nil) { print(l, %s); } }" % self.A(1)
        if k == 27: return "print(%s);" % self.c(["Env.set(\"V\", %s)" % self.S(1), "Path.exists(%s)" % self.S(1), "IO.copyFile(\"/w/in\", %s)" % self.S(1), "System.mkdir(%s)" % self.S(1), "Process.run([\"echo\", %s], nil, true)" % self.S(1) if False else "Path.listDir(\"/m\")", "Term.isatty(1)", "Inspect.getFrameCount()"])
        if k == 28: return self.c(["import \"/m/ok%d.du\" as m%d; print(m%d.val);" % ((self.r.randrange(3),) + (self.r.randrange(2),) * 2) if False else "import \"/m/ok%d.du\";" % self.r.randrange(3), "from \"/m/ok0.du\" import val, fn; print(val, fn(%s));" % self.S(1), "import \"/m/bad%d.du\";" % self.r.randrange(3)])
        return "{ var db = Sqlite.connect(\":memory:\").unwrap(); db.execute(\"CREATE TABLE t (a, b)\"); print(db.execute(\"INSERT INTO t VALUES (?, ?)\", [%s, %s])); print(db.execute(\"SELECT a, b, 'lit' || a FROM t\")); db.close(); }" % (self.S(1), self.c([self.S(1), self.N(1), "nil"]))
    def define(self, d=1):
        """a top-level definition under a name of its own"""
        x = self.fresh("T"); k = self.r.randrange(9)
        if k == 0: return "class %s { init(var a, private b, c=%s) { this.z = [a, c]; } get() { return [this.a, this.b, this.z]; } private hid() { return 1; } toString() { return \"obj \" + this.a.toString(); } } print(%s(%s, %s)); print(%s(%s, 2).get());" % (x, self.A(1), x, self.A(1), self.A(1), x, self.A(1))
        if k == 1: return "class %s < %s { init(a, b) { super.init(a, b); this.sub = %s; } meth(x) { return [super.meth(x), this.sub, %s]; } } o0 = %s(%s, %s); print(o0.meth(%s));" % (x, self.c(self.cls), self.A(1), self.A(1), x, self.A(1), self.A(1), self.A(1))
        if k == 2: return "@Anno(%s)\n@Other({\"k\": [1, \"v\"]})\nclass %s { @M1 @M2([\"a\", 2]) m() { return 1; } @F(\"f\") var v = %s; const k = %s; } print(%s.classAnnotations, %s.methodAnnotations, %s.fieldAnnotations, %s.v, %s.k);" % (self.c(["\"x\" ", "[1, \"two\", {\"3\": nil}]", "1.5", ""]) , x, self.A(1), self.A(1), x, x, x, x, x)
        if k == 3: return "enum %s { a, b = \"str%d\", c = 10, d } print(%s.values(), %s.b, %s.c);" % (x, self.r.randrange(99), x, x, x)
        if k == 4: return "trait Tr%s { hi(a) { return [this.p, a, %s]; } } class %s { use Tr%s; init(var p) {} } print(%s(%s).hi(%s));" % (x, self.A(1), x, x, x, self.A(1), self.A(1))
        if k == 5: return "abstract class A%s { abstract m(a) init(var s) {} go(x) { return this.m([x, this.s]); } } class %s < A%s { m(a) { return [a, %s]; } } print(%s(%s).go(%s));" % (x, x, x, self.A(1), x, self.A(1), self.A(1))
        if k == 6: return "def %s(a, b=%s, c=%s) { var t = [a, b]; def inner(q) { t.push(q); return def() => { t.push(c); return t; }; } return inner; } print(%s(%s)(%s)()); const g%s = %s(%s, %s)(1); print(g%s(), g%s());" % (x, self.A(1), self.A(1), x, self.A(1), self.A(1), x, x, self.A(1), self.A(1), x, x)
        if k == 7: return "def %s(n) { if (n == 0) { return %s; } return [n, %s(n - 1)]; } print(%s(%s));" % (x, self.A(1), x, x, self.c(["3", "9", "20"]))
        return "var %s = %s, %s_b = %s; const %s_c = %s; print(%s, %s_b, %s_c);" % (x, self.A(1), x, self.A(1), x, self.A(1), x, x, x)
    def error(self):
        """runtime errors at some depth of nesting"""
        e = self.c(["nope", "nil.foo()", "1 + \"a\"", "[1][%s]" % self.c(["9", "\"x\""]), "{}[%s]" % self.S(1), "%s.nope" % self.O(1), "%s.nope()" % self.O(1), "K0()", "f0(1, 2, 3)", "%s.unwrap()" % "Error(%s)" % self.S(1), "%s[0]" % self.N(0), "%s()" % self.A(1), "set().add([])", "%s.split(1)" % self.S(1),
                    "\"a\".repeat(\"b\")", "l0.pop(99)", "Math.floor(%s)" % self.S(1), "JSON.stringify()", "K0.cc = 1", "Abs()", "%s.format(1)" % self.S(1), "-%s" % self.S(0), "o0.secret", "assert(false)", "BigInt.new(1).unwrap().divide(BigInt.new(0).unwrap())", "Queue.new().push()", "%s.sort()" % "[1, \"a\", nil]",
                    "%s.map(1)" % self.L(1), "%s.join(1)" % self.L(1), "[%s].remove(\"absent\")" % self.A(1), "Buffer.new(4).unwrap().set(9, 1).unwrap()", "Object.getClassRef(1)", "%s.reduce(def(a, b) => a + [b])" % "[1, 2]", "super_nope(%s)" % self.A(1), "Random.select([])"])
        k = self.r.randrange(13)
        if k < 3: return "print(%s, %s);" % (self.A(1), e)
        if k == 3: return "def er%d(a) { var l = [a, %s]; return [l, %s]; } print(er%d(%s));" % (self.n, self.A(1), e, self.n, self.A(1))
        if k == 4: return "%s.map(def(x) => { var c = [x]; return def() => c; }).forEach(def(f) => { %s; });" % (self.L(1), e)
        if k == 5: return "with(\"/w/out\", \"a\") { file.write(%s); %s; }" % (self.S(1), e)
        if k == 6: return "{ var a = %s; var f = def() => a; for (var i = 0; i < 3; i += 1) { var b = [a, i]; l0.push(def() => b); if (i == 1) { %s; } } }" % (self.A(1), e)
        if k == 7: return "class E%d { init(a) { this.a = [a]; %s; } } o0 = E%d(%s);" % (self.n, e, self.n, self.A(1))
        if k == 8: return "%s.match(def(x) => %s, def(x) => %s);" % (self.R(1), e, e)
        if k == 9: return "d0[%s] = %s;" % (self.S(1), e if "o0" not in e and "l0" not in e else "nope")
        if k == 10: return "a0 = [%s, %s, %s, %s];" % (self.A(1), self.A(1), e, self.A(1))
        if k == 11: return "import \"/m/bad%d.du\";" % self.r.randrange(3)
        return "a1 = (def(...r) => { return r.map(def(x) => { %s; }); })(%s, %s);" % (e, self.A(1), self.A(1))
    def cerror(self):
        return self.c(["var = 1;", "print(1", "class Q { init( }", "def z(a, a2 { }", "const c9 = 1; c9 = 2;", "return 1;", "break;", "\"abc", "class X9 { m() { var a = [1, \"q\", ; } }", "@A({\"a\": [1, 2 }) class Y {}", "def h() { var x = \"lit%d\"; def g() { return x + ; } }" % self.r.randrange(99),
                       "1 = 2;", "this.x;", "super.y();", "var a; { var b = 1; var b = 2; }", "with(\"x\") {", "switch (1) { case 1 {} }", "enum { a }", "for (;;", "from Math import ;", "import Nope;", "print(%s) %s" % (self.S(1), self.S(1)), "class C9 { var v = ; }", "trait T9 { init() {} ", "@X class Z9 { @F(1) var a = 1; m( }", "def o(a=1, b) { }", "if (true) { print(1); } else"])

# work over a bounded set of live values that makes many different values on the way
CHURN = [
  "{ var i = 0; while (i < 12) { ctr += 1; const s = \"str\" + ctr.toString(); l0 = [s, s + \"x\"]; i += 1; } }",
  "{ for (var i = 0; i < 10; i += 1) { ctr += 1; e0.add(\"e\" + ctr.toString()); e0.remove(\"e\" + ctr.toString()); } }",
  "{ for (var i = 0; i < 10; i += 1) { ctr += 1; d0[\"k\" + ctr.toString()] = ctr; d0.remove(\"k\" + ctr.toString()); } }",
  "{ for (var i = 0; i < 10; i += 1) { ctr += 1; l0.push(ctr); l0.pop(); l0.insert(ctr, 0); l0.remove(ctr); } }",
  "{ ctr += 1; o0.setAttribute(\"tmp\", \"v\" + ctr.toString()); }",
  "{ const q = Queue.new(); for (var i = 0; i < 10; i += 1) { ctr += 1; q.push(ctr.toString()); q.pop(); } }",
  "{ for (var i = 0; i < 5; i += 1) { ctr += 1; JSON.parse(\"{\\\"key\" + ctr.toString() + \"\\\": [1]}\"); JSON.parse(\"[\" + ctr.toString()); } }",
  "{ for (var i = 0; i < 5; i += 1) { ctr += 1; d0.get(\"no\" + ctr.toString(), nil); d0.exists(\"no\" + ctr.toString()); } }",
  "{ for (var i = 0; i < 5; i += 1) { ctr += 1; Env.get(\"V\" + ctr.toString()); Path.exists(\"/none\" + ctr.toString()); System.mkdir(\"/none/\" + ctr.toString()); } }",
  "{ def mk(a) { return def() => a; } for (var i = 0; i < 6; i += 1) { ctr += 1; a0 = mk(\"c\" + ctr.toString()); } }",
  "{ var db = Sqlite.connect(\":memory:\").unwrap(); db.execute(\"CREATE TABLE t (a)\"); db.execute(\"SELECT nope\"); db.execute(\"INSERT INTO t VALUES (?)\", [\"v\"]); db.execute(\"SELECT a FROM t\"); db.close(); }",
  "{ for (var i = 0; i < 4; i += 1) { with(\"/w/in\", \"r\") { file.readLine(); file.read(); } } }",
  "with(\"/w/none\", \"r\") { print(1); }",
  "print(d0[\"missing\" + (ctr = ctr + 1).toString()]);",
  "print(o0.getAttribute(\"missing\"), o0.hasAttribute(\"m\" + (ctr = ctr + 1).toString()));",
  "nope + (ctr = ctr + 1);", "o0.missing;", "o0.missing(1, 2);", "print(K0.nope);", "\"abc\".nope();", "[1, 2].join(3);", "import \"/m/none.du\";", "import \"/m/bad0.du\";", "import \"/m/bad1.du\";", "class B {init(} ", "var z = [1, 2", "print(\"a\".split(\"b\").map(def(x) => x.nope()));",
  "def dp(n) { return n == 0 ? nope : [n, dp(n - 1)]; } dp(20);", "Path.realpath(\"/none\").unwrap();", "BigInt.new(\"zz\"); BigInt.new(\"12345678901234567890\").unwrap().multiply(BigInt.new(7).unwrap());",
  "{ const b = Buffer.new(16).unwrap(); b.resize(64); b.resize(4); b.subarray(0, 2); b.set(99, 1); }",
  "print(Process.run([\"nope\"], true)); print(Process.exec([\"nope\"]));", "{ var sk = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); print(sk.connect(\"127.0.0.1\", 9)); sk.close(); }", "Hashlib.bcrypt(\"pw\", 4);", "Hashlib.bcryptVerify(\"pw\", \"bad\");",
  "Datetime.strptime(\"%Y\", \"x\"); Datetime.strftime(\"%A %Y\" + (ctr = ctr + 1).toString(), 0);", "print(\"{}\".format(ctr = ctr + 1));", "{ class L { init(var a) {} } l0 = [L(1), L([2])]; }", "enum En { a, b } print(En.a);",
  "Object.createFrom(\"nope\"); Object.getClassRef(\"nope\");", "\"1x\".toNumber(); \"12\".toNumber();", "l0.deepCopy(); d0.deepCopy(); o0.deepCopy();", "l0 = [5, 3, 4]; l0.sort(); l0.reverse();",
  "JSON.stringify([1, K0]);", "JSON.stringify(d0, 4);", "{ const q = Queue.newWithSize(3).unwrap(); for (var i = 0; i < 30; i += 1) { q.push([i, \"q\" + i.toString()]); if (i % 3 > 0) { print(q.pop()); } } while (q.len() > 2) { print(q.pop()); } a0 = q; }", "{ const q = Stack.newWithSize(3).unwrap(); for (var i = 0; i < 30; i += 1) { q.push([i, \"q\" + i.toString()]); if (i % 3 == 0) { print(q.pop()); } } while (q.len() > 2) { print(q.pop(), q.cap()); } a1 = q; }", "Queue.newWithSize(-1); Stack.newWithSize(0); Queue.new().pop();", "\"a,b,c\".split(\",\", 1); \"abc\".replace(\"b\", \"\"); \" x \".strip(); \"abc\".repeat(4); \"a\".wrap(1);",
  "System.getCWD(); Path.listDir(\"/w\"); Path.join(\"a\", \"b\"); System.uname();", "Path.listDir(\"/none\");", "try_nothing;", "Success(1).match(def(x) => nope, def(e) => e);", "set().add([]);", "UUID.generate(); UUID.generateTime();", "Log.new(Log.stdout).unwrap().println(\"x\");",
  "print(Argparse.Parser(\"x\", [\"-a\"]));", "Net.parseIp4;", "Base64.encode(\"abc\" + (ctr = ctr + 1).toString()); Base64.decode(\"@@\");", "switch (ctr) { case 1, 2: { print(1); } default: { ctr += 1; } }", "for (var i = 0; i < 5; i += 1) { if (i == 2) { continue; } if (i == 4) { break; } { var q = [i]; l0 = [def() => q]; } }",
  "@L1([\"la1\", [\"la2\", {\"lk3\": \"lv3\"}], \"la4\"])\n@L2({\"dk1\": [\"dv1\"], \"dk2\": {\"dk3\": \"dv3\"}})\n@L3(\"sv1\")\nclass Wide { @W1([\"wa1\", \"wa2\"]) @W2(\"ws1\") @W3 m() { return 1; } @W4([[\"wa3\"], {\"wk1\": \"wv1\"}]) var v = 1; @W5({\"wk2\": \"wv2\"}) const k = [\"kk\"]; } print(Wide.classAnnotations, Wide.methodAnnotations, Wide.fieldAnnotations);",
  "{ class Many2 { private pa; private pb; private pc; init(x) { this.pa = [x]; this.pb = {\"pbk\": x}; this.pc = [[\"pc\"]]; } all() { return [this.pa, this.pb, this.pc]; } } class Many { init() { this.ma = [\"ma\"]; this.mb = [[\"mb\"]]; this.mc = {\"mck\": \"mcv\"}; this.md = [1]; this.me = [\"me\"]; this.mf = {\"mfk\": [\"mfv\"]}; this.mg = [3]; this.mh = Many2([\"mh\"]); this.mi = set(\"mi\"); this.mj = [4]; } } const c = Many().deepCopy(); print(c.ma, c.mb, c.mc, c.md, c.me, c.mf, c.mg, c.mh.all(), c.mi, c.mj); const e = Many2([\"one\"]).deepCopy(); print(e.all(), Many().copy().mf); }",
  "{ class One { init(x) { this.only = x; } } print(One([\"on1\"]).deepCopy().only, One({\"on2\": [\"on3\"]}).deepCopy().only, One(One([\"on4\"])).deepCopy().only.only); class OneP { private only; init(x) { this.only = x; } get() { return this.only; } } print(OneP([\"on5\"]).deepCopy().get(), OneP(One([\"on6\"])).deepCopy().get().only); print({\"on7\": [\"on8\"]}.deepCopy(), {\"on9\": {\"on10\": One([1])}}.deepCopy()[\"on9\"][\"on10\"].only); }",
  "{ ctr += 1; const w = \"w{}x\".format(ctr); const t = \"{}a {}b {}c {}d {}e {}f {}g {}h {}i {}j {}k {}l {}m {}n {}o {}p {}q {}r {}s\".replace(\"{}\", w); for (var i = 0; i < 19; i += 1) { a0 = t.split(\" \", i); } print(a0.len(), a0[3]); a0 = t.split(\"\"); a1 = [a0[1:9], a0[-8:], t[1:8]]; print(a1); }",
  "{ ctr += 1; const k = {}; for (var i = 0; i < 18; i += 1) { k[\"k{}-{}\".format(ctr, i)] = [\"v{}-{}\".format(ctr, i)]; a0 = [k.keys(), k.copy(), k.deepCopy()]; } a1 = a0[0].map(def(x) => x + \"m\").filter(def(x) => x.len() > 2); k.forEach(def(q, v) => { v.push(q + \"!\"); }); print(a0[0].len(), a1.len(), a0[2]); e0 = set(); for (var i = 0; i < 18; i += 1) { e0.add(\"e{}-{}\".format(ctr, i)); a2 = e0.values(); } print(a2.len(), k.merge({\"z{}\".format(ctr): [1]}).len()); }",
  "HTTP.get(\"http://none.test/\");", "const fixed = [1, \"k\"];", "o0 = o0.copy();", "K0.own2 = 1;", "print(type(nope));", "Inspect.getFile(99);", "Random.select([1]); Random.range(1, 2);", "assert(false);", "0.nope;"]

# [make, use]: what one object keeps alive once the input that built it is gone (N: a number of their own)
EDGE = [
  ["var bmN = nil; { class BN { init(var p) {} ping(x) { return [this.p, \"lit{}\".format(N), x]; } } bmN = BN([\"pN\"]).ping; }", "print(bmN(1), bmN(\"b\"), type(bmN));"],
  ["var bnN = nil; { class BN { ping(x) { return this.pong(x); } pong(x) { return {\"pong{}\".format(N): x}; } } def mk() { const o = BN(); return [o.ping]; } bnN = mk(); }", "print(bnN[0](2), bnN);"],
  ["var kcN = nil; { class NamN { var v = \"vN\" + \"w\"; const c = [\"cN\"]; static st(x) { return [x, \"stN\"]; } m() { return [\"mN\", this.v]; } private hid() { return \"hN\"; } see() { return this.hid(); } } kcN = [NamN, NamN()]; }", "print(kcN[0], kcN[0]._name, type(kcN[0]), kcN[0].st(1), kcN[0].c, kcN[0].v, kcN[1].m(), kcN[1].see(), kcN[1]._class._name, kcN[1].getAttributes()); kcN[0].nope;"],
  ["var kdN = nil; { class SupN { m(x) { return [\"supN\", x]; } var sv = [\"svN\"]; const sc = \"scN\" + \"x\"; } class SubN < SupN { own() { return 1; } } kdN = [SubN, SubN()]; }", "print(kdN[1].m(1), kdN[1].isInstance(K0), kdN[1].sv, kdN[1].own(), kdN[0]().m(2), kdN[0].sc); kdN[1].nope();"],
  ["var keN = nil; { class SupN { m(x) { return [\"supN\", x]; } } class SubN < SupN { m(x) { return super.m([x]); } } class SubbN < SubN { m(x) { const f = super.m; return f; } } keN = SubbN().m(1); }", "print(keN(3));"],
  ["var kfN = nil; { @CaN([\"aN\", {\"bN\": \"cN\"}])\nclass AnN { @MaN(\"maN\") m() { return 1; } @FaN({\"faN\": [1]}) var v = 1; } kfN = AnN; }", "print(kfN.classAnnotations, kfN.methodAnnotations, kfN.fieldAnnotations);"],
  ["var kgN = nil; var khN = nil; { abstract class AbN { abstract neededN() n() { return this.neededN(); } } class CoN < AbN { neededN() { return \"nN\" + \"eed\"; } } kgN = [AbN, CoN]; khN = AbN; }", "print(kgN[1]().n()); { class OkN < khN { neededN() { return [\"okN\"]; } } print(OkN().n()); } class LateN < khN { n() { return 1; } }"],
  ["var enN = nil; { enum EnumN { aN = \"va\" + \"lN\", bN = 7 } enN = [EnumN]; }", "print(enN[0].values(), enN[0].aN, enN[0], type(enN[0])); enN[0].zN;"],
  ["var fnN = nil; { def namedN(x, y=\"defaultN\") { return [x, y, \"constN\" + \"z\"]; } fnN = [namedN]; }", "print(fnN[0](1), fnN[0](1, 2), fnN); fnN[0]();"],
  ["var clN = nil; { def outer(a) { var b = [a, \"upN\"]; def mid() { var c = {\"mid\": b}; return def() => { c[\"k{}\".format(N)] = [b]; return c; }; } return mid(); } clN = outer({\"arg\": [N]}); }", "print(clN(), clN());"],
  ["var inN = nil; { class InsN { private pv; init(var pu) { this.pv = [\"pvN\", pu]; this.pw = {\"pwN\": pu}; } look() { return this.pv; } } inN = InsN([\"puN\"]); }", "print(inN.look(), inN.pw, inN.getAttributes(), inN, inN.hasAttribute(\"pu\")); inN.setAttribute(\"late{}\".format(N), [1]); print(inN.getAttribute(\"lateN\"));"],
  ["var rsN = [Success([\"okN\"]), Error(\"bad{}\".format(N)), Success({\"rN\": Success(\"inner{}\".format(N))})];", "print(rsN[0].unwrap(), rsN[1].unwrapError(), rsN[2].unwrap()[\"rN\"].unwrap(), rsN[0].matchWrap(def(x) => [x, \"wN\"], def(e) => e)); rsN[1].unwrap();"],
  ["var stN = set(\"s{}\".format(N), \"t{}\".format(N)); var diN = {\"k{}\".format(N): \"v{}\".format(N), N: [\"num\"], nil: \"none{}\".format(N), true: {\"tN\": 1}};", "print(stN.contains(\"sN\"), stN.values().len(), stN.contains(\"t{}\".format(N)), diN[\"kN\"], diN[N], diN[nil], diN[true]);"],
  ["var quN = Queue.new(); quN.push([\"q1N\"]); quN.push(\"q2{}\".format(N)); quN.pop(); quN.push({\"q3N\": 1}); var skN = Stack.new(); skN.push([\"s1N\"]); skN.push(\"s2{}\".format(N));", "print(quN.pop(), quN.peek(), quN.len(), skN.pop(), skN.peek(), quN, skN);"],
  ["var dbN = Sqlite.connect(\":memory:\").unwrap(); dbN.execute(\"CREATE TABLE t (a, b)\"); dbN.execute(\"INSERT INTO t VALUES (?, ?)\", [\"dN\", N]); dbN = [dbN];", "print(dbN[0].execute(\"SELECT a, b FROM t\").unwrap()); dbN = nil;"],
  ["var mdN = nil; { import \"/m/ok0.du\" as okN; mdN = [okN, okN.fn, okN.MC]; }", "print(mdN[0].val, mdN[1](2), mdN[2](3).x, mdN[0]); mdN[0].nope;"],
  ["var laN = [1, 2, 3].map(def(x) => def() => [x, \"la{}\".format(N)]); var lbN = nil; { var acc = []; [1, 2].forEach(def(x) => { var t = [x]; acc.push(def() => { t.push(\"t{}\".format(N)); return t; }); }); lbN = acc; }", "print(laN[2](), laN[0](), lbN[1](), lbN[0](), lbN[0]());"],
  ["var trN = nil; { trait TraN { tm(x) { return [\"trN\", x, this.tv]; } } class UseN { use TraN; init() { this.tv = [\"tvN\"]; } } trN = UseN(); }", "print(trN.tm(1), trN._class);"],
  ["var loN = Log.new(Log.stdout).unwrap(); loN.setPrefix(\"pre{}\".format(N)); var cpN = BigInt.new(\"9{}0\".format(N)).unwrap(); var bfN = Buffer.new(4).unwrap();", "print(cpN.add(BigInt.new(1).unwrap()).unwrap(), bfN.len(), bfN.subarray(1, 3).unwrap().len());"],
]
def edges(r, ops):
    """such pairs put into a session"""
    for k in r.sample(range(len(EDGE)), r.choice([1, 2, 4])):
        n = str(r.randint(100, 999)); at = r.randint(0, len(ops)); m, u = (edge(x, n) for x in EDGE[k])
        ops.insert(at, m); at = r.randint(at + 1, len(ops)); ops.insert(at, u)
        if r.random() < 0.5: ops.insert(r.randint(at + 1, len(ops)), u)

import re as _re
def edge(t, n):
    return _re.sub(r"N(?![a-zA-Z_])", n, t)

SETUP = [" ".join("import %s;" % m for m in IMPORTS),
  """var s0 = "va" + "lue"; var s1 = "other".upper(); var n0 = 3; var n1 = -2.5; var l0 = [1, "two", [3]]; var l1 = [[], {}, nil]; var d0 = {"a": [1], "b": "bee"}; var d1 = {}; var e0 = set("m", "n"); var a0 = nil; var a1 = [[1], {"k": "v"}]; var a2 = "str" + "ing"; var a3 = {"x": {"y": ["z"]}};""",
  """def f0(x) { return [x]; } def f1(x, y="d" + "ef") { var t = x; return [t, y]; } def f2(x, ...r) { r.push(x); return r; }""",
  """trait Tr { viaTrait(a) { return [a, this.p]; } }
class K0 { var cv = [1, "cv"]; const cc = "con" + "st"; init(var p, q="dq") { this.q = [q]; } meth(x) { return [x, this.p]; } own(a, b) { this.p = [a, b]; return this.p; } static stat(x) { return [x, "st"]; } }
class K1 < K0 { use Tr; private secret; init(p, q) { super.init(p, q); this.secret = [p]; } meth(x) { var m = super.meth; return [m(x), this.viaTrait(x)]; } static stat(x) { return {"st": x}; } toString() { return "K1:" + this.secret.toString(); } }
abstract class Abs { abstract m() n() { return this.m(); } }
class K2 < Abs { init(var p, var q="qq") { } m() { return [this.p]; } meth(x) { return [this.n(), x]; } own(a, b) { const c = [a]; return def() => [c, b]; } }
class Z0 { z() { return 1; } }
enum Ec { one = "o", two, three = 3 }
var ctr = 1000000; var o0 = K0(1, 2); var o1 = K1("p" + "1", "q");"""]

# statements that make requests to the system, each alone, with the different forms of their arguments
SYS = ["print(System.mkdirTemp().success());", "print(System.mkdirTemp(\"\").success());", "print(System.mkdirTemp(\"/w/tXXXXXX\").success());", "print(System.mkdirTemp(\"bad\"));", "print(System.mkdirTemp(\"/none/dXXXXXX\"));", "print(System.mkdir(\"/w/d\"), System.mkdir(\"/w/d2\", 448));", "print(System.mkdirAll(\"/w/p/q/r/\"), System.mkdirAll(\"/w/p//q\", 493));",
  "print(System.rmdir(\"/w/d\"), System.rmdir(\"/w/none\"));", "print(System.rename(\"/w/in\", \"/w/in2\"), System.rename(\"/w/in2\", \"/w/in\"));", "print(System.remove(\"/w/gone\"));", "print(System.access(\"/w/in\", System.F_OK), System.access(\"/x\", 4));", "print(System.chmod(\"/w/in\", \"644\"));", "print(System.chown(\"/w/in\", 0, 0));",
  "print(System.setCWD(\"/w/p\"), System.getCWD(), System.setCWD(\"/w\"));", "{ System.mkdir(\"/w/z\"); System.setCWD(\"/w/z\"); System.rmdir(\"/w/z\"); print(System.getCWD(), System.mkdirTemp(\"\").success(), Path.realpath(\".\")); System.setCWD(\"/w\"); }", "print(System.uname().len(), System.getpid(), System.getuid());", "System.sleep(0.5);", "print(type(System.clock()), type(System.time()));",
  "print(Path.realpath(\"/w/../w/in\"), Path.realpath(\"\"));", "print(Path.exists(\"/w/in\"), Path.isDir(\"/w\"), Path.listDir(\"/m\").len());", "print(Path.listDir(\"/w\").len(), Path.listDir().len());", "with(\"/w/o1\", \"w\") { print(file.write(\"abc\"), file.writeLine(\"d\"), file.writeLine()); }", "with(\"/w/o1\", \"a+\") { file.write(\"x\".repeat(9000)); file.seek(0); print(file.readLine(), file.read().len(), file.read()); }",
  "with(\"/w/in\", \"r+\") { file.seek(3, 0); file.write(\"Q\"); file.seek(0, 2); print(file.read(), file.readLine()); }", "with(\"/w/none/x\", \"w\") { print(1); }", "with(\"/w/in\", \"zz\") { print(1); }", "print(IO.copyFile(\"/w/in\", \"/w/cp\"), IO.copyFile(\"/none\", \"/w/cp\"), IO.copyFile(\"/w/in\", \"/none/x\"));", "print(Env.set(\"A\", \"b\" + \"c\"), Env.get(\"A\"), Env.set(\"A\", nil), Env.get(\"A\", [1]));", "print(Env.set(\"\", \"x\"), Env.set(\"a=b\", \"x\"), Env.get(\"\"));", "print(Env.readFile(\"/w/in\")); ", "print(Env.readFile(\"/none\"));",
  "print(Process.run([\"ls\", \"-l\"]), Process.run([\"ls\"], true), Process.exec([\"ls\"]).success());", "print(Process.run([\"none\"]), Process.run([], true));", "print(Process.kill(99999, 15));", "{ const k = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (k.success()) { const s = k.unwrap(); print(s.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR), s.bind(\"127.0.0.1\", 4100), s.listen(3), s.write(\"x\"), s.recv(4), s.connect(\"127.0.0.1\", 1), s.close()); } }", "print(Socket.create(99, 99));", "{ const k = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (k.success()) print(k.unwrap().bind(\"not an address\", 1), k.unwrap().connect(\"nohost\", 2)); }",
  "{ const d = Sqlite.connect(\"/w/db\"); if (d.success()) { const db = d.unwrap(); print(db.execute(\"CREATE TABLE IF NOT EXISTS t (a, b)\"), db.execute(\"INSERT INTO t VALUES (?, ?)\", [1, \"two\"]).success(), db.execute(\"SELECT count(*) >= 0 FROM t\"), db.execute(\"SELECT ?\", [nil, 2]), db.execute(\"nope\")); db.close(); print(db.execute(\"SELECT 1\")); } }", "print(Sqlite.connect(\"/none/db\"));",
  "{ const r = HTTP.get(\"http://a.test/\", [\"X-A: 1\"], 3); print(r.success()); }", "{ const r = HTTP.post(\"http://a.test/\", {\"a\": \"b\", \"c\": \"d\"}, [\"X-A: 1\"]); print(r.success()); }", "print(HTTP.post(\"http://a.test/\", {1: 2.5, \"a\": nil, true: [1], nil: \"x\"}).success(), HTTP.put(\"http://a.test/\", {7: \"seven\"}).success());", "{ const c = HTTP.newClient({\"timeout\": 2, \"headers\": [\"X: y\"], \"insecure\": true, \"keyFile\": \"k\", \"certFile\": \"c\", \"keyPasswd\": \"p\"}); print(c.get(\"http://a.test/\").success()); c.setHeaders([\"Z: 1\"]); c.setTimeout(1); print(c.put(\"http://a.test/\", {\"k\": \"v\"}).success(), c.head(\"http://a.test/\").success(), c.options(\"http://a.test/\").success()); }",
  "print(Hashlib.bcrypt(\"pw\", 4).len());", "print(Term.isatty(1), type(Term.getSize()));", "{ const l = Log.new(Log.stdout).unwrap(); l.setPrefix(\"p\" + \"q\"); l.print(\"a\"); l.unsetPrefix(); l.println(\"b\"); }", "print(Log.new(\"/none/log\"));", "{ const l = Log.new(\"/w/log\"); if (l.success()) { l.unwrap().println(\"x\"); } }", "print(UUID.generate().len(), UUID.generateTime().len());", "print(type(Random.random()), Random.range(3, 3), Random.select([7]));", "print(type(Datetime.now()), Datetime.strptime(\"%Y\", \"2020\"));", "import \"/m/ok2.du\";", "import \"/m/ok3.du\" as ok3; print(ok3.val);", "printError(\"to stderr\");", "print(input(\"? \"));"]

NETSERVE = "{ const k = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (k.success()) { const s = k.unwrap(); if (s.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR).success() and s.bind(\"127.0.0.1\", PORT).success() and s.listen(2).success()) { const a = s.accept(); if (a.success()) { const c = a.unwrap()[0]; print(a.unwrap()[1], c.recv(3), c.write(\"yo\" + \"u\"), c.recv(100), c.close()); } else { print(a); } } s.close(); } }"
NETCALL = "{ const k = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (k.success()) { const s = k.unwrap(); print(s.connect(\"127.0.0.1\", PORT), s.write(\"ask\"), s.recv(100)); s.close(); print(s.write(\"x\"), s.recv(1)); } }"
SYS += [NETSERVE, NETSERVE, NETCALL]

def peers(s, ops):
    """each such statement gets a port of its own, and the other end of its connection"""
    out = []
    for k, o in enumerate(ops):
        if o in (NETSERVE, NETCALL):
            if o == NETSERVE: s.proc("caller%d" % k, 0, "connect:%d" % (9000 + k), "sendlit:abcrest", "recvall", "sclose")
            else: s.proc("server%d" % k, 0, "listen:%d" % (9000 + k), "saccept", "sendlit:answer", "recvall", "sclose")
            o = o.replace("PORT", str(9000 + k))
        out.append(o)
    return out

MODULES = {"/m/ok3.du": "var val = [1, \"z\"]; // nul \0 here\nprint(\"never\");\n", "/m/ok0.du": "var val = [1, \"mod\" + \"0\"]; def fn(a) { return [a, val]; } class MC { init(var x) {} } print(\"ok0\");",
  "/m/ok1.du": "import \"ok0.du\"; import JSON; var val = JSON.parse(\"{\\\"a\\\": [1, 2]}\").unwrap(); print(\"ok1\", val);",
  "/m/ok2.du": "from \"ok1.du\" import val; var l = []; for (var i = 0; i < 20; i += 1) { l.push([i, val]); } print(\"ok2\", l.len());",
  "/m/bad0.du": "var partial = [1, \"p\"]; print(\"bad0\"); nope();",
  "/m/bad1.du": "var x = 1; class Q { init( } print(x",
  "/m/bad2.du": "import \"bad0.du\"; print(\"never\");"}

def files(s):
    s.dir("/w"); s.dir("/m"); s.file("/w/in", b"first line\nsecond\n\nlast without end")
    for p in sorted(MODULES): s.file(p, MODULES[p])

def responses(s, ops):
    """what servers answer to the requests among [ops], in pieces, some failing on the way"""
    if not any("HTTP." in o or "ht." in o for o in ops): return
    for i in range(30):
        s.http(["status=200 h=A:%201%0D%0A h=Bee:%20two%0D%0A body=" + "hello%20" * 9, "status=404 h=C:%203%0D%0A bodypat=3:2500", "status=200 h=A:%201%0D%0A body=part%20of%20it fail=56@4", "status=204 h=D:%204%0D%0A", "status=301 h=L:%20x%0D%0A h=M:%20y%0D%0A body=abc failhdr=52@1", "status=200 bodypat=7:40"][(i * 5 + len(ops)) % 6])
    s.opt(chunk_ppm=300000)

def items(g, n, errors=0.2, cerrors=0.05, defs=0.15, churn=0.08):
    out = []
    for _ in range(n):
        r = g.r.random()
        if churn and g.p(churn): out.append(g.c(CHURN)); continue
        if r < cerrors: out.append(g.cerror())
        elif r < cerrors + errors: g.n += 1; out.append(g.error())
        elif r < cerrors + errors + defs: out.append(g.define())
        else: out.append(g.stmt())
    return out
