"""C26: whatever a program does with the language's values and the library, the interpreter survives it."""
from fw import *
from simlib import *
import progs
from props.C01 import FAULTS

TYPED = {
 "str": (["\"abc abc\"", "\"\"", "nul", "s0", "s1", "\"ünï-cödé\"", "\"a,b,,c\"", "\"  pad \"", "\"1.5e3\"", "(\"q\".repeat(300))"], "len toNumber format split contains find findLast replace lower upper startsWith endsWith leftStrip rightStrip strip count wordCount toBool title repeat isUpper isLower collapseSpaces wrap".split()),
 "list": (["[1,2,3]", "[]", "[\"b\",\"a\"]", "[3,\"x\",nil]", "[[1],[2,[3]]]", "l0", "l1", "a1", "[3,1,2,5,4]"], "toString len extend push insert pop remove contains join copy deepCopy toBool sort reverse map sortFunc filter reduce forEach find findIndex splice unique".split()),
 "dict": (["{\"a\":1,\"b\":[2]}", "{}", "d0", "{1:2,nil:3,true:4,2.5:5}", "a3", "{\"a\":{\"b\":{}}}"], "toString len keys get remove exists copy deepCopy toBool forEach merge toObj".split()),
 "set": (["set(\"a\",\"b\")", "set()", "e0", "set(1,nil,2.5,true)"], "toString len values add remove contains containsAll toBool".split()),
 "num": (["1.5", "(-3)", "0", "(0/0)", "(1/0)", "1000000000000000000000"], "toString toBool".split()), "bool": (["true", "false"], ["toString"]), "nil": (["nil"], ["toString", "toBool"]),
 "class": (["K0", "K1", "K2", "Abs", "Tr", "Z0"], "toString toDict methods stat meth classAnnotations methodAnnotations fieldAnnotations name cv cc".split()),
 "obj": (["o0", "o1", "K1(1,2)", "K2([1])", "Z0()", "o1.copy()"], "toString hasAttribute getAttribute getAttributes setAttribute isInstance copy deepCopy methods meth own viaTrait n m init secret".split()),
 "enum": (["Ec"], ["values", "one", "two"]), "res": (["Success([1])", "Error(\"e\")", "Success(nil)", "Success(Success(2))", "Error({\"e\":[1]})"], "unwrap unwrapError success match matchWrap matchError".split()),
 "file": (["fl"], "write writeLine read readLine seek".split()),
 "buf": (["Buffer.fromString(\"abcdef\").unwrap()", "Buffer.new(9).unwrap()", "Buffer.new(1).unwrap()", "bf"], "resize set get subarray string len values writeString readString readUInt64LE readUInt32LE readUInt16LE readInt64LE readInt32LE readInt16LE readInt8 readFloatLE readDoubleLE writeUInt64LE writeUInt32LE writeUInt16LE writeInt64LE writeInt32LE writeInt16LE writeInt8 writeFloatLE writeDoubleLE readUInt64BE readUInt32BE readUInt16BE readInt64BE readInt32BE readInt16BE readFloatBE readDoubleBE writeUInt64BE writeUInt32BE writeUInt16BE writeInt64BE writeInt32BE writeInt16BE writeFloatBE writeDoubleBE".split()),
 "queue": (["qu", "st", "(def(q)=>{q.push(1);q.push([2]);return q;})(Queue.newWithSize(2).unwrap())", "(def(q)=>{q.push(1);q.push([2]);return q;})(Stack.newWithSize(2).unwrap())", "Queue.new()", "Stack.new()"], "isEmpty isFull cap len peek push push pop".split()),
 "big": (["BigInt.new(\"123456789012345678901\").unwrap()", "BigInt.new(0).unwrap()", "BigInt.new(\"-7\").unwrap()", "BigInt.new(\"-\" + \"9\".repeat(90)).unwrap()", "BigInt.new(4294967296).unwrap()"], "compare negate abs bitwiseAnd bitwiseOr bitwiseXor add subtract multiply divide modulo".split()),
 "db": (["db"], ["execute", "execute", "execute", "execute", "close"]), "sock": (["sk"], "bind listen write recv connect close setsockopt".split()), "log": (["lg"], "setPrefix unsetPrefix print println".split()),
 "http": (["ht", "HTTP.newClient({\"timeout\": 3})"], "get post put head options setTimeout setHeaders setInsecure setFollowRedirects setKeyFile setCertFile setKeyPass".split()), "mod": (["ok", "JSON", "Math"], "fn val MC parse stringify max pi".split())}
METHODS = sorted(set(m for _, ms in TYPED.values() for m in ms))
RECV = [x for rs, _ in TYPED.values() for x in rs] + ["def(x)=>x", "o0.meth", "\"x\".len", "K1.stat", "a0", "r", "ht.get(\"http://x/\").unwrap()"]
MODULES = {
 "System": "getgid getegid getuid geteuid getppid getpid chown uname rmdir mkdir mkdirAll access remove setCWD getCWD time clock collect chmod rename mkdirTemp sleep".split(),
 "Math": "average floor round ceil abs max min sum sqrt sin cos tan gcd lcm".split(), "JSON": ["parse", "stringify"], "Path": "realpath isAbsolute basename extname dirname exists isDir listDir join".split(),
 "Buffer": ["new", "fromString"], "BigInt": ["new"], "Queue": ["new", "newWithSize"], "Stack": ["new", "newWithSize"], "Base64": ["encode", "decode"], "Hashlib": "sha256 hmac verify bcryptVerify".split(),
 "Datetime": "now nowUTC strftime strptime".split(), "Env": "get set readFile clearAll".split(), "IO": "print println copyFile".split(), "Net": ["parseIp4"], "Object": "getClassRef createFrom hash prettyPrint".split(),
 "Inspect": "getFrameCount getLine getFile".split(), "Random": "random range select".split(), "UUID": "generate generateRandom generateTime".split(), "Sqlite": ["connect"], "Log": ["new", "print", "println"], "Term": "isatty getSize".split(),
 "Process": "exec run".split(), "Socket": ["create"], "HTTP": "get post put head options newClient".split(), "Argparse": ["Parser"]}
NUMS = ["0", "-1", "1", "2", "3", "4", "5", "7", "255", "256", "65536", "1000000000000000000", "-1000000000000000000", "4294967296", "4294967295", "2147483647", "-2147483648", "(0/0)", "(1/0)", "-(1/0)", "0.5", "-0.5"]
STRS = ["\"\"", "\"a\"", "\"abc def\"", "\"%s%n{}\"", "\"{}{}\"", "\"ünï\"", "\"/w/in\"", "\"/w\"", "\"\\n\"", "nul", "\"%Y-%m-%d\"", "\"[1, {\\\"k\\\": [2]}]\"", "\"SELECT 1, NULL, 'x'\"", "\"INSERT INTO t VALUES (?, ?)\"", "\"SELECT a, b FROM t\"", "\"http://h.test/\"", "s0", "\"z\".repeat(5000)", "\"%\"", "\"%c%Z%+%Ey%Od\"", "\"10.0.0.256\"", "\"/\"", "\"a.\"", "\".\"", "\"..\"", "\"Zm9v=\"", "\"$2b$04$abcdefghijklmnopqrstuv\"", "\"K0\"", "\"{\\\"a\\\": tru\"", "\"-0x1f\""]
FUNS = ["def(x)=>x", "def(a,b)=>a", "def()=>nope", "def(x)=>{ l0.push(x); l0 = []; return l0; }", "def(x)=>{ d0.remove(x); d0[x] = l0; }", "def(...a)=>a", "def(x, y=1)=>[x,y]", "def(x)=>{ l0.pop(); l0.pop(); }", "def(a,b)=>a < b", "o0.meth", "K1.stat", "\"x\".len"]
ARGS = ["nil", "true", "0", "-1", "1", "2", "3", "7", "255", "256", "65536", "1000000000000000000", "-1000000000000000000", "4294967296", "2147483647", "-2147483648", "-2147483649", "(0/0)", "(1/0)", "-(1/0)", "0.5", "-0.5", "\"\"", "\"a\"", "\"abc def\"", "\"%s%n{}\"", "\"{}{}\"", "\"ünï\"", "\"/w/in\"", "\"\\n\"", "nul",
 "[]", "[1,2,3]", "[\"a\",\"b\"]", "[nil]", "[[]]", "{}", "{\"a\":1}", "{1:[2]}", "set()", "set(\"a\")", "def(x)=>x", "def(a,b)=>a", "def()=>nope", "def(x)=>{ l0.push(x); l0 = []; return l0; }", "def(x)=>{ d0.remove(x); d0[x] = l0; }", "def(...a)=>a", "def(x, y=1)=>[x,y]", "K0", "K1", "Abs", "Tr", "o0", "o1", "Ec", "Ec.one", "Success(1)", "Error(\"e\")",
 "BigInt.new(5).unwrap()", "BigInt.new(\"-99999999999999999999\")", "Buffer.new(4).unwrap()", "Queue.new()", "Stack.new()", "JSON", "\"x\".len", "Math.floor", "o0.meth", "K1.stat", "db", "sk", "lg", "ht", "fl", "l0", "d0", "e0", "s0", "a0", "r"] + NUMS + STRS + FUNS
# arguments a method expects, so that its deeper paths are reached: n number, i number about the receiver's length, s string, f function, l list, d dictionary, o object, v any value
SIG = {}
for _sig, _ms in {"vi": "insert", "i": "pop get readUInt64LE readUInt32LE readUInt16LE readInt64LE readInt32LE readInt16LE readInt8 readFloatLE readDoubleLE readUInt64BE readUInt32BE readUInt16BE readInt64BE readInt32BE readInt16BE readFloatBE readDoubleBE resize", "ii": "subarray readString",
  "in": "set writeUInt64LE writeUInt32LE writeUInt16LE writeInt64LE writeInt32LE writeInt16LE writeInt8 writeFloatLE writeDoubleLE writeUInt64BE writeUInt32BE writeUInt16BE writeInt64BE writeInt32BE writeInt16BE writeFloatBE writeDoubleBE", "is": "writeString", "s": "split contains find findLast count leftStrip write writeLine print println setPrefix getAttribute hasAttribute getClassRef parse", "sn": "find split wrap", "ss": "replace", "sss": "replace",
  "n": "repeat wrap readLine toString stringify setTimeout recv listen", "f": "map filter forEach find findIndex sortFunc match matchWrap reduce", "fv": "reduce", "ff": "match matchWrap", "fn": "find findIndex", "l": "extend setHeaders", "d": "merge", "o": "isInstance compare add subtract multiply divide modulo bitwiseAnd bitwiseOr bitwiseXor", "sv": "setAttribute format", "vv": "get format", "v": "push remove contains exists", "nn": "seek", "sl": "execute", "vn": "splice", "iiv": "splice"}.items():
    for _m in _ms.split(): SIG.setdefault(_m, []).append(_sig)
MSIG = {}
for _sig, _ms in {"s": "Base64.encode Base64.decode Hashlib.sha256 Datetime.strftime Datetime.now Datetime.nowUTC Env.get Env.readFile IO.println IO.print Net.parseIp4 Object.getClassRef Object.createFrom Path.realpath Path.isAbsolute Path.basename Path.extname Path.dirname Path.exists Path.isDir Path.listDir Path.join System.rmdir System.mkdir System.mkdirAll System.access System.remove System.setCWD System.mkdirTemp JSON.parse BigInt.new Buffer.fromString Sqlite.connect Log.new HTTP.get HTTP.head HTTP.options",
  "ss": "Path.join Hashlib.hmac Hashlib.verify Hashlib.bcryptVerify Datetime.strptime Env.get Env.set IO.copyFile System.rename HTTP.post", "sn": "Datetime.strftime System.mkdir System.mkdirAll System.access System.chmod Hashlib.bcrypt", "n": "BigInt.new Buffer.new Queue.newWithSize Stack.newWithSize Inspect.getLine Inspect.getFile Math.floor Math.round Math.ceil Math.abs Math.sqrt System.sleep Term.isatty Random.range",
  "nn": "Random.range Math.gcd Math.lcm Math.max Math.sum Socket.create System.sleep", "l": "Random.select Math.max Math.min Math.sum Math.average Math.gcd Math.lcm Path.join Process.exec Process.run", "v": "JSON.stringify Object.prettyPrint Object.hash HTTP.newClient Random.select Env.set", "vn": "JSON.stringify", "snn": "System.chown", "lv": "Process.run", "ssv": "Hashlib.hmac", "sl": "HTTP.get HTTP.head Argparse.Parser", "sd": "HTTP.post HTTP.put", "sdl": "HTTP.post HTTP.put", "sdln": "HTTP.post HTTP.put", "sln": "HTTP.get HTTP.options", "d": "HTTP.newClient Object.prettyPrint JSON.stringify", "sv": "Env.set Env.get"}.items():
    for _m in _ms.split(): MSIG.setdefault(_m, []).append(_sig)
OPERATORS = "+ - * / % ** < > <= >= == != & | ^ and or ??".split()
ASSIGN = "= += -= *= /= &= |= ^= %= **=".split()
SETUP = "import \"/m/ok0.du\" as ok; var nul; with(\"/w/nul\",\"rb\") { nul = file.read(); } var db = Sqlite.connect(\":memory:\").unwrap(); var sk = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); var lg = Log.new(Log.stdout).unwrap(); var ht = HTTP.newClient({}); var fl; with(\"/w/in\",\"r\") { fl = file; } var r = nil; var bf = Buffer.new(12).unwrap(); var qu = Queue.new(); var st = Stack.new(); db.execute(\"CREATE TABLE t (a, b)\");"
ALIVE = "{ const t = [\"al\", {\"i\": \"v\"}]; print(t[0] + t[1][\"i\"] + \"e\".repeat(2)); }"

HEAD = b"\x1b[31mError:\x1b[0m "

class C26(Prop):
    id = "C26"
    quick = 6000
    thorough = 150000
    case_wall_ms = 20000
    technique = "seeded programs that apply every operation and library function to receivers, arguments, counts and callbacks of every kind, run under seeded collection schedules with seeded failing requests; every memory access checked, and after each case the interpreter must still evaluate correctly and account for all memory"
    rule = "A case is non-trivial when at least a quarter of its statements ended normally and at least one ended in an error."
    assumptions = ["structures that contain themselves are not copied, compared, stringified or printed", "nesting deep enough to exhaust the C stack is not generated", "requests for more memory than the machine has are not generated"]
    def gen(self, rng, i, tier):
        def a():
            p = rng.choice([ARGS, ARGS, NUMS, STRS, NUMS + STRS, FUNS, FUNS + ARGS])
            return ", ".join(rng.choice(p if rng.random() < 0.85 else ARGS) for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3])))
        def near(): return "x.len() * %d + %d" % (rng.choice([-1, 0, 1]), rng.randint(-3, 3)) if rng.random() < 0.85 else rng.choice(NUMS)
        K = {"n": lambda: rng.choice(NUMS + [str(rng.randint(-12, 12))]), "i": near, "s": lambda: rng.choice(STRS), "f": lambda: rng.choice(FUNS), "l": lambda: rng.choice(TYPED["list"][0]), "d": lambda: rng.choice(TYPED["dict"][0]), "o": lambda: rng.choice(TYPED["big"][0] + TYPED["obj"][0] + ["K0", "Tr"]), "v": lambda: rng.choice(ARGS)}
        g = progs.G(rng)
        def stmt():
            if rng.random() < 0.3:
                rs, ms = TYPED[rng.choice(sorted(TYPED))]; m = rng.choice(ms); x = rng.choice(rs)
                if m in SIG:
                    sig = rng.choice(SIG[m])
                    if sig == "iiv" or rng.random() < 0.9: return "{ var x = %s; r = x.%s(%s); }" % (x, m, ", ".join(K[c]() for c in sig))
                else: return "r = %s.%s();" % (x, m)
            if rng.random() < 0.12:
                m = rng.choice(sorted(MSIG)); return "r = %s(%s);" % (m, ", ".join("\"pw\", 4" if m == "Hashlib.bcrypt" and c == "s" else K[c]() for c in rng.choice(MSIG[m]) if not (m == "Hashlib.bcrypt" and c == "n")))
            if rng.random() < 0.08:
                rs = TYPED[rng.choice(["list", "str"])][0]; x = rng.choice(rs)
                return rng.choice(["{ var x = %s; r = x[%s]; }" % (x, near()), "{ var x = %s; r = x[%s:%s]; }" % (x, near(), near()), "{ var x = %s; r = x[%s:]; }" % (x, near()), "{ var x = %s; x[%s] %s %s; r = x; }" % (x, near(), rng.choice(ASSIGN), rng.choice(ARGS))])
            k = rng.random()
            R = lambda: rng.choice(RECV)
            if k < 0.46: rs, ms = TYPED[rng.choice(sorted(TYPED))]; return "r = %s.%s(%s);" % (rng.choice(rs), rng.choice(ms), a())
            if k < 0.50: return "r = %s.%s(%s);" % (R(), rng.choice(METHODS), a())
            if k < 0.64: m = rng.choice(sorted(MODULES)); return "r = %s.%s(%s);" % (m, rng.choice(MODULES[m]), a())
            if k < 0.66: return "r = %s.%s;" % (R(), rng.choice(METHODS + ["p", "one", "zz", "_class", "cv"]))
            if k < 0.70: return "r = (%s)[%s];" % (R(), rng.choice(ARGS))
            if k < 0.73: return "r = (%s)[%s:%s];" % (R(), rng.choice(ARGS + [""]), rng.choice(ARGS + [""]))
            if k < 0.77: return "{ var x = %s; x[%s] %s %s; r = x; }" % (R(), rng.choice(ARGS), rng.choice(ASSIGN), rng.choice(ARGS))
            if k < 0.80: return "{ var x = %s; x.%s %s %s; r = x; }" % (R(), rng.choice(["p", "one", "zz", "_class", "meth", "cv"]), rng.choice(ASSIGN), rng.choice(ARGS))
            if k < 0.84: return "r = (%s) %s (%s);" % (R(), rng.choice(OPERATORS), rng.choice(ARGS))
            if k < 0.86: return "r = %s(%s);" % (rng.choice(["-", "not ", "type", "set", "Success", "Error", "print", "assert", "isDefined", "printError", "typeof", "not not "]), rng.choice(ARGS))
            if k < 0.89: return "r = (%s)(%s);" % (R(), a())
            if k < 0.91: return "{ const [x, y] = %s; r = [y, x]; }" % R()
            if k < 0.93: return "r = (def(a, b) => [b, a])(...%s);" % R() if rng.random() < 0.3 else "class Q%d < %s { init(var a) { super.init(a); } meth(x) { return super.meth(x); } } r = Q%d(%s);" % (g.r.randrange(9), rng.choice(["K0", "K1", "K2", "Abs", "Tr", "Ec", "nil", "o0", "JSON", "r"]), g.r.randrange(9), a())
            if k < 0.935: return "class U%d { use %s; m() { return 1; } } r = U%d(1);" % (g.r.randrange(9), rng.choice(["Tr", "K0", "s0", "l0", "r", "Ec", "JSON", "nope", "Tr, Tr", "f0", "a0"]), g.r.randrange(9))
            if k < 0.94: return "from JSON import parse, nope%d; r = parse;" % g.r.randrange(3)
            if k < 0.95: return "{ var n = 0; def deep(x) { n += 1; return %s; } r = deep(1); }" % rng.choice(["deep(x + 1)", "[x].map(def(y) => deep(y))", "n > 300 ? r.nope : deep(x)", "n > 60 ? x : {\"a\": deep([x])}"])
            if k < 0.97: return "switch (%s) { case %s, %s: { r = 1; } default: { r = 2; } }" % (R(), rng.choice(ARGS), rng.choice(ARGS))
            return g.c([g.stmt, g.error, g.cerror])()
        n = rng.choice([15, 40, 40, 60])
        c = {"ops": [stmt() for _ in range(n)], "gc": rng.choice([["gcmode", 1], ["gcmode", 9], ["gcmode", 9], ["gcmode", 0], ["gcmode", 2, "gc_ppm", 50000], ["gcmode", 3, "gc_every", rng.randint(2, 20)]]),
             "show": rng.random() < 0.7, "faults": []}
        if rng.random() < 0.3: c["faults"] = [list(f) + [rng.choice([3000, 30000, 200000]), 10] for f in rng.sample(FAULTS, rng.choice([1, 2, 4]))]
        return c
    def items(self, case):
        out = list(progs.SETUP) + ["import C;", SETUP]
        for x in case["ops"]:
            out.append(x)
            if case["show"]: out.append("print(r);")
        return out + ["System.access(\"/.sim/nofaults\", 0);", ALIVE]
    def scenarios(self, case):
        s = Scn(); progs.files(s); s.dir("/root"); s.prog("ls", "exit:0"); s.file("/w/nul", b"a\0b\0\0c")
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        for x in self.items(case): s.item(0, "m", x)
        s.opt(**dict(zip(case["gc"][::2], case["gc"][1::2])))
        for f in case["faults"]: s.fault(*f)
        for i in range(80): s.http("status=200 h=%s %s" % (pct("A: b\r\n"), ["body=x", "bodypat=2:900", "", "body=some%20text fail=56@3"][(i + len(case["ops"])) % 4]))
        s.opt(chunk_ppm=300000)
        return [s.text()]
    def outside(self, case, rs):
        return any(self_containing(r) for r in rs)
    def check(self, case, rs):
        r, = rs
        e = r.exit.get(0)
        if e is None or e["sig"] or e["code"]: yield ("ended", "the embedding program ended with %r" % (e,)); return
        codes = r.results.get(0, [])
        its = self.items(case)
        if len(codes) != len(its): yield ("ended", "%d of %d inputs were answered" % (len(codes), len(its))); return
        if codes[-1] != 0 or not r.out.get(0, b"").endswith(b"alvee\n"): yield ("damaged", "after the program the interpreter no longer evaluates correctly: result %d, output %r" % (codes[-1], r.out.get(0, b"")[-60:])); return
        if not any(f[0] == "write" for f in case["faults"]):
            err, at = r.serr.get(0, b""), 0
            for k, (code, end) in enumerate(zip(codes, r.errlen.get(0, []))):
                said, at = HEAD in err[at:end], end
                if said != (code != 0): yield ("report", "input %d %r ends with %d but %s" % (k, its[k][:200], code, "reported an error" if said else "reported no error")); return
        if r.lost.get(0): yield ("accounting", "%d bytes of the interpreter's memory are unaccounted for after shutdown" % r.lost[0]); return
    def body(self, case, r):
        n0 = len(progs.SETUP) + 2
        return r.results.get(0, [])[n0:-2]
    def nontrivial(self, case, rs):
        b = self.body(case, rs[0]) if rs[0].finished else []
        return bool(b) and b.count(0) * 4 >= len(b) and any(b)
    def probes(self, case, rs):
        r = rs[0]
        if not r.finished: return {}
        b = self.body(case, r)[::2 if case["show"] else 1]
        d = {"statements": len(b), "ended in a runtime error": b.count(2), "rejected": b.count(1), "ended normally": b.count(0), "with injected failures": int(bool(r.faults)), "collections": r.counts.get("gc:collections", 0)}
        return d
    def shrinks(self, case):
        if case["faults"]:
            c = dict(case); c["faults"] = []; yield c
        yield from drop_parts(case, "ops")
        if case["show"]: c = dict(case); c["show"] = False; yield c

PROP = C26()
