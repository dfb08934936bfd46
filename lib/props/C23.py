"""C23: every log call emits exactly one complete, ordered record."""
import time as _t
from fw import *
from simlib import *
from props.C17 import TZS, instant, lt

MSG = ["", "m", "message", "a b  c", "tail\n", "mul\nti\nline", "ünï", "%s%d%n", "x" * 100, "x" * 1023, "x" * 4095, "x" * 4096, "y" * 9000, "n\0ul", "\t", "<b>{}"]
PRE = ["p", "pre fix", "[svc]", "%s", "ü", "q" * 300, "", " "]

class C23(Prop):
    id = "C23"
    quick = 12000
    thorough = 240000
    technique = "seeded histories of calls on several loggers with clocks that jump and streams that take any number of bytes at a time, under seeded collections; both streams compared with a model of the records, each stamp with the clock reading of its call"
    rule = "A case is non-trivial when at least two records were written."
    assumptions = ["an empty prefix is no prefix", "prefixes contain no NUL character"]
    def gen(self, rng, i, tier):
        nl = rng.choice([1, 2, 4])
        ops = []
        for j in range(nl): ops.append(["new", j, rng.choice([1, 1, 2])])
        for _ in range(rng.choice([2, 6, 15])):
            r = rng.random(); j = rng.randrange(nl); m = rng.choice(MSG)
            if r < 0.2: ops.append(["mod", rng.choice(["print", "println"]), m])
            elif r < 0.6: ops.append(["obj", j, rng.choice(["print", "println"]), m])
            elif r < 0.73: ops.append(["pre", j, rng.choice(PRE)])
            elif r < 0.8: ops.append(["unpre", j])
            elif r < 0.85: ops.append(["out", rng.choice(["print", "printError"]), rng.choice(["plain", "z" * 5000, ""])])
            elif r < 0.88: ops.append(["new", j, rng.choice([1, 2])])
            elif r < 0.91: ops.append(["copy", j, rng.randrange(nl)])
            elif r < 0.94: ops.append(["fn", j, m])
            elif r < 0.96: ops.append(["drop", j])
            else: ops.append(["bad", j, rng.choice(["g%d.print(1)", "g%d.println()", "g%d.setPrefix(nil)", "g%d.print(\"a\", \"b\")", "Log.print(nil)", "Log.println()", "Log.new(\"x\")", "Log.new()", "g%d.unsetPrefix(1)", "g%d.fatal(3)", "Log.fatalln()", "g%d.setPrefix()"])])
            if rng.random() < 0.05: ops.append(["badnew", rng.choice([0, 3, 77, -1])])
        if rng.random() < 0.35: ops.append(["fatal", rng.choice([-1, rng.randrange(nl)]), rng.choice(["fatal", "fatalln"]), rng.choice(MSG)]); ops.append(["mod", "println", "never"])
        f = []
        if rng.random() < 0.5: f.append(["writeout", "short", rng.choice([100000, 700000]), 1000000])
        return {"ops": ops, "at": max(instant(rng), 86400), "tz": rng.choice(TZS), "jump": rng.choice([0, 0, 200000, 600000]), "faults": f, "tty": rng.random() < 0.3, "outbuf": rng.choice([0, 0, 1, 16, 1024]), "fin": rng.random() < 0.5, "gc": rng.randrange(1 << 30)}
    def scenarios(self, case):
        s = Scn(); s.dir("/w"); s.env("TZ", case["tz"])
        kw = {}
        if case["tty"]: kw["outtty"] = 1
        if case["outbuf"]: kw["outbuf"] = case["outbuf"]
        s.node(0, kind="embed", cwd="/w", **kw).args(0, "dictu")
        s.item(0, "m", "import System; import Log; var g0 = nil; var g1 = nil; var g2 = nil; var g3 = nil; def viaFn(l, m) { const c = l; c.println(m); }")
        for k, o in enumerate(case["ops"]):
            op = o[0]
            if op == "new": x = "g%d = Log.new(%s).unwrap();" % (o[1], {1: "Log.stdout", 2: "Log.stderr"}[o[2]])
            elif op == "mod": x = "Log.%s(%s);" % (o[1], lit(o[2]))
            elif op == "obj": x = "g%d.%s(%s);" % (o[1], o[2], lit(o[3]))
            elif op == "pre": x = "{ var p = %s; g%d.setPrefix(p.%s); p = nil; }" % (lit(o[2]), o[1], "replace(\"\x01\", \"\")")
            elif op == "unpre": x = "g%d.unsetPrefix();" % o[1]
            elif op == "out": x = "%s(%s);" % (o[1], lit(o[2]))
            elif op == "copy": x = "g%d = g%d;" % (o[1], o[2])
            elif op == "drop": x = "g%d = nil; g%d = Log.new(1).unwrap();" % (o[1], o[1])
            elif op == "fn": x = "viaFn(g%d, %s);" % (o[1], lit(o[2]))
            elif op == "bad": x = (o[2] % o[1] if "%" in o[2] else o[2]) + ";"
            elif op == "badnew": x = "print(Log.new(%d).success());" % o[1]
            else: x = "%s.%s(%s);" % ("Log" if o[1] < 0 else "g%d" % o[1], o[2], lit(o[3]))
            s.item(0, "m", "System.access(\"/.sim/o%d\", 0); %s" % (k, x))
        s.opt(wall_off_s=case["at"] - 1, jump_ppm=case["jump"])
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]
        clk = {}; cur = None
        for e in r.seq:
            if e[0] == "fds" and e[1]["why"][:1] == "o": cur = int(e[1]["why"][1:])
            elif e[0] == "clk" and e[1] != "mono" and cur is not None: clk.setdefault(cur, []).append(e[2] // 1000000000)
        st = {1: r.out.get(0, b""), 2: r.serr.get(0, b"")}; pos = {1: 0, 2: 0}
        lg = {}; n = 0; nid = 0; ended = False
        res = r.results[0][1:]
        for k, o in enumerate(case["ops"]):
            op = o[0]; rec = None
            what = "operation %d %r" % (k, o if len(repr(o)) < 120 else o[:-1])
            if ended:
                if k < len(res): return [("continued", what + " ran after a fatal call")]
                continue
            code = res[k] if k < len(res) else None
            if op == "bad":
                if code != 2: return [("bad-call", what + " ended with code %r" % code)]
                e = st[2].find(b"\n\n", pos[2])
                if e < 0: return [("bad-call", what + " printed no error")]
                pos[2] = e + 2
                continue
            if code != (None if op == "fatal" else 0): return [("error", what + " ended with code %r: %r" % (code, st[2][-200:]))]
            if op in ("new", "drop"): nid += 1; lg[o[1]] = [o[2] if op == "new" else 1, b""]
            elif op == "mod": rec = (1, b"", o[2], o[1])
            elif op == "obj": rec = (lg[o[1]][0], lg[o[1]][1], o[3], o[2])
            elif op == "fn": rec = (lg[o[1]][0], lg[o[1]][1], o[2], "println")
            elif op == "pre": lg[o[1]][1] = o[2].encode()
            elif op == "unpre": lg[o[1]][1] = b""
            elif op == "copy": lg[o[1]] = lg[o[2]]
            elif op == "out" or op == "badnew":
                c = 2 if op == "out" and o[1] == "printError" else 1
                w = o[2].encode() + b"\n" if op == "out" else b"false\n"
                if st[c][pos[c]:pos[c] + len(w)] != w: return [("order", what + ": expected %r next on stream %d, got %r" % (w[:40], c, st[c][pos[c]:pos[c] + 60]))]
                pos[c] += len(w)
            elif op == "fatal":
                rec = (1, b"", o[3], o[2]) if o[1] < 0 else (lg[o[1]][0], lg[o[1]][1], o[3], o[2]); ended = True
            if rec:
                c, pre, m, fn = rec; n += 1
                cs = [x for x in clk.get(k, []) if 1 < x < 253402200000] 
                if not cs:
                    if clk.get(k): return []
                    return [("stamp", what + ": no clock was read")]
                tail = (pre + b" " if pre else b"") + m.encode() + (b"\n" if fn.endswith("ln") else b"")
                ws = [("%04d/%02d/%02d %02d:%02d:%02d " % lt(case["tz"], x)[:6]).encode() + tail for x in cs]
                g = next((w for w in ws if st[c][pos[c]:pos[c] + len(w)] == w), None)
                if g is None:
                    a = st[c][pos[c]:pos[c] + len(ws[0])]; d = next((j for j, (x, y) in enumerate(zip(a, ws[0])) if x != y), min(len(a), len(ws[0])))
                    return [("record", what + ": expected %r, got %r (from character %d on) on stream %d" % (ws[0][max(0, d - 25):d + 40], a[max(0, d - 25):d + 40], max(0, d - 25), c))]
                pos[c] += len(g)
        for c in (1, 2):
            if pos[c] != len(st[c]): return [("extra", "unexpected further output on stream %d: %r" % (c, st[c][pos[c]:pos[c] + 80]))]
        ex = r.exit[0]
        if ex["code"] != (1 if ended else 0) or ex["sig"]: return [("status", "the program ended with %r%s" % (ex, " after a fatal call" if ended else ""))]
        case["_nt"] = n > 1
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        nl = sum(1 for o in case["ops"] if o[0] == "new")
        for j in range(len(case["ops"])):
            if case["ops"][j][0] != "new": yield dict(case, ops=case["ops"][:j] + case["ops"][j + 1:])
        for a, b in (("faults", []), ("jump", 0), ("tz", "UTC0"), ("tty", False), ("outbuf", 0)):
            if case[a] != b: yield dict(case, **{a: b})

PROP = C23()
