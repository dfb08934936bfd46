"""C19: environment reads reflect exactly the successful changes made before."""
from fw import *
from simlib import *

NAMES = ["A", "B", "AB", "A_B", "PATHX", "HOME", "X" * 300, "a", "Ä", "with space", "TZ", "B2"]
BADN = ["", "=", "A=", "A=B", "=A", "A\0B", "\0"]
VALS = ["", "1", "v", "a=b", "=", "long" * 500, " padded ", "line\nbreak", "ünï", "#x", "%s", "0", "nil"]
WS = ["", "", "", " ", "  ", "\t", " \t "]
class C19(Prop):
    id = "C19"
    quick = 8000
    thorough = 160000
    technique = "seeded histories of changes, readings, file loads and started children over a simulated environment with failing changes and reads, compared step by step with a model of the environment"
    rule = "A case is non-trivial when at least one change succeeded and one variable was read afterwards."
    assumptions = ["a file load that fails keeps the variables of the lines before the failure, as the documented tests expect"]
    def filetext(self, rng):
        ls = []
        for _ in range(rng.choice([0, 1, 3, 6, 20])):
            r = rng.random(); w = lambda: rng.choice(WS)
            n = rng.choice(["A", "B", "AB", "a", "A_B", "X" * 300])
            v = rng.choice(["1", "v", "", "a=b", "a b  c", "'q'", "\"q\"", "long" * 3000, "ü", "$A", "=", "=="])
            if r < 0.55: ls.append(w() + n + w() + "=" + w() + v + w())
            elif r < 0.65: ls.append(w() + n + w() + "=" + w() + v + w() + "#" + rng.choice(["", " c", "x=1", "#"]))
            elif r < 0.75: ls.append(rng.choice(WS + ["\r"]))
            elif r < 0.87: ls.append(w() + "#" + rng.choice(["", "A=9", " text", "#"]))
            elif r < 0.9: ls.append(w() + rng.choice(["junk", "A", "A:1"]))
            elif r < 0.92: ls.append(w() + "=x")
            else: ls.append(n + "=" + v + "\r")
        t = "\n".join(ls)
        if ls and rng.random() < 0.7: t += "\n"
        return t
    def gen(self, rng, i, tier):
        files = [self.filetext(rng) for _ in range(2)]
        ops = []
        for _ in range(rng.choice([3, 8, 20])):
            r = rng.random(); n = rng.choice(NAMES[:6]) if rng.random() < 0.7 else rng.choice(NAMES)
            if r < 0.3: ops.append(["get", n if rng.random() < 0.93 else rng.choice(BADN)])
            elif r < 0.4: ops.append(["getd", n, rng.choice(VALS)])
            elif r < 0.62: ops.append(["set", n if rng.random() < 0.9 else rng.choice(BADN), rng.choice(VALS) if rng.random() < 0.95 else "n\0ul"])
            elif r < 0.72: ops.append(["unset", n if rng.random() < 0.93 else rng.choice(BADN)])
            elif r < 0.77: ops.append(["clear"])
            elif r < 0.89: ops.append(["load", rng.choice([0, 0, 1, 2, 3])])
            elif r < 0.95: ops.append(["child", n])
            else: ops.append(["all"])
        ops.append(["all"])
        f = []
        if rng.random() < 0.35: f.append([rng.choice(["setenv", "setenv", "unsetenv", "unsetenv", "open", "readin"]), rng.choice(["ENOMEM"]), rng.choice([100000, 400000, 1000000]), rng.choice([1, 2])])
        return {"ops": ops, "files": files, "faults": f, "env": [[rng.choice(NAMES[:6]), rng.choice(VALS)] for _ in range(rng.choice([0, 2, 5]))], "chunk": rng.choice([0, 500000]), "gc": rng.randrange(1 << 30)}
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        for k, v in case["env"]: s.env(k, v)
        s.file("/w/.env", case["files"][0].encode()); s.file("/w/f1", case["files"][1].encode()); s.dir("/w/f3")
        names = sorted(set(n for n in NAMES))
        for j, n in enumerate(names): s.prog("/p%d" % j, "env:" + pct(n), "exit:0")
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        s.item(0, "m", "import System; import Env; import Process;" + PRELUDE)
        for k, o in enumerate(case["ops"]):
            op = o[0]
            if op == "get": x = "P(Env.get(%s));" % lit(o[1])
            elif op == "getd": x = "P(Env.get(%s, %s));" % (lit(o[1]), lit(o[2]))
            elif op == "set": x = "P(Env.set(%s, %s));" % (lit(o[1]), lit(o[2]))
            elif op == "unset": x = "P(Env.set(%s, nil));" % lit(o[1])
            elif op == "clear": x = "P(Env.clearAll());"
            elif op == "load": x = ["P(Env.readFile());", "P(Env.readFile(\"/w/f1\"));", "P(Env.readFile(\"missing\"));", "P(Env.readFile(\"/w/f3\"));"][o[1]]
            elif op == "child": x = "P(Process.run([\"/p%d\"], true));" % names.index(o[1])
            else: x = "P([%s]);" % ", ".join("Env.get(%s)" % lit(n) for n in names)
            s.item(0, "m", "System.access(\"/.sim/o%d\", 0); %s" % (k, x))
        for f in case["faults"]: s.fault(*f)
        s.opt(chunk_ppm=case["chunk"])
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def load(self, text):
        """(pairs, line of the first malformed entry or None)"""
        out = []
        ls = text.encode().split(b"\n")
        for j, l in enumerate(ls):
            l = l.strip(b" \t\r")
            if not l or l[:1] == b"#": continue
            if b"=" not in l: return out, j + 1
            k, v = l.split(b"=", 1)
            out.append((k.strip(b" \t\r"), v.split(b"#")[0].strip(b" \t\r"), j + 1))
        return out, None
    def check(self, case, rs):
        r = rs[0]
        fl = {}; cur = None
        for e in r.seq:
            if e[0] == "fds" and e[1]["why"][:1] == "o": cur = int(e[1]["why"][1:])
            elif e[0] == "fault" and cur is not None: fl.setdefault(cur, []).append(e[1].split()[0])
        parts = []
        try: vals, rest = parse_values(r.out[0])
        except (ValueError, Short) as e: return [("output", "the output is not a sequence of values: %s" % e)]
        if rest: return [("output", "unexpected output %r" % rest[:100])]
        res = r.results[0][1:]
        env = {b"HOME": b"/root", b"PATH": b"/usr/bin:/bin", b"TZ": b"UTC0"}
        for k, v in case["env"]: env[k.encode()] = v.encode()
        names = [n.encode() for n in sorted(set(NAMES))]
        vi = 0; changed = 0; read = 0
        B = lambda x: x.encode() if isinstance(x, str) else x
        for k, o in enumerate(case["ops"]):
            op = o[0]; f = fl.get(k, []); what = "operation %d %r" % (k, o if len(repr(o)) < 200 else op)
            if f: what += " (failing: %s)" % " ".join(f)
            if res[k] != 0:
                if op == "load" and (o[1] >= 2 or f): 
                    if o[1] < 2: self.partial(env, case["files"][o[1]], None, k, case)
                    if f and o[1] < 2: return []
                    continue
                return [("raised", what + " ended with code %r: %r" % (res[k], r.serr.get(0, b"")[-200:]))]
            if vi >= len(vals): return [("output", what + " printed nothing")]
            v = vals[vi]; vi += 1
            G = lambda n: env.get(n, ("V", "nil"))
            if op == "get":
                w = G(B(o[1])); read += 1
                if v != w: return [("get", what + " returned %r instead of %r" % (v, w))]
            elif op == "getd":
                w = env.get(B(o[1]), B(o[2])); read += 1
                if v != w: return [("get", what + " returned %r instead of %r" % (v, w))]
            elif op == "all":
                w = [G(n) for n in names]; read += 1
                if v != w:
                    d = [(n, a, b) for n, a, b in zip(names, v, w) if a != b] if isinstance(v, list) and len(v) == len(w) else v
                    return [("state", what + ": %r (name, read, expected)" % (d[:3],))]
            elif op in ("set", "unset"):
                n = B(o[1]); bad = not n or b"=" in n or b"\0" in n or (op == "set" and "\0" in o[2])
                ok = isinstance(v, tuple) and v[0] == "R"
                if not ok and not (isinstance(v, tuple) and v[0] == "E"): return [("value", what + " returned %r" % (v,))]
                if ok and bad: return [("accepted", what + " reported success")]
                if not ok and not bad and not f: return [("spurious-error", what + " returned %r" % (v,))]
                if ok:
                    if v[1] != ("V", "nil"): return [("value", what + " returned %r" % (v,))]
                    changed += 1
                    if op == "set": env[n] = B(o[2])
                    else: env.pop(n, None)
            elif op == "clear":
                ok = isinstance(v, tuple) and v[0] == "R"
                if not ok and not f: return [("spurious-error", what + " returned %r" % (v,))]
                if ok: env.clear(); changed += 1
            elif op == "load":
                ok = isinstance(v, tuple) and v[0] == "R"
                if o[1] >= 2:
                    if ok: return [("load", what + " of a file that cannot be read reported success")]
                    continue
                pairs, mal = self.load(case["files"][o[1]])
                bad = next((p for p in pairs if not p[0]), None)
                if ok and (mal or bad): return [("load", what + " reported success for a file with a malformed line %r" % (mal or bad[2]))]
                if not ok and not mal and not bad and not f: return [("spurious-error", what + " returned %r" % (v,))]
                if ok or not f:
                    lim = bad[2] if bad and not ok else 10 ** 9
                    for n, x, ln in pairs:
                        if ln < lim: env[n] = x
                    if mal and v != ("E", b"Malformed entry on line %d" % mal) and not bad: return [("load", what + " returned %r where line %d is malformed" % (v, mal))]
                    changed += 1
                else: return []           # how much of the file was set before the failure is open
            elif op == "child":
                if f: continue
                w = env.get(B(o[1]), b"")
                if v != ("R", w): return [("child", what + ": the child sees %r instead of %r" % (v, w))]
        if vi != len(vals): return [("output", "unexpected further output %r" % (vals[vi:vi + 2],))]
        case["_nt"] = changed > 0 and read > 0
        return []
    def partial(self, env, text, f, k, case): pass
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        for k in (0, 1):
            ls = case["files"][k].split("\n")
            for j in range(len(ls)): yield dict(case, files=[("\n".join(ls[:j] + ls[j + 1:])) if q == k else case["files"][q] for q in (0, 1)])
        if case["faults"]: yield dict(case, faults=[])
        if case["env"]: yield dict(case, env=[])

PROP = C19()
