"""C10: child processes are started, waited for and reported truthfully."""
from fw import *
from simlib import *

ARGS = ["", "a", "-x", "two words", "q\"uote", "it's", "$HOME", "*", "a;b", "\\", "%s%n", "\t", "--", "x" * 300, "\u00e9", "&&", "<in", "#", "~"]

class C10(Prop):
    id = "C10"
    quick = 4000
    thorough = 250000
    technique = "command histories over a simulated process table with failing pipe, fork, exec, wait and kill; every start, argument list, exit and signal accounted for"
    rule = "A case is non-trivial when at least one command was started or one process signalled."
    assumptions = ["a command started without waiting may stay a zombie (the documentation calls it fire and forget)"]
    def gen(self, rng, i, tier):
        nv = rng.choice([0, 0, 1, 2])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            r = rng.random()
            if r < 0.72:
                cmd = rng.choice(["ok", "ok", "out", "big", "code", "sig", "missing", "slow", "noexec", "/bin/ok", "", "/w/none", "early"])
                arg = None
                if cmd == "code": arg = rng.choice([1, 2, 7, 42, 126, 127, 128, 255])
                if cmd == "sig": arg = rng.choice([1, 2, 6, 9, 11, 13, 15])
                args = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 3, 12]))]
                ops.append(["cmd", rng.choice(["run", "run", "cap", "exec"]), cmd, arg, args])
            elif r < 0.80: ops.append(["badargs", rng.choice(["run", "cap", "exec"]), rng.choice(["empty", "num", "nil"])])
            elif r < 0.95: ops.append(["kill", rng.randrange(nv + 1), rng.choice([None, None, 0, 1, 2, 9, 15, 10, 12, 13, 99, 65])])
            else: ops.append(["print", rng.choice([1, 30, 300])])
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = rng.choice(["pipe", "fork", "fork", "exec", "exec", "waitpid", "waitpid", "dup", "readpipe", "close", "kill"])
                e = {"waitpid": ["EINTR", "EINTR", "EIO"], "readpipe": ["EINTR", "EIO"], "exec": ["EACCES", "ENOEXEC", "E2BIG", "ENOMEM", "ETXTBSY", "ELOOP"], "kill": ["EPERM"]}.get(c, ["EIO", "EMFILE", "EAGAIN", "ENOMEM"])
                faults.append([c, rng.choice(e), rng.choice([50000, 200000, 600000])])
        return {"nv": nv, "ops": ops, "faults": faults, "gc": rng.randrange(1 << 30), "yield": rng.choice([0, 100000, 400000]), "outbuf": rng.choice([64, 1000, 8192]), "cap": rng.choice([4096, 65536])}
    def name(self, op):
        cmd, arg = op[2], op[3]
        if op[1] == "cap" and cmd in ("out", "big", "slow"): cmd += "cap"
        return "%s%s" % (cmd, "" if arg is None else arg)
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        for k in range(case["nv"]): s.proc("victim%d" % k, 0, "pause")
        s.prog("ok", "exit:0"); s.prog("out", "lit:" + pct("\x01<out>")); s.prog("big", "lit:%01", "w:70000:3"); s.prog("slow", "sleep:5000", "lit:%01s"); s.prog("early", "closefd:1", "sleep:100", "exit:0")
        s.prog("outcap", "lit:" + pct("\x02<out>")); s.prog("bigcap", "lit:%02", "w:70000:3"); s.prog("slowcap", "sleep:5000", "lit:%02s")
        for x in (1, 2, 7, 42, 126, 127, 128, 255): s.prog("code%d" % x, "lit:%01c", "exit:%d" % x)
        for x in (1, 2, 6, 9, 11, 13, 15): s.prog("sig%d" % x, "lit:%01g", "sig:%d" % x)
        s.file("/w/noexec", "text")
        src = "import System; import Process;" + PRELUDE + "System.access(\"/.sim/armfaults\", 0); var done = 0;\n"
        for i, op in enumerate(case["ops"]):
            src += "System.access(\"/.sim/o%d\", 0); " % i
            tail = "System.access(\"/.sim/e%d\", 0); P(r%d); done += 1;\n" % (i, i)
            if op[0] == "cmd":
                cmd = "/w/noexec" if op[2] == "noexec" else self.name(op)
                l = "[" + ", ".join([lit(cmd)] + [lit(a) for a in op[4]]) + "]"
                src += "var r%d = Process.%s(%s%s); " % (i, "exec" if op[1] == "exec" else "run", l, ", true" if op[1] == "cap" else "") + tail
            elif op[0] == "badargs":
                l = {"empty": "[]", "num": "[\"ok\", 1]", "nil": "[nil]"}[op[2]]
                src += "var r%d = Process.%s(%s%s); " % (i, "exec" if op[1] == "exec" else "run", l, ", true" if op[1] == "cap" else "") + tail
            elif op[0] == "kill":
                pid = 100 + op[1] if op[1] < case["nv"] else 98765
                src += "var r%d = Process.kill(%d%s); " % (i, pid, "" if op[2] is None else ", %d" % op[2]) + tail
            else: src += "for (var i = 0; i < %d; i += 1) { P(\"some line of text\"); }\n" % op[1]
        src += "P(done);System.access(\"/.sim/nofaults\", 0);"
        s.node(0, kind="embed", cwd="/w", outbuf=case["outbuf"]).args(0, "dictu").item(0, "m", src)
        for f in case["faults"]: s.fault(*f)
        s.opt(fault_wait=1, pipecap=case["cap"], yield_ppm=case["yield"], chunk_ppm=200000)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]; out = []
        if r.results[0] != [0]: return [("raised", "the program ended with an error: %s" % r.serr[0][-300:])]
        faults = {}; marks = {}; at = -1; execs = {}
        for e in r.seq:
            if e[0] == "fds":
                if e[1]["why"][0] == "o" and e[1]["why"][1:].isdigit(): at = int(e[1]["why"][1:])
                marks[e[1]["why"]] = e[1]
            elif e[0] == "fault": faults.setdefault(at, []).append(e[1])
            elif e[0] == "exec": execs.setdefault(at, []).append(e[1])
        hard = {i: [f.split() for f in fl if f.split()[1] != "short"] for i, fl in faults.items()}
        # output of the commands that had the interpreter's own output: every byte of it starts with \x01 and holds no line end
        o = r.out[0]
        asyncout = any(op[0] == "cmd" and (op[1] == "exec" or hard.get(i)) for i, op in enumerate(case["ops"]))
        big = b"\x01" + patbytes(3, 70000)
        o2 = o
        if not asyncout:
            pieces = {"out": b"\x01<out>", "big": big, "slow": b"\x01s", "code": b"\x01c", "sig": b"\x01g"}
            for i, op in enumerate(case["ops"]):
                if op[0] == "cmd" and op[1] == "run" and op[2] in pieces:
                    w = pieces[op[2]]; p = o2.find(w)
                    if p < 0: return [("passed-on", "operation %d: the command's output is missing" % i)]
                    o2 = o2[:p] + o2[p + len(w):]
        else:
                # written in pieces at any time: every piece consists of a marker byte and known text
            if any(op[0] == "cmd" and op[1] != "cap" and op[2] in ("big", "out", "slow", "code", "sig") for op in case["ops"]):
                for w in (b"\x01<out>", b"\x01s", b"\x01c", b"\x01g"): o2 = o2.replace(w, b"")
                if b"\x01" in o2: o2 = None
        vals = None
        if o2 is not None:
            m = re.search(rb"Total bytes lost: (-?\d+)\n", o2)
            if m: o2 = o2[:m.start()] + o2[m.end():]
            try: vals, rest = parse_values(o2)
            except ValueError as e: return [("output", "the program's own output is disturbed: %s" % e)]
            if rest: return [("output", "the program's own output is disturbed: %r" % rest[:100])]
        vi = 0; nt = 0; mayleft = 0
        for i, op in enumerate(case["ops"]):
            if op[0] == "print":
                if vals is not None:
                    if vals[vi:vi + op[1]] != [b"some line of text"] * op[1]: return [("output", "lines printed before operation %d are lost or repeated" % (i + 1))]
                    vi += op[1]
                continue
            v = "?"
            if vals is not None:
                if vi >= len(vals): return [("output", "no result for operation %d" % i)]
                v = vals[vi]; vi += 1
            h = hard.get(i, []); ex = execs.get(i, [])
            desc = "operation %d %s: " % (i, str(op)[:120])
            ok = isinstance(v, tuple) and v[0] == "R"; er = isinstance(v, tuple) and v[0] == "E"
            if vals is not None and not ok and not er: return [("value", desc + "returned %r" % (v,))]
            m = marks["e%d" % i]
            extra = [x for f, x in m["fds"].items() if f > 2]
            if extra: return [("left-open", desc + "descriptors left open: %s" % extra)]
            if op[0] == "cmd":
                exists = op[2] not in ("missing", "noexec", "", "/w/none")
                want = [self.name(op)] + op[4] if exists else None
                if len(ex) > 1: return [("started-twice", desc + "the command was started %d times" % len(ex))]
                if ex and not exists: return [("started", desc + "started %r" % (ex,))]
                if ex:
                    nt += 1
                    got = ex[0][2].split(b"\n")[:-1]
                    if got != [a.encode() for a in want]: return [("arguments", desc + "the command received %r" % got)]
                hs = [x[0] for x in h]
                waitbad = any(x[0] == "waitpid" for x in h)
                if op[1] == "exec" and ex: mayleft += 1
                elif waitbad or (op[1] == "exec" and any(x[0] == "readpipe" for x in h)): mayleft += 1
                if op[1] != "exec" and not waitbad and m["kids"] > mayleft: return [("unreaped", desc + "%d running and %d unreaped children afterwards" % (m["kids"], m["zombies"]))]
                if m["kids"] > mayleft: return [("unreaped", desc + "%d running and %d unreaped children afterwards" % (m["kids"], m["zombies"]))]
                if ok:
                    if not ex and not any(x[0] == "readpipe" for x in h): return [("false-success", desc + "success reported but nothing was started")]
                    if op[1] != "exec" and op[2] in ("code", "sig"): return [("false-success", desc + "success reported")]
                    if op[1] == "cap":
                        w = {"out": b"\x02<out>", "big": b"\x02" + big[1:], "slow": b"\x02s"}.get(op[2], b"")
                        if v[1] != w: return [("captured", desc + "captured %r" % v[1][:60])]
                    elif v[1] != ("V", "nil"): return [("value", desc + "returned %r" % (v,))]
                if er:
                    if op[1] == "exec" and ex and not h: return [("spurious-error", desc + "started, but reported %r" % (v[1],))]
                    if exists and op[2] not in ("code", "sig") and not h: return [("spurious-error", desc + "reported %r where nothing failed" % (v[1],))]
                    if not ex:
                        reasons = [strerror(x[-1]) for x in h] + ([] if exists else [strerror("EACCES" if op[2] == "noexec" else "ENOENT")])
                        if v[1].decode("latin-1") not in reasons and not any(x[0] in ("writepipe", "readpipe", "waitpid") for x in h): return [("reason", desc + "could not be started (%s) and reported %r" % (reasons, v[1]))]
                if vals is not None and not h and exists and not ex: return [("not-started", desc + "never started")]
            elif op[0] == "badargs":
                if ex: return [("started", desc + "something was started: %r" % (ex,))]
                if ok: return [("false-success", desc + "success reported")]
            elif op[0] == "kill": pass
        if vals is not None and vi + 1 != len(vals): return [("output", "unexpected further output %r" % (vals[vi:vi + 2],))]
        # signals: exactly those asked for, in order
        asked = []
        for i, op in enumerate(case["ops"]):
            if op[0] == "kill": asked.append((100 + op[1] if op[1] < case["nv"] else 98765, 9 if op[2] is None else op[2], i))
        if [k[:2] for k in asked] != r.kills: return [("signals", "asked for the signals %s, sent %s" % ([k[:2] for k in asked], r.kills))]
        if vals is not None:
            dead = {}
            vi = 0
            for i, op in enumerate(case["ops"]):
                if op[0] == "print": vi += op[1]; continue
                v = vals[vi]; vi += 1
                if op[0] != "kill": continue
                pid, sig, _ = [k for k in asked if k[2] == i][0]
                h = hard.get(i, [])
                exp = "EPERM" if h else "EINVAL" if sig > 64 else None if pid != 98765 else "ESRCH"
                if exp is None:
                    nt += 1
                    if v != ("R", ("V", "nil")): return [("kill", "kill(%d, %d) returned %r" % (pid, sig, v))]
                    if sig not in (0,): dead.setdefault(pid, set()).add(sig)
                elif v != ("E", strerror(exp).encode()): return [("kill", "kill(%d, %d) returned %r, expected %s" % (pid, sig, v, exp))]
            for p in r.procs:
                if p["name"].startswith("victim"):
                    pid = int(p["pid"])
                    if p["dead"] == "1" and pid not in dead: return [("victim", "process %d died though no signal was sent to it" % pid)]
        case["_nt"] = nt > 0
        return out
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        if case["faults"]: yield from drop_parts(case, "faults")
        for k, op in enumerate(case["ops"]):
            if op[0] == "cmd" and op[4]:
                c = copy.deepcopy(case); c["ops"][k][4] = op[4][1:]; yield c

PROP = C10()
