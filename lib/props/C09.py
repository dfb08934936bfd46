"""C09: running a command captures its complete output and always finishes."""
from fw import *
from simlib import *

SIZES = [0, 1, 2, 100, 511, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 9215, 9216, 9217, 20000, 65535, 65536, 65537, 100000]

class C09(Prop):
    id = "C09"
    quick = 5000
    thorough = 250000
    technique = "commands of a simulated kernel write any amount in any chunking and timing into pipes of varying capacity; every captured byte compared"
    rule = "A case is non-trivial when at least one command's output was captured or passed on completely."
    assumptions = ["commands do not leave background processes behind that keep the pipe open", "what a command writes to its error stream while captured is not specified by the documentation and is not generated"]
    def gen(self, rng, i, tier):
        progs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            acts = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                r = rng.random()
                if r < 0.6: acts.append("w:%d:%d" % (rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(0, 5000), rng.randrange(1000)))
                elif r < 0.8: acts.append("sleep:%d" % rng.choice([1, 10, 1000, 60000]))
                else: acts.append("lit:" + pct(bytes(rng.choice(b"\n\n \t\r%\"\\ab\xc3\xa9") for _ in range(rng.choice([1, 3, 40])))).replace(":", "%3A"))
            if rng.random() < 0.15: acts.append("closefd:1")
            if rng.random() < 0.3: acts.append("sleep:%d" % rng.choice([5, 3000]))
            if rng.random() < 0.3: acts.append("exit:0")
            progs.append(["lit:" + pct("\x01%d" % k)] + acts)
        caps = [rng.random() < 0.75 for _ in progs]     # a command is always captured or never
        ops = [[k, caps[k], rng.randrange(3)] for k in [rng.randrange(len(progs)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]]
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 2])):
                c = rng.choice(["readpipe", "readpipe", "readpipe", "waitpid", "pipe", "fork", "close", "exec"])
                e = rng.choice(["EINTR", "EINTR", "EIO", "ENOMEM"]) if c in ("readpipe", "waitpid") else rng.choice(["EIO", "EMFILE", "EAGAIN", "ENOMEM"])
                faults.append([c, e, rng.choice([20000, 100000, 400000])])
        if rng.random() < 0.5: faults.append(["readpipe", "short", rng.choice([300000, 900000])])
        return {"progs": progs, "ops": ops, "faults": faults, "chunk": rng.choice([0, 0, 200000, 900000]), "cap": rng.choice([512, 4096, 65536, 65536]), "gc": rng.randrange(1 << 30),
                "yield": rng.choice([0, 100000, 500000]), "outbuf": rng.choice([64, 1000, 8192])}
    def output(self, acts):
        b = b""
        for a in acts:
            t = a.split(":")
            if t[0] == "w": b += patbytes(int(t[2]), int(t[1]))
            elif t[0] == "lit": b += unpct(t[1])
            elif t[0] == "closefd": break
        return b
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        for k, acts in enumerate(case["progs"]): s.prog("cmd%d" % k, *(acts or ["exit:0"]))
        src = "import System; import Process;" + PRELUDE + "System.access(\"/.sim/armfaults\", 0);\n"
        for i, (k, cap, pre) in enumerate(case["ops"]):
            if pre == 1: src += "print(\"V\\nBEFORE\");\n"
            if pre == 2: src += "for (var i = 0; i < 300; i += 1) { print(\"V\\nsome line of text\"); }\n"
            src += "System.access(\"/.sim/o%d\", 0); var r%d = Process.run([\"cmd%d\"]%s); System.access(\"/.sim/e%d\", 0); P(r%d);\n" % (i, i, k, ", true" if cap else "", i, i)
        s.node(0, kind="embed", cwd="/w", outbuf=case["outbuf"]).args(0, "dictu").item(0, "m", src)
        for f in case["faults"]: s.fault(*f)
        s.opt(fault_wait=1, chunk_ppm=case["chunk"], pipecap=case["cap"], yield_ppm=case["yield"], step_cap=2000000)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]; out = []
        if r.results[0] != [0]: return [("raised", "the program ended with an error: %s" % r.serr[0][-300:])]
        faults = {}; marks = {}; at = -1
        for e in r.seq:
            if e[0] == "fds":
                if e[1]["why"][0] == "o" and e[1]["why"][1:].isdigit(): at = int(e[1]["why"][1:])
                marks[e[1]["why"]] = e[1]
            elif e[0] == "fault": faults.setdefault(at, []).append(e[1])
        # the passed-on outputs are taken out of the program's own output first
        o = r.out[0]; good = 0
        passed = {}
        pos = 0
        hard = {i: [f for f in fl if f.split()[1] != "short"] for i, fl in faults.items()}
        for i, (k, cap, pre) in enumerate(case["ops"]):
            if cap: continue
            want = self.output(case["progs"][k])
            if not want: continue
            if hard.get(i): return []        # the command may still be writing at any later time
            p = o.find(want)
            if p < 0: out.append(("passed-on", "run %d without capture: the command's %d bytes are not on the program's output in one piece" % (i, len(want)))); return out
            o = o[:p] + o[p + len(want):]
        try: vals, rest = parse_values(o)
        except ValueError as e: return [("output", "the program's own output is disturbed: %s" % e)]
        vi = 0
        for i, (k, cap, pre) in enumerate(case["ops"]):
            for _ in range((0, 1, 300)[pre]):
                if vi >= len(vals) or vals[vi] not in (("V", "BEFORE"), ("V", "some line of text")) : out.append(("output", "a line printed before run %d is missing" % i)); return out
                vi += 1
            if vi >= len(vals): out.append(("output", "no result printed for run %d: %r" % (i, o[-200:]))); return out
            v = vals[vi]; vi += 1
            want = self.output(case["progs"][k])
            h = hard.get(i, [])
            if isinstance(v, tuple) and v[0] == "E":
                if not h: out.append(("spurious-error", "run %d: %r though nothing failed" % (i, v[1]))); return out
            elif isinstance(v, tuple) and v[0] == "R":
                if cap:
                    if not isinstance(v[1], bytes) or v[1] != want:
                        g = v[1] if isinstance(v[1], bytes) else repr(v[1]).encode()
                        out.append(("captured", "run %d: captured %d bytes where the command wrote %d, equal up to %d" % (i, len(g), len(want), common(g, want)))); return out
                elif v[1] != ("V", "nil"): out.append(("value", "run %d returned %r" % (i, v))); return out
                if marks["e%d" % i]["kids"] != 0 and not any(hard.get(j) for j in range(i)): out.append(("early", "run %d returned before the command had exited" % i)); return out
                good += 1
            else: out.append(("value", "run %d returned %r" % (i, v))); return out
        if vi != len(vals) or rest: out.append(("output", "unexpected further output %r" % (vals[vi:vi + 2] or rest[:100],)))
        case["_nt"] = good > 0
        return out
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        if case["faults"]: yield from drop_parts(case, "faults")
        for k in range(len(case["progs"])):
            for j in range(1, len(case["progs"][k])):
                c = copy.deepcopy(case); del c["progs"][k][j]; yield c
        for a, b in (("chunk", 0), ("yield", 0), ("cap", 65536)):
            if case[a] != b: c = dict(case); c[a] = b; yield c

def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y: break
        n += 1
    return n

PROP = C09()
