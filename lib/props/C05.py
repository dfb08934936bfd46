"""C05: reading a file returns exactly its content from the current position."""
from fw import *
from simlib import *

def line(rng):
    n = rng.choice([0, 0, 1, 2, 5, 10, 40, 79, 200, 1000, 4094, 4095, 4096, 5000])
    w = rng.choice(["ab", "abcdefghij klmno", "%s %d{}", "xyz\r\t", "0123456789"])
    k = rng.randrange(9)
    return (w * (n // len(w) + 2))[k:k + n]

class C05(Prop):
    id = "C05"
    quick = 14000
    thorough = 250000
    rule = "A case is non-trivial when at least one read returned content or the end of file."
    def gen(self, rng, i, tier):
        n = rng.choice([0, 1, 2, 3, 5, 9])
        data = "\n".join(line(rng) for _ in range(n)) + (rng.choice(["", "\n", "\n\n"]) if n else rng.choice(["", "\n"]))
        if data and rng.random() < 0.12:
            k = rng.randrange(len(data)); data = data[:k] + "\0" + data[k + 1:]
        if data and rng.random() < 0.1:
            data = data.replace("a", "\u00e9").encode("utf-8").decode("latin-1")
        mode = rng.choice(["r", "r", "r", "rb", "rb", "r+", "w+", "a+"])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            r = rng.random()
            if r < 0.2: ops.append(["read"])
            elif r < 0.55: ops.append(["line"])
            elif r < 0.7: ops.append(["linen", rng.choice([1, 1, 2, 3, 5, 10, 100, 4095, 4096, 5000, 100000])])
            elif r < 0.85:
                if mode == "rb":
                    w = rng.choice([0, 0, 1, 2])
                    L = len(data.encode("latin-1"))
                    ops.append(["seek", rng.choice([0, 1, 3, L // 2, L, L + 5]) if w == 0 else rng.choice([-1, -3, 0, 2, -L]) if w == 1 else rng.choice([0, -1, -L, -(L // 2), 3]), w])
                else: ops.append(["seek", 0, rng.choice([0, 0, None, 2, 1])])
            elif mode in ("r+", "w+", "a+"):
                ops.append([rng.choice(["write", "writel"]), line(rng)[:rng.choice([1, 3, 10, 5000])]])
            else: ops.append(["line"])
        if rng.random() < 0.15: ops = ops[:3] + [["loop"]]
        if rng.random() < 0.1:   # every line until the end
            ops = [["loop"]]
        faults = []
        r = rng.random()
        if r < 0.2: pass
        elif r < 0.6: faults.append(["read", "short", rng.choice([100000, 500000, 900000])])
        else:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append([rng.choice(["read", "read", "read", "lseek", "lseek", "open", "write", "fstat"]), rng.choice(["EIO", "EINTR", "EACCES", "EAGAIN", "EINVAL"]), rng.choice([30000, 100000, 300000])])
            if rng.random() < 0.5: faults.append(["read", "short", 500000])
        return {"data": data, "mode": mode, "ops": ops, "faults": faults, "gc": rng.randrange(1 << 30), "fn": rng.random() < 0.3}
    def script(self, case):
        o = ["import System;", PRELUDE, "def rd(f) { return f.readLine(); }"]
        o.append("System.access(\"/.sim/start\", 0);")
        o.append("with(\"f\", \"%s\") {" % case["mode"])
        for k, op in enumerate(case["ops"]):
            if op[0] == "read": o.append("P(file.read());")
            elif op[0] == "line": o.append("P(rd(file));" if case["fn"] else "P(file.readLine());")
            elif op[0] == "linen": o.append("P(file.readLine(%d));" % op[1])
            elif op[0] == "seek": o.append("P(file.seek(%d%s));" % (op[1], "" if op[2] is None else ", %d" % op[2]))
            elif op[0] == "write": o.append("P(file.write(%s));" % lit(op[1]))
            elif op[0] == "writel": o.append("P(file.writeLine(%s));" % lit(op[1]))
            elif op[0] == "loop": o.append("{ var l; while ((l = file.readLine()) != nil) { P(l); } P(nil); }")
        o.append("}")
        o.append("print(\"done\");")
        return "\n".join(o) + "\n"
    def scenarios(self, case):
        s = Scn()
        s.dir("/w").file("/w/f", case["data"].encode("latin-1"))
        # the interpreter reads the script before the faults of interest: those runs end early and show little, so the script comes in directly
        s.node(0, kind="embed", cwd="/w").args(0, "dictu").item(0, "m", self.script(case))
        s.opt(dump=1)
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def model(self, case):
        """yields (op, expected value, error expected)"""
        d = case["data"].encode("latin-1"); m = case["mode"]
        if m == "w+": d = b""
        pos = 0
        def rl(lim=None):
            nonlocal pos
            if pos >= len(d): return ("V", "nil")
            e = d.find(b"\n", pos)
            end = len(d) if e < 0 else e
            if lim is not None and pos + lim <= end:
                r = d[pos:pos + lim]; pos += lim
                return r
            r = d[pos:end]; pos = end + (1 if e >= 0 else 0)
            return r
        for op in case["ops"]:
            if op[0] == "read":
                r = d[pos:]; pos = max(pos, len(d)); yield (op, r)
            elif op[0] == "line": yield (op, rl())
            elif op[0] == "linen": yield (op, rl(op[1]))
            elif op[0] == "seek":
                base = {0: 0, None: 0, 1: pos, 2: len(d)}[op[2]]
                if base + op[1] < 0: yield (op, None); return
                pos = base + op[1]; yield (op, ("V", "nil"))
            elif op[0] in ("write", "writel"):
                b = op[1].encode("latin-1") + (b"\n" if op[0] == "writel" else b"")
                if m == "a+" and b: pos = len(d)
                if b: d = d[:pos].ljust(pos, b"\0") + b + d[pos + len(b):]
                pos += len(b)
                yield (op, ("V", str(len(b))))
            elif op[0] == "loop":
                while True:
                    r = rl(); yield (op, r)
                    if r == ("V", "nil"): break
    def check(self, case, rs):
        r = rs[0]
        out = []
        exp = list(self.model(case))
        b = r.out[0]; pos = 0; k = 0; done = False
        def take():
            nonlocal pos
            e = b.find(b"\n", pos)
            if e < 0: return None
            l = b[pos:e]; pos = e + 1
            return l
        for op, want in exp:
            l = take()
            if l is None: break
            if want is None: out.append(("seek", "seek %s before the start of the file succeeded" % op)); return out
            if isinstance(want, bytes):
                if not l.startswith(b"S"):
                    v = take(); out.append(("content", "%s returned %s instead of %d bytes" % (op, v, len(want)))); return out
                n = int(l[1:])
                shown = want
                got = b[pos:pos + len(shown)]
                if n != len(want) or got != shown or b[pos + len(shown):pos + len(shown) + 1] != b"\n":
                    out.append(("content", "operation %d %s returned %d bytes %r... instead of %d bytes %r..." % (k, op[:1], n, b[pos:pos + 60], len(want), shown[:60]))); return out
                pos += len(shown) + 1
            else:
                v = take()
                if l != b"V" or v is None or v.decode("latin-1") != want[1]:
                    out.append(("value", "operation %d %s gave %r %r instead of %s" % (k, op, l, v, want[1]))); return out
            k += 1
        end = take()
        hard = [f for f in r.faults if " short" not in f]
        res = r.results.get(0, [None])[0]
        finished = end == b"done"
        if finished and k != len(exp): out.append(("content", "operations missing in the output"))
        if not finished and b[pos:]: out.append(("content", "unexpected output %r" % b[pos:][:80]))
        want_ok = not (exp and exp[-1][1] is None)
        if finished != (res == 0): out.append(("status", "finished=%s but result %s" % (finished, res)))
        if not finished and not hard and want_ok: out.append(("read-refused", "operation %d of %d failed although the system refused nothing: %s" % (k, len(exp), r.serr.get(0, b"")[:200])))
        if finished and not want_ok: out.append(("seek", "a seek before the start succeeded"))
        if not finished and not r.serr.get(0): out.append(("status", "ended early without a message"))
        return out
    def nontrivial(self, case, rs):
        return len(rs[0].out.get(0, b"")) > 5
    def probes(self, case, rs):
        r = rs[0]
        return {"reads ended by a failing system call": int(any(f.startswith(("read E", "lseek E")) for f in r.faults) and r.results.get(0) != [0]),
                "short transfers": sum(1 for f in r.faults if "short" in f)}
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        yield from drop_parts(case, "faults")
        d = case["data"]
        if len(d) > 1:
            for c in (d[:len(d) // 2], d[len(d) // 2:]):
                x = dict(case); x["data"] = c; yield x

PROP = C05()
