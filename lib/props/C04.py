"""C04: a file write that reports success has reached the file."""
from fw import *
from simlib import *

SIZES = [0, 1, 1, 2, 3, 7, 20, 60, 200, 1000, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 20000]
MODES = ["w", "wb", "a", "r+", "w+", "a+", "w", "a", "r", "rb"]

def text(rng):
    n = rng.choice(SIZES)
    r = rng.random()
    if r < 0.15: a = "%sd%n%% {}"
    elif r < 0.3: a = "ab\n\n"
    elif r < 0.4: a = "xy\t\r\\\"'"
    else: a = "abcdefghijklmnopqrstuvwxyz0123456789 "
    s = "".join(rng.choice(a) for _ in range(min(n, 64)))
    if n and rng.random() < 0.1:
        k = rng.randrange(len(s)); s = s[:k] + "\0" + s[k + 1:]
    if n > 64: s = s + "".join(rng.choice("klmnopq") for _ in range(16)) * (n // 16 + 1)
    return s[:n]

class C04(Prop):
    id = "C04"
    quick = 14000
    thorough = 250000
    rule = "A case is non-trivial when at least one file write was acknowledged."
    assumptions = ["survival is against the interpreter being killed, not against loss of power (the library offers no way to ask for that)"]
    def gen(self, rng, i, tier):
        blocks = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            m = rng.choice(MODES)
            nest = rng.random() < 0.2
            blocks.append({"path": rng.choice(["a", "b", "sub/c"]), "mode": m,
                           "nest": {"path": "d", "mode": rng.choice(["w", "a", "wb", "a+"])} if nest else None})
        ops = []
        for b in range(len(blocks)):
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                ops.append([b, rng.choice("wwl"), text(rng), 1 if blocks[b]["nest"] and rng.random() < 0.5 else 0, rng.random() < 0.1])
        faults = []
        r = rng.random()
        kill = 0
        if r < 0.25: pass
        elif r < 0.4: faults.append(["write", "short", rng.choice([100000, 500000, 900000])])
        elif r < 0.8:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append([rng.choice(["write", "write", "write", "write", "close", "open", "lseek"]), rng.choice(["EIO", "ENOSPC", "EINTR", "EDQUOT", "EFBIG"]), rng.choice([50000, 200000, 500000])])
            if rng.random() < 0.5: faults.append(["write", "short", 500000])
        else:
            kill = rng.randint(6, 45)
            if rng.random() < 0.5: faults.append(["write", "short", 500000])
        return {"blocks": blocks, "ops": ops, "faults": faults, "kill": kill, "gc": rng.randrange(1 << 30),
                "pre": {p: text(rng) for p in ["a", "b"] if rng.random() < 0.6}, "main": rng.random() < 0.7}
    def script(self, case):
        o = ["import System;", "def ack(i, n) { System.access(\"/.sim/ack\" + i.toString() + \"_\" + n.toString(), 0); }"]
        o.append("def wr(f, s) { return f.write(s); }")
        n = 0
        def emit(op, var):
            nonlocal n
            l = lit(op[2])
            if op[4] and op[1] == "w": o.append("ack(%d, wr(%s, %s));" % (n, var, l))
            else: o.append("ack(%d, %s.%s(%s));" % (n, var, "write" if op[1] == "w" else "writeLine", l))
            path = case["blocks"][op[0]]["nest"]["path"] if op[3] else case["blocks"][op[0]]["path"]
            o.append("System.access(\"/.sim/cat/w/%s\", 0);" % path)
            n += 1
        for b, blk in enumerate(case["blocks"]):
            ops = [op for op in case["ops"] if op[0] == b]
            o.append("with(\"%s\", \"%s\") { System.access(\"/.sim/opn\", 0);" % (blk["path"], blk["mode"]))
            if blk["nest"]:
                for op in [x for x in ops if not x[3]][:1]: emit(op, "file")
                o.append("var outer%d = file;" % b)
                o.append("with(\"%s\", \"%s\") { System.access(\"/.sim/opn\", 0);" % (blk["nest"]["path"], blk["nest"]["mode"]))
                rest = [x for x in ops if not x[3]][1:] + [x for x in ops if x[3]]
                for op in rest: emit(op, "file" if op[3] else "outer%d" % b)
                o.append("}")
            else:
                for op in ops: emit(op, "file")
            o.append("}")
            o.append("System.access(\"/.sim/blk%d\", 0);" % b)
        return "\n".join(o) + "\n"
    def order(self, case):
        """operations in the order the script performs them: (op index, file, mode, first in its open, bytes)"""
        seq = []; n = 0
        for b, blk in enumerate(case["blocks"]):
            ops = [op for op in case["ops"] if op[0] == b]
            seq.append(("open", blk["path"], blk["mode"], 0))
            def w(op, h):
                nonlocal n
                d = op[2].encode() + (b"\n" if op[1] == "l" else b"")
                seq.append(("write", n, h, d)); n += 1
            if blk["nest"]:
                plain = [x for x in ops if not x[3]]
                for op in plain[:1]: w(op, 0)
                seq.append(("open", blk["nest"]["path"], blk["nest"]["mode"], 1))
                for op in plain[1:] + [x for x in ops if x[3]]: w(op, 1 if op[3] else 0)
            else:
                for op in ops: w(op, 0)
            seq.append(("end", b))
        return seq
    def scenarios(self, case):
        s = Scn()
        src = self.script(case)
        s.dir("/w/sub")
        for p, d in case["pre"].items(): s.file("/w/" + p, d)
        if case["main"]: s.script(0, src)
        else: s.node(0, kind="embed", cwd="/w").args(0, "dictu").item(0, "m", src)
        s.opt(dump=1)
        for f in case["faults"]: s.fault(*f)
        if case["kill"]: s.opt(kill_at=case["kill"])
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]
        out = []
        acks = {}; cats = []; blk = set(); faulted = False; killed = r.counts.get("fault:kill", 0) > 0
        hard = [f for f in r.faults if " short" not in f]
        events = []
        for e in r.seq:
            if e[0] == "fds":
                w = e[1]["why"]
                if w.startswith("ack"):
                    i, n = w[3:].split("_"); acks[int(i)] = n; events.append(("ack", int(i)))
                elif w == "opn": events.append(("opn",))
                elif w.startswith("blk"): blk.add(int(w[3:])); events.append(("blk", int(w[3:])))
            elif e[0] == "cat": events.append(("cat", e[1]))
            elif e[0] == "fault" and " short" not in e[1]: events.append(("fault", e[1]))
        # model
        content = {"/w/" + p: d.encode() for p, d in case["pre"].items()}
        handles = {}
        stopped = None           # why the script may have ended at this point
        pend = None
        ei = 0
        def skipfaults():
            nonlocal ei
            f = False
            while ei < len(events) and events[ei][0] == "fault": f = True; ei += 1
            return f
        allowed = None; expect_err = False
        for st in self.order(case):
            f = skipfaults()
            last = ei >= len(events)
            if st[0] == "open":
                p = "/w/" + st[1]
                if "r" in st[2] and p not in content:
                    expect_err = True
                    if not last: out.append(("opened-missing", "opened %s for reading though it does not exist" % p))
                    allowed = {p: None}; break
                old = content.get(p)
                newc = b"" if st[2] in ("w", "wb", "w+") else content.get(p, b"")
                if last or events[ei][0] != "opn":
                    if not (f or killed): out.append(("open-refused", "opening %s with mode %s failed although the system refused nothing" % (p, st[2])))
                    pend = ("open", p, old, newc); break
                ei += 1
                content[p] = newc
                handles[st[3]] = [p, st[2], 0]
            elif st[0] == "write":
                _, n, h, d = st
                p, m, pos = handles[h]
                if m in ("r", "rb"):
                    expect_err = True
                    if n in acks: out.append(("wrote-readonly", "a write to a file opened with mode %s reported success" % m))
                    break
                if n not in acks:
                    pend = ("write", p, m, pos, d)
                    if not (f or killed or hard): out.append(("write-refused", "write %d of %d bytes to %s (mode %s) did not succeed although the system refused nothing" % (n, len(d), p, m)))
                    break
                if ei >= len(events) or events[ei] != ("ack", n):
                    out.append(("ack-order", "acknowledgements out of order at write %d" % n)); break
                ei += 1
                if acks[n] != str(len(d)):
                    out.append(("count", "write %d of %d bytes returned %s" % (n, len(d), acks[n])))
                c = content[p]
                if m in ("a", "a+"): pos = len(c)
                c = c[:pos] + d + c[pos + len(d):]
                if len(c) < pos: c = c.ljust(pos, b"\0")
                content[p] = c; handles[h][2] = pos + len(d)
                # other handles on the same file in one block do not occur (d is only opened once at a time)
                if ei < len(events) and events[ei][0] == "cat":
                    cp, cd = events[ei][1]; ei += 1
                    if cp == p and cd != c:
                        out.append(("not-in-file", "write %d of %d bytes to %s (mode %s) reported success but the file then held %s" % (n, len(d), p, m, diff(cd, c)))); break
                elif not killed:
                    out.append(("harness", "no content after ack")); break
            else:
                if st[1] not in blk:
                    if not (killed or f or hard): out.append(("block-unfinished", "the script did not get past block %d" % st[1]))
                    pend = ("end",); break
                if ei < len(events) and events[ei][0] == "blk": ei += 1
        else:
            pend = ("done",)
        ex = r.exit[0]
        if out: return out
        # ending
        if killed and ex["sig"] == 9: pass
        elif case["main"]:
            want0 = pend == ("done",)
            if want0 and ex["code"] != 0: out.append(("exit", "all writes succeeded but the exit code is %d" % ex["code"]))
            unread = ex["code"] == 74 and hard and not events[1:]   # the script itself could not be read
            if not want0 and ex["code"] != 70 and not unread: out.append(("exit", "the script was cut short by an error but the exit code is %d" % ex["code"]))
        else:
            res = r.results.get(0, [None])[0]
            if (pend == ("done",)) != (res == 0): out.append(("exit", "result %s" % res))
        # final content: acknowledged data is there; of the one unacknowledged write, a prefix at most
        for p in set(content) | {"/w/" + b["path"] for b in case["blocks"]}:
            t = r.tree.get(p)
            got = t[4] if t else None
            ok = [content.get(p)]
            if pend and pend[0] == "open" and pend[1] == p: ok = [pend[2], pend[3]]
            if allowed and p in allowed: ok.append(got)
            if pend and pend[0] == "write" and pend[1] == p:
                _, _, m, pos, d = pend
                c = content[p]
                if m in ("a", "a+"): pos = len(c)
                good = got is not None and any(got == c[:pos] + d[:k] + c[pos + k:] for k in {0, len(d)} | set(range(len(d) + 1) if len(d) < 300 else [])) if got is not None else False
                if not good and got is not None:
                    k = common(got[pos:], d)
                    good = any(got == c[:pos] + d[:j] + c[pos + j:] for j in range(max(0, k - 3), k + 1)) or got == c[:pos] + d[:max(0, len(got) - pos)] + c[pos + max(0, len(got) - pos):]
                if not good: out.append(("not-in-file", "after the end %s holds %s; the last write was not acknowledged" % (p, diff(got, c))))
                continue
            if got not in ok:
                out.append(("not-in-file", "after the end %s holds %s" % (p, diff(got, ok[0]))))
        return out
    def nontrivial(self, case, rs):
        return any(e[0] == "fds" and e[1]["why"].startswith("ack") for e in rs[0].seq)
    def probes(self, case, rs):
        r = rs[0]
        n = sum(1 for e in r.seq if e[0] == "fds" and e[1]["why"].startswith("ack"))
        return {"writes acknowledged": n, "killed": int(r.counts.get("fault:kill", 0) > 0), "killed with acknowledged writes": int(r.counts.get("fault:kill", 0) > 0 and n > 0),
                "runs ended by a failing write": int(any(f.startswith("write E") for f in r.faults))}
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        for b in range(len(case["blocks"]) - 1, -1, -1):
            if not any(op[0] == b for op in case["ops"]) and len(case["blocks"]) > 1:
                c = dict(case); c["blocks"] = case["blocks"][:b] + case["blocks"][b + 1:]
                c["ops"] = [[op[0] - (op[0] > b)] + op[1:] for op in case["ops"]]
                yield c
        for f in range(len(case["faults"])):
            c = dict(case); c["faults"] = case["faults"][:f] + case["faults"][f + 1:]; yield c
        for k, op in enumerate(case["ops"]):
            if len(op[2]) > 1:
                for nl in (1, len(op[2]) // 2):
                    c = dict(case); c["ops"] = [list(x) for x in case["ops"]]; c["ops"][k][2] = op[2][:nl]; yield c

def common(a, b):
    n = min(len(a), len(b)); i = 0
    while i < n and a[i] == b[i]: i += 1
    return i
def diff(got, want):
    if got is None: return "nothing (no such file), expected %s" % (None if want is None else "%d bytes" % len(want))
    if want is None: return "%d bytes, expected no file" % len(got)
    k = common(got, want)
    return "%d bytes, expected %d; first difference at %d: %r instead of %r" % (len(got), len(want), k, got[k:k + 20], want[k:k + 20])

PROP = C04()
