"""C21: console input returns each line exactly, however it arrives."""
from fw import *
from simlib import *

LENS = [0, 1, 2, 5, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8192]
def linebytes(rng, repl=False):
    n = rng.choice(LENS) if rng.random() < 0.6 else rng.randrange(0, 60)
    if rng.random() < 0.01: n = 70000
    k = rng.random()
    if k < 0.5: b = bytes(rng.choice(b"abcdefgh 0123") for _ in range(min(n, 300))); b = (b * (n // max(1, len(b)) + 1))[:n] if b else b
    elif k < 0.8: b = bytes(rng.choice(b"\xff\xfe\xc3\xa9\t\r\\\"'%s{}\x01\x7f ") for _ in range(n))
    else: b = bytes(rng.randrange(1, 256) for _ in range(n)).replace(b"\n", b"~")
    if not repl and rng.random() < 0.08 and n: b = b[:n // 2] + b"\0" + b[n // 2 + 1:]
    return b

class C21(Prop):
    id = "C21"
    quick = 10000
    thorough = 200000
    technique = "a simulated terminal or pipe delivers lines of any content and length in seeded pieces and delays, with failing reads, to scripts and interactive sessions; every returned line, and what was visible when each read began, is compared with the stream"
    rule = "A case is non-trivial when at least one whole line was returned."
    assumptions = ["in an interactive session that is not on a terminal each line of code is echoed after its prompt", "end of input stays the end"]
    def gen(self, rng, i, tier):
        repl = rng.random() < 0.25
        ops = []; data = []
        n = rng.choice([1, 3, 6, 12])
        if repl:
            for _ in range(n):
                r = rng.random()
                if r < 0.35: data.append("print(\"x%d\");" % rng.randrange(100)); ops.append(["print", data[-1][7:-3]])
                elif r < 0.5: data.append(""); ops.append(["empty"])
                elif r < 0.6:
                    w = rng.randrange(100); l = rng.choice([["def f() {", "print(\"m%d\");" % w, "}  f();"], ["if (true) {", "", "print(\"m%d\");" % w, "}"], ["{", "print(\"m%d\"); }" % w], ["print(\"", "m%d\");" % w]])
                    data += l; ops.append(["multi", l, ("\n" if l[0] == "print(\"" else "") + "m%d" % w])
                elif r < 0.65: l = "print(\"" + "y" * rng.choice([190, 200, 201, 400, 5000]) + "\");"; data.append(l); ops.append(["print", l[7:-3]])
                else:
                    p = rng.choice([None, "", "p> ", "say: "]); x = linebytes(rng, True)
                    data.append("print(input(%s));" % ("" if p is None else "\"%s\"" % p)); data.append(x.decode("latin-1")); ops.append(["input", p or "", x.decode("latin-1"), data[-2]])
        else:
            for _ in range(n):
                r = rng.random()
                if r < 0.12: ops.append(["print", rng.choice(["a", "line", "z" * 3000])])
                elif r < 0.17: ops.append(["io", rng.choice(["a", "no newline", "z" * 3000])])
                else: ops.append(["input", rng.choice([None, None, "", "? ", "Name: ", "p" * 2000, "pro\nmpt", "ü%s%d"])])
            m = sum(o[0] == "input" for o in ops)
            data = [linebytes(rng).decode("latin-1") for _ in range(max(0, m + rng.choice([0, 0, 0, -1, -2, 1, 3])))]
        last = rng.random() < 0.75
        raw = "\n".join(data) + ("\n" if last and data else "")
        cuts = sorted(rng.sample(range(1, len(raw)), min(len(raw) - 1, rng.choice([0, 0, 1, 4, 12])))) if len(raw) > 1 else []
        ch = [[rng.choice([0, 0, 5, 2000, 3600000]), b - a] for a, b in zip([0] + cuts, cuts + [len(raw)])]
        f = []
        if not repl and rng.random() < 0.3: f.append(["readin", rng.choice(["EIO", "EINTR"]), rng.choice([50000, 200000, 600000]), rng.choice([1, 2])])
        return {"repl": repl, "last": last, "ops": ops, "raw": raw, "ch": ch, "tty": not repl and rng.random() < 0.4, "otty": rng.random() < 0.4, "embed": rng.random() < 0.4, "faults": f, "chunk": rng.choice([0, 300000, 1000000]), "gc": rng.randrange(1 << 30)}
    def scenarios(self, case):
        s = Scn(); s.dir("/w"); s.dir("/root")
        kw = {}
        if case["tty"]: kw["intty"] = 1
        if case["otty"]: kw["outtty"] = 1
        if case["repl"]: s.node(0, cwd="/w", **kw).args(0, "dictu")
        else:
            src = "import System; import IO;" + PRELUDE
            for k, o in enumerate(case["ops"]):
                if o[0] == "print": src += "print(%s);" % lit(o[1])
                elif o[0] == "io": src += "IO.print(%s);" % lit(o[1])
                else: src += "System.access(\"/.sim/o%d\", 0); P(input(%s));" % (k, "" if o[1] is None else lit(o[1]))
                src += "\n"
            if case["embed"]: s.node(0, kind="embed", cwd="/w", **kw).args(0, "dictu"); s.item(0, "m", src)
            else: s.script(0, src.encode(), **kw)
        p = 0; raw = case["raw"].encode("latin-1")
        for d, n in case["ch"]:
            if n: s.stdin(0, d, raw[p:p + n])
            p += n
        for f in case["faults"]: s.fault(*f)
        s.opt(chunk_ppm=case["chunk"], step_cap=3000000)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]; raw = case["raw"].encode("latin-1")
        out = r.out.get(0, b"")
        if case["repl"]:
            want = []
            for o in case["ops"]:
                if o[0] == "print": want.append(">>> print(\"%s\");\n%s\n" % (o[1], o[1]))
                elif o[0] == "empty": want.append(">>> \n")
                elif o[0] == "multi": want.append("".join((">>> " if j == 0 else "... ") + l + "\n" for j, l in enumerate(o[1])) + o[2] + "\n")
                else: want.append(">>> " + o[3] + "\n" + o[1] + o[2] + "\n")
            # the end of the input is another prompt; a last empty line without terminator is the end of the input
            if not case["last"] and case["ops"] and case["ops"][-1][0] == "empty": want.pop()
            w = ("".join(want) + ">>> ").encode("latin-1")
            g = out[out.find(b">>> "):]
            if g != w:
                c = next((j for j, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
                return [("session", "the session shows %r instead of %r after %r; %r" % (g[c:c + 60], w[c:c + 60], w[max(0, c - 60):c], r.serr.get(0, b"")[-200:]))]
            if r.exit[0]["code"]: return [("status", "the session ended with %r" % r.exit[0])]
            case["_nt"] = bool(raw); return []
        # ---------------- scripts
        if case["embed"]:
            if r.results[0] != [0]: return [("error", "the program failed: %r" % r.serr.get(0, b"")[-200:])]
        elif r.exit[0]["code"]: return [("error", "the program ended with %r: %r" % (r.exit[0], r.serr.get(0, b"")[-200:]))]
        fl = {}; cur = None; reads = {}
        for e in r.seq:
            if e[0] == "fds" and e[1]["why"][:1] == "o" and e[1]["why"][1:].isdigit(): cur = int(e[1]["why"][1:])
            elif e[0] == "fault" and cur is not None: fl[cur] = fl.get(cur, 0) + 1
            elif e[0] == "ev" and e[1].startswith("inread ") and cur is not None: reads.setdefault(cur, []).append(int(e[1].split("out=")[1]))
        pos = {0}; o = 0; whole = 0
        for k, op in enumerate(case["ops"]):
            if op[0] in ("print", "io"):
                w = op[1].encode() + (b"\n" if op[0] == "print" else b"")
                if out[o:o + len(w)] != w: return [("output", "operation %d: expected %r, got %r" % (k, w[:60], out[o:o + 60]))]
                o += len(w); continue
            p = (op[1] or "").encode()
            if out[o:o + len(p)] != p: return [("prompt", "operation %d: expected the prompt %r, got %r" % (k, p[:60], out[o:o + 60]))]
            o += len(p)
            for at in reads.get(k, []):
                if at < o: return [("prompt-late", "operation %d: reading began when only %d of the %d characters printed so far were visible" % (k, at, o))]
            e = out.find(b"\n", o)
            if out[o:o + 1] != b"S" or e < 0: return [("value", "operation %d: %r" % (k, out[o:o + 60]))]
            n = int(out[o + 1:e]); v = out[e + 1:e + 1 + n]
            if len(v) != n or out[e + 1 + n:e + 2 + n] != b"\n": return [("value", "operation %d: a string of %d characters printed as %r" % (k, n, out[e + 1:e + 60]))]
            o = e + 2 + n
            nx = set()
            for q in pos:
                if q >= len(raw):
                    if v == b"": nx.add(q)
                    continue
                e = raw.find(b"\n", q); full = raw[q:] if e < 0 else raw[q:e]
                if v == full: nx.add(len(raw) if e < 0 else e + 1); whole += 1
                if fl.get(k) and full.startswith(v): nx.add(q + len(v))
            if not nx:
                q = min(pos); e = raw.find(b"\n", q); full = raw[q:] if e < 0 else raw[q:e]
                c = next((j for j, (a, b) in enumerate(zip(v, full)) if a != b), min(len(v), len(full)))
                return [("line", "operation %d: returned %d characters instead of the %d of the line, equal up to %d: %r instead of %r%s" % (k, len(v), len(full), c, v[c:c + 30], full[c:c + 30], " (a read failed)" if fl.get(k) else ""))]
            pos = nx
        if out[o:]: return [("output", "unexpected further output %r" % out[o:o + 80])]
        case["_nt"] = whole > 0
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        if not case["repl"]:
            yield from drop_parts(case, "ops")
            ls = case["raw"].split("\n")
            for j in range(len(ls)):
                t = "\n".join(ls[:j] + ls[j + 1:]); yield dict(case, raw=t, ch=[[0, len(t)]])
        elif len(case["ops"]) > 1:
            for j in range(len(case["ops"])):
                ops = case["ops"][:j] + case["ops"][j + 1:]; d = []
                for o in ops:
                    if o[0] == "print": d.append("print(\"%s\");" % o[1])
                    elif o[0] == "empty": d.append("")
                    elif o[0] == "multi": d += o[1]
                    else: d += [o[3], o[2]]
                t = "\n".join(d) + "\n"; yield dict(case, ops=ops, last=True, raw=t, ch=[[0, len(t)]])
        if case["faults"]: yield dict(case, faults=[])
        if len(case["ch"]) > 1: yield dict(case, ch=[[0, len(case["raw"])]])
        if case["chunk"]: yield dict(case, chunk=0)

PROP = C21()
