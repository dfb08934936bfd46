"""C11: stream sockets deliver exactly the bytes sent, in order."""
from fw import *
from simlib import *

N = [1, 2, 3, 10, 63, 100, 1000, 1023, 1024, 4095, 4096, 4097, 8000]
K = [1, 2, 3, 7, 16, 100, 1000, 1024, 4096, 10000]

SUP = """
var good = {};
def P2(i, tag, r) { print(tag + i.toString()); P(r); }
// takes n bytes off connection i in pieces of at most k
def take(i, c, n, k) {
  var got = 0; var tries = 0;
  while (got < n and good[i]) {
    var want = k; if (n - got < k) { want = n - got; }
    var r = c.recv(want);
    P2(i, "r", r);
    if (r.success()) { if (r.unwrap().len() == 0) { good[i] = false; } got += r.unwrap().len(); }
    else { if (r.unwrapError() != "Interrupted system call") { good[i] = false; } }
    tries += 1; if (tries > 20000) { good[i] = false; }
  }
}
def drain(i, c, k) {
  var more = true; var tries = 0;
  while (more and tries < 20000) {
    var r = c.recv(k);
    P2(i, "r", r);
    if (r.success()) { if (r.unwrap().len() == 0) { more = false; } }
    else { if (r.unwrapError() != "Interrupted system call") { more = false; } }
    tries += 1;
  }
}
def give(i, c, data) {
  var off = 0; var tries = 0;
  while (off < data.len() and good[i]) {
    var r = c.write(data[off:]);
    P2(i, "w", r);
    if (r.success()) { off += r.unwrap(); }
    else { if (r.unwrapError() != "Interrupted system call") { good[i] = false; } }
    tries += 1; if (tries > 20000) { good[i] = false; }
  }
}
def open(port) {
  var tries = 0;
  while (tries < 200) {
    var s = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM);
    if (s.success()) {
      var c = s.unwrap();
      if (c.connect("127.0.0.1", port).success()) { return c; }
      c.close();
    }
    System.sleep(1); tries += 1;
  }
  return nil;
}
def server(port) {
  var tries = 0;
  while (tries < 50) {
    var s = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM);
    if (s.success()) {
      var c = s.unwrap();
      if (c.bind("127.0.0.1", port).success() and c.listen().success()) { return c; }
      c.close();
    }
    tries += 1;
  }
  return nil;
}
def next(l) {
  var tries = 0;
  while (tries < 50) { var r = l.accept(); if (r.success()) { if (r.unwrap()[1] != "127.0.0.1") { print("BADADDR"); } return r.unwrap()[0]; } tries += 1; }
  return nil;
}
"""

RAW = bytes.maketrans(b"qrstuvwxy", b"\0\xff\n\r\x1b\0\x80%\"")

class C11(Prop):
    id = "C11"
    quick = 3000
    thorough = 150000
    case_wall_ms = 60000
    technique = "interpreters and scripted peers talk over a simulated stream network with small windows, split, interrupted, reset and failing transfers; every byte compared"
    rule = "A case is non-trivial when at least one byte was delivered to the interpreter or to a peer."
    def gen(self, rng, i, tier):
        nc = rng.choice([1, 1, 2, 2, 3, 4])
        conns = []
        for c in range(nc):
            conns.append({"role": rng.choice(["client", "server"]), "peer": "prog", "end": rng.choice(["pclose", "pclose", "iclose", "preset", "preset"])})
        two = rng.random() < 0.3
        if two:
            for c in conns: c["peer"] = "node"; c["end"] = rng.choice(["pclose", "iclose"])
        steps = []
        for _ in range(rng.choice([1, 2, 4, 8, 14])):
            n = rng.choice(N) if rng.random() < 0.7 else rng.randrange(1, 3000)
            k = rng.choice(K)
            if n // k > 60: k = max(k, n // 60)
            steps.append([rng.randrange(nc), rng.choice(["in", "out"]), n, k])
        chunk = rng.choice([0, 0, 200000, 800000]); sockbuf = rng.choice([16, 500, 4096, 65536] if two else [1, 16, 500, 4096, 65536])
        if chunk == 800000 or sockbuf < 500:
            for st in steps: st[2] = st[2] % 150 + 1; st[3] = max(st[3], 2)
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                c = rng.choice(["recv", "recv", "send", "send", "accept", "connect", "socket", "bind", "listen", "close"])
                e = {"recv": ["EINTR", "EINTR", "ECONNRESET", "ETIMEDOUT", "ENOMEM", "EIO"], "send": ["EINTR", "EINTR", "ECONNRESET", "EPIPE", "ENOBUFS"], "accept": ["ECONNABORTED", "EINTR", "EMFILE"], "connect": ["EINTR", "ETIMEDOUT", "ECONNREFUSED", "ENETUNREACH"]}.get(c, ["EMFILE", "ENOBUFS", "EIO"])
                faults.append([c, rng.choice(e), rng.choice([10000, 50000, 200000])])
        short = []
        if rng.random() < 0.5: short.append(["send", "short", rng.choice([100000, 600000])])
        if rng.random() < 0.5: short.append(["recv", "short", rng.choice([100000, 600000])])
        return {"conns": conns, "steps": steps, "faults": faults, "short": short, "two": two, "raw": rng.random() < 0.4, "chunk": chunk, "sockbuf": sockbuf,
                "gc": rng.randrange(1 << 30), "yield": rng.choice([0, 100000, 400000])}
    def seedof(self, c, d): return c * 2 + (1 if d == "in" else 0) + 11
    def stream(self, case, c, d):
        b = patbytes(self.seedof(c, d), sum(s[2] for s in case["steps"] if s[0] == c and s[1] == d))
        return b.translate(RAW) if case.get("raw") else b
    def side(self, case, mirror):
        src = "import System; import Socket;" + PRELUDE + SUP
        src += "def content(p) { with(p, \"r\") { return file.read(); } }\n"
        if not mirror: src += "System.access(\"/.sim/armfaults\", 0);\n"
        n = len(case["conns"])
        src += "var cs = []; var ls = {};\n"
        def role(c): 
            r = case["conns"][c]["role"]
            return r if not mirror else ("client" if r == "server" else "server")
        for c in range(n):
            src += "good[%d] = true; cs.push(nil);\n" % c
            if role(c) == "server": src += "ls[%d] = server(%d);\n" % (c, 9000 + c)
        for c in range(n):
            if role(c) == "server": src += "if (ls[%d] != nil) { cs[%d] = next(ls[%d]); }\n" % (c, c, c)
            else: src += "cs[%d] = open(%d);\n" % (c, 9000 + c)
            src += "if (cs[%d] == nil) { good[%d] = false; }\n" % (c, c)
        pos = {}
        for c, d, k, m in case["steps"]:
            dd = d if not mirror else ("out" if d == "in" else "in")
            if dd == "in": src += "take(%d, cs[%d], %d, %d);\n" % (c, c, k, m)
            else:
                o = pos.get((c, d), 0); pos[(c, d)] = o + k
                src += "give(%d, cs[%d], content(\"/w/d%d%s\")[%d:%d]);\n" % (c, c, c, d, o, o + k)
        for c in range(n):
            end = case["conns"][c]["end"]
            mine = (end == "iclose") != mirror
            if mine: src += "if (cs[%d] != nil) { cs[%d].close(); }\n" % (c, c)
            else: src += "if (cs[%d] != nil) { if (good[%d]) { drain(%d, cs[%d], %d); } cs[%d].close(); }\n" % (c, c, c, c, 1000, c)
        for c in range(n):
            if role(c) == "server": src += "if (ls[%d] != nil) { ls[%d].close(); }\n" % (c, c)
        return src
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        for c in range(len(case["conns"])):
            for d in ("in", "out"): s.file("/w/d%d%s" % (c, d), self.stream(case, c, d))
        src = self.side(case, False)
        s.node(0, kind="embed", cwd="/w").args(0, "dictu").item(0, "m", src)
        if case["two"]: s.node(1, kind="embed", cwd="/w").args(1, "dictu").item(1, "m", self.side(case, True))
        else:
            for c, cn in enumerate(case["conns"]):
                acts = ["connect:%d" % (9000 + c)] if cn["role"] == "server" else ["listen:%d" % (9000 + c), "saccept"]
                ioff = 0
                st = [x for x in case["steps"] if x[0] == c]
                seed = self.seedof(c, "in"); whole = self.stream(case, c, "in")
                for _, d, k, m in st:
                    if d == "in": acts.append("sendlit:" + pct(whole[ioff:ioff + k]).replace(":", "%3A")); ioff += k
                    else: acts.append("recv:%d" % k)
                if cn["end"] == "pclose": acts.append("sclose")
                elif cn["end"] == "preset": acts.append("reset")
                else: acts += ["recvall", "sclose"]
                s.proc("peer%d" % c, 0, *acts)
        for f in case["faults"] + case["short"]: s.fault(*f)
        s.opt(fault_wait=1, sockbuf=case["sockbuf"], yield_ppm=case["yield"], chunk_ppm=case["chunk"], step_cap=3000000)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    allow_deadlock = True
    def parse(self, out):
        """(connection, 'r' or 'w', value) in order"""
        seq = []; pos = 0
        while pos < len(out):
            e = out.find(b"\n", pos)
            if e < 0: return seq, out[pos:]
            tag = out[pos:e].decode("latin-1"); pos = e + 1
            if tag[:1] not in ("r", "w") or not tag[1:].isdigit(): return seq, out[pos - len(tag) - 1:]
            # one value
            e1 = out.find(b"\n", pos); k = out[pos:e1]
            e2 = out.find(b"\n", e1 + 1); k2 = out[e1 + 1:e2]
            if k not in (b"R", b"E"): return seq, out[pos:]
            if k2[:1] == b"S":
                n = int(k2[1:]); v = out[e2 + 1:e2 + 1 + n]
                if out[e2 + 1 + n:e2 + 2 + n] != b"\n": return seq, out[e2:]
                pos = e2 + 2 + n
            elif k2 == b"V":
                e3 = out.find(b"\n", e2 + 1); v = out[e2 + 1:e3].decode(); pos = e3 + 1
            else: return seq, out[pos:]
            seq.append((int(tag[1:]), tag[0], k == b"R", v))
        return seq, b""
    def check(self, case, rs):
        r = rs[0]
        disturbed = any(f.split()[1] != "short" for f in r.faults)
        if r.end == "deadlock" and not disturbed: return [("stuck", "nothing can make progress: %s" % "; ".join(r.deadlock))]
        if r.end == "deadlock": return []       # what was printed may still be buffered
        delivered = 0
        nodes = [0, 1] if case["two"] else [0]
        acked = {}; got = {}; eof = set(); err = set()
        for nd in nodes:
            if r.end != "deadlock" and r.results.get(nd, [None]) != [0]: return [("raised", "node %d ended with an error: %s" % (nd, r.serr.get(nd, b"")[-300:]))]
            seq, rest = self.parse(r.out.get(nd, b""))
            if rest and r.end != "deadlock": return [("output", "unexpected output of node %d: %r" % (nd, rest[:100]))]
            lim = {}
            for c, w, ok, v in seq:
                key = (c, {"r": "in", "w": "out"}[w] if nd == 0 else {"r": "out", "w": "in"}[w])
                if not ok: err.add(key); continue
                if w == "r":
                    if not isinstance(v, bytes): return [("value", "a receive returned %r" % (v,))]
                    if len(v) > 10000: return [("too-much", "a receive returned %d bytes" % len(v))]
                    if v == b"": eof.add(key)
                    elif key in eof: return [("eof", "connection %d: data after the end of the stream" % c)]
                    got[key] = got.get(key, b"") + v
                else:
                    if isinstance(v, bytes) or not v.isdigit(): return [("value", "a write returned %r" % (v,))]
                    acked[key] = acked.get(key, 0) + int(v)
        for c, cn in enumerate(case["conns"]):
            for d in ("in", "out"):
                key = (c, d); full = self.stream(case, c, d)
                if case["two"] or d == "in": rec = got.get(key, b"")
                else: rec = r.peerrecv.get("peer%d" % c, b"")
                sent = len(full)
                if case["two"] or d == "out":
                    sent = acked.get(key, 0)
                    if sent > len(full): return [("count", "connection %d: writes of %d bytes reported %d" % (c, len(full), sent))]
                    if sent != len(full) and key not in err and not disturbed and r.end != "deadlock": return [("count", "connection %d: %d of %d bytes reported written without any failure" % (c, sent, len(full)))]
                if rec != full[:len(rec)]:
                    n = common(rec, full); return [("bytes", "connection %d %s: received data differs from what was sent at byte %d: %r" % (c, d, n, rec[n:n + 30]))]
                if len(rec) > sent: return [("count", "connection %d %s: %d bytes arrived where the writes reported %d" % (c, d, len(rec), sent))]
                if not disturbed and r.end != "deadlock" and cn["end"] != "preset" and len(rec) != len(full): return [("incomplete", "connection %d %s: %d of %d bytes arrived over a connection that was closed cleanly" % (c, d, len(rec), len(full)))]
                if not disturbed and cn["end"] != "preset" and key in err: return [("spurious-error", "connection %d %s: an error where nothing failed" % (c, d))]
                if d == "in" and not case["two"] and key in eof and key not in err and cn["end"] != "preset" and len(rec) < sent: return [("eof", "connection %d: end of stream reported after %d of %d bytes" % (c, len(rec), sent))]
                delivered += len(rec)
                if (key in eof) and not disturbed and cn["end"] != "preset" and len(rec) < sent: return [("eof", "connection %d %s: end of stream reported after %d of %d bytes" % (c, d, len(rec), sent))]
        if r.end != "deadlock":
            for f in r.fds:
                if f["why"] == "preexit" and any("sock" in x for x in f["fds"].values()): return [("left-open", "sockets left open: %s" % f["fds"])]
        case["_nt"] = delivered > 0
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "steps")
        for k in ("faults", "short"):
            if case[k]: yield from drop_parts(case, k)
        for k, st in enumerate(case["steps"]):
            if st[2] > 1:
                c = copy.deepcopy(case); c["steps"][k][2] = st[2] // 2; yield c
        for a, b in (("chunk", 0), ("yield", 0), ("sockbuf", 65536)):
            if case[a] != b: c = dict(case); c[a] = b; yield c

def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y: break
        n += 1
    return n

PROP = C11()
