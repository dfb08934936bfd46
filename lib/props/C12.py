"""C12: socket failures become error results and handles stay safe."""
from fw import *
from simlib import *

class C12(Prop):
    id = "C12"
    quick = 6000
    thorough = 250000
    technique = "histories of socket operations (with failures of every call, resets, descriptor reuse by files, dropped handles) against a model of socket states and of the descriptor table"
    rule = "A case is non-trivial when at least one operation failed and at least one succeeded."
    assumptions = ["ports are between 0 and 65535, descriptors come from this library"]
    allow_deadlock = True
    def gen(self, rng, i, tier):
        ops = []; kinds = []; nserv = 0; recvs = {}; listened = set(); infile = False
        for _ in range(rng.choice([2, 4, 6, 10, 16])):
            r = rng.random(); ns = len(kinds)
            if ns == 0 or r < 0.15:
                kinds.append(rng.choice(["s", "s", "s", "s", "s", "d", "raw", "bad"])); ops.append(["create", kinds[-1]]); continue
            k = rng.randrange(ns)
            if r < 0.22: ops.append(["bind", k, rng.choice(["127.0.0.1", "127.0.0.1", "0.0.0.0", "10.1.2.3", "junk", ""]), rng.choice([8000, 8001, 8002])])
            elif r < 0.28: ops.append(["listen", k, rng.choice([None, 1, 5])]); listened.add(k)
            elif r < 0.33:
                if k not in listened and kinds[k] != "serv": ops.append(["badaccept", k])
            elif r < 0.47: ops.append(["connect", k, rng.choice(["127.0.0.1", "127.0.0.1", "127.0.0.1", "127.0.0.1", "10.9.9.9", "255.255.255.255"]), rng.choice([9000, 9000, 9001, 9001, 9002, 7777])])
            elif r < 0.53:
                if nserv < 3: ops.append(["serve", 9100 + nserv, rng.choice(["close", "reset", "pause"])]); nserv += 1; kinds += ["serv", "acc"]
            elif r < 0.67: ops.append(["write", k, rng.choice([0, 1, 5, 100])])
            elif r < 0.77:
                if recvs.get(k, 0) < 3 and kinds[k] != "d": recvs[k] = recvs.get(k, 0) + 1; ops.append(["recv", k, rng.choice([1, 5, 10])])
            elif r < 0.86: ops.append(["close", k])
            elif r < 0.90: ops.append(["drop", k])
            elif r < 0.93: ops.append(["opt", k, rng.choice(["re", "bc", "bad"])])
            elif not infile: ops.append(["file"]); infile = True
            else: ops.append(["fclose"]); infile = False
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = rng.choice(["socket", "bind", "listen", "accept", "connect", "send", "recv", "closex", "setsockopt"])
                e = rng.choice({"socket": ["EMFILE", "ENFILE", "ENOBUFS", "EACCES"], "bind": ["EADDRINUSE", "EACCES"], "listen": ["EADDRINUSE"], "accept": ["ECONNABORTED", "EINTR", "EMFILE", "ENFILE", "ENOBUFS", "EPERM"],
                                "connect": ["ECONNREFUSED", "ETIMEDOUT", "EINTR", "EHOSTUNREACH", "ENETUNREACH"], "send": ["EPIPE", "ECONNRESET", "EINTR", "ENOBUFS", "ENOMEM"],
                                "recv": ["ECONNRESET", "EINTR", "ENOMEM", "ETIMEDOUT"], "closex": ["EINTR", "EIO"], "setsockopt": ["ENOPROTOOPT", "ENOBUFS"]}[c])
                faults.append([c, e, rng.choice([50000, 200000, 500000])])
        return {"ops": ops, "faults": faults, "peers": {str(p): rng.choice(["close", "reset", "pause", "rclose"]) for p in (9000, 9001, 9002)}, "gc": rng.randrange(1 << 30), "gcalways": rng.random() < 0.35, "yield": rng.choice([0, 100000, 500000])}
    def peeracts(self, how):
        return {"close": ["send:50:7", "sclose"], "reset": ["send:50:7", "reset"], "pause": ["send:50:7", "recvall"], "rclose": ["send:50:7", "recv:3", "sclose"]}[how]
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        for p, how in case["peers"].items():
            s.proc("peer" + p, 0, "listen:" + p, *(["saccept"] + self.peeracts(how) + ["saccept"] + self.peeracts(how) + ["saccept"] + self.peeracts(how)))
        src = "import System; import Socket;" + PRELUDE + """
def nothing() { return 0; }
var s = []; var f = nil;
def keep(r) { if (r.success()) { s.push(r.unwrap()); print("R"); print("V"); print("nil"); } else { s.push(nil); P(r); } }
def op(k, what, fn) { if (s[k] == nil) { print("V"); print("none"); } else { P(fn(s[k])); } }
"""
        nf = 0; depth = 0
        for i, o in enumerate(case["ops"]):
            src += "System.access(\"/.sim/o%d\", 0); " % i
            k = o[0]
            if k == "create": src += "keep(Socket.create(Socket.AF_INET, %s));\n" % {"s": "Socket.SOCK_STREAM", "d": "Socket.SOCK_DGRAM", "raw": "Socket.SOCK_RAW", "bad": "77"}[o[1]]
            elif k == "bind": src += "op(%d, 0, def(x) => x.bind(%s, %d));\n" % (o[1], lit(o[2]), o[3])
            elif k == "listen": src += "op(%d, 0, def(x) => x.listen(%s));\n" % (o[1], "" if o[2] is None else o[2])
            elif k == "badaccept": src += "op(%d, 0, def(x) => x.accept());\n" % o[1]
            elif k == "connect": src += "op(%d, 0, def(x) => x.connect(%s, %d));\n" % (o[1], lit(o[2]), o[3])
            elif k == "serve":
                src += "keep(Socket.create(Socket.AF_INET, Socket.SOCK_STREAM)); { var x = s[s.len() - 1]; if (x == nil) { s.push(nil); } else { var b = x.bind(\"127.0.0.1\", %d); P(b); var l = x.listen(); P(l); if (b.success() and l.success()) { var a = x.accept(); if (a.success()) { s.push(a.unwrap()[0]); P(a.unwrap()[1]); } else { s.push(nil); P(a); } } else { s.push(nil); } } }\n" % o[1]
                s.proc("cl%d" % o[1], 0, "connect:%d" % o[1], *self.peeracts(o[2]))
            elif k == "write": src += "op(%d, 0, def(x) => x.write(\"%s\"));\n" % (o[1], "z" * o[2])
            elif k == "recv": src += "op(%d, 0, def(x) => x.recv(%d));\n" % (o[1], o[2])
            elif k == "close": src += "op(%d, 0, def(x) => x.close());\n" % o[1]
            elif k == "drop": src += "s[%d] = nil; print(\"V\"); print(\"none\");\n" % o[1]
            elif k == "opt": src += "op(%d, 0, def(x) => x.setsockopt(Socket.SOL_SOCKET, %s));\n" % (o[1], {"re": "Socket.SO_REUSEADDR", "bc": "Socket.SO_BROADCAST", "bad": "999"}[o[2]])
            elif k == "file": src += "with(\"/w/f%d\", \"w\") { P(file.write(\"begin\\n\"));\n" % nf; nf += 1; depth = 1
            elif k == "fclose": src += "P(file.write(\"end\\n\")); }\n"; depth = 0
            src += "{ var junk = \"a\" + \"b%d\"; }\n" % i
        if depth: src += "}\n"
        src += "System.access(\"/.sim/end\", 0);"
        s.node(0, kind="embed", cwd="/w").args(0, "dictu").item(0, "m", src)
        for f in case["faults"]: s.fault(*f)
        s.opt(dump=1, yield_ppm=case["yield"], step_cap=300000)
        if case["gcalways"]: s.opt(gcmode=1)
        else: gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]
        if r.end == "deadlock": return [("stuck", "nothing can make progress: %s" % "; ".join(r.deadlock))]
        if r.exit[0].get("sig"): return [("killed", "the interpreter was ended by signal %d" % r.exit[0]["sig"])]
        if r.results[0] != [0]: return [("raised", "the program ended with an error: %s" % r.serr[0][-300:])]
        vals, rest = parse_values(r.out[0])
        faults = {}; marks = {}; at = -1
        for e in r.seq:
            if e[0] == "fds":
                if e[1]["why"][0] == "o" and e[1]["why"][1:].isdigit(): at = int(e[1]["why"][1:])
                elif e[1]["why"] == "end": at = 999999
                marks[e[1]["why"]] = e[1]
            elif e[0] == "fault": faults.setdefault(at, []).append(e[1].split())
        E = lambda *n: [("E", strerror(x).encode()) for x in n]
        OK = ("R", ("V", "nil"))
        st = []         # per socket: dict or None
        good = bad = 0; vi = 0
        def nxt():
            nonlocal vi
            v = vals[vi] if vi < len(vals) else None
            vi += 1
            return v
        want = {}; cur = None; nf = 0
        def opened(n): return sum(1 for x in st if x and x["open"] and not x["drop"])
        for i, o in enumerate(case["ops"] + [["end"]]):
            live = sum(1 for x in st if x and x["open"] and not x["drop"]); dropped = sum(1 for x in st if x and x["open"] and x["drop"])
            m = marks.get("o%d" % i) or marks.get("end")
            if m is None: return [("protocol", "mark %d missing" % i)]
            have = sum(1 for x in m["fds"].values() if x.startswith("sock"))
            before = "before operation %d (after %s): " % (i, case["ops"][i - 1] if i else "the start")
            if have < live: return [("lost", before + "%d sockets are open where the program holds %d" % (have, live))]
            if have > live + dropped: return [("left-open", before + "%d sockets are open where the program holds %d" % (have, live))]
            if case["gcalways"] and have > live: return [("left-open", before + "%d sockets are open although only %d can still be reached" % (have, live))]
            for f, x in m["fds"].items():
                if f > 2 and not x.startswith("sock") and not (cur and x.startswith("file")): return [("left-open", before + "descriptor %d (%s) is open" % (f, x))]
            if o[0] == "end": break
            fl = [f for f in faults.get(i, []) if f[1] != "short" and f[0] != "closex"]
            fe = E(*[f[-1] for f in fl]); desc = "operation %d %s: " % (i, o)
            if o[0] == "file": cur = "f%d" % nf; nf += 1; want[cur] = b"begin\n"
            elif o[0] == "fclose": want[cur] += b"end\n"; cur = None
            if o[0] in ("file", "fclose"):
                v = nxt()
                if v != ("V", {"file": "6", "fclose": "4"}[o[0]]): return [("file", desc + "writing to the file returned %r" % (v,))]
                continue
            if o[0] == "create":
                v = nxt()
                nat = {"s": [OK], "d": [OK], "raw": E("EPROTONOSUPPORT"), "bad": E("EINVAL")}[o[1]]
                if v not in nat + fe or (v == OK and fe and False): return [("result", desc + "returned %r" % (v,))]
                st.append({"k": o[1], "open": True, "drop": False, "state": "new", "bound": None, "pos": 0} if v == OK else None)
                good += v == OK; bad += v != OK
                continue
            if o[0] == "serve":
                v = nxt()
                if v not in [OK] + fe: return [("result", desc + "create returned %r" % (v,))]
                if v != OK: st += [None, None]; bad += 1; continue
                l = {"k": "s", "open": True, "drop": False, "state": "new", "bound": None, "pos": 0}; st.append(l)
                b = nxt(); ls = nxt()
                if b not in [OK] + fe or ls not in [OK] + fe: return [("result", desc + "bind %r, listen %r" % (b, ls))]
                if b == OK: l["bound"] = o[1]; l["state"] = "bound"
                if ls == OK: l["state"] = "listening"; l["bound"] = l["bound"] or -1
                if b == OK and ls == OK:
                    v = nxt()
                    if v == b"127.0.0.1": st.append({"k": "s", "open": True, "drop": False, "state": "connected", "bound": None, "pos": 0}); good += 1
                    elif v in fe: st.append(None); bad += 1
                    else: return [("result", desc + "accept gave %r" % (v,))]
                else: st.append(None); bad += 1
                continue
            v = nxt(); x = st[o[1]]
            if x is None or x["drop"]:
                if x is not None and o[0] == "drop": pass
                if v != ("V", "none"): return [("protocol", desc + "%r" % (v,))]
                continue
            k = o[0]
            if k == "drop":
                x["drop"] = True
                continue
            if k == "close":
                if v != ("V", "nil"): return [("result", desc + "returned %r" % (v,))]
                x["open"] = False; continue
            new = None
            if not x["open"]: nat = E("EBADF")
            elif k == "bind":
                clash = [y for y in st if y and y is not x and y["open"] and y["bound"] == o[3] and y["state"] != "connected"]
                if x["bound"] or x["state"] != "new": nat = E("EINVAL")
                elif o[2] not in ("127.0.0.1", "0.0.0.0"): nat = E("EADDRNOTAVAIL")
                elif not clash: nat = [OK]
                elif all(y["drop"] for y in clash): nat = [OK] + E("EADDRINUSE")
                else: nat = E("EADDRINUSE")
                new = "bound"
            elif k == "listen":
                nat = E("EOPNOTSUPP") if x["k"] == "d" else E("EINVAL") if x["state"] == "connected" else [OK]; new = "listening"
            elif k == "badaccept": nat = E("EOPNOTSUPP") if x["k"] == "d" else E("EINVAL")
            elif k == "connect":
                if x["k"] == "d": nat = [OK]
                elif x["state"] in ("listening", "connected"): nat = E("EISCONN")
                elif o[2] != "127.0.0.1": nat = E("ENETUNREACH")
                elif o[3] == 7777: nat = E("ECONNREFUSED")
                else: nat = [OK] + E("ECONNREFUSED", "ETIMEDOUT")
                new = "connected"
            elif k == "write":
                if x["k"] == "d": nat = None
                elif x["state"] != "connected": nat = E("EPIPE")
                else: nat = [("R", ("V", str(o[2])))] + E("EPIPE", "ECONNRESET")
            elif k == "recv":
                if x["state"] != "connected": nat = E("ENOTCONN")
                else:
                    nat = E("ECONNRESET")
                    if isinstance(v, tuple) and v[0] == "R" and isinstance(v[1], bytes):
                        if len(v[1]) > o[2]: return [("result", desc + "received %d bytes" % len(v[1]))]
                        if v[1] != patbytes(7, len(v[1]), x["pos"]): return [("result", desc + "received %r, the peer sent %r" % (v[1], patbytes(7, o[2], x["pos"])))]
                        x["pos"] += len(v[1]); nat = [v]
            elif k == "opt": nat = E("ENOPROTOOPT") if o[2] == "bad" else [OK]
            if nat is None: continue
            if v not in nat + fe: return [("result", desc + "returned %r, expected one of %r" % (v, nat + fe))]
            if v[0] == "R":
                good += 1
                if fe and v not in nat: return [("result", desc + "reported success although the call failed with %s" % fl)]
                if new and x["k"] == "s":
                    if new == "bound": x["bound"] = o[3]; x["state"] = "bound"
                    elif new == "listening": x["state"] = "listening"; x["bound"] = x["bound"] or -1
                    else: x["state"] = "connected"
                elif new == "bound": x["bound"] = o[3]; x["state"] = "bound"
            else: bad += 1
        if vi != len(vals) or rest: return [("protocol", "output does not match the operations: %r" % (vals[vi:vi + 2],))]
        for f in r.fds:
            if f["why"] == "preexit" and any(a > 2 for a in f["fds"]): return [("left-open", "descriptors left open at the end: %s" % f["fds"])]
        for n, w in want.items():
            x = r.tree.get("/w/" + n)
            if not x or x[4] != w: return [("file", "the file %s holds %r where %r was written" % (n, x and x[4][:100], w))]
        case["_nt"] = good > 0 and bad > 0
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from self.dropops(case)
        if case["faults"]: yield from drop_parts(case, "faults")
    def dropops(self, case):
        for c in drop_parts(case, "ops"):
            n = 0; d = 0; ok = True
            for o in c["ops"]:
                if o[0] == "create": n += 1
                elif o[0] == "serve": n += 2
                elif o[0] == "file": ok = ok and d == 0; d = 1
                elif o[0] == "fclose": ok = ok and d == 1; d = 0
                elif o[1] >= n: ok = False
            if ok and c["ops"]: yield c

PROP = C12()
