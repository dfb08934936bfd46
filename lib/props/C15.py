"""C15 / C16: HTTP requests and responses over a scripted transport."""
from fw import *
from simlib import *

HPRELUDE = PRELUDE + """
import HTTP; import System;
var keep = [];
def Q(r) { if (r.success()) { var x = r.unwrap(); keep.push(x); P([x.statusCode, x.headers, x.content]); } else P(r); }
"""
M64 = (1 << 64) - 1
_pats = {}
def bodypat(seed, n):
    if len(_pats.get(seed, b"")) < n: _pats[seed] = bodypat1(seed, n)
    return _pats[seed][:n]
def bodypat1(seed, n):
    st = seed; o = bytearray()
    for _ in range(n):
        st = (st + 0x9e3779b97f4a7c15) & M64; z = (st + 0x9e3779b97f4a7c15) & M64
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64; z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64; z ^= z >> 31
        o.append(32 + z % 95)
    return bytes(o)
def rtext(rng, n, a="abcXYZ019-_ "): return "".join(rng.choice(a) for _ in range(n))
def url(rng):
    if rng.random() < 0.03: return ""
    return rng.choice(["http", "https"]) + "://h%d.test/" % rng.randint(0, 9) + rtext(rng, rng.choice([0, 1, 5, 30, 300]), "abc/?&=%#19ä")
def hline(rng):
    return rtext(rng, rng.choice([1, 3, 12]), "ABCxyz-") + rng.choice([": ", ":", ": ", ";"]) + rtext(rng, rng.choice([0, 1, 8, 40, 200]), "abc 019;=\",äß")
def headers(rng): return [hline(rng) for _ in range(rng.choice([0, 1, 1, 2, 5, 12]))]
def form(rng):
    d = []
    for k in range(rng.choice([0, 1, 2, 3, 8, 20])):
        d.append([rng.choice(["s", "s", "s", "n", "b"]), "k%d" % k + rtext(rng, rng.choice([0, 2, 40]), "abc[]"), rng.choice(["s", "s", "s", "n", "b", "z", "l"]), rtext(rng, rng.choice([0, 1, 7, 33, 90, 95, 96, 97, 98, 99, 100, 101, 400]), "xyz 01.ä")])
    return d
def dictlit(d):
    o = []; exp = []; seen = set()
    for i, (kt, k, vt, v) in enumerate(d):
        kl, ke = (lit(k), k) if kt == "s" else (str(i + 7), str(i + 7)) if kt == "n" else ("true", "true")
        if (kt, ke) in seen: continue
        seen.add((kt, ke))
        vl, ve = {"s": (lit(v), v), "n": ("%d.5" % (len(v) * 3), "%d.5" % (len(v) * 3)), "b": ("false", "false"), "z": ("nil", "nil"), "l": ("[1, 2]", "[1, 2]")}[vt]
        o.append(kl + ": " + vl); exp.append(ke + "=" + ve)
    return "{" + ", ".join(o) + "}", exp
def body(rng):
    r = rng.random()
    if r < 0.2: return None
    if r < 0.6: return ["form", form(rng)]
    return ["text", rtext(rng, rng.choice([0, 1, 5, 60, 700, 2500]), rng.choice(["ab c", "{}\":,1", "a\0b", "äß%&=\n\r"]))]
FAILS = [3, 5, 6, 7, 9, 18, 22, 23, 26, 27, 28, 35, 47, 52, 55, 56, 60, 61, 92]
def response(rng, pfail):
    r = {"status": rng.choice([200, 200, 201, 204, 301, 404, 418, 500, 599, 100, 0, 999]), "ms": rng.choice([0, 0, 0, 5, 900, 2500, 9000]), "h": ["HTTP/1.1 200 OK\r\n"] if rng.random() < 0.8 else []}
    for _ in range(rng.choice([0, 1, 2, 3, 8, 25])):
        e = rng.choice(["\r\n", "\r\n", "\r\n", "\r\n", "\n", "", "\r"])
        r["h"].append(rng.choice([hline(rng), hline(rng), rtext(rng, rng.choice([1, 2, 3])), "x" * rng.choice([0, 1, 255, 4000]), "a\rb", "\t", "a\0b: c"]) + e)
    if rng.random() < 0.8: r["h"].append("\r\n")
    x = rng.random()
    if x < 0.15: r["b"] = ["", 0]
    elif x < 0.6: r["b"] = ["t", rtext(rng, rng.choice([1, 2, 5, 30, 200, 900]), rng.choice(["abc", "{}[]\":,1", "a\0", "\r\n", "".join(map(chr, range(256)))]))]
    else: r["b"] = ["p", rng.choice([1, 100, 1000, 16383, 16384, 16385, 40000]), rng.randrange(6)]
    if rng.random() < pfail:
        n = len(bodyof(r))
        if rng.random() < 0.25 and r["h"]: r["failhdr"] = [rng.choice(FAILS), rng.randrange(len(r["h"]) + 1)]
        else: r["fail"] = [rng.choice(FAILS), rng.choice([0, 0, 1, n // 2, max(0, n - 1), n])]
    elif pfail and rng.random() < 0.1: r["ms"] = rng.choice([25000, 100000])
    return r
def bodyof(r): return r["b"][1].encode("latin-1") if r["b"][0] == "t" else bodypat(r["b"][2], r["b"][1]) if r["b"][0] == "p" else b""
def hdrof(h):
    if h.endswith("\n"): h = h[:-1]
    if h.endswith("\r"): h = h[:-1]
    return h
VERBS = ["get", "post", "put", "head", "options"]

class Http(Prop):
    stubs = "libcurl's transfer engine (option semantics, delivery in pieces and failures are simulated); everything above it is real"
    case_wall_ms = 20000
    pfail = 0.0
    assumptions = ["form keys and values are sent as given (the program encodes them where the server needs it)"]
    def op(self, rng):
        r = rng.random()
        c = rng.randrange(3)
        if r < 0.3: return self.req(rng, None)
        if r < 0.62: return self.req(rng, c)
        if r < 0.72: return ["new", c, self.opts(rng)]
        if r < 0.94:
            w = rng.choice(["Timeout", "Headers", "Headers", "Insecure", "FollowRedirects", "KeyFile", "CertFile", "KeyPass"])
            return ["set", c, w, rng.choice([1, 3, 60, 0]) if w == "Timeout" else headers(rng) if w == "Headers" else rng.random() < 0.5 if w in ("Insecure", "FollowRedirects") else rtext(rng, 5)]
        if r < 0.96: return ["drop", c]
        return ["bad", c, rng.choice(["HTTP.get(5)", "HTTP.get(\"http://x\", [\"A: 1\", 5])", "HTTP.get(\"http://x\", \"A: 1\")", "HTTP.get(\"http://x\", [], \"5\")", "HTTP.post(\"http://x\", 5)", "HTTP.post(\"http://x\", \"a\", [nil])",
            "HTTP.put(\"http://x\", {\"a\": 1}, [\"A: 1\", {}])", "HTTP.head(\"http://x\", [5])", "HTTP.options(\"http://x\", [5])", "HTTP.newClient(5)", "HTTP.newClient({\"timeout\": \"5\"})", "HTTP.newClient({\"headers\": [\"a: b\", 5]})", "HTTP.newClient({5: 5})", "HTTP.newClient({\"keyFile\": 5})",
            "C.get(5)", "C.post(\"http://x\", 5)", "C.put(5, \"a\")", "C.options(\"http://x\", [\"A: 1\", 5])", "C.options(\"http://x\", [\"A: 1\"], nil)", "C.setHeaders([\"A: 1\", 5])", "C.setHeaders(5)", "C.setTimeout(\"a\")", "C.setInsecure(5)"])]
    def opts(self, rng):
        o = []
        if rng.random() < 0.5: o.append(["timeout", rng.choice([1, 2, 30, 0])])
        if rng.random() < 0.5: o.append(["headers", headers(rng)])
        if rng.random() < 0.3: o.append(["insecure", rng.random() < 0.6])
        if rng.random() < 0.3: o.append(["follow_redirects", rng.random() < 0.4])
        for k in ("keyFile", "certFile", "keyPasswd"):
            if rng.random() < 0.15: o.append([k, rtext(rng, rng.choice([0, 4]), "abc/.")])
        rng.shuffle(o)
        return o
    def req(self, rng, c):
        v = rng.choice(VERBS)
        h = t = None
        if (c is None or v == "options") and rng.random() < 0.5:
            h = headers(rng)
            if rng.random() < 0.5: t = rng.choice([1, 2, 7, 45, 0])
        b = body(rng) if v in ("post", "put") else None
        if c is None and b is None and v in ("post", "put"): h = t = None
        return ["req", c, v, url(rng), b, h, t, rng.randrange(3)]
    def gen(self, rng, i, tier):
        n = rng.choice([2, 6, 12, 25])
        ops = [["new", 0, self.opts(rng)]] if rng.random() < 0.7 else []
        ops += [self.op(rng) for _ in range(n)]
        pf = self.pfail if rng.random() < 0.9 else 0
        return {"ops": ops, "resp": [response(rng, pf) for _ in ops], "piece": rng.choice([0, 0, 50000, 300000, 1000000]), "faults": self.faults(rng), "gc": rng.randrange(1 << 30)}
    def faults(self, rng): return []
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        s.item(0, "m", HPRELUDE + "var c0 = nil; var c1 = nil; var c2 = nil;")
        for k, o in enumerate(case["ops"]):
            pre = "System.access(\"/.sim/o%d\", 0);" % k
            c = "c%s" % o[1]
            if o[0] == "new": x = "%s = HTTP.newClient({%s}); P(0);" % (c, ", ".join("%s: %s" % (lit(a), self.val(b)) for a, b in o[2]))
            elif o[0] == "set": x = "if (%s) P(%s.set%s(%s)); else print(\"V\\nnone\");" % (c, c, o[2], self.val(o[3]))
            elif o[0] == "drop": x = "%s = nil; { var z = []; for (var i = 0; i < 300; i += 1) z.push(\"k\" + i.toString()); } P(0);" % c
            elif o[0] == "bad": x = "if (%s) { P(0); var l = [\"x\", %s]; P(1); } else print(\"V\\nnone\");" % (c if "C." in o[2] else "true", o[2].replace("C.", c + "."))
            else:
                a = [lit(o[3])]
                if o[4] is not None: a.append(dictlit(o[4][1])[0] if o[4][0] == "form" else lit(o[4][1]))
                if o[5] is not None: a.append("[" + ", ".join(lit(h) for h in o[5]) + "]")
                if o[6] is not None: a.append(str(o[6]))
                call = "%s.%s(%s)" % ("HTTP" if o[1] is None else c, o[2], ", ".join(a))
                if o[7] == 0: b = "def g%d() { var a = \"aa\" + \"\"; var b = [1, 2]; var r = %s; var d = \"dd\"; if (a != \"aa\" or b.len() != 2 or d != \"dd\") print(\"V\\nSTACK\"); return r; } Q(g%d());" % (k, call, k)
                elif o[7] == 1: b = "def g%d() { var l = [\"x\", %s, \"y\"]; if (l.len() != 3 or l[0] != \"x\" or l[2] != \"y\") print(\"V\\nSTACK\"); return l[1]; } Q(g%d());" % (k, call, k)
                else: b = "Q(%s);" % call
                x = b if o[1] is None else "if (not %s) print(\"V\\nnone\"); else { %s }" % (c, b)
            s.item(0, "m", pre + x)
        s.item(0, "m", "System.access(\"/.sim/oend\", 0); for (var i = 0; i < keep.len(); i += 1) P([keep[i].statusCode, keep[i].headers, keep[i].content]);")
        for r in case["resp"]:
            b = " body=" + pct(r["b"][1].encode("latin-1")) if r["b"][0] == "t" else " bodypat=%d:%d" % (r["b"][1], r["b"][2]) if r["b"][0] == "p" else ""
            s.http("status=%d ms=%d" % (r["status"], r["ms"]) + "".join(" h=" + pct(h.encode()) for h in r["h"]) + b + (" fail=%d@%d" % tuple(r["fail"]) if "fail" in r else "") + (" failhdr=%d@%d" % tuple(r["failhdr"]) if "failhdr" in r else ""))
        s.opt(chunk_ppm=case["piece"], track=1, setoptfail=1, slistfail=1)
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def val(self, v):
        if isinstance(v, bool): return "true" if v else "false"
        if isinstance(v, list): return "[" + ", ".join(lit(h) for h in v) + "]"
        return lit(v) if isinstance(v, str) else str(v)
    def check(self, case, rs):
        r = rs[0]
        seg = {}; cur = None
        for e in r.seq:
            if e[0] == "fds":
                w = e[1]["why"]
                if w[:1] == "o" and w[1:].isdigit(): cur = int(w[1:])
                elif w == "oend": cur = "end"
                elif not w.startswith("item"): cur = None
            elif cur is not None: seg.setdefault(cur, []).append(e)
        try: vals, rest = parse_values(r.out[0])
        except (ValueError, re.error) as e: return [("output", "unreadable output: %s" % e)]
        vi = 0; ri = 0; kept = []
        C = [None] * 3       # client model: handle, hdrs, timeout, insecure, follow, files
        freed = set(); codes = r.results[0]
        if len(codes) != len(case["ops"]) + 2: return [("items", "items run: %r" % (codes,))]
        for k, o in enumerate(case["ops"]):
            ev = seg.get(k, []); reqs = [e[1] for e in ev if e[0] == "http"]; faults = [e[1] for e in ev if e[0] == "fault"]
            inits = [int(e[1].split()[-1]) for e in ev if e[0] == "ev" and e[1].startswith("curl init")]
            clean = [int(e[1].split()[-1]) for e in ev if e[0] == "ev" and e[1].startswith("curl cleanup")]
            what = "operation %d %r" % (k, o)
            def nxt():
                nonlocal vi
                vi += 1
                return vals[vi - 1] if vi <= len(vals) else None
            code = codes[k + 1]
            slist = any(f.startswith("curl_slist") for f in faults)
            if code == 2 and slist:                # the list of headers could not be built: nothing may have been sent
                if reqs: return [("sent-anyway", what + ": a request was sent although its headers could not be set")]
                if o[0] == "bad": nxt()
                if o[0] == "new": continue
                left = [h for h in inits if h not in clean]
                if left and o[0] == "req": return [("handle-leak", what + ": handle %r is not released" % left)]
                continue
            if o[0] == "bad":
                v = nxt()
                if v == ("V", "none"): continue
                if code == 0 and faults and not reqs: nxt(); continue
                if code != 2: return [("accepted", what + " did not raise an error")]
                if reqs: return [("sent-anyway", what + ": a request was sent")]
                left = [h for h in inits if h not in clean]
                if left and "newClient" not in o[2]: return [("handle-leak", what + ": handle %r is not released" % left)]
                continue
            if code: return [("error", what + " ended with a runtime error: " + r.serr.get(0, b"").decode("utf-8", "replace")[-300:])]
            if o[0] == "new":
                nxt(); d = dict((a, b) for a, b in o[2])
                C[o[1]] = {"h": inits[0] if inits else None, "hdrs": d.get("headers", []), "t": d.get("timeout"), "ins": d.get("insecure", False), "fol": d.get("follow_redirects", True),
                           "key": d.get("keyFile") or None, "cert": d.get("certFile") or None, "pass": d.get("keyPasswd") or None, "dt": None}
                if not inits and not faults: return [("handle", what + ": no transport handle")]
                continue
            if o[0] == "drop": nxt(); C[o[1]] = None; continue
            c = C[o[1]] if o[1] is not None else None
            v = nxt()
            if o[1] is not None and c is None:
                if v != ("V", "none"): return [("model", what + ": %r" % (v,))]
                continue
            if o[0] == "set":
                if v != ("V", "nil"): return [("setter", what + " returned %r" % (v,))]
                n = {"Timeout": "t", "Headers": "hdrs", "Insecure": "ins", "FollowRedirects": "fol", "KeyFile": "key", "CertFile": "cert", "KeyPass": "pass"}[o[2]]
                c[n] = o[3]; continue
            # ---- a request
            if v == ("V", "STACK"): return [("stack", what + ": values around the call changed")]
            verb, u, b, h, t = o[2:7]
            if o[1] is None:
                left = [x for x in inits if x not in clean]
                if left: return [("handle-leak", what + ": handle %r is not released" % left)]
            if not reqs:
                if not isinstance(v, tuple) or v[0] != "E": return [("not-sent", what + ": nothing was sent but the call returned %.200r" % (v,))]
                if not faults and not (c and c["h"] is None): return [("not-sent", what + ": nothing was sent, and reported is %r" % (v,))]
                if o[1] is None and any(f.startswith("curl_easy_init") for f in faults) and v != ("E", b"transport error 2"): return [("reason", what + ": reported is %r" % (v,))]
                continue
            if len(reqs) > 1: return [("sent-twice", what + ": %d requests were sent" % len(reqs))]
            q = {}; hd = []
            for x in reqs[0].split(" ")[2:]:
                a, z = x.split("=", 1)
                if a == "hdr": hd.append(unpct(z))
                else: q[a] = unpct(z)
            hid = int(reqs[0].split(" ")[1])
            urlfail = any(f.startswith("curl_setopt") for f in faults)
            def bad(f, got, want): return [("request-" + f, what + ": the %s sent is %.300r instead of %.300r" % (f, got, want))]
            if c and hid != c["h"]: return bad("client", hid, c["h"])
            if q["verb"] != verb.upper().encode(): return bad("method", q["verb"], verb.upper())
            if not urlfail and (q["url"] if q["url"] != b"-" else b"") != u.encode(): return bad("url", q["url"], u)
            wh = h if h is not None and (h or c is None) else (c["hdrs"] if c else [])
            if hd != [x.encode() for x in wh] and not (h == [] and hd == []): return bad("headers", hd, wh)
            if q.get("target", b"*" if verb == "options" else None) != (b"*" if verb == "options" else None): return bad("target", q.get("target"), None)
            if verb in ("post", "put"):
                got = q.get("body")
                if got is None: return bad("body", None, b)
                if b is None: ok = got == b""
                elif b[0] == "text": ok = got == b[1].encode()
                else: ok = sorted(x for x in got.decode("utf-8", "replace").split("&") if x) == sorted(dictlit(b[1])[1])
                if not ok: return bad("body", got, b)
            elif "body" in q: return bad("body", q["body"], None)
            gt = int(q["timeout"]); wt = t if t is not None else c["t"] if c else None
            if wt is not None:
                if gt != wt: return bad("timeout", gt, wt)
            elif c:
                if c["dt"] is None: c["dt"] = gt
                elif c["dt"] != gt: return bad("timeout", gt, c["dt"])
            if int(q["follow"]) != int(c["fol"] if c else True): return bad("redirect", q["follow"], c and c["fol"])
            ins = bool(c and c["ins"])
            if (q["vhost"] == b"0" or q["vpeer"] == b"0") != ins or (q["vhost"] == b"0") != (q["vpeer"] == b"0"): return bad("verification", (q["vhost"], q["vpeer"]), "off" if ins else "on")
            for a, z in (("sslkey", "key"), ("sslcert", "cert"), ("keypass", "pass")):
                w = c[z].encode() if c and c[z] else None
                if (q.get(a) or None) != w: return bad(z, q.get(a), w)
            # ---- what came back
            if urlfail or not u:
                if v != ("E", b"transport error 3"): return [("reason", what + ": reported is %.300r" % (v,))]
                continue
            rp = case["resp"][ri] if ri < len(case["resp"]) else {"status": 200, "ms": 0, "h": [], "b": ["", 0]}
            ri += 1
            err = None; bl = len(bodyof(rp))
            early = "fail" in rp and rp["fail"][1] == 0 and rp["fail"][0] not in (28, 56, 18)
            if early: err = rp["fail"][0]
            elif gt and gt * 1000 < rp["ms"]: err = 28
            elif "failhdr" in rp: err = rp["failhdr"][0]
            elif "fail" in rp: err = rp["fail"][0]
            if err is not None:
                if v != ("E", b"transport error %d" % err): return [("failure", what + ": the transfer failed with %d (response %.300r) but the call returned %.300r" % (err, rp, v))]
                case["_f"] = True
                continue
            want = [("V", "%.15g" % rp["status"]), [x.encode() for x in map(hdrof, rp["h"]) if x], b"" if verb in ("head", "options") else bodyof(rp)]
            if v != want:
                f = "status" if not isinstance(v, list) or v[0] != want[0] else "headers" if v[1] != want[1] else "content"
                z = dict(status=0, headers=1, content=2)[f]
                return [("response-" + f, what + ": received %s, the call returned %s" % (repr(want[z])[:400], repr(v[z] if isinstance(v, list) else v)[:400]))]
            kept.append(want); case["_s"] = True
        if vals[vi:] != kept or rest: return [("kept", "responses kept by the program changed later")]
        if r.lost.get(0): return [("leak", "the interpreter's own count of live bytes is %d after shutdown" % r.lost[0])]
        if r.leak.get(0, (0, 0))[0]: return [("leak", "%d blocks are not released: %r" % (r.leak[0][0], r.leaked[:4]))]
        cl = [l for l in r.lines if l.startswith("CURL ")]
        if cl and cl[-1] != "CURL live=0 global=0": return [("handle-leak", "at the end: " + cl[-1])]
        return []
    def nontrivial(self, case, rs): return bool(case.pop("_s", False) | case.pop("_f", False))
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        if case["piece"]: yield dict(case, piece=0)
        for k in range(len(case["resp"])):
            for key in ("fail", "failhdr"):
                if key in case["resp"][k]:
                    x = dict(case["resp"][k]); del x[key]; yield dict(case, resp=case["resp"][:k] + [x] + case["resp"][k + 1:])
            if case["resp"][k]["h"]: yield dict(case, resp=case["resp"][:k] + [dict(case["resp"][k], h=[])] + case["resp"][k + 1:])

class C15(Http):
    id = "C15"
    quick = 5000
    thorough = 90000
    technique = "seeded histories of one-off and reused-client HTTP calls over a simulated transport that cuts every response into arbitrary pieces; each request handed to the transport and each response returned is compared with a model"
    rule = "A case is non-trivial when at least one response was delivered."

PROP = C15()
