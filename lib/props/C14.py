"""C14: query results faithfully reflect the stored data, under contention too."""
import sqlite3, tempfile, shutil
from fw import *
from simlib import *

def num(x): return ("V", "%.15g" % x)
def conv(rows): return [[("V", "nil") if x is None else num(x) if isinstance(x, (int, float)) else (x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x) for x in row] for row in rows]

def value(rng):
    r = rng.random()
    if r < 0.2: return rng.choice([0, 1, -1, 2, 5, 7, 100, 123456789, -987654321, 2 ** 31, 2 ** 40, 2 ** 53, 10 ** 15, 10 ** 18])
    if r < 0.35: return rng.choice([0.5, -2.25, 1e-7, 3.14159, 1e100, -1e300, 0.1, 1234567.875, 2.5e-300])
    if r < 0.45: return None
    if r < 0.55: return rng.random() < 0.5
    if r < 0.6: return ""
    n = rng.choice([1, 1, 2, 5, 12, 40, 200, 2000])
    a = rng.choice(["abc", "a?'\"-;", "12.", " \n\t", "äß€😀", "%\\{}", "a\0b"])
    return "".join(rng.choice(a) for _ in range(n))
def dlit(v):
    if v is None: return "nil"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, str): return lit(v)
    if isinstance(v, int): return str(v)
    return ("%f" % v) if abs(v) < 1e9 and float("%f" % v) == v else None
COLS = "i r t n b".split()
def fidop(rng, nconn):
    c = rng.randrange(nconn)
    r = rng.random()
    v = lambda: value(rng)
    def bind(q, *a): return ["q", c, q, list(a)]
    if r < 0.26:
        cols = [rng.choice(COLS) for _ in range(rng.randint(1, 4))]; cols = list(dict.fromkeys(cols))
        return bind("INSERT INTO d (%s) VALUES (%s)" % (", ".join(cols), ", ".join("?" * len(cols))), *[v() for _ in cols])
    if r < 0.30: return bind("INSERT INTO d (i, t, n) VALUES (?, ?, ?), (?, ?, ?) RETURNING i, n, t", v(), v(), v(), v(), v(), v())
    if r < 0.50:
        s = rng.choice(["SELECT * FROM d ORDER BY rowid", "SELECT * FROM d ORDER BY rowid", "select n, n, i, 'x' from d order by rowid desc", "  SELECT t FROM d ORDER BY rowid LIMIT 3", "\nSELECT count(*) FROM d",
            "SeLeCt typeof(i), typeof(r), typeof(t), typeof(n), typeof(b) FROM d ORDER BY rowid", "-- all of it?\nSELECT rowid, length(t) FROM d ORDER BY rowid", "/* ? */ SELECT max(i), min(r), group_concat(t, ?) FROM d",
            "WITH x AS (SELECT i FROM d ORDER BY rowid) SELECT i FROM x", "VALUES (1, 'a', NULL), (2.5, '?', x'0041ff00')", "SELECT x'', '', NULL, 0, 0.0", "SELECT '?', ?, \"t\", '''?' FROM d ORDER BY rowid",
            "SELECT * FROM d WHERE i = ? ORDER BY rowid", "SELECT * FROM d WHERE t = ? OR n IS ? ORDER BY rowid", "SELECT * FROM d WHERE 0", "SELECT i FROM d WHERE t LIKE ? ORDER BY rowid", "select 1 where ? is null",
            "SELECT DISTINCT typeof(n) FROM d ORDER BY 1", "SELECT ?, ?, ?", "SELECT length(?), ?", "SELECT ?2, ?1", "SELECT :a, :b, :a", "SELECT * FROM empty", "PRAGMA table_info(d)", "PRAGMA foreign_keys", "SELECT i, r, t, n, b, i, r, t, n, b, i, r, t FROM d ORDER BY rowid", "SELECT quote(n), hex(t) FROM d ORDER BY rowid",
            "SELECT zeroblob(5)", "SELECT CAST(t AS BLOB) FROM d ORDER BY rowid", "SELECT * FROM d a, d b ORDER BY a.rowid, b.rowid LIMIT 20"])
        k = {"SELECT ?2, ?1": 2, "SELECT :a, :b, :a": 2, "SELECT '?', ?, \"t\", '''?' FROM d ORDER BY rowid": 1, "-- all of it?\nSELECT rowid, length(t) FROM d ORDER BY rowid": 0,
             "/* ? */ SELECT max(i), min(r), group_concat(t, ?) FROM d": 1, "VALUES (1, 'a', NULL), (2.5, '?', x'0041ff00')": 0}.get(s, s.count("?"))
        if s.count("?") + s.count(":a") and rng.random() < 0.08: k = max(0, k + rng.choice([-1, 1, 2]))
        return bind(s, *[v() for _ in range(k)])
    if r < 0.58: return bind("UPDATE d SET %s = ? WHERE rowid %% 2 = %d" % (rng.choice(COLS), rng.randint(0, 1)), v())
    if r < 0.62: return bind("DELETE FROM d WHERE rowid % 3 = 1")
    if r < 0.66: return bind(rng.choice(["INSERT INTO fk VALUES (?)", "INSERT INTO uq VALUES (?)", "INSERT INTO uq VALUES (?)"]), rng.choice([1, 2, "a", True]))
    if r < 0.72: return bind(rng.choice(["BEGIN", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"]))
    if r < 0.78: return bind(rng.choice(["COMMIT", "COMMIT", "ROLLBACK"]))
    if r < 0.83: return bind(rng.choice(["SELECT * FROM nope", "SELEC", "INSERT INTO d (zz) VALUES (1)", "SELECT (1", "SELECT abs(-9223372036854775808)", "INSERT INTO d SELECT 1", "CREATE TABLE d (a)", "SELECT json('x')"]))
    if r < 0.86: return ["qbad", c, rng.choice(["SELECT ?, ?", "INSERT INTO d (i) VALUES (?)"]), rng.choice(["[1, [2]]", "[{}]", "[P]", "5", "\"a\"", "[1, 2, 3, P]"])]
    if r < 0.90: return ["close", c]
    if r < 0.93: return ["drop", c]
    return ["open", c, rng.choice(["db", "db", "db", "db", ":memory:", "none/x", "dir", ""]), rng.choice([0, 0, 30])]

class C14(Prop):
    id = "C14"
    quick = 3000
    thorough = 80000
    technique = "seeded interleavings of interpreters sharing one SQLite file (real SQLite; simulated disk, locks and clock) checked for lost updates, isolation and timeouts, and single-process query histories compared value by value with a reference database"
    rule = "A case is non-trivial when rows came back, or when a lock conflict occurred."
    assumptions = ["one SQL statement per call", "rollback-journal databases"]
    stubs = "kernel, disk and lock table; real: SQLite, glibc stdio"
    def gen(self, rng, i, tier):
        r = rng.random()
        c = {"gc": rng.randrange(1 << 30), "faults": []}
        if r < 0.6:
            n = rng.choice([1, 1, 2, 3]); c.update(kind="fid", n=n)
            pre = [["q", 0, "CREATE TABLE d (i INTEGER, r REAL, t TEXT, n, b BLOB)", []], ["q", 0, "CREATE TABLE empty (a)", []], ["q", 0, "CREATE TABLE uq (a UNIQUE)", []], ["q", 0, "CREATE TABLE fk (a REFERENCES uq(a))", []]]
            c["ops"] = [["open", k, "db" if k else rng.choice(["db", "db", "db", ":memory:"]), rng.choice([0, 30])] for k in range(n)] + pre + [fidop(rng, n) for _ in range(rng.choice([4, 10, 20, 40]))]
            if rng.random() < 0.15: c["faults"] = [[rng.choice(["sqlread", "sqlwrite", "sqlopen", "sqlsync", "sqldelete"]), "EIO", rng.choice([3000, 30000]), 2]]
        elif r < 0.92:
            nodes = []
            for _ in range(rng.choice([2, 2, 3, 4])):
                ops = []
                for _ in range(rng.choice([2, 4, 8])):
                    ops.append([rng.choice(["inc", "inc", "rmw", "rmwi", "xfer", "xferi", "sum", "snap", "ins", "sleep", "re"]), rng.randint(1, 3), rng.choice([0, 0, 1, 7])])
                nodes.append({"t": rng.choice([0, 0, 5, 40, 300, 2000, None]), "ops": ops})
            c.update(kind="cont", nodes=nodes, yield_ppm=rng.choice([5000, 50000, 200000, 500000]))
            if rng.random() < 0.25: c["kill"] = rng.randint(20, 400); c["machine"] = rng.random() < 0.3
            if rng.random() < 0.2: c["faults"] = [["sqllock", "EAGAIN", rng.choice([3000, 30000]), 1000]]
        else:
            t = rng.choice([0, 1, 20, 150, 400, 1000, 3000, None]); tt = 5000 if t is None else t
            h = rng.choice([0, 10, max(0, tt - 160), tt + 200, tt // 2, tt * 3 + 100])
            c.update(kind="wait", t=t, hold=h, how=rng.choice(["IMMEDIATE", "EXCLUSIVE"]), op=rng.choice(["INSERT INTO a VALUES (9)", "UPDATE a SET x = 2", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE", "SELECT * FROM a"]))
        return c
    # ---------------------------------------------------------------- scenarios
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        if case["kind"] == "fid":
            s.dir("/w/dir")
            s.node(0, kind="embed", cwd="/w").args(0, "dictu")
            s.item(0, "m", "import Sqlite; import System;" + PRELUDE + "".join("var c%d = nil;" % k for k in range(case["n"])))
            for k, o in enumerate(case["ops"]):
                c = "c%d" % o[1]
                pre = "System.access(\"/.sim/o%d\", 0);" % k
                if o[0] == "open": x = "{ if (%s) %s.execute(\"ROLLBACK\"); var r = Sqlite.connect(%s, %d); if (r.success()) { P(true); %s = r.unwrap(); } else P(r); }" % (c, c, lit(o[2]), o[3], c)
                elif o[0] == "close": x = "if (%s) P(%s.close()); else print(\"V\\nnone\");" % (c, c)
                elif o[0] == "drop": x = "if (%s) %s.execute(\"ROLLBACK\"); %s = nil; { var z = []; for (var i = 0; i < 300; i += 1) z.push(\"k\" + i.toString()); } P(0);" % (c, c, c)
                elif o[0] == "qbad": x = "if (%s) P(%s.execute(%s, %s)); else print(\"V\\nnone\");" % (c, c, lit(o[2]), o[3])
                else:
                    a = [dlit(v) for v in o[3]]; a = ["0.5" if v is None else v for v in a]
                    arg = ", [%s]" % ", ".join(a) if a else ""
                    x = "if (%s) P(%s.execute(%s%s)); else print(\"V\\nnone\");" % (c, c, lit(o[2]), arg)
                s.item(0, "m", pre + x)
        elif case["kind"] == "cont":
            s.script(0, "import Sqlite; var db = Sqlite.connect(\"db\").unwrap(); db.execute(\"CREATE TABLE c (id INTEGER PRIMARY KEY, n)\").unwrap(); db.execute(\"INSERT INTO c VALUES (1, 0), (2, 0), (3, 0)\").unwrap();"
                     "db.execute(\"CREATE TABLE acc (id INTEGER PRIMARY KEY, bal)\").unwrap(); db.execute(\"INSERT INTO acc VALUES (1, 100), (2, 100), (3, 100)\").unwrap(); db.execute(\"CREATE TABLE log (node, k)\").unwrap(); print(\"ready\");", name="setup.du")
            for k, n in enumerate(case["nodes"]): s.script(k + 1, self.contscript(k + 1, n), name="n%d.du" % k, phase=1, outtty=1)
            s.script(9, "import Sqlite; import System;" + PRELUDE + "System.access(\"/.sim/nofaults\", 0); var db = Sqlite.connect(\"db\").unwrap(); P(db.execute(\"SELECT n FROM c ORDER BY id\")); P(db.execute(\"SELECT bal FROM acc ORDER BY id\")); P(db.execute(\"SELECT node, k FROM log ORDER BY rowid\")); P(db.execute(\"PRAGMA integrity_check\"));", name="end.du", phase=2)
            s.opt(yield_ppm=case["yield_ppm"], track=1, lost_ppm=500000)
            if case.get("kill"): s.opt(kill_at_p1=case["kill"], kill_machine=int(case["machine"]))
        else:
            s.script(0, "import Sqlite; var db = Sqlite.connect(\"db\").unwrap(); db.execute(\"CREATE TABLE a (x)\").unwrap(); db.execute(\"INSERT INTO a VALUES (1)\").unwrap();", name="setup.du")
            s.script(1, "import Sqlite; import System; var db = Sqlite.connect(\"db\").unwrap(); db.execute(\"BEGIN %s\").unwrap(); db.execute(\"UPDATE a SET x = 5\").unwrap(); System.access(\"/.sim/timeheld\", 0); System.sleep(%s); db.execute(\"COMMIT\").unwrap(); System.access(\"/.sim/timefree\", 0);" % (case["how"], (case["hold"] + 30) / 1000), name="h.du", phase=1)
            s.script(2, "import Sqlite; import System;" + PRELUDE + "var db = Sqlite.connect(\"db\"%s).unwrap(); System.sleep(0.03); System.access(\"/.sim/timebeg\", 0); P(db.execute(%s)); System.access(\"/.sim/timeend\", 0);" % ("" if case["t"] is None else ", %d" % case["t"], lit(case["op"])), name="w.du", phase=1)
        s.opt(fault_wait=int(case["kind"] == "cont"))
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def contscript(self, me, n):
        o = ["import Sqlite; import System;", PRELUDE, "System.access(\"/.sim/armfaults\", 0);",
             "var db = Sqlite.connect(\"db\"%s).unwrap();" % ("" if n["t"] is None else ", %d" % n["t"]),
             "def q(s) { return db.execute(s); }",
             "def qa(s, a) { return db.execute(s, a); }",
             "def fin(k, r) { var c = q(\"COMMIT\"); var t = 0; while (not c.success() and t < 3) { c = q(\"COMMIT\"); t += 1; } if (not c.success()) { q(\"ROLLBACK\"); } P(c); }",
             "def mark(k) { System.access(\"/.sim/time\" + k, 0); }"]
        b = 0
        for k, (op, a, p) in enumerate(n["ops"]):
            o.append("print(\"V\\n#%d\"); mark(\"%d_%d\");" % (k, me, k))
            sl = "System.sleep(%s);" % (p / 1000) if p else ""
            if op == "inc": o.append("P(q(\"UPDATE c SET n = n + 1 WHERE id = %d\"));" % a)
            elif op == "ins": o.append("P(qa(\"INSERT INTO log VALUES (?, ?)\", [%d, %d]));" % (me, k))
            elif op in ("rmw", "rmwi"):
                o.append("def f%d() { var b = q(\"BEGIN%s\"); if (not b.success()) { P(b); return; } var r = q(\"SELECT n FROM c WHERE id = %d\"); if (not r.success()) { q(\"ROLLBACK\"); P(r); return; } %s var u = qa(\"UPDATE c SET n = ? WHERE id = %d\", [r.unwrap()[0][0] + 1]); if (not u.success()) { q(\"ROLLBACK\"); P(u); return; } %s fin(%d, 0); } f%d();" % (k, " IMMEDIATE" if op == "rmwi" else "", a, sl, a, sl, k, k))
            elif op in ("xfer", "xferi"):
                o.append("def f%d() { var b = q(\"BEGIN%s\"); if (not b.success()) { P(b); return; } var r = q(\"UPDATE acc SET bal = bal - 7 WHERE id = %d\"); if (not r.success()) { q(\"ROLLBACK\"); P(r); return; } %s var u = q(\"UPDATE acc SET bal = bal + 7 WHERE id = %d\"); if (not u.success()) { q(\"ROLLBACK\"); P(u); return; } fin(%d, 0); } f%d();" % (k, " IMMEDIATE" if op == "xferi" else "", a, sl, a % 3 + 1, k, k))
            elif op == "sum": o.append("P(q(\"SELECT sum(bal) FROM acc\"));")
            elif op == "snap":
                o.append("def f%d() { var b = q(\"BEGIN\"); var x = q(\"SELECT bal FROM acc WHERE id = 1\"); %s var y = q(\"SELECT bal FROM acc WHERE id = 2\"); var z = q(\"SELECT bal FROM acc WHERE id = 3\"); q(\"COMMIT\"); if (x.success() and y.success() and z.success()) P(x.unwrap()[0][0] + y.unwrap()[0][0] + z.unwrap()[0][0]); else { if (not x.success()) P(x); else if (not y.success()) P(y); else P(z); } } f%d();" % (k, sl, k))
            elif op == "sleep": o.append("System.sleep(%s); P(0);" % (a / 100))
            elif op == "re": o.append("db.close(); db = Sqlite.connect(\"db\"%s).unwrap(); P(0);" % ("" if n["t"] is None else ", %d" % n["t"]))
            o.append("mark(\"%d_%de\");" % (me, k))
        return "\n".join(o) + "\n"
    # ---------------------------------------------------------------- checks
    def check(self, case, rs):
        return getattr(self, "check_" + case["kind"])(case, rs[0])
    def check_wait(self, case, r):
        t = 5000 if case["t"] is None else case["t"]
        for n in (0, 1, 2):
            if r.exit[n]["code"]: return [("exit", "process %d ended with %s: %s" % (n, r.exit[n], r.serr[n][-300:]))]
        v = parse_values(r.out[2])[0][0]
        tm = {e[1]: e[2] for e in r.seq if e[0] == "mtime"}
        el = (tm["end"] - tm["beg"]) / 1e6; left = (tm["free"] - tm["beg"]) / 1e6
        read = case["op"].startswith("SELECT")
        blocked = not (read and case["how"] == "IMMEDIATE")     # readers only meet the writer while it commits
        if tm["held"] > tm["beg"]: return []
        if v == ("E", b"database is locked"):
            case["_nt"] = True
            if el < t - 0.5: return [("timeout", "%s: reported as locked after %.1f ms with a timeout of %d ms" % (case["op"], el, t))]
            if left < t - 120 : return [("timeout", "%s: reported as locked with a timeout of %d ms although the lock was released after %.1f ms" % (case["op"], t, left))]
            if el > 2 * t + 200: return [("timeout", "%s: waited %.1f ms with a timeout of %d ms" % (case["op"], el, t))]
            return []
        ok = [("R", [[("V", "5")]]), ("R", [[("V", "1")]])] if read else [("R", ("V", "nil"))]
        if v not in ok: return [("result", "%s returned %r" % (case["op"], v))]
        if blocked and el < left - 0.5 and left > 1: return [("isolation", "%s succeeded after %.1f ms although another connection held the lock for %.1f ms" % (case["op"], el, left))]
        if not read and el > t + 200: return [("timeout", "waited %.1f ms with a timeout of %d ms" % (el, t))]
        if blocked and left > 1: case["_nt"] = True
        if read and case["how"] == "IMMEDIATE" and el < left - 50 and v == ok[0]: return [("isolation", "an uncommitted update was visible")]
        return []
    def check_cont(self, case, r):
        if r.exit[0]["code"] or r.exit[9]["code"]: return [("exit", "setup or final process ended with %s %s: %s%s" % (r.exit[0], r.exit[9], r.serr[0][-200:], r.serr[9][-300:]))]
        lo = {"c": [0, 0, 0], "x": [0, 0, 0]}; hi = {"c": [0, 0, 0]}; xf = []
        logs = []; maylog = []; unsure = []; pend = []
        tm = {e[1]: e[2] for e in r.seq if e[0] == "mtime"}
        for k, n in enumerate(case["nodes"]):
            me = k + 1; ex = r.exit[me]; killed = ex["sig"] == 9
            if not killed and ex["code"]: return [("exit", "process %d ended with %s: %s" % (me, ex, r.serr[me][-300:]))]
            vals, rest = parse_values(r.out[me])
            if rest and not killed: return [("protocol", "%r" % rest[:100])]
            vi = 0; met = False
            for j, (op, a, p) in enumerate(n["ops"]):
                if vi >= len(vals):
                    if killed: break
                    return [("protocol", "process %d: operation %d is missing" % (me, j))]
                if vals[vi] != ("V", "#%d" % j): return [("protocol", "process %d, operation %d: %r" % (me, j, vals[vi]))]
                if vi + 1 >= len(vals):
                    if not killed: return [("protocol", "process %d: no result of operation %d" % (me, j))]
                    pend.append((me, j, op, a)); vi += 1; break
                v = vals[vi + 1]; vi += 2
                ok = v == ("R", ("V", "nil"))
                err = isinstance(v, tuple) and v[0] == "E"
                d = "process %d, operation %d (%s)" % (me, j, op)
                if err:
                    first = not met; met = True
                    if v[1] != b"database is locked": return [("result", d + " failed with %r" % (v[1],))]
                    b, e = tm.get("%d_%d" % (me, j)), tm.get("%d_%de" % (me, j))
                    t = 5000 if n["t"] is None else n["t"]
                    # outside transactions every conflict is waited for (each statement and each commit for itself)
                    if op in ("inc", "ins", "sum") and b is not None and e is not None and not r.faults and first:   # (SQLite itself does not wait when it reads the schema right after a conflict)
                        if (e - b) / 1e6 < t - 0.5: return [("timeout", d + " reported a lock conflict after %.1f ms with a timeout of %d ms" % ((e - b) / 1e6, t))]
                    continue
                if op in ("sum",):
                    if v != ("R", [[("V", "300")]]): return [("isolation", d + " saw %r, the sum of every committed state is 300" % (v,))]
                elif op == "snap":
                    if v != ("V", "300"): return [("isolation", d + " saw a total of %r inside one transaction, the sum of every committed state is 300" % (v,))]
                elif op in ("sleep", "re"): pass
                elif not ok: return [("result", d + " returned %r" % (v,))]
                elif op in ("inc", "rmw", "rmwi"): lo["c"][a - 1] += 1
                elif op in ("xfer", "xferi"): lo["x"][a - 1] -= 7; lo["x"][a % 3] += 7
                elif op == "ins": logs.append((me, j))
        fv, rest = parse_values(r.out[9])
        if len(fv) != 4: return [("protocol", "final: %r" % fv)]
        if fv[3] != ("R", [[b"ok"]]): return [("corrupt", "integrity check: %r" % (fv[3],))]
        def sure(maybe):
            c = list(lo["c"]); x = [100 + q for q in lo["x"]]; l = sorted(logs)
            for me, j, op, a in maybe:
                if op in ("inc", "rmw", "rmwi"): c[a - 1] += 1
                elif op in ("xfer", "xferi"): x[a - 1] -= 7; x[a % 3] += 7
                elif op == "ins": l.append((me, j))
            return c, x, sorted(l)
        got = ([int(float(x[0][1])) for x in fv[0][1]], [int(float(x[0][1])) for x in fv[1][1]], sorted((int(x[0][1]), int(x[1][1])) for x in fv[2][1]))
        pend = [p for p in pend if p[2] not in ("sum", "snap", "sleep", "re")]
        cands = [sure([p for b, p in enumerate(pend) if m >> b & 1]) for m in range(1 << len(pend))]
        if got not in cands: return [("lost-update", "the counters, balances and records are finally %r; the acknowledged updates give %r%s" % (got, cands[0], " (%d more in flight at the crash)" % len(pend) if pend else ""))]
        case["_nt"] = r.counts.get("sql:busy", 0) > 0
        return []
    def check_fid(self, case, r):
        vals, rest = parse_values(r.out.get(0, b""))
        fl = {}; at = None; fds = {}
        for e in r.seq:
            if e[0] == "fds":
                w = e[1]["why"]
                if w.startswith("o") and w[1:].isdigit(): at = int(w[1:])
                elif w.startswith("item"): fds[int(w[4:]) - 1] = e[1]["fds"]
            elif e[0] == "fault": fl.setdefault(at, []).append(e[1])
        codes = r.results.get(0, [])
        if len(codes) != len(case["ops"]) + 1 or codes[0]: return [("protocol", "%r" % codes)]
        tmp = tempfile.mkdtemp(prefix="c14", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        vi = 0; rows = 0
        con = {}
        def drop(k):
            if con.get(k): con[k][0].close() if con[k][0] else None
            con[k] = None
        try:
            for k, o in enumerate(case["ops"]):
                code = codes[k + 1]; v = None
                desc = "operation %d (%s)%s" % (k, " ".join(str(x) for x in o)[:200], ", with %s" % fl[k] if k in fl else "")
                if code == 0:
                    if vi >= len(vals): return [("protocol", desc + ": no result")]
                    v = vals[vi]; vi += 1
                elif code != 2: return [("result", desc + ": result code %d" % code)]
                if k in fl:
                    if code or not (isinstance(v, tuple) and v[0] in "REV"): return [("result", desc + " returned %r (code %d)" % (v, code))]
                    return []
                c = con.get(o[1])
                if o[0] == "open":
                    if c and c[0] and c[0].in_transaction: c[0].execute("ROLLBACK")
                    bad = o[2] in ("none/x", "dir")
                    want = ("E", b"unable to open database file") if bad else ("V", "true")
                    if v != want: return [("result", desc + " returned %r, expected %r" % (v, want))]
                    if not bad:
                        drop(o[1])
                        x = sqlite3.connect(":memory:" if o[2] in (":memory:", "") else os.path.join(tmp, "db"), isolation_level=None, timeout=0)
                        x.execute("PRAGMA foreign_keys = ON"); x.text_factory = lambda b: b.decode("utf-8", "surrogateescape")
                        con[o[1]] = [x, o[2]]
                elif c is None:
                    if o[0] != "drop" and v != ("V", "none"): return [("protocol", desc + " gave %r" % (v,))]
                elif o[0] == "drop": drop(o[1])
                elif o[0] == "close":
                    if v != ("V", "nil"): return [("result", desc + " returned %r" % (v,))]
                    if c[0]: c[0].close()
                    c[0] = None
                elif o[0] == "qbad":
                    if c[0] is None and code == 0:
                        if v != ("E", b"Database connection is closed"): return [("result", desc + " returned %r" % (v,))]
                    elif code == 0:
                        if v[0] != "E": return [("result", desc + " was accepted: %r" % (v,))]
                else:
                    if c[0] is None: want = ("E", b"Database connection is closed"); wc = 0
                    else:
                        a = [0.5 if dlit(x) is None else int(x) if isinstance(x, bool) else float(x) if isinstance(x, (int, float)) else x for x in o[3]]
                        q = o[2]
                        if ":a" in q:
                            q = q.replace(":a", "?1").replace(":b", "?2")
                        wc = 0
                        try:
                            cu = c[0].execute(q, a); rr = cu.fetchall(); want = ("R", conv(rr) if cu.description is not None else ("V", "nil"))
                        except sqlite3.ProgrammingError: want = None; wc = 2
                        except sqlite3.Error as e: want = ("E", str(e).encode())
                        if want and want[0] == "R" and isinstance(want[1], list): rows += len(want[1])
                    if wc != code and not (wc == 2 and code == 0 and v[0] == "E"): return [("result", desc + ": %s, expected %s" % ("a runtime error" if code else short(v), "an error about the number of parameters" if wc else short(want)))]
                    if wc == 0 and not equal(v, want): return [("result", desc + " returned %s, expected %s" % (short(v), short(want)))]
                # the database files that are open belong to open connections
                used = fds.get(k, {})
                nopen = sum(1 for f in used.values() if f == "file=/w/db")
                live = sum(1 for x in con.values() if x and x[0] and x[1] == "db")
                if nopen < live: return [("released", desc + ": %d connections are open but %d files: %s" % (live, nopen, used))]
                if o[0] == "close" and nopen > live and not any(q[0] in ("drop", "open") for q in case["ops"][case["n"]:k]): return [("released", desc + ": %d connections are open but %d files: %s" % (live, nopen, used))]
            if vi != len(vals) or rest: return [("protocol", "output does not match: %r" % vals[vi:vi + 2])]
            end = [f for f in r.fds if f["why"] == "exit"]
            for f in end:
                if any(x.startswith("file=") for x in f["fds"].values()): return [("released", "files left open when the interpreter was freed: %s" % f["fds"])]
            case["_nt"] = rows > 0
            return []
        finally:
            for x in con.values():
                if x and x[0]: x[0].close()
            shutil.rmtree(tmp, ignore_errors=True)
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def probes(self, case, rs):
        r = rs[0]; return {"lock conflicts": r.counts.get("sql:busy", 0), "cases of kind " + case["kind"]: 1, "killed": r.counts.get("fault:kill", 0)}
    def shrinks(self, case):
        if case["kind"] == "fid":
            yield from drop_parts(case, "ops")
        elif case["kind"] == "cont":
            if len(case["nodes"]) > 1:
                for k in range(len(case["nodes"])):
                    c = dict(case); c["nodes"] = case["nodes"][:k] + case["nodes"][k + 1:]; yield c
            for k, n in enumerate(case["nodes"]):
                for m in drop_parts(n, "ops"):
                    c = dict(case); c["nodes"] = case["nodes"][:k] + [m] + case["nodes"][k + 1:]; yield c
        if case["faults"]: yield from drop_parts(case, "faults")

def equal(v, w):
    return v == w
def short(v):
    s = repr(v); return s if len(s) < 400 else s[:400] + "..."
PROP = C14()
