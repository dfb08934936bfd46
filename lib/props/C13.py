"""C13: acknowledged SQL statements survive crashes; failed ones have no effect."""
import sqlite3
from fw import *
from simlib import *

IOERRS = ["disk I/O error", "database or disk is full", "unable to open database file", "database is locked", "out of memory", "interrupted", "cannot commit - no transaction is active",
          "cannot rollback - no transaction is active", "callback requested query abort"]
SCHEMA = ["CREATE TABLE t (k INTEGER PRIMARY KEY, v)", "CREATE TABLE u (a UNIQUE, b NOT NULL)", "CREATE TABLE w (r REFERENCES t(k), n)", "CREATE INDEX ti ON t (v)"]

def stmt(rng, st):
    """[sql, params or None]"""
    r = rng.random()
    if r < 0.22:
        n = rng.choice([1, 3, 20, 200, 900, 3000, 9000])
        return ["INSERT INTO t (v) VALUES (?)", [rng.choice("abcdef") * n]]
    if r < 0.28: return ["INSERT INTO t VALUES (%d, ?), (%d, ?), (%d, ?)" % tuple(rng.randint(1, 30) for _ in range(3)), ["p" * rng.choice([1, 500]), "q", None]]
    if r < 0.34: return ["INSERT INTO u VALUES (?, ?)", [rng.randint(0, 4), rng.choice(["x", "y" * 700, None])]]
    if r < 0.38: return ["INSERT OR REPLACE INTO u VALUES (%d, 'z'), (%d, 'w')" % (rng.randint(0, 4), rng.randint(0, 9)), None]
    if r < 0.43: return ["INSERT INTO t (v) SELECT substr(v, 1, 900) || 'c' FROM t LIMIT 40", None]
    if r < 0.50: return ["UPDATE t SET v = substr(v || ?, 1, 3000) WHERE k %% %d = 0" % rng.randint(1, 3), ["m" * rng.choice([1, 30, 1500])]]
    if r < 0.53: return ["UPDATE t SET k = k + %d" % rng.choice([1, 1, 40]), None]
    if r < 0.55: return ["UPDATE u SET b = CASE WHEN a > 2 THEN NULL ELSE b || 'n' END", None]
    if r < 0.59: return ["DELETE FROM t WHERE k %% %d = 0" % rng.randint(2, 4), None]
    if r < 0.61: return ["DELETE FROM " + rng.choice("tuw"), None]
    if r < 0.64: return ["INSERT INTO w VALUES (%d, 1)" % rng.randint(1, 12), None]
    if r < 0.68: return ["INSERT INTO t (v) VALUES (?), (?), (?) RETURNING k", ["r1", "r2" * rng.choice([1, 400]), "r3"]]
    if r < 0.70: return ["WITH c(x) AS (VALUES (1), (2), (3)) INSERT INTO t (v) SELECT x FROM c", None]
    if r < 0.76: return ["BEGIN" + rng.choice(["", " IMMEDIATE", " EXCLUSIVE"]), None]
    if r < 0.83: return ["COMMIT", None]
    if r < 0.845: return ["ROLLBACK", None]
    if r < 0.865: return ["SAVEPOINT s", None]
    if r < 0.88: return ["RELEASE s", None]
    if r < 0.89: return ["ROLLBACK TO s", None]
    if r < 0.92: return ["SELECT count(*), sum(length(v)) FROM t", None]
    if r < 0.93: return ["SELECT * FROM u ORDER BY a", None]
    if r < 0.94: return [rng.choice(["INSERT INTO nope VALUES (1)", "INSRT", "INSERT INTO t VALUES (1, 2, 3)", "UPDATE t SET zz = 1"]), None]
    if r < 0.96: return [rng.choice(["DROP TABLE w", "CREATE TABLE x (a)", "DROP TABLE x", "ALTER TABLE u ADD COLUMN c", "CREATE INDEX ui ON u (b)", "DROP INDEX ti"]), None]
    if r < 0.97: return ["VACUUM", None]
    if r < 0.985: return ["CLOSE", None]
    return ["PRAGMA journal_mode = " + rng.choice(["TRUNCATE", "PERSIST", "DELETE"]), None]

class Alt:
    """One possible state of the database: what was executed so far; an open transaction may be lost."""
    def __init__(self, log=()):
        self.log = list(log); self.c = sqlite3.connect(":memory:", isolation_level=None)
        self.c.execute("PRAGMA foreign_keys = ON"); self.mark = 0
        for i, x in enumerate(self.log):
            try: self.c.execute(x[0], x[1] or ()).fetchall()
            except sqlite3.Error: pass
            if not self.c.in_transaction: self.mark = i + 1
    def run(self, q):
        self.log.append(q); t = self.c.in_transaction
        try:
            cu = self.c.execute(q[0], q[1] or ())
            rows = cu.fetchall(); res = ("R", conv(rows) if cu.description is not None else ("V", "nil"))
        except sqlite3.Error as e:
            res = ("E", str(e).encode())
            if t == self.c.in_transaction: self.log.pop()
        if not self.c.in_transaction: self.mark = len(self.log)
        return res
    def lose(self):
        """the transaction that is open is rolled back"""
        if not self.c.in_transaction: return self
        return Alt(self.log[:self.mark])
    def key(self):
        # what is committed and what the open transaction did so far
        c = self if not self.c.in_transaction else Alt(self.log[:self.mark])
        return (tuple(c.c.iterdump()), repr(self.log[self.mark:]))

def num(x):
    return ("V", "%.15g" % x)
def conv(rows):
    return [[("V", "nil") if x is None else num(x) if isinstance(x, (int, float)) else (x.encode() if isinstance(x, str) else x) for x in row] for row in rows]

DUMP = ["SELECT name, sql FROM sqlite_master ORDER BY name", "SELECT * FROM t ORDER BY rowid", "SELECT * FROM u ORDER BY rowid", "SELECT * FROM w ORDER BY rowid", "SELECT * FROM x ORDER BY rowid"]

class C13(Prop):
    id = "C13"
    quick = 4000
    thorough = 80000
    technique = "real SQLite on a simulated disk (lost, torn and failing writes, failing syncs, locks and journal deletions) with kills and power losses at arbitrary calls in up to two consecutive processes, compared with a reference database that executed the acknowledged statements"
    rule = "A case is non-trivial when the process or the machine crashed, or an operation failed, after at least one acknowledged statement that changes data."
    assumptions = ["the disk loses only unsynchronised writes, at sector granularity, and keeps directory entries", "the default journal modes with rollback journals (the simulated file system has no shared memory for write-ahead logs)", "one SQL statement per call"]
    stubs = "kernel and disk; real: SQLite, glibc stdio"
    def gen(self, rng, i, tier):
        def seq(n):
            o = []; big = rng.random() < 0.3
            if rng.random() < 0.35: o.append(["PRAGMA cache_size = %d" % rng.choice([1, 3, 10]), None])
            for _ in range(n):
                if big and rng.random() < 0.3: o.append(["INSERT INTO t (v) SELECT substr(v, 1, 200) || 'd' FROM t LIMIT 60", None])
                o.append(stmt(rng, None))
            return o
        a = [[x, None] for x in SCHEMA if rng.random() < 0.9] + seq(rng.choice([3, 6, 10, 16, 24]))
        b = seq(rng.choice([0, 0, 2, 6, 12]))
        faults = []
        kill = [0, 0]
        r = rng.random()
        if r < 0.55: kill[0] = rng.choice([rng.randint(10, 80), rng.randint(20, 400), rng.randint(100, 1200)])
        if r < 0.55 and rng.random() < 0.4: kill[1] = rng.choice([rng.randint(5, 60), rng.randint(20, 300)])
        if r >= 0.5 and r < 0.95:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append([rng.choice(["sqlwrite", "sqlwrite", "sqlwrite", "sqlsync", "sqlsync", "sqlread", "sqltruncate", "sqldelete", "sqllock", "sqlopen"]), rng.choice(["EIO", "ENOSPC"]), rng.choice([3000, 20000, 100000]), rng.choice([1, 1, 2, 1000])])
        rd = ["SELECT count(*) FROM sqlite_master", None]
        def fix(o):
            # SQLite acknowledges a COMMIT that follows a RELEASE whose I/O failed although the transaction is gone
            if faults: return [x for x in o if x[0] not in ("ROLLBACK TO s", "RELEASE s")]
            # SQLite forgets a schema it has not read yet when a savepoint is rolled back to, so it is read first
            if not any(q == "ROLLBACK TO s" for q, _ in o): return o
            n = [rd]
            for x in o: n += [x, rd] if x[0] == "CLOSE" else [x]
            return n
        a = fix(a); b = fix(b)
        return {"a": a, "b": b, "kill": kill, "machine": rng.random() < 0.6, "lost": rng.choice([0, 200000, 500000, 1000000]), "faults": faults, "gc": rng.randrange(1 << 30)}
    def script(self, ops, final):
        o = ["import Sqlite; import System;", PRELUDE, "var db = nil;",
             "def con() { System.access(\"/.sim/conn\", 0); var r = Sqlite.connect(\"db\"); P(r.success()); if (r.success()) db = r.unwrap(); else System.exit(3); }",
             "def ex(i, q) { System.access(\"/.sim/s\" + i.toString(), 0); P(db.execute(q)); }",
             "def ea(i, q, a) { System.access(\"/.sim/s\" + i.toString(), 0); P(db.execute(q, a)); }"]
        o.append("System.access(\"/.sim/%sfaults\", 0);" % ("no" if final else "arm"))
        o.append("con();")
        for i, (q, a) in enumerate(ops):
            if q == "CLOSE": o.append("db.close(); P(1); con();")
            elif a is None: o.append("ex(%d, %s);" % (i, lit(q)))
            else: o.append("ea(%d, %s, [%s]);" % (i, lit(q), ", ".join("nil" if x is None else str(x) if isinstance(x, int) else lit(x) if len(x) < 40 else "\"%s\".repeat(%d)" % (x[0], len(x)) if x == x[0] * len(x) else lit(x) for x in a)))
        return "\n".join(o) + "\n"
    def final(self): return [[q, None] for q in DUMP] + [["PRAGMA integrity_check", None]]
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        s.script(0, self.script(case["a"], False), name="a.du", outtty=1)
        if case["b"]: s.script(1, self.script(case["b"], False), name="b.du", phase=1, outtty=1)
        s.script(2, self.script(self.final(), True), name="c.du", phase=2, outtty=1)
        s.opt(track=1, fault_wait=1, lost_ppm=case["lost"], kill_machine=int(case["machine"]))
        if case["kill"][0]: s.opt(kill_at=case["kill"][0])
        if case["kill"][1] and case["b"]: s.opt(kill_at_p1=case["kill"][1])
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]
        alts = [Alt()]; acked = 0; disturbed = 0
        segs = []; cur = None
        # faults by operation: the marks of the phases follow each other in the log
        faults = {}; ph = -1; at = None
        for e in r.seq:
            if e[0] == "fds":
                w = e[1]["why"]; ph = e[1]["node"]
                if w == "conn": at = "c"
                elif w[0] == "s" and w[1:].isdigit(): at = int(w[1:])
            elif e[0] == "fault" and e[1].startswith("sql"): faults.setdefault((ph, at), []).append(e[1])
        for node, ops in ((0, case["a"]), (1, case["b"]), (2, self.final())):
            if node == 1 and not ops: continue
            try: vals, rest = parse_values(r.out.get(node, b""))
            except ValueError as e: return [("protocol", "node %d: %s" % (node, e))]
            ex = r.exit[node]; killed = ex["sig"] == 9
            if not killed and ex["code"] not in (0, 3): return [("exit", "process %d ended with code %d: %s" % (node, ex["code"], r.serr.get(node, b"")[-300:]))]
            vi = 0
            def nxt():
                nonlocal vi
                if vi < len(vals): vi += 1; return vals[vi - 1]
                return None
            v = nxt(); ok = True
            steps = [("con", None, None)]
            for i, q in enumerate(ops):
                if q[0] == "CLOSE": steps += [("close", None, None), ("con", None, None)]
                else: steps.append(("q", i, q))
            vi = 0; conn = True
            for kind, i, q in steps:
                v = nxt()
                if v is None and not killed:
                    return [("protocol", "process %d: no result for %r" % (node, q))]
                if v is None:
                    # cut off by the crash: all or nothing of it
                    disturbed += 1
                    if kind == "q":
                        n = []
                        for x in alts:
                            y = Alt(x.log); y.run(q); n += [x, y]
                        alts = n
                    break
                if kind == "con":
                    if v not in (("V", "true"), ("V", "false")): return [("protocol", "%r" % (v,))]
                    if v == ("V", "false"):
                        if not faults.get((node, "c")): return [("connect", "process %d: connecting failed although nothing was refused" % node)]
                        return []       # nothing can be said about a session without a connection
                    continue
                if kind == "close":
                    alts = [x.lose() for x in alts]; continue
                fl = faults.get((node, i))
                what = "process %d, statement %d (%s)%s" % (node, i, q[0][:100], ", with %s" % fl if fl else "")
                if q[0].startswith("PRAGMA") and node < 2:
                    if not (isinstance(v, tuple) and v[0] in "RE"): return [("result", what + " returned %r" % (v,))]
                    continue
                if q[0].startswith("PRAGMA"):
                    if v != ("R", [[b"ok"]]): return [("corrupt", "after the crashes and failures the integrity check gives %r" % (v,))]
                    continue
                isio = isinstance(v, tuple) and v[0] == "E" and isinstance(v[1], bytes)
                n = []; exp = []
                for x in alts:
                    if fl and isio:
                        y = Alt(x.log)
                        e = y.run(q)
                        if v[1].decode("latin-1") in IOERRS or e == v:
                            n.append(x); disturbed += 1
                            if x.c.in_transaction: n.append(x.lose())
                            n.append(y)
                        exp.append("an I/O error"); continue
                    e = x.run(q); exp.append(e)
                    if same(e, v): n.append(x)
                    elif isio and v[1] in (b"cannot VACUUM from within a transaction",) and e[0] == "E": n.append(x)
                if not n:
                    if node == 2: return [("durability", "after the crashes and failures %s gives %s, expected %s" % (q[0], short(v), " or ".join(short(e) for e in exp[:4])))]
                    return [("result", what + " returned %s, expected %s" % (short(v), " or ".join(short(e) for e in exp[:4])))]
                if v[0] == "R" and not q[0].startswith("SELECT"): acked += 1
                if len(n) > 2:
                    seen = {}; 
                    for x in n: seen.setdefault(x.key(), x)
                    n = list(seen.values())
                    if len(n) > 24: return []
                alts = n
            if killed and vi < len(vals): return [("protocol", "too many results")]
            if rest and not killed: return [("protocol", "unfinished output %r" % rest[:100])]
            alts = [x.lose() for x in alts]
            if len(alts) > 1:
                seen = {}
                for x in alts: seen.setdefault(x.key(), x)
                alts = list(seen.values())
        case["_nt"] = acked > 0 and disturbed > 0
        return []
    def nontrivial(self, case, rs): return case.pop("_nt", False)
    def shrinks(self, case):
        yield from drop_parts(case, "a")
        yield from drop_parts(case, "b")
        yield from drop_parts(case, "faults")

def same(e, v):
    return e == v
def short(v):
    s = repr(v); return s if len(s) < 400 else s[:400] + "..."
PROP = C13()
