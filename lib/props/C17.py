"""C17: reported times follow the system clock; sleeping lasts as asked."""
import time as _t, calendar
from fw import *
from simlib import *

TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+1245>-12:45", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX11", "YYY-14"]
FMTS = ["%Y-%m-%d %H:%M:%S", "%c", "%j %a %d", "%A, %d %B %Y", "%I %p %M", "%D %F %e", "%H", "%u %y %C", "100%%", "x%Yx%mx"]
def instant(rng):
    r = rng.random()
    if r < 0.25:
        y = rng.choice([1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2038, 2100, 2400, 9999]); m = rng.randint(1, 12)
        return calendar.timegm((y, m, 1, 0, 0, 0)) + rng.choice([0, 0, -1, 1, 59, 86399, 86400])
    if r < 0.45:
        y = rng.choice([1970, 1999, 2000, 2023, 2024, 2025, 2099, 2100])
        return calendar.timegm((y, rng.choice([1, 2, 3, 12]), rng.choice([1, 28]), rng.choice([0, 23]), rng.choice([0, 59]), rng.choice([0, 58, 59]))) + rng.choice([0, 0, 86400, -86400])
    if r < 0.6: return calendar.timegm((2024, rng.choice([3, 4, 9, 10, 11]), rng.randint(1, 30), rng.randint(0, 23), rng.choice([0, 30, 59]), rng.choice([0, 59])))
    if r < 0.7: return rng.choice([0, 1, 59, 86399, 86400, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 33])
    return rng.randrange(0, 4102444800)
def settz(z):
    if os.environ.get("TZ") != z: os.environ["TZ"] = z; _t.tzset()
def lt(z, s): settz(z); return _t.localtime(s)
def asc(tm): return ("%s %s %2d %02d:%02d:%02d %d" % ("Mon Tue Wed Thu Fri Sat Sun".split()[tm.tm_wday], "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()[tm.tm_mon - 1], tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_year)).encode()

class C17(Prop):
    id = "C17"
    quick = 12000
    thorough = 250000
    technique = "simulated clocks set to chosen instants and time zones, jumping between calls, with sleeps interrupted after seeded fractions; every reported time is compared with the reading the program was given"
    rule = "A case is non-trivial when a clock was read or the program slept."
    assumptions = ["instants from 1970 to 9999", "the process does not change its time zone while running"]
    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.choice([3, 8, 16])):
            r = rng.random()
            if r < 0.2: ops.append(["time"])
            elif r < 0.32: ops.append(["now"])
            elif r < 0.44: ops.append(["nowUTC"])
            elif r < 0.54: ops.append(["fmt", rng.choice(FMTS)])
            elif r < 0.6: ops.append(["fmtat", rng.choice(FMTS), instant(rng)])
            elif r < 0.66: ops.append(["clock"])
            elif r < 0.76: ops.append(["log", rng.choice(["println", "oprintln", "pprintln"])])
            elif r < 0.96: ops.append(["sleep", rng.choice([0, 0.001, 0.0005, 0.25, 0.5, 0.999, 1, 1.5, 2.75, 7, 59.5, 3600, 100000.25, 0.1, 0.3, 1.1, 0.000001])])
            else: ops.append(["busy", rng.choice([10, 1000])])
        f = []
        if rng.random() < 0.6: f.append(["nanosleep", "EINTR", rng.choice([100000, 400000, 900000]), rng.choice([1, 3, 20])])
        return {"ops": ops, "at": max(instant(rng), 2), "tz": rng.choice(TZS), "jump": rng.choice([0, 0, 100000, 500000]), "over": rng.choice([0, 300000]), "faults": f, "gc": rng.randrange(1 << 30)}
    def scenarios(self, case):
        s = Scn(); s.dir("/w"); s.env("TZ", case["tz"])
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        s.item(0, "m", "import System; import Datetime; import Log; var lg = Log.new(Log.stdout).unwrap(); var lp = Log.new(1).unwrap(); lp.setPrefix(\"pp\");" + PRELUDE)
        for k, o in enumerate(case["ops"]):
            op = o[0]
            x = {"time": "P(System.time())", "now": "P(Datetime.now())", "nowUTC": "P(Datetime.nowUTC())", "clock": "P(System.clock())"}.get(op)
            if op == "fmt": x = "P(Datetime.strftime(%s))" % lit(o[1])
            elif op == "fmtat": x = "P(Datetime.strftime(%s, %d))" % (lit(o[1]), o[2])
            elif op == "log": x = "print(\"V\"); " + {"println": "Log", "oprintln": "lg", "pprintln": "lp"}[o[1]] + ".println(\"m\")"
            elif op == "busy": x = "{ var z = 0; for (var i = 0; i < %d; i += 1) { z += i; System.access(\"/w\", 0); } P(0); }" % o[1]
            elif op == "sleep": x = "{ System.access(\"/.sim/timeb%d\", 0); System.sleep(%s); System.access(\"/.sim/timee%d\", 0); P(0); }" % (k, ("%.9f" % o[1]).rstrip("0").rstrip("."), k)
            s.item(0, "m", "System.access(\"/.sim/o%d\", 0); %s" % (k, x if x[0] == "{" else x + ";"))
        s.opt(wall_off_s=case["at"] - 1, jump_ppm=case["jump"], oversleep_ppm=case["over"])
        for f in case["faults"]: s.fault(*f)
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]
        seg = {}; cur = None; mt = {}
        for e in r.seq:
            if e[0] == "fds" and e[1]["why"][:1] == "o": cur = int(e[1]["why"][1:])
            elif e[0] == "mtime": mt[e[1]] = e[2]
            elif cur is not None: seg.setdefault(cur, []).append(e)
        if any(r.results[0]): return [("error", "an operation failed: %r %s" % (r.results[0], r.serr.get(0, b"")[-300:]))]
        vals, rest = parse_values(r.out[0])
        if rest or len(vals) != len(case["ops"]): return [("output", "%d values for %d operations, rest %r" % (len(vals), len(case["ops"]), rest[:80]))]
        for k, (o, v) in enumerate(zip(case["ops"], vals)):
            op = o[0]; clk = [e[2] // 1000000000 for e in seg.get(k, []) if e[0] == "clk" and e[1] != "mono"]
            if any(not 1 < c < 253402200000 for c in clk): continue
            what = "operation %d %r at %r (TZ=%s)" % (k, o, clk, case["tz"])
            def cmp(f):
                if not clk: return [("stale", what + ": reported %r without reading the clock" % (v,))]
                w = [f(c) for c in clk]
                return [] if v in w else [("time" if op != "log" else "log-time", what + ": reported %r instead of %r" % (v, w))]
            b = []
            if op == "time": b = cmp(lambda c: ("V", str(c)))
            elif op == "now": b = cmp(lambda c: asc(lt(case["tz"], c)))
            elif op == "nowUTC": b = cmp(lambda c: asc(_t.gmtime(c)))
            elif op == "fmt": b = cmp(lambda c: _t.strftime(o[1], _t.gmtime(c)).encode())
            elif op == "fmtat":
                w = _t.strftime(o[1], _t.gmtime(o[2])).encode()
                if v != w: b = [("format", what + ": reported %r instead of %r" % (v, w))]
            elif op == "log": b = cmp(lambda c: ("V", "%04d/%02d/%02d %02d:%02d:%02d %sm" % (lt(case["tz"], c)[:6] + ("pp " if o[1] == "pprintln" else "",))))
            elif op == "clock":
                cpu = [int(e[1]) for e in seg.get(k, []) if e[0] == "cpu"]
                if not cpu: b = [("stale", what + ": reported %r without reading the processor clock" % (v,))]
                elif min(abs(float(v[1]) - c / 1e9) for c in cpu) > 2e-6: b = [("cpu-time", what + ": reported %r, used are %r ns" % (v, cpu))]
            elif op == "sleep":
                el = (mt["e%d" % k] - mt["b%d" % k]) / 1e9
                if el < o[1] - 1e-6: b = [("sleep-short", what + ": slept %.9f s" % el)]
                n = sum(1 for e in seg.get(k, []) if e[0] == "fault")
                if el > o[1] + 0.002 + 0.0005 * n: b = [("sleep-long", what + ": slept %.9f s" % el)]
            if b: return b
        return []
    def nontrivial(self, case, rs): return any(e[0] in ("clk", "sleep", "cpu") for e in rs[0].seq)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        if case["jump"]: yield dict(case, jump=0)
        if case["tz"] != "UTC0": yield dict(case, tz="UTC0")

PROP = C17()
