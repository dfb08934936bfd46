"""C02: everything obtained is released exactly once, and garbage is reclaimed while the program runs."""
from fw import *
from simlib import *
import progs
from props.C01 import Gc, FAULTS, corpus

# a round starts from the same values; numbers that keep counting make new strings
SETUP2 = [x.replace("var ctr = 1000000; ", "") for x in progs.SETUP[1:]]
ROUNDS = 32

# the workloads of the other properties, looked at through the ledger
OTHERS = ["C%02d" % k for k in range(4, 25) if k != 13]
def other(m):
    import importlib
    return importlib.import_module("props." + m).PROP

class C02(Gc):
    id = "C02"
    quick = 4200
    thorough = 60000
    technique = "seeded programs with runtime errors, compile errors and injected operating-system failures under seeded collections, an allocation ledger checked after shutdown, and live bytes compared after repeated rounds of the same work"
    rule = "A case is non-trivial when the interpreter was shut down by its program's end (ledger cases) or all rounds were run (growth cases)."
    assumptions = ["blocks that the C library keeps for itself are not counted", "structures that contain themselves are not copied, compared, stringified or printed", "the address-independent amount of live memory is looked at right after a collection"]
    pfault = 0.3
    errors = 0.3; cerrors = 0.15
    def modes(self, rng):
        return [rng.choice([["gcmode", 0], ["gcmode", 1], ["gcmode", 9], ["gcmode", 3, "gc_every", rng.randint(2, 30)]])]
    allow_deadlock = allow_stepcap = True
    def gen(self, rng, i, tier):
        if rng.random() < 0.25:
            m = rng.choice(OTHERS); c = other(m).gen(rng, i, tier); c.setdefault("seed", rng.randrange(1 << 40))
            return {"seed": c["seed"], "kind": "other", "of": m, "case": c, "ops": [], "faults": []}
        if rng.random() < 0.35:
            g = progs.G(rng)
            if rng.random() < 0.6: ops = [rng.choice(progs.CHURN) for _ in range(rng.choice([1, 2, 3]))]
            else: ops = progs.items(g, rng.choice([1, 2, 4]), errors=0.3, cerrors=0.1)
            f = [list(x) + [rng.choice([30000, 300000]), 1000] for x in rng.sample(FAULTS, 2)] if rng.random() < 0.2 else []
            return {"seed": rng.randrange(1 << 40), "kind": "grow", "ops": ops, "faults": f, "gcs": [["gcmode", 1]], "rounds": ROUNDS}
        return Gc.gen(self, rng, i, tier)
    def scenarios(self, case):
        return other(case["of"]).scenarios(case["case"]) if case["kind"] == "other" else Gc.scenarios(self, case)
    def outside(self, case, rs):
        return False if case["kind"] == "other" else Gc.outside(self, case, rs)
    def text(self, case, gc):
        if case["kind"] != "grow": return Gc.text(self, case, gc)
        s = Scn(); progs.files(s); progs.responses(s, case["ops"])
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        for x in progs.SETUP: s.item(0, "m", x)
        n = 0
        for k in range(1, case["rounds"] + 1):
            for x in case["ops"] + SETUP2: s.item(0, "m", x)
            if k in (4, 8, 16, 32): s.item(0, "m", "System.access(\"/.sim/heap%d\", 0);" % k)
        for f in case["faults"]: s.fault(*f)
        s.opt(**dict(zip(gc[::2], gc[1::2])))
        return s.text()
    def check(self, case, rs):
        if case["kind"] == "other":
            for k, r in enumerate(rs):
                for n in sorted(r.exit):
                    if not r.exit[n]["sig"]: yield from self.ledger(r, n, "a case of %s, run %d: " % (case["of"], k))
            return
        r = rs[0]
        node = r.exit.get(0)
        if node is None or node["sig"]: return
        if case["kind"] == "grow":
            h = [r.heap.get(str(k)) for k in (4, 8, 16, 32)]
            if None not in h and not case["faults"]:
                by = [x[0] for x in h]; bl = [x[1] for x in h]
                if all(bl[i + 1] - bl[i] >= (4 << i) // 2 for i in range(3)):
                    yield ("garbage-kept", "the same work over the same live values: blocks in use after 4, 8, 16 and 32 rounds: %s (bytes %s)" % (bl, by)); return
                if all(by[i + 1] - by[i] >= 4 << i for i in range(3)):
                    yield ("memory-grows", "the same work over the same live values: bytes in use after 4, 8, 16 and 32 rounds: %s (blocks %s)" % (by, bl)); return
        if case["kind"] in ("script", "repl") and r.end == "ok" and node["code"] == 0 and not r.faults and 0 not in r.lost:
            yield ("not-released", "the program ended normally but its interpreter was not shut down")
        yield from self.ledger(r, 0, "")
    def ledger(self, r, n, what):
        if n in r.leak and r.leak[n][0]:
            yield ("not-released", what + "%d blocks (%d bytes) still allocated after shutdown; sizes and allocating calls: %s" % (r.leak[n][0], r.leak[n][1], symbolize(r.leaked[:6])))
        if r.lost.get(n): yield ("accounting", what + "the interpreter's own count of live bytes is %d after shutdown" % r.lost[n])
    def nontrivial(self, case, rs):
        r = rs[0]
        if not r.finished: return False
        if case["kind"] == "other": return any(n in x.leak for x in rs for n in x.exit)
        return len(r.heap) == 4 if case["kind"] == "grow" else 0 in r.leak
    def probes(self, case, rs):
        r = rs[0]
        return {"programs:" + case["kind"]: 1, "ended by an error": int(r.finished and any(x for x in r.results.get(0, []))), "with injected failures": int(bool(r.finished and r.faults))}
    def shrinks(self, case):
        if case["kind"] == "other":
            for c in other(case["of"]).shrinks(case["case"]): yield dict(case, case=c, seed=c["seed"])
            return
        if case["faults"]:
            c = dict(case); c["faults"] = []; yield c
        yield from drop_parts(case, "ops")

def symbolize(leaked):
    import subprocess, build
    exe = build.build(simlib.REPO)
    out = []
    for n, a in leaked:
        try: out.append("%d %s" % (n, subprocess.run(["addr2line", "-fspe", exe, a], capture_output=True, text=True, timeout=20).stdout.strip().split("\n")[0]))
        except Exception: out.append("%d %s" % (n, a))
    return "; ".join(out)

PROP = C02()
