"""Seeded search, gates, minimisation, evidence. A property module defines a subclass of Prop."""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback, copy, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, "sim"))
import simlib
from simlib import Server, SimError, crash_of
import build as simbuild

REAL = "all of Dictu's own sources (compiler, VM, collector, natives, standard library, CLI) compiled from /repo's working tree with AddressSanitizer"

class Prop:
    id = None
    quick = 4000            # cases
    thorough = 60000
    wall_cap = {"quick": 150, "thorough": 780}
    case_wall_ms = 20000
    stubs = "kernel (files, pipes, processes, clock, sockets), libcurl; real: glibc stdio, SQLite"
    rule = ""
    level_note = ""
    technique = ""
    allow_deadlock = False
    allow_stepcap = False
    same_seed = False       # all runs of a case use one seed, so that draws of the same kind and number agree
    def gen(self, rng, i, tier):
        raise NotImplementedError
    def scenarios(self, case):
        """list of scenario texts (without seed lines); each may depend on nothing but the case"""
        raise NotImplementedError
    def check(self, case, rs):
        raise NotImplementedError
    def shrinks(self, case):
        """smaller candidate cases"""
        if isinstance(case.get("ops"), list):
            yield from drop_parts(case, "ops")
    def nontrivial(self, case, rs):
        return True
    def outside(self, case, rs):
        """the case turned out to be outside what the property speaks about"""
        return False
    def key(self, cls, detail):
        """identity of a violation for the known-findings list"""
        return cls

def drop_parts(case, key):
    ops = case[key]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            c = dict(case); c[key] = ops[:s] + ops[s + size:]
            yield c
        size //= 2

def scn_text(text, seed, dec):
    if dec is None:
        return "seed %d\n%s" % (seed, text)
    return "seed %d\nmode explicit\n%s%s" % (seed, text, "".join("d %s\n" % d for d in dec))

def run_seed(prop, case, k):
    return case["seed"] * 31 + (0 if prop.same_seed else k)

def run_case(prop, srv, case):
    texts = prop.scenarios(case)
    decs = case.get("dec") or [None] * len(texts)
    rs = []
    for k, t in enumerate(texts):
        d = decs[k] if k < len(decs) else None
        rs.append(srv.run(scn_text(t, run_seed(prop, case, k), d), prop.case_wall_ms))
    return rs

def judge(prop, case, rs):
    """list of (class, detail)"""
    out = []
    if prop.outside(case, rs):
        return out
    for k, r in enumerate(rs):
        c = crash_of(r)
        if c:
            out.append((c[0], "run %d: %s" % (k, c[1])))
            continue
        for v in r.viol:
            out.append(v)
        if r.end == "deadlock" and not prop.allow_deadlock:
            out.append(("stuck", "run %d: nothing can make progress: %s" % (k, "; ".join(r.deadlock))))
        if r.end == "stepcap" and not prop.allow_stepcap:
            out.append(("no-progress", "run %d: step budget exhausted" % k))
    if out or any(r.log.endswith(b"LOGFULL\n") for r in rs):
        return out
    return list(prop.check(case, rs))

def hashes(rs):
    return [r.loghash + ":" + str(r.wstatus if not crash_of(r) else crash_of(r)[0]) for r in rs]

# ------------------------------------------------------------------ worker
def worker(modname, wid, nw, seed, tier, total, deadline, exe, outq, stop):
    try:
        prop = load(modname)
        srv = Server(exe)
        st = {"n": 0, "runs": 0, "nontriv": 0, "hashes": set(), "counts": {}, "simtime": 0, "steps": 0, "sched": set(), "samples": [], "recheck": 0, "ends": {}, "probes": {}}
        t0 = time.time()
        for i in range(wid, total, nw):
            if stop.is_set() or time.time() > deadline:
                break
            rng = random.Random("%s/%d/%d" % (prop.id, seed, i))
            case = prop.gen(rng, i, tier)
            case.setdefault("seed", rng.randrange(1 << 40))
            rs = run_case(prop, srv, case)
            st["n"] += 1; st["runs"] += len(rs)
            for r in rs:
                if r.finished:
                    for k, v in r.counts.items():
                        st["counts"][k] = st["counts"].get(k, 0) + v
                    st["simtime"] += r.time - 1000000000
                    st["steps"] += r.steps
                    st["ends"][r.end] = st["ends"].get(r.end, 0) + 1
                st["sched"].add(hash((r.schedhash, r.loghash)))
            v = judge(prop, case, rs)
            if prop.nontrivial(case, rs):
                st["nontriv"] += 1
                st["hashes"].add(hashlib.sha256(repr(hashes(rs)).encode()).digest()[:8])
            for k, x in (getattr(prop, "probes", lambda c, r: {})(case, rs) or {}).items():
                st["probes"][k] = st["probes"].get(k, 0) + x
            if len(st["samples"]) < 2 and wid < 2:
                st["samples"].append({"case": slim(case), "log_hash": [r.loghash for r in rs]})
            if v:
                outq.put(("viol", i, case, v))
            elif i % 53 == 7:
                # determinism gate: same seed again, alternately in this server and in a fresh process
                s2 = Server(exe) if (i // 53) % 2 else srv
                rs2 = run_case(prop, s2, case)
                if s2 is not srv: s2.close()
                st["recheck"] += 1
                if hashes(rs2) != hashes(rs):
                    outq.put(("nondet", i, case, [hashes(rs), hashes(rs2)]))
        st["hashes"] = list(st["hashes"]); st["sched"] = list(st["sched"])
        srv.close()
        outq.put(("done", wid, st, None))
    except Exception:
        outq.put(("error", wid, traceback.format_exc(), None))

def slim(case):
    s = json.dumps(case, default=str)
    return json.loads(s) if len(s) < 3000 else s[:3000] + "..."

def load(modname):
    m = __import__("props." + modname, fromlist=["PROP"])
    return m.PROP

# ------------------------------------------------------------------ minimisation
def fails_same(prop, srv, case, cls):
    try:
        rs = run_case(prop, srv, case)
        return cls in [v[0] for v in judge(prop, case, rs)]
    except SimError:
        raise
    except Exception:
        return False

def minimise(prop, srv, case, cls, budget=60):
    t0 = time.time()
    best = case
    def left(): return time.time() - t0 < budget
    changed = True
    while changed and left():
        changed = False
        for c in prop.shrinks(best):
            if not left(): break
            try:
                if fails_same(prop, srv, c, cls):
                    best = c; changed = True
                    break
            except SimError:
                raise
    # decisions: make them explicit, then drop as many as possible
    rs = run_case(prop, srv, best)
    if best.get("dec") is None:
        exp = dict(best); exp["dec"] = [[l for l in r.dec.split("\n") if l] for r in rs]
        if fails_same(prop, srv, exp, cls):
            best = exp
    if best.get("dec") is not None:
        for k in range(len(best["dec"])):
            d = best["dec"][k]
            size = max(1, len(d))
            while size >= 1 and left() and d:
                i = 0
                while i < len(d) and left():
                    c = dict(best); nd = d[:i] + d[i + size:]
                    c["dec"] = list(best["dec"]); c["dec"][k] = nd
                    if fails_same(prop, srv, c, cls):
                        best = c; d = nd
                    else:
                        i += size
                size //= 2
        # once more over the operations now that the decisions are fixed
        changed = True
        while changed and left():
            changed = False
            for c in prop.shrinks(best):
                if not left(): break
                if fails_same(prop, srv, c, cls):
                    best = c; changed = True
                    break
    return best

# ------------------------------------------------------------------ known findings
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def match_known(prop, cls, detail):
    key = prop.key(cls, detail)
    for f in known()["findings"]:
        if f["property"] == prop.id and f["key"] == key:
            return f
    return None

# ------------------------------------------------------------------ main
def main(modname):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    t0 = time.time()
    prop = load(modname)
    print("check %s tier=%s seed=%d" % (prop.id, tier, seed), flush=True)
    try:
        exe = simbuild.build(simlib.REPO, getattr(prop, "variant", ""))
    except simbuild.BuildError as e:
        print("ERROR: /repo does not build for simulation:\n%s" % e); return 3
    total = getattr(prop, tier)
    cap = prop.wall_cap[tier]
    nw = min(int(os.environ.get("VERIF_WORKERS", "8")), max(1, os.cpu_count() or 8), total)
    ctx = mp.get_context("fork")
    q = ctx.Queue(); stop = ctx.Event()
    ps = [ctx.Process(target=worker, args=(modname, w, nw, seed, tier, total, t0 + cap, exe, q, stop)) for w in range(nw)]
    for p in ps: p.start()
    done = 0; viols = []; errors = []; nondet = []; stats = []
    knownhits = {}
    while done < nw:
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                errors.append("a worker ended without a report"); break
            continue
        if m[0] == "done": stats.append(m[2]); done += 1
        elif m[0] == "error": errors.append(m[2]); done += 1; stop.set()
        elif m[0] == "nondet": nondet.append(m[1:])
        else:
            fresh = []
            for c, d in m[3]:
                f = match_known(prop, c, d)
                if f: knownhits.setdefault(f["key"], [f, 0]); knownhits[f["key"]][1] += 1
                else: fresh.append((c, d))
            if fresh:
                viols.append((m[1], m[2], fresh))
                if len(viols) >= int(os.environ.get("VERIF_MAXV", "6")): stop.set()
    for p in ps: p.join()
    rc = 0
    out = []
    if errors:
        print("ERROR in a worker:\n" + errors[0]); return 4
    if nondet and not viols:
        print("ERROR: the same seed gave different runs (case %d): %s" % (nondet[0][0], nondet[0][2])); return 5
    if viols:
        rc = 1
        viols.sort(key=lambda v: v[0])
        byclass = {}
        for i, case, vs in viols:
            for c, d in vs:
                byclass.setdefault(prop.key(c, d), (i, case, c, d))
        srv = Server(exe)
        reported = 0
        for key, (i, case, cls, det) in list(byclass.items())[:4]:
            # gates: the same seed reproduces in this server and in a fresh process
            a = run_case(prop, srv, case); f2 = Server(exe); b = run_case(prop, f2, case); f2.close()
            if cls not in [v[0] for v in judge(prop, case, a)] or cls not in [v[0] for v in judge(prop, case, b)] :
                print("ERROR: violation of case %d (%s) did not reproduce" % (i, cls)); print(det[:1000])
                if reported: continue
                srv.close(); return 6
            if hashes(a) != hashes(b): print("note: the code under test behaves differently in two runs of one seed; both violate the property")
            small = minimise(prop, srv, case, cls, 40 if tier == "quick" else 120)
            f3 = Server(exe); rs = run_case(prop, f3, small); f3.close()
            vs = [v for v in judge(prop, small, rs) if v[0] == cls]
            if not vs:
                small = case; f3 = Server(exe); rs = run_case(prop, f3, small); f3.close()
                vs = [v for v in judge(prop, small, rs) if v[0] == cls]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.id, hashlib.sha256(key.encode()).hexdigest()[:8]))
            json.dump({"property": prop.id, "module": modname, "class": cls, "detail": vs[0][1] if vs else det, "verif_seed": seed, "index": i, "case": small,
                       "scenarios": [scn_text(t, run_seed(prop, small, k), (small.get("dec") or {}) and small["dec"][k]) for k, t in enumerate(prop.scenarios(small))],
                       "log_hashes": hashes(rs)}, open(path, "w"), indent=1)
            print("violation class=%s case=%d seed=%d" % (cls, i, small["seed"]))
            print((vs[0][1] if vs else det)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
            reported += 1
        srv.close()
    # known findings are reported from their own recorded case on every run
    srv = None
    for f in known()["findings"]:
        if f["property"] != prop.id: continue
        still = f["key"] in knownhits
        if not still and f.get("case"):
            srv = srv or Server(exe)
            rs = run_case(prop, srv, f["case"])
            still = any(prop.key(c, d) == f["key"] for c, d in judge(prop, f["case"], rs))
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, f["what"]))
    if srv: srv.close()
    n = sum(s["n"] for s in stats); runs = sum(s["runs"] for s in stats)
    counts = {}; probes = {}; ends = {}
    for s in stats:
        for k, v in s["counts"].items(): counts[k] = counts.get(k, 0) + v
        for k, v in s["probes"].items(): probes[k] = probes.get(k, 0) + v
        for k, v in s["ends"].items(): ends[k] = ends.get(k, 0) + v
    distinct = len(set(h for s in stats for h in s["hashes"]))
    sched = len(set(h for s in stats for h in s["sched"]))
    wall = time.time() - t0
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": n, "distinct_nontrivial": distinct,
                       "rule": prop.rule + " Distinct = different complete event logs among the non-trivial cases.",
                       "samples": [x for s in stats for x in s["samples"]][:3],
                       "simulated_runs": runs, "runs_per_hour": int(runs / max(wall, .001) * 3600), "seeds_per_hour": int(n / max(wall, .001) * 3600),
                       "simulated_seconds": round(sum(s["simtime"] for s in stats) / 1e9, 3), "scheduler_steps": sum(s["steps"] for s in stats),
                       "faults_injected": {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")},
                       "other_counts": {k: v for k, v in sorted(counts.items()) if not k.startswith("fault:")},
                       "distinct_executions": sched, "distinct_executions_measure": "distinct (decision sequence, event log) pairs",
                       "probes": probes, "run_endings": ends,
                       "determinism_rechecks": sum(s["recheck"] for s in stats),
                       "components_real": REAL, "components_stub": prop.stubs,
                       "cases_planned": total, "stopped_by_time": n < total and not viols},
          "assumptions": list(getattr(prop, "assumptions", [])), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w"), indent=1)
    print("%s: %d cases, %d runs, %d distinct, %.1f s, faults %d, %s" % (prop.id, n, runs, distinct, wall, sum(v for k, v in counts.items() if k.startswith("fault:")), "VIOLATED" if rc else "ok"))
    if n == 0:
        print("ERROR: nothing was run"); return 7
    return rc

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
