"""C03: interpreters side by side in one process behave as each would alone."""
from fw import *
from simlib import *
import progs
from props.C01 import where

UUID = re.compile(rb"[0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12}")
SHARED = ("Random.", "UUID.", "Process.", "Datetime.now", "System.time", "getCWD", "bcrypt(")

class C03(Prop):
    id = "C03"
    quick = 2000
    thorough = 50000
    same_seed = True
    variant = "p"
    case_wall_ms = 60000
    technique = "seeded scheduler interleaving two to four interpreters at any basic block of the interpreter, at allocations and at external calls inside one process, each running a generated session; output, results and errors compared with the same session running alone"
    rule = "A case is non-trivial when control moved between interpreters at least 10 times."
    assumptions = ["what the operating system keeps per process (working directory, environment, random source, open files) is not part of an interpreter", "structures that contain themselves are not copied, compared, stringified or printed"]
    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 4])
        nodes = []
        for k in range(n):
            g = progs.G(rng)
            ops = [o for o in progs.items(g, rng.choice([2, 4, 8, 12]), errors=rng.choice([0, 0.2]), cerrors=rng.choice([0, 0.15]), defs=0.3) if not any(x in o for x in SHARED)]
            if rng.random() < .12: ops.insert(rng.randrange(len(ops) + 1), 'import Hashlib; { const h = Hashlib.bcrypt("/w", 4); print(h.len(), Hashlib.bcryptVerify("/w", h)); }')
            if rng.random() < .12: ops.insert(rng.randrange(len(ops) + 1), "import UUID; for (var i = 0; i < 4; i += 1) { print(UUID.%s().unwrap()); }" % rng.choice(["generate", "generateRandom", "generateTime"]))
            nodes.append({"ops": ops, "cli": rng.random() < 0.2, "phase": 0})
        return {"seed": rng.randrange(1 << 40), "nodes": nodes, "gc": rng.choice([["gcmode", 9], ["gcmode", 1], ["gcmode", 0], ["gcmode", 3, "gc_every", rng.randint(2, 30)]]),
                "ay": rng.choice([2000, 20000, 100000, 400000]), "y": rng.choice([0, 100000, 500000]), "sched": rng.choice([200000, 500000, 900000]),
                "watch": rng.choice([0, 300000, 900000]), "pre": rng.choice([[10 ** 9, 0, 0], [500, 300000, 0], [3000, 500000, 0], [20000, 700000, 0], [200, 50000, 0], [100, 300000, rng.randrange(3000000)], [1000, 300000, rng.randrange(2000000)]])}
    def text(self, case, which):
        s = Scn()
        for d in ["/m", "/root"]: s.dir(d)
        for p in sorted(progs.MODULES): s.file(p, progs.MODULES[p])
        for k, nd in enumerate(case["nodes"]):
            w = "/w%d" % k
            s.dir(w); s.file(w + "/in", b"first line\nsecond\n\nlast without end")
        for k, nd in enumerate(case["nodes"]):
            if k not in which: continue
            w = "/w%d" % k
            src = [x.replace("\"/w", "\"" + w) for x in progs.SETUP + nd["ops"]]
            if nd["cli"]:
                s.node(k, cwd=w).args(k, "dictu"); s.stdin(k, 0, ("\n".join(x.replace("\n", " ") for x in src) + "\n").encode("utf-8"))
            else:
                s.node(k, kind="embed", cwd=w).args(k, "dictu")
                for x in src: s.item(k, "m", x)
        s.opt(**dict(zip(case["gc"][::2], case["gc"][1::2])))
        if len(which) > 1: s.opt(alloc_yield_ppm=case["ay"], yield_ppm=case["y"], sched_ppm=case["sched"], preempt_slot=case["pre"][0], preempt_ppm=case["pre"][1], preempt_skip=case["pre"][2], watch_ppm=0 if case["gc"][1] == 1 else case["watch"], step_cap=20000000)
        return s.text()
    def scenarios(self, case):
        n = range(len(case["nodes"]))
        return [self.text(case, [k]) for k in n] + [self.text(case, list(n))]
    def outside(self, case, rs):
        return any(self_containing(r) for r in rs)
    def check(self, case, rs):
        b = rs[-1]
        ids = sum((UUID.findall(o) for o in b.out.values()), [])
        if len(ids) != len(set(ids)): yield ("interference", "interpreters beside each other were given the same identifier: %r" % [x for x in ids if ids.count(x) > 1][:2]); return
        out = lambda r: UUID.sub(b"<uuid>", r.out[k]) if k in r.out else None
        for k in range(len(case["nodes"])):
            a = rs[k]
            ex = lambda r: r.exit.get(k) and (r.exit[k]["code"], r.exit[k]["sig"])
            for what, x, y in (("results", a.results.get(k), b.results.get(k)), ("output", out(a), out(b)), ("error output", a.serr.get(k), b.serr.get(k)), ("exit status", ex(a), ex(b)), ("live bytes after shutdown", a.lost.get(k), b.lost.get(k)), ("memory left after shutdown", a.leak.get(k), b.leak.get(k))):
                if x != y: yield ("interference", "%s of interpreter %d alone / beside others: %s" % (what, k, where(x, y))); return
    def nontrivial(self, case, rs):
        return rs[-1].finished and rs[-1].counts.get("switch", 0) >= 10
    def probes(self, case, rs):
        return {"interpreters": len(case["nodes"]), "control moves": rs[-1].counts.get("switch", 0) if rs[-1].finished else 0, "preemptions": rs[-1].counts.get("preempt", 0) if rs[-1].finished else 0}
    def shrinks(self, case):
        if len(case["nodes"]) > 2:
            for k in range(len(case["nodes"])): yield dict(case, nodes=case["nodes"][:k] + case["nodes"][k + 1:])
        for k, nd in enumerate(case["nodes"]):
            for c in drop_parts(nd, "ops"): yield dict(case, nodes=case["nodes"][:k] + [c] + case["nodes"][k + 1:])

PROP = C03()
