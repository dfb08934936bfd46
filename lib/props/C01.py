"""C01: the moments at which the collector runs change nothing."""
import glob
from fw import *
from simlib import *
import progs

CORPUS = os.path.join(simlib.REPO, "tests")
_files = None
def corpus():
    """the programs of the repository's own suite, as programs only (their assertions play no part)"""
    global _files
    if _files is None:
        _files = []
        for f in sorted(glob.glob(CORPUS + "/**/*.du", recursive=True)):
            rel = os.path.relpath(f, CORPUS)
            if os.path.basename(f) in ("import.du", "runTests.du") or rel.startswith(("benchmarks", "modules", "ffi", "process/kill.du")): continue
            _files.append(rel)
    return _files
_dirs = {}
def corpus_dir(d):
    if d not in _dirs:
        out = []
        for base, ds, fs in os.walk(os.path.join(CORPUS, d)):
            ds.sort()
            out.append(("d", os.path.relpath(base, CORPUS), None))
            for x in sorted(fs):
                p = os.path.join(base, x)
                if os.path.isfile(p) and os.path.getsize(p) < 200000: out.append(("f", os.path.relpath(p, CORPUS), open(p, "rb").read()))
        _dirs[d] = out
    return _dirs[d]

FAULTS = [("read", "EIO"), ("read", "short"), ("write", "ENOSPC"), ("open", "EMFILE"), ("open", "EACCES"), ("fstat", "EIO"), ("realpath", "EACCES"), ("getcwd", "ENOENT"), ("opendir", "EMFILE"), ("mkdir", "EIO"),
          ("rename", "EIO"), ("unlink", "EIO"), ("fork", "EAGAIN"), ("pipe", "EMFILE"), ("exec", "ENOENT"), ("readpipe", "EIO"), ("socket", "EMFILE"), ("connect", "ECONNREFUSED"), ("curl_easy_init", "EIO"), ("curl_slist", "ENOMEM"),
          ("sqlwrite", "EIO"), ("sqlread", "EIO"), ("sqlopen", "EIO"), ("uname", "EFAULT"), ("getentropy", "EIO"), ("sendfile", "EIO"), ("mkdtemp", "EIO"), ("mkdtemp", "ENOENT"), ("chdir", "EACCES"), ("rmdir", "EBUSY"), ("stat", "EIO"), ("access", "EIO"), ("chmod", "EPERM"), ("chown", "EPERM"), ("lseek", "EINVAL"), ("readdir", "EIO"), ("setenv", "ENOMEM"), ("close", "EIO"), ("bind", "EADDRINUSE"), ("listen", "EADDRINUSE"), ("accept", "EMFILE"), ("send", "EPIPE"), ("recv", "ECONNRESET"), ("setsockopt", "EINVAL"), ("curl_setopt", "ENOMEM"), ("waitpid", "EINTR")]

class Gc(Prop):
    """Shared by the properties over generated programs: case -> scenario text."""
    same_seed = True
    errors = 0.15; cerrors = 0.05
    def gen(self, rng, i, tier):
        r = rng.random()
        case = {"seed": rng.randrange(1 << 40), "gcs": self.modes(rng)}
        if r < self.pcorpus:
            case["kind"] = "corpus"; case["file"] = rng.choice(corpus()); case["ops"] = []
        else:
            g = progs.G(rng)
            case["kind"] = "embed" if r < 0.75 else "script" if r < 0.9 else "repl"
            if case["kind"] == "script": case["ops"] = progs.items(g, rng.choice([2, 4, 7]), errors=rng.choice([0, 0, 0.05]), cerrors=0, churn=0)
            else: case["ops"] = progs.items(g, rng.choice([3, 6, 12, 20]), errors=rng.choice([0, self.errors]), cerrors=rng.choice([0, 0, self.cerrors]))
        if case["kind"] in ("embed", "repl") and rng.random() < 0.35: progs.edges(rng, case["ops"])
        if case["kind"] != "corpus" and rng.random() < 0.35:
            for _ in range(rng.choice([2, 5, 9])): case["ops"].insert(rng.randint(0, len(case["ops"])), rng.choice(progs.SYS))
        case["faults"] = [list(f) + [rng.choice([3000, 30000, 200000]), 10] for f in rng.sample(FAULTS, rng.choice([2, 5, 10, 20]))] if rng.random() < self.pfault else []
        return case
    pcorpus = 0.3
    pfault = 0.25
    def modes(self, rng):
        m = [["gcmode", 0], ["gcmode", 1]]
        m.append(rng.choice([["gcmode", 9], ["gcmode", 3, "gc_every", rng.randint(2, 30)], ["gcmode", 2, "gc_ppm", rng.choice([5000, 50000, 300000])]]))
        return m
    def text(self, case, gc):
        s = Scn()
        k = case["kind"]
        if k == "corpus":
            d = os.path.dirname(case["file"])
            s.dir("/r")
            for t, p, b in corpus_dir(d):
                if t == "d": s.dir("/r/" + p)
                else: s.file("/r/" + p, b)
            s.node(0, cwd="/r/" + d).args(0, "dictu", os.path.basename(case["file"]))
        else:
            progs.files(s); progs.responses(s, case["ops"])
            src = progs.SETUP + progs.peers(s, case["ops"])
            if k == "embed":
                s.node(0, kind="embed", cwd="/w").args(0, "dictu")
                for x in src: s.item(0, "m", x)
            elif k == "script":
                s.script(0, "\n".join(src).encode("utf-8"))
            else:
                s.dir("/root"); s.node(0, cwd="/w").args(0, "dictu")
                s.stdin(0, 0, ("\n".join(x.replace("\n", " ") for x in src) + "\n").encode("utf-8"))
        for f in case["faults"]: s.fault(*f)
        s.opt(**dict(zip(gc[::2], gc[1::2])))
        return s.text()
    def scenarios(self, case):
        return [self.text(case, g) for g in case["gcs"]]
    def outside(self, case, rs):
        return any(self_containing(r) for r in rs)
    def shrinks(self, case):
        if case["faults"]:
            c = dict(case); c["faults"] = []; yield c
        yield from drop_parts(case, "ops")

class C01(Gc):
    id = "C01"
    quick = 4500
    thorough = 60000
    case_wall_ms = 20000
    technique = "seeded programs (generated over the language and library, plus the repository's own programs) each executed under several seeded collection schedules on a simulated system with optional injected failures; output, results and exit compared between schedules, every memory access checked"
    rule = "A case is non-trivial when the collector ran at least 20 times in one execution and never in another."
    assumptions = ["structures that contain themselves are not copied, compared, stringified or printed", "the time and memory a program uses are not part of what it does"]
    def check(self, case, rs):
        a = rs[0]
        for k in range(1, len(rs)):
            b = rs[k]
            for what, x, y in (("results", a.results, b.results), ("output", a.out, b.out), ("error output", a.serr, b.serr), ("exit status", {n: (e["code"], e["sig"]) for n, e in a.exit.items()}, {n: (e["code"], e["sig"]) for n, e in b.exit.items()}),
                               ("files left behind", {p: (v[0], v[1], v[4]) for p, v in a.tree.items()}, {p: (v[0], v[1], v[4]) for p, v in b.tree.items()})):
                if x != y:
                    d = [(n, where(x.get(n), y.get(n))) for n in sorted(set(x) | set(y), key=str) if x.get(n) != y.get(n)][:2]
                    yield ("gc-visible", "%s differ between %s and %s: %s" % (what, case["gcs"][0], case["gcs"][k], d)); return
    def nontrivial(self, case, rs):
        return any(r.counts.get("gc:collections", 0) >= 20 for r in rs if r.finished)
    def probes(self, case, rs):
        return {"programs:" + case["kind"]: 1, "ran to the end:" + case["kind"]: int(rs[0].finished and 0 in rs[0].exit and rs[0].exit[0]["code"] == 0), "collections": sum(r.counts.get("gc:collections", 0) for r in rs if r.finished), "with injected failures": int(any(r.faults for r in rs if r.finished))}

def where(x, y):
    if isinstance(x, (bytes, str)) and isinstance(y, (bytes, str)):
        i = 0
        while i < min(len(x), len(y)) and x[i] == y[i]: i += 1
        return "at %d: %r / %r" % (i, x[max(0, i - 60):i + 80], y[max(0, i - 60):i + 80])
    return "%r / %r" % (x, y)

PROP = C01()
