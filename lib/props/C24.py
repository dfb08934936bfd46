"""C24: any single failing (or shortened) request to the operating system is contained."""
import errno
from fw import *
from simlib import *
import progs
from props.C01 import Gc, corpus

# one operation each: (name, program text, requests that can fail in it, other acceptable reports, commands/peers)
# $ is a directory of the operation's own with the files f ("line one\nline two\n" + 9000 bytes), x and the directory s with two entries
FE = ["EIO", "ENOMEM", "EACCES"]
OPS = {
 "read": ("with(\"$/f\", \"r\") { P(file.read()); }", {"open": ["EMFILE", "ENFILE", "EACCES", "EINTR", "ENOMEM"], "read": ["EIO", "EINTR", "short"], "lseek": ["EIO"], "close": ["EIO"]}),
 "lines": ("with(\"$/f\", \"r\") { P(file.readLine()); P(file.readLine()); P(file.readLine()); }", {"open": ["EMFILE", "EACCES"], "read": ["EIO", "EINTR", "short"], "close": ["EIO"]}),
 "write": ("with(\"$/new\", \"w\") { P(file.write(\"abc\")); P(file.writeLine(\"def\")); P(file.write(\"x\".repeat(9000))); }", {"open": ["EMFILE", "EACCES", "ENOSPC", "EROFS"], "write": ["EIO", "ENOSPC", "EDQUOT", "short", "EFBIG"], "close": ["EIO"]}),
 "append": ("with(\"$/f\", \"a\") { P(file.write(\"tail\")); }", {"open": ["EMFILE", "EACCES"], "write": ["EIO", "ENOSPC", "short"], "close": ["EIO"]}),
 "seek": ("with(\"$/f\", \"rb\") { file.readLine(); file.seek(5); P(file.readLine()); file.seek(-20, 2); P(file.read().len()); }", {"lseek": ["EIO", "EINVAL"], "read": ["EIO", "short"], "open": ["EMFILE"], "close": ["EIO"]}),
 "readline": ("with(\"$/x\", \"r+\") { P(file.read()); file.seek(0); P(file.write(\"zz\")); }", {"lseek": ["EIO"], "read": ["EIO", "short"], "write": ["EIO", "ENOSPC"], "open": ["EMFILE"], "close": ["EIO"]}),
 "import": ("import \"$/mod.du\"; P(1);", {"open": ["EMFILE", "EACCES"], "read": ["EIO", "short"], "lseek": ["EIO"], "realpath": ["EACCES", "EIO"], "close": ["EIO"]}),
 "from": ("from \"$/mod.du\" import modval#; P(modval#);", {"open": ["EMFILE"], "read": ["EIO", "short"], "lseek": ["EIO"], "realpath": ["EACCES"]}),
 "mkdir": ("P(System.mkdir(\"$/nd\"));", {"mkdir": ["EIO", "ENOSPC", "EMLINK", "EROFS"]}),
 "mkdirAll": ("P(System.mkdirAll(\"$/p/q/r\"));", {"mkdir": ["EIO", "ENOSPC", "EACCES"], "stat": ["EIO", "EACCES"]}),
 "mkdirTemp": ("{ const r = System.mkdirTemp(\"$/tmpXXXXXX\"); P(r.success() ? Success(r.unwrap().len()) : r); }", {"mkdtemp": ["EIO", "EACCES", "ENOSPC"]}),
 "rmdir": ("P(System.rmdir(\"$/e\"));", {"rmdir": ["EIO", "EBUSY", "EACCES"]}),
 "remove": ("P(System.remove(\"$/x\"));", {"unlink": ["EIO", "EBUSY", "EPERM", "EROFS"]}),
 "rename": ("P(System.rename(\"$/x\", \"$/y\"));", {"rename": ["EIO", "EXDEV", "ENOSPC"]}),
 "access": ("P(System.access(\"$/x\", System.R_OK));", {"access": ["EIO", "ENOMEM", "EACCES"]}),
 "chmod": ("P(System.chmod(\"$/x\", \"600\"));", {"chmod": ["EIO", "EPERM", "EROFS"]}),
 "chown": ("P(System.chown(\"$/x\", 5, 6));", {"chown": ["EIO", "EPERM"]}),
 "cwd": ("P(System.setCWD(\"$/s\")); P(System.getCWD()); P(System.setCWD(\"/w\"));", {"chdir": ["EIO", "EACCES", "ENOMEM"], "getcwd": ["ENOENT", "EACCES", "ENOMEM"]}),
 "realpath": ("P(Path.realpath(\"$/s/../x\"));", {"realpath": ["EIO", "EACCES", "ENOMEM", "ENAMETOOLONG"]}),
 "exists": ("P(Path.exists(\"$/x\"));", {"stat": ["EIO"]}),
 "isDir": ("P(Path.isDir(\"$/s\"));", {"stat": ["EIO"]}),
 "listDir": ("{ const l = Path.listDir(\"$/s\"); P(l.len()); l.sort(); P(l); }", {"opendir": ["EMFILE", "EACCES", "ENOMEM"], "readdir": ["EIO", "ENOENT"]}),
 "copyFile": ("P(IO.copyFile(\"$/f\", \"$/cp\")); with(\"$/f\", \"r\") { P(file.read().len()); }", {"open": ["EMFILE", "EACCES", "ENOSPC"], "sendfile": ["EIO", "ENOSPC", "EINVAL", "short"], "fstat": ["EIO"], "close": ["EIO"], "read": ["EIO", "short"]}),
 "uname": ("P(System.uname().len());", {"uname": ["EFAULT"]}),
 "sleep": ("System.sleep(0.25); P(1);", {"nanosleep": ["EINTR"]}),
 "env": ("P(Env.set(\"V#\", \"val\")); P(Env.get(\"V#\")); P(Env.set(\"V#\", nil)); P(Env.get(\"V#\", \"gone\"));", {"setenv": ["ENOMEM"], "unsetenv": ["ENOMEM"]}),
 "readEnv": ("Env.readFile(\"$/env\"); P(Env.get(\"FROMFILE#\", \"dflt\"));", {"open": ["EMFILE", "EACCES"], "read": ["EIO", "short"], "close": ["EIO"]}),
 "run": ("P(Process.run([\"ok\"]));", {"fork": ["EAGAIN", "ENOMEM"], "waitpid": ["EINTR", "ECHILD"], "exec": ["ENOMEM", "EACCES", "E2BIG"], "pipe": ["EMFILE"]}),
 "runcap": ("P(Process.run([\"out\"], true));", {"fork": ["EAGAIN", "ENOMEM"], "pipe": ["EMFILE", "ENFILE"], "waitpid": ["EINTR"], "exec": ["ENOMEM"], "readpipe": ["EIO", "EINTR", "short"], "closex": ["EIO"]}),
 "runbig": ("{ const r = Process.run([\"big\"], true); P(r.success() ? Success(Hashlib.sha256(r.unwrap())) : r); }", {"readpipe": ["EIO", "EINTR", "short"], "waitpid": ["EINTR"], "pipe": ["EMFILE"], "fork": ["EAGAIN"]}),
 "exec": ("{ const r = Process.exec([\"ok\"]); P(r.success()); if (not r.success()) P(r); }", {"fork": ["EAGAIN", "ENOMEM"], "exec": ["EACCES"]}),
 "kill": ("P(Process.kill(100, 0));", {"kill": ["EPERM", "ESRCH"]}),
 "sock": ("{ const r = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (not r.success()) { P(r); } else { const k = r.unwrap(); P(k.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR)); P(k.bind(\"127.0.0.1\", 40#)); P(k.listen()); P(k.close()); } }",
          {"socket": ["EMFILE", "ENFILE", "ENOBUFS", "EACCES"], "setsockopt": ["ENOMEM", "EINVAL"], "bind": ["EADDRINUSE", "EACCES"], "listen": ["EADDRINUSE"], "closex": ["EIO"]}),
 "client": ("{ const r = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (not r.success()) { P(r); } else { const k = r.unwrap(); const c = k.connect(\"127.0.0.1\", 70); P(c); if (c.success()) { const w = k.write(\"y\".repeat(3000)); P(w); if (w.success()) { P(k.recv(3)); } } P(k.close()); } }",
          {"socket": ["EMFILE", "ENOBUFS"], "connect": ["ECONNREFUSED", "ETIMEDOUT", "EINTR", "ENETUNREACH"], "send": ["ECONNRESET", "EPIPE", "EINTR", "short"], "recv": ["ECONNRESET", "EINTR", "ETIMEDOUT", "short"], "closex": ["EIO"]}),

 "server": ("{ const r = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM); if (not r.success()) { P(r); } else { const k = r.unwrap(); k.bind(\"127.0.0.1\", 60#).unwrap(); k.listen().unwrap(); const a = k.accept(); if (a.success()) { const [c, who] = a.unwrap(); P(who); P(c.recv(2)); P(c.write(\"hello\")); c.close(); } else { P(a); } P(k.close()); } }",
          {"socket": ["EMFILE"], "accept": ["EMFILE", "ECONNABORTED", "EINTR", "ENOBUFS"], "recv": ["ECONNRESET", "EINTR"], "send": ["EPIPE", "ECONNRESET", "EINTR", "short"], "closex": ["EIO"]}),
 "sqlfile": ("{ const r = Sqlite.connect(\"$/db\"); if (not r.success()) { P(r); } else { const db = r.unwrap(); P(db.execute(\"CREATE TABLE t (a)\")); P(db.execute(\"INSERT INTO t VALUES (?)\", [\"v\"])); P(db.execute(\"SELECT a FROM t\")); db.close(); } }",
          {"sqlopen": ["EIO", "EMFILE"], "sqlwrite": ["EIO", "ENOSPC"], "sqlread": ["EIO"], "sqlsync": ["EIO"], "sqllock": ["EIO"], "sqldelete": ["EIO"]}),
 "http": ("{ const r = HTTP.get(\"http://h.test/#\"); if (r.success()) { P(r.unwrap().content); P(r.unwrap().statusCode); P(r.unwrap().headers.len()); } else { P(r); } }", {"curl_easy_init": ["ENOMEM"], "curl_global_init": ["ENOMEM"], "curl_setopt": ["ENOMEM"]}),
 "httphdr": ("{ const r = HTTP.post(\"http://h.test/p#\", {\"a\": \"b\"}, [\"X-A: 1\", \"X-B: 2\"]); if (r.success()) { P(r.unwrap().content); } else { P(r); } }", {"curl_easy_init": ["ENOMEM"], "curl_slist": ["ENOMEM"], "curl_setopt": ["ENOMEM"]}),
 "bcrypt": ("{ const h = Hashlib.bcrypt(\"pw\", 4); P(h.len()); P(Hashlib.bcryptVerify(\"pw\", h)); }", {"getentropy": ["EIO", "ENOSYS"]}),
 "term": ("P(Term.isatty(1)); { const z = Term.getSize(); P(type(z)); }", {"ioctl": ["EIO", "ENOTTY", "EBADF"]}),
 "input": ("P(input(\"? \"));", {"readin": ["EIO", "EINTR", "short"]}),
 "log": ("{ const l = Log.new(Log.stdout); if (l.success()) { l.unwrap().println(\"rec\"); P(1); } else P(l); }", {"writeout": ["short"]}),
 "print": ("P(\"z\".repeat(5000)); IO.println(\"q\".repeat(3000)); P(2);", {"writeout": ["short"]}),
}

# reports other than the system's reason that an operation documents or that its library words itself
ALSO = {"read": [b"Unable to open file", b"Could not read file"], "lines": [b"Unable to open file", b"Could not read file"], "write": [b"Unable to open file", b"Could not write"], "append": [b"Unable to open file", b"Could not write", b"Could not seek"],
        "seek": [b"Unable to open file", b"Could not read", b"Could not seek"], "readline": [b"Unable to open file", b"Could not read", b"Could not seek", b"Could not write"], "import": [b"Could not open file"], "from": [b"Could not open file"], "mkdirAll": [b"File exists"],
        "exists": [b"V\nfalse\n"], "isDir": [b"V\nfalse\n"], "listDir": [b"is not a path"], "copyFile": [b"Unable to open file", b"Could not read"], "uname": [b"failed to retrieve"], "env": [b"Failed to set environment variable"],
        "readEnv": [b"Unable to open file", b"Could not read"], "sqlfile": [b"unable to open database file", b"disk I/O error", b"database or disk is full", b"database is locked"], "http": [b"transport error"], "httphdr": [b"transport error", b"Unable to allocate the headers list"],
        "bcrypt": [b"failed to generate"], "input": [b"S0\n\n"], "term": [b""]}
# a shortened transfer shows in the result of these
SHORT = {"client": [b"R\nV\nnil\nR\nV\n"], "server": [b"R\nV\n"]}

def scenario(case, faulty):
    s = Scn(); s.dir("/w"); s.dir("/root")
    s.proc("victim", 0, "pause")
    s.prog("ok", "exit:0"); s.prog("out", "lit:text"); s.prog("big", "w:70000:3")
    s.node(0, kind="embed", cwd="/w").args(0, "dictu")
    s.item(0, "m", "".join("import %s;" % m for m in progs.IMPORTS) + PRELUDE + "System.sleep(0.05);")
    for i, k in enumerate(case["ops"]):
        d = "/w/d%d" % i
        s.dir(d); s.dir(d + "/s"); s.dir(d + "/e"); s.file(d + "/s/a", "1"); s.file(d + "/s/b", "2"); s.file(d + "/x", "content of x"); s.file(d + "/f", "line one\nline two\n" + patbytes(1, 9000).decode())
        s.file(d + "/mod.du", "var modval%d = [1, \"m\"];\n" % i + "// " + "c" * 5000 + "\n"); s.file(d + "/env", "FROMFILE%d=yes\n" % i)
        src = OPS[k][0].replace("$", d).replace("40#", "%d" % (4000 + i)).replace("60#", "%d" % (6000 + i)).replace(", 70)", ", %d)" % (7000 + i)).replace("#", "%d" % i)
        if k == "input": s.stdin(0, 0, "typed%d\n" % i)
        if k == "client": s.proc("srv%d" % i, 0, "listen:%d" % (7000 + i), "saccept", "recv:1", "sendlit:abc", "recvall")
        if k == "server": s.proc("cl%d" % i, 0, "connect:%d" % (6000 + i), "sendlit:hi", "recvall")
        if k == "http": s.http("status=200 h=A:%201 h=B:%202 body=hello")
        if k == "httphdr": s.http("status=200 h=A:%201 h=B:%202 body=hello")
        s.item(0, "m", "IO.print(\"\\x1e\"); System.access(\"/.sim/o%d\", 0);" % i)
        v = i == case["victim"]
        s.item(0, "m", ("System.access(\"/.sim/armfaults\", 0);" if v else "") + src)
        s.item(0, "m", "System.access(\"/.sim/nofaults\", 0);" if v else "")
    s.item(0, "m", "IO.print(\"\\x1e\"); System.collect();")
    s.item(0, "m", "System.collect(); System.access(\"/.sim/end\", 0);")
    s.opt(fault_wait=1, dump=1, setoptfail=1, slistfail=1, yield_ppm=case["yield"])
    gc_opts(random.Random(case["gc"]), s)
    if faulty: s.fault(case["call"], case["eff"], 1000000, 1, case["nth"])
    return s.text()

CLI = {"plain": "print(\"hello\"); import JSON; print(JSON.stringify([1, 2]).unwrap());", "mod": "from \"mod.du\" import v; print(v);", "long": "print(1);\n" + "// filler\n" * 900 + "print(2);"}
CLICALLS = {"open": ["EMFILE", "EACCES", "ENFILE"], "read": ["EIO", "EINTR", "short"], "lseek": ["EIO"], "fstat": ["EIO"], "realpath": ["EACCES", "ENAMETOOLONG"], "getcwd": ["ENOENT", "EACCES"], "close": ["EIO"], "access": ["EACCES"], "stat": ["EIO"], "ioctl": ["ENOTTY"], "writeout": ["short", "EIO"]}

def pieces(r):
    return r.out.get(0, b"").split(b"\x1e")
def ev(r):
    """open descriptors and children at each mark"""
    return {e["why"]: (sorted(e["fds"].values()), e["kids"], e["zombies"]) for e in r.fds}

class C24(Prop):
    id = "C24"
    quick = 3600
    thorough = 120000
    same_seed = True
    allow_deadlock = True
    technique = "every operation of the system-facing library run in seeded company, once undisturbed and once with exactly one chosen request failing or cut short; outcomes, descriptors, children, files, memory and all other operations compared; generated programs and the repository's own programs under one failure for memory safety, progress and release"
    rule = "A case is non-trivial when the chosen request was made and failed (or was cut short)."
    assumptions = ["allocation failure inside the C library is not a request to the operating system", "a failing close() of a file that was completely written loses nothing", "input() ends at a failing read of the standard input as it does at its end", "structures that contain themselves are not copied, compared, stringified or printed"]
    def gen(self, rng, i, tier):
        r = rng.random()
        c = {"gc": rng.randrange(1 << 30), "yield": rng.choice([0, 0, 100000])}
        if r < 0.66:
            k = rng.choice(list(OPS)); n = rng.choice([0, 1, 3, 6]); b = rng.choice([0, 1, 2, 3])
            one = lambda: rng.choice([x for x in OPS])
            c.update(kind="ops", ops=[one() for _ in range(b)] + [k] + [one() for _ in range(n)] + [k], victim=b)
            c["call"] = rng.choice(sorted(OPS[k][1])); c["eff"] = rng.choice(OPS[k][1][c["call"]]); c["nth"] = rng.choice([1, 1, 1, 1, 1, 2, 2, 3, 4, 6, 9])
        elif r < 0.76:
            c.update(kind="cli", prog=rng.choice(sorted(CLI)), how=rng.choice(["file", "file", "abs", "sub"]), call=rng.choice(sorted(CLICALLS)), nth=rng.choice([1, 1, 2, 3, 4, 6]))
            c["eff"] = rng.choice(CLICALLS[c["call"]])
        else:
            g = progs.G(rng)
            call, effs = rng.choice(ALLCALLS)
            c.update(kind="gen", call=call, eff=rng.choice(effs), nth=rng.choice([1, 1, 2, 3, 4, 6, 9, 15, 30]))
            if rng.random() < 0.4: c.update(file=rng.choice(corpus()), ops=[])
            else: c["ops"] = [x for _ in range(2) for x in progs.items(g, rng.choice([3, 8]), errors=0.05, cerrors=0)] + [rng.choice(SYSY) for _ in range(3)]; rng.shuffle(c["ops"])
        return c
    def scenarios(self, case):
        if case["kind"] == "ops": return [scenario(case, False), scenario(case, True)]
        if case["kind"] == "cli":
            out = []
            for f in (False, True):
                s = Scn(); s.dir("/w"); s.dir("/w/sub"); s.file("/w/mod.du", "var v = [1, 2];"); s.file("/w/sub/mod.du", "var v = [1, 2];")
                if case["how"] == "sub": s.script(0, CLI[case["prog"]].encode(), name="sub/main.du")
                elif case["how"] == "abs": s.file("/w/main.du", CLI[case["prog"]]); s.node(0, cwd="/").args(0, "dictu", "/w/main.du")
                else: s.script(0, CLI[case["prog"]].encode())
                if f: s.fault(case["call"], case["eff"], 1000000, 1, case["nth"])
                out.append(s.text())
            return out
        base = GCB.text({"kind": "corpus" if case.get("file") else "embed", "file": case.get("file"), "ops": case["ops"], "faults": []}, ["gcmode", 9])
        return [base, base + "fault %s %s 1000000 1 %d\n" % (case["call"], case["eff"], case["nth"])]
    def outside(self, case, rs):
        return any(self_containing(r) for r in rs) or (case["kind"] == "gen" and (crash_of(rs[0]) is not None))
    def check(self, case, rs):
        a, b = rs
        fired = bool(b.faults)
        what = "request %s (number %d): %s" % (case["call"], case["nth"], case["eff"])
        if b.end == "deadlock" and (a.end != "deadlock"): yield ("stuck", what + ": nothing can make progress: %s" % "; ".join(b.deadlock)); return
        if a.end == "deadlock": return
        e = b.exit.get(0)
        if e is None: yield ("no-exit", what + ": the interpreter did not end"); return
        if e["sig"] and not a.exit[0]["sig"]: yield ("killed", what + ": the interpreter was ended by signal %d" % e["sig"]); return
        if 0 in b.leak and b.leak[0][0] and not (0 in a.leak and a.leak[0][0]):
            from props.C02 import symbolize
            yield ("not-released", what + ": %d blocks (%d bytes) still allocated after shutdown: %s" % (b.leak[0][0], b.leak[0][1], symbolize(b.leaked[:4]))); return
        if b.lost.get(0) and not a.lost.get(0): yield ("accounting", what + ": the interpreter's own count of live bytes is %d after shutdown" % b.lost[0]); return
        if case["kind"] == "cli":
            if not fired: return
            o0, o1 = a.out.get(0, b""), b.out.get(0, b""); err = b.serr.get(0, b"")
            same = o0 == o1 and e["code"] == a.exit[0]["code"] and err == a.serr.get(0, b"")
            if case["call"] == "writeout":
                if case["eff"] == "short" and not same: yield ("disturbed", what + ": a shortened write to standard output changed what was written: %r instead of %r" % (o1[-200:], o0[-200:]))
                return
            if not same:
                if e["code"] == 0: yield ("silent", what + ": a different run ended with status 0: %r instead of %r (%r)" % (o1[:200], o0[:200], err[:200]))
                elif not err: yield ("silent", what + ": ended with status %d without a report" % e["code"])
                elif not o0.startswith(o1): yield ("disturbed", what + ": output %r is not what the undisturbed run printed first: %r" % (o1[:200], o0[:200]))
            return
        if case["kind"] == "gen":
            return
        if a.results[0] != [0] * len(a.results[0]): yield ("protocol", "the undisturbed run reports %r %r" % (a.results[0], a.serr.get(0, b"")[:300])); return
        v = case["victim"]; k = case["ops"][v]
        pa, pb = pieces(a), pieces(b)
        ra, rb = a.results[0], b.results[0]
        if len(pb) != len(pa): yield ("protocol", what + ": %d items printed, %d without the failure" % (len(pb), len(pa))); return
        vi = 1 + 3 * v + 1      # the result of the victim's own item
        for j, (x, y) in enumerate(zip(ra, rb)):
            if x != y and j != vi: yield ("spread", what + " in operation %d (%s): item %d (%s) ended differently (%d)" % (v, k, j, case["ops"][(j - 1) // 3] if j else "prelude", y)); return
        for j in range(len(pa)):
            if j == v + 1 or pa[j] == pb[j]: continue
            if fired and (k == "cwd" or (k == "input" and case["ops"][j - 1] == "input")): continue   # the working directory / the unread line is still there
            yield ("spread", what + " in operation %d (%s): operation %d (%s) printed %r, without the failure %r" % (v, k, j - 1, case["ops"][j - 1] if 0 < j <= len(case["ops"]) else "-", pb[j][:200], pa[j][:200])); return
        err = b.serr.get(0, b"")
        got = pb[v + 1]
        if not fired:
            if got != pa[v + 1] or err != a.serr.get(0, b""): yield ("disturbed", what + " was never made, but operation %s printed %r instead of %r" % (k, got[:200], pa[v + 1][:200]))
            return
        if got != pa[v + 1] or rb[vi] != 0:
            if case["eff"] == "short" and k in SHORT:
                pass
            else:
                reason = [] if case["eff"] == "short" else [strerror(case["eff"]).encode()]
                if case["eff"] == "short": yield ("disturbed", what + ": operation %s printed %r instead of %r %r" % (k, got[:200], pa[v + 1][:200], err[:200])); return
                rep = got + err
                if not any(x in rep for x in reason + ALSO.get(k, [])):
                    yield ("unreported", what + ": operation %s printed %r and %r instead of %r; neither the system's reason %r nor another report is in it" % (k, got[:300], err[-300:], pa[v + 1][:200], reason)); return
                if rb[vi] == 0 and err != a.serr.get(0, b""): yield ("disturbed", what + ": operation %s did not end in an error but %r was written to standard error" % (k, err[:200])); return
        # what is left behind
        fa, fb = ev(a), ev(b)
        for w in ("end",):
            if w in fa and w in fb and (fa[w][0] != fb[w][0] or (fb[w][1:] != fa[w][1:] and case["call"] != "waitpid" and "exec" not in case["ops"])): yield ("left-open", what + " in operation %s: descriptors, children at the end %s, without the failure %s" % (k, fb[w], fa[w])); return
        pre = "/w/d%d" % v
        ta = {p: (x[0], x[4]) for p, x in a.tree.items() if not p.startswith(pre + "/")}; tb = {p: (x[0], x[4]) for p, x in b.tree.items() if not p.startswith(pre + "/")}
        if ta != tb and k != "cwd":
            d = [p for p in sorted(set(ta) | set(tb)) if ta.get(p) != tb.get(p)]
            yield ("spread", what + " in operation %d (%s): files of other operations differ: %s" % (v, k, d[:3])); return
    def nontrivial(self, case, rs):
        return rs[1].finished and bool(rs[1].faults)
    def probes(self, case, rs):
        d = {"kind:" + case["kind"]: 1}
        if rs[1].finished and rs[1].faults: d["failed:%s/%s" % (case["call"], case["eff"])] = 1
        if case["kind"] == "ops": d["tried:%s/%s" % (case["ops"][case["victim"]], case["call"])] = int(bool(rs[1].finished and rs[1].faults))
        if case["kind"] == "ops" and rs[1].finished and rs[1].faults: d["operation:" + case["ops"][case["victim"]]] = 1
        return d
    def shrinks(self, case):
        if case["kind"] == "ops":
            v = case["victim"]
            for j in range(len(case["ops"])):
                if j != v:
                    c = dict(case); c["ops"] = case["ops"][:j] + case["ops"][j + 1:]; c["victim"] = v - (j < v); yield c
            if case["yield"]: c = dict(case); c["yield"] = 0; yield c
        elif case["kind"] == "gen":
            yield from drop_parts(case, "ops")

_all = {}
for _k in OPS:
    for _c, _e in OPS[_k][1].items():
        for _x in _e:
            if _x not in _all.setdefault(_c, []): _all[_c].append(_x)
ALLCALLS = [(c, e) for c, e in _all.items() if c not in ("readin", "ioctl")]
# system-facing statements for the generated programs
SYSY = [OPS[k][0].replace("$", "/w").replace("40#", "4001").replace("#", "1").replace("P(", "print(") for k in ("read", "lines", "write", "append", "seek", "mkdir", "mkdirAll", "mkdirTemp", "rmdir", "remove", "rename", "access", "chmod", "cwd", "realpath", "exists", "listDir", "copyFile", "uname", "env", "run", "runcap", "exec", "sock", "sqlfile", "http", "httphdr", "bcrypt", "log")]
GCB = Gc()

PROP = C24()
