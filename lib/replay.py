#!/usr/bin/env python3
"""replay.py FILE: runs a replay file in a fresh process and says whether the violation is there again."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw
def main():
    r = json.load(open(sys.argv[1]))
    prop = fw.load(r["module"]); exe = fw.simbuild.build(fw.simlib.REPO, getattr(prop, "variant", ""))
    srv = fw.Server(exe); rs = fw.run_case(prop, srv, r["case"]); srv.close()
    v = fw.judge(prop, r["case"], rs)
    if "-v" in sys.argv:
        for x in rs: print(x.log.decode("latin-1")); print(x.err)
    print("logs identical to the recorded run: %s" % (fw.hashes(rs) == r["log_hashes"]))
    for c, d in v: print("violation class=%s\n%s" % (c, d))
    return 1 if any(c == r["class"] for c, _ in v) else 0
sys.exit(main())
