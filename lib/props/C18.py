"""C18: random results stay in range and can all occur."""
import re
from fw import *
from simlib import *

class C18(Prop):
    id = "C18"
    quick = 8000
    thorough = 160000
    technique = "the generators of the operating system are simulated: seeded number streams, with a seeded share of extreme values; every result is checked for range and kind, and long draws for reaching every member"
    rule = "A case is non-trivial when a random number or UUID was drawn."
    assumptions = ["that every member occurs is checked over draws long enough that missing one has probability below 1e-15 with independent numbers; only with the generator's extremes switched off"]
    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.choice([1, 3, 6])):
            r = rng.random()
            if r < 0.15: ops.append(["random", rng.choice([1, 20, 400])])
            elif r < 0.55:
                lo = rng.choice([0, 1, -1, -5, 10, rng.randint(-100, 100), -2 ** 31, 2 ** 31 - 3, 2 ** 40, -2 ** 53])
                w = rng.choice([0, 1, 2, 3, 5, 6, 9, 16, 30, 30, 255, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 3 * 10 ** 9, 2 ** 36 + 5, 2 ** 48, 2 ** 49])
                if lo + w > 2 ** 53: lo = rng.choice([0, -w])
                m = w + 1
                n = 40 * m if m <= 31 else 600
                ops.append(["range", lo, lo + w, rng.choice([3, n, n])])
            elif r < 0.75:
                m = rng.choice([1, 2, 3, 7, 20, 31, 200])
                ops.append(["select", m, rng.choice([3, 40 * m, 40 * m]) if m <= 31 else 20])
            elif r < 0.9: ops.append(["uuid", rng.choice(["generate", "generateRandom", "generateTime"]), rng.choice([1, 5, 20])])
            else: ops.append(["bad", rng.choice(["Random.select([])", "Random.range(5, 4)", "Random.range(3, -3)", "Random.range(0, 1 / 0)", "Random.range(0 / 0, 1)", "Random.range(-1 / 0, 1)", "Random.range(0.25, 0.75)",
                                                  "Random.select(5)", "Random.range(\"a\", 2)", "Random.range(1)", "Random.random(1)", "Random.select()", "UUID.generate(1)", "Random.range(1, nil)", "Random.select(\"abc\")"])])
        return {"ops": ops, "ext": rng.choice([0, 0, 0, 300000, 1000000]), "gc": rng.randrange(1 << 30), "ent": rng.choice([0, 0, 500000])}
    def scenarios(self, case):
        s = Scn(); s.dir("/w")
        s.node(0, kind="embed", cwd="/w").args(0, "dictu")
        s.item(0, "m", "import System; import Random; import UUID;" + PRELUDE)
        for o in case["ops"]:
            if o[0] == "random": x = "for (var i = 0; i < %d; i += 1) { print(Random.random()); }" % o[1]
            elif o[0] == "range": x = "for (var i = 0; i < %d; i += 1) { print(Random.range(%d, %d) - %d); }" % (o[3], o[1], o[2], o[1])
            elif o[0] == "select": x = "{ const l = []; for (var i = 0; i < %d; i += 1) { l.push(\"e{}\".format(i)); } for (var i = 0; i < %d; i += 1) { print(Random.select(l)); } }" % (o[1], o[2])
            elif o[0] == "uuid": x = "for (var i = 0; i < %d; i += 1) { P(UUID.%s()); }" % (o[2], o[1])
            else: x = "print(%s);" % o[1]
            s.item(0, "m", "print(\"@@\"); " + x)
        s.item(0, "m", "print(\"@@\");")
        s.opt(randext_ppm=case["ext"])
        if case["ent"]: s.fault("getentropy", "EIO", case["ent"])
        gc_opts(random.Random(case["gc"]), s)
        return [s.text()]
    def check(self, case, rs):
        r = rs[0]; res = r.results[0][1:]
        parts = r.out[0].split(b"@@\n")[1:]
        if len(parts) != len(case["ops"]) + 1: return [("output", "%d outputs for %d operations" % (len(parts) - 1, len(case["ops"])))]
        bad = []; seen = set()
        for k, (o, t) in enumerate(zip(case["ops"], parts)):
            what = "operation %d %r" % (k, o)
            if o[0] == "bad":
                if res[k] != 2: bad.append(("impossible", what + " ended with code %r and printed %r" % (res[k], t[:80])))
                continue
            if res[k] != 0: bad.append(("error", what + " failed: %r" % r.serr.get(0, b"")[-200:])); continue
            l = t.split(b"\n")[:-1]
            if o[0] == "random":
                v = [float(x) for x in l]
                if len(v) != o[1] or not all(0 <= x <= 1 for x in v): bad.append(("random-range", what + ": %r" % [x for x in v if not 0 <= x <= 1][:3]))
                elif o[1] >= 400 and not case["ext"] and not (min(v) < 0.125 and max(v) > 0.875 and len(set(int(x * 8) for x in v)) >= 8): bad.append(("random-missing", what + ": parts of 0..1 never occur, values from %r to %r" % (min(v), max(v))))
            elif o[0] == "range":
                try: v = [int(float(x)) + o[1] for x in l]; whole = all(float(x) == int(float(x)) for x in l)
                except (ValueError, OverflowError): bad.append(("range", what + ": printed %r" % l[:3])); continue
                if len(v) != o[3] or not whole or not all(o[1] <= x <= o[2] for x in v):
                    bad.append(("range", what + ": returned the lowest plus %r" % [x for x in l if not 0 <= float(x) <= o[2] - o[1] or float(x) != int(float(x))][:3])); continue
                m = o[2] - o[1] + 1
                if case["ext"]: continue
                if m <= 31:
                    if o[3] >= 40 * m and len(set(v)) != m: bad.append(("range-missing", what + ": never returned %r" % sorted(set(range(o[1], o[2] + 1)) - set(v))))
                elif o[3] >= 600:
                    parts8 = set((x - o[1]) * 8 // m for x in v)
                    if len(parts8) != 8 or len(set((x - o[1]) % 8 for x in v)) != 8: bad.append(("range-missing", what + ": only returned values from %r to %r in %d of 8 parts, remainders %r" % (min(v), max(v), len(parts8), sorted(set((x - o[1]) % 8 for x in v)))))
            elif o[0] == "select":
                al = set(b"e%d" % j for j in range(o[1]))
                if len(l) != o[2] or not set(l) <= al: bad.append(("select", what + ": returned %r" % list(set(l) - al)[:3]))
                elif not case["ext"] and o[1] <= 31 and o[2] >= 40 * o[1] and set(l) != al: bad.append(("select-missing", what + ": never returned %r" % sorted(al - set(l))))
            else:
                try: v, rest = parse_values(t)
                except (ValueError, Short): bad.append(("uuid", what + ": printed %r" % t[:80])); continue
                if rest or len(v) != o[2]: bad.append(("uuid", what + ": %d results, rest %r" % (len(v), rest[:60]))); continue
                for x in v:
                    if not (isinstance(x, tuple) and x[0] == "R" and isinstance(x[1], bytes)): bad.append(("uuid", what + ": %r" % (x,))); continue
                    u = x[1]
                    if len(u) == 37 and u[36:] == b"\0": bad.append(("uuid-nul", what + ": the string has 37 characters, the last is NUL")); u = u[:36]
                    ver = {"generate": "14", "generateRandom": "4", "generateTime": "1"}[o[1]].encode()
                    if not re.fullmatch(rb"[0-9a-f]{8}-[0-9a-f]{4}-[" + ver + rb"][0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}", u): bad.append(("uuid-form", what + ": %r" % u))
                    elif u in seen and not case["ext"]: bad.append(("uuid-repeated", what + ": %r again" % u))
                    seen.add(u)
        return bad
    def nontrivial(self, case, rs): return any(l.startswith(("RAND", "UUID")) or " RAND" in l or " UUID" in l for l in rs[0].lines)
    def shrinks(self, case):
        yield from drop_parts(case, "ops")
        for k, o in enumerate(case["ops"]):
            if o[0] in ("uuid", "random") and o[-1] > 1: yield dict(case, ops=case["ops"][:k] + [o[:-1] + [1]] + case["ops"][k + 1:])
        if case["ext"]: yield dict(case, ext=0)

PROP = C18()
