"""C16: a failing HTTP transfer becomes an error result and leaves the client usable."""
from fw import *
from simlib import *
from props.C15 import Http

class C16(Http):
    id = "C16"
    quick = 5000
    thorough = 90000
    pfail = 0.5
    technique = "seeded fault injection in a simulated HTTP transport (initialisation, header list, connection, timeout, any point of headers or body) over histories mixing failing and successful calls on several clients, checked against a model, with handle and memory ledgers"
    rule = "A case is non-trivial when a transfer failed or succeeded."
    def faults(self, rng):
        f = []
        if rng.random() < 0.4: f.append(["curl_easy_init", "EIO", rng.choice([30000, 200000, 600000]), 20])
        if rng.random() < 0.25: f.append(["curl_global_init", "EIO", rng.choice([100000, 600000]), 20])
        if rng.random() < 0.25: f.append(["curl_slist", "ENOMEM", rng.choice([10000, 100000]), 20])
        if rng.random() < 0.25: f.append(["curl_setopt", "ENOMEM", rng.choice([30000, 200000]), 20])
        return f
    def nontrivial(self, case, rs):
        case.pop("_s", False); return bool(case.pop("_f", False))

PROP = C16()
