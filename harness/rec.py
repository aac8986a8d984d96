"""Record traces for one property into an ndjson file (one shard).

rec.py PROP TIER SEED SHARD BUDGET OUT: writes OUT (traces) and OUT.meta (programs).
Runs under the interpreter the package is built for; imports it from /repo/src.
"""
import json
import os
import random
import resource
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import rt
from gen2 import Gen
from profiles import PROFILES


def record(prop, tier, seed, shard, budget, out, wall=240):
    """Traces until `budget` events; returns (traces, events, driver errors)."""
    rt.install_alarm()
    profs = PROFILES[prop]
    total, errors, n, hangs = 0, [], 0, 0
    tno = 0
    t0 = time.time()
    with open(out, 'w') as f, open(out + '.meta', 'w') as fm:
        while total < budget:
            rng = random.Random(f'{prop}/{seed}/{shard}/{tno}')
            tno += 1
            prof = rng.choices([p for _, p in profs], [w for w, _ in profs])[0]
            g = Gen(rng, prof)
            try:
                getattr(g, prof.get('run', 'run'))()
            except Exception:           # the library misbehaved in a way the driver did not expect
                errors.append(traceback.format_exc())
            hangs += sum(1 for e in g.evs if e['r'] == [-905])
            if g.evs:
                f.write(json.dumps({'ev': g.evs}, separators=(',', ':')) + '\n')
                fm.write(json.dumps([prof.get('run', 'run'), tno - 1, g.meta, g.progs], separators=(',', ':')) + '\n')
                f.flush()
                fm.flush()
                n += 1
                total += len(g.evs)
            if len(errors) > 50 or hangs > 3 or time.time() - t0 > wall:
                break
    return n, total, errors


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    prop, tier, seed, shard, budget, out = sys.argv[1:7]
    n, total, errors = record(prop, tier, seed, int(shard), int(budget), out)
    print(json.dumps(dict(traces=n, events=total, errors=len(errors), first=errors[:2])))
