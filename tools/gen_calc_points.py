"""Selects, for the calculators whose iteration does not converge everywhere, parameters where it does.

Run on a tree with its defects repaired; writes dst/calc_points.json, which is committed and only read by C21."""
import json
import multiprocessing as mp
import os
import random
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from dst import calc as C  # noqa
from dst import world as W  # noqa

NAMES = ['M/M/2, three preemptive classes', 'M/PH,M/n, two preemptive classes']


def job(a):
    name, i = a
    m = C.MODELS[name]
    r = random.Random('points/%s/%d' % (name, i))
    p = json.loads(json.dumps(m.candidate(r)))
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(300)
    try:
        with W.Mute():
            th = m.theory(p)
            # no point where rounding decides
            for e in (1e-13, -3e-13, 1e-12):
                q = json.loads(json.dumps(p), parse_float=lambda x: float(x) * (1 + e))
                for k, t in C.flatten(m.theory(q)).items():
                    if abs(t - C.flatten(th)[k]) > 1e-5 * abs(t) + 1e-7:
                        return name, None
            est, _ = m.simulate(p, 600000, i)
        signal.alarm(0)
    except BaseException:  # noqa
        return name, None
    import math
    for k, t in C.flatten(th).items():
        e, se = est.get(k, (0.0, 0.0))
        a, rel = m.tolerance(k, p)
        if not math.isfinite(t) or abs(e - t) > 2 * se + 0.7 * (a + rel * abs(t)):
            return name, None
    return name, p


if __name__ == '__main__':
    W.install()
    out = {n: [] for n in NAMES}
    with mp.Pool(8) as pool:
        for name, p in pool.imap(job, [(n, i) for i in range(int(sys.argv[1])) for n in NAMES]):
            if p:
                out[name].append(p)
    print({n: len(v) for n, v in out.items()})
    with open(C.POINTS, 'w') as f:
        json.dump(out, f, indent=0)
