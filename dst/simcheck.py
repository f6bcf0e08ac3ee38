"""Checks whose runs are one simulator stepped event by event under oracles."""
import copy
import hashlib
import random
import signal
import traceback

from . import run as R
from . import world as W
from .engine import Check, Outcome
from .run import Run

REAL = ['most_queue.sim.* (event loops, queues, channels, phases, statistics): real code, unmodified']
STUB = ['random streams: values from scenario tapes', 'numpy global RNG and default_rng: seeded from the scenario',
        'time.sleep, terminal: no-ops']


def shrink_streams(sc):
    """Simpler tapes: shorter, rounder, constant."""
    for role, st in sc['streams'].items():
        v = st['vals']
        if len(set(v)) > 1:
            for const in (1.0,):
                c = copy.deepcopy(sc)
                c['streams'][role]['vals'] = [const]
                yield c
    for role, st in sc['streams'].items():
        v = st['vals']
        if len(v) > 1:
            for k in (len(v) // 2, len(v) - 1):
                if 0 < k < len(v):
                    c = copy.deepcopy(sc)
                    c['streams'][role]['vals'] = v[:k]
                    yield c
    for role, st in sc['streams'].items():
        v = st['vals']
        rounded = [float(round(x)) if x > 0.5 else round(x, 2) for x in v]
        if rounded != v:
            c = copy.deepcopy(sc)
            c['streams'][role]['vals'] = rounded
            yield c
        for i, x in enumerate(v[:12]):
            for y in (1.0, 0.0, 2.0):
                if x not in (0.0, 1.0, 2.0) and not (role.startswith('src') and i == 0 and y == 0.0):
                    c = copy.deepcopy(sc)
                    c['streams'][role]['vals'][i] = y
                    yield c


DEEP = 1400           # jobs that come faster than any of them is served


def deep(fam, prop, tier, seed):
    """A stall under full load: over a thousand jobs pile up, then the system catches up."""
    r = random.Random(seed)
    for i in range(200):
        sc = fam.gen(seed + i, prop, tier)
        if sc['family'] in ('basic', 'vac') and sc['cfg'].get('buffer_type') != ('list' if seed % 2 else 'deque'):
            continue
        break
    cfg = sc['cfg']
    cfg['buffer'] = r.choice([None, None, DEEP - 300]) if prop != 'C05' else DEEP - 300
    if 'delta' in cfg:
        cfg['buffer'] = None
    if sc['family'] in ('basic', 'vac', 'batch', 'imp', 'prio', 'prio_np', 'prio_pre'):
        cfg['n'] = r.choice([1, 3, 12, 40])
    for role, st in sc['streams'].items():
        if role.startswith('src'):
            k = sum(1 for x in sc['streams'] if x.startswith('src'))
            st['vals'] = [r.uniform(0.0005, 0.002) for _ in range(DEEP // k)] + [1e7]
        elif role.startswith('srv'):
            st['vals'] = [r.uniform(5.0, 10.0) for _ in range(cfg['n'] if isinstance(cfg.get('n'), int) else 1)] + \
                [r.uniform(0.01, 0.1) for _ in range(400)]
        elif role == 'imp':
            st['vals'] = [r.choice([r.uniform(0.5, 20.0), 1e5, 1e5]) for _ in range(300)]
        st['style'] = 'deep'
    sc['steps'] = 2 * DEEP + 300
    sc['full_p'] = False
    return sc


def _batch(cfg):
    from .fam_queue import batch_freq_run
    return batch_freq_run(cfg)


def _routes(cfg):
    from .fam_net import routing_run
    return routing_run(cfg)


def _phases(cfg):
    from .fam_queue import phases_elsewhere
    return phases_elsewhere(cfg)


def _fjd_buffer(cfg):
    from .fam_fj import delay_buffer_run
    return delay_buffer_run(cfg)


SPECIAL = {'delay_buffer': _fjd_buffer, 'phases_elsewhere': _phases, 'batch_freq': _batch, 'routing_freq': _routes}


def special(sc):
    """A long run with the real, seeded generators, judged as a whole."""
    o = Outcome()
    res = protect(lambda: SPECIAL[sc['kind']](copy.deepcopy(sc['cfg'])), o)
    o.counts['long_runs_' + sc['kind']] = 1
    o.counts['samples_' + sc['kind']] = 0 if res is None else res[1]
    if res is not None:
        o.message = res[0]
        o.nontrivial = 1
    o.trace = o.events = hashlib.blake2b(repr((sc['cfg'], res)).encode(), digest_size=12).hexdigest()
    return o


def protect(fn, o, limit=None):
    """Runs fn; crashes and hangs of the simulated system become the outcome's message."""
    timer = signal.getsignal(signal.SIGALRM) is R.on_alarm
    W.install()
    try:
        if timer:
            signal.setitimer(signal.ITIMER_REAL, limit or 10 * R.STEP_LIMIT_S)
        with W.Mute():
            try:
                return fn()
            except W.Violation as e:
                o.message = str(e)
            except R.StepTimeout:
                o.message = 'no progress: the simulated system did not come back'
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:  # noqa
                tb = traceback.extract_tb(e.__traceback__)
                inside = [f for f in tb if f.filename.startswith(W.REPO)]
                f = inside[-1] if inside else tb[-1]
                o.message = 'crash: %s: %s (%s:%s)' % (type(e).__name__, e, f.filename.split('/')[-1], f.name)
                o.tb = ''.join(traceback.format_exception(e))
    finally:
        if timer:
            signal.setitimer(signal.ITIMER_REAL, 0)
        W.set_world(None)


class SimCheck(Check):
    """parts: list of (family, weight, oracle classes)"""
    real = REAL
    stubs = STUB

    def __init__(self, prop, parts, rule, quick=1000, thorough=20000, assumptions=(), long_runs=()):
        self.prop = prop
        self.parts = parts
        self.fams = {f.name: (f, o) for f, _, o in parts}
        self.rule = rule
        self.quick_runs = quick
        self.thorough_runs = thorough
        self.assumptions = list(assumptions)
        self.long_runs = list(long_runs)

    def gen(self, seed, tier):
        r = random.Random(seed)
        tot = sum(w for _, w, _ in self.parts)
        x = r.random() * tot
        for f, w, _ in self.parts:
            x -= w
            if x < 0:
                break
        sc = f.gen(seed, self.prop, tier)
        sc['full_p'] = r.random() < 0.2
        return sc

    def execute(self, sc):
        if sc.get('kind') in SPECIAL:
            return special(sc)
        fam, oracles = self.fams[sc['family']]
        run = Run(fam, sc, oracles)
        run.execute()
        o = Outcome()
        o.message = run.message
        o.counts = run.counts
        for st in sc['streams'].values():
            if st.get('style') not in (None, 'exp'):
                o.counts['tape_' + st['style']] += 1
        o.counts['runs_' + fam.name] += 1
        o.states = run.states
        o.steps = run.steps_done
        o.sim_time = run.sim_time
        o.trace = run.trace.hexdigest()
        o.events = run.events.hexdigest()
        o.nontrivial = run.nontrivial
        sc['_stopped_at'] = run.i
        return o

    def first(self, tier, base):
        from .engine import seed_of
        piles = [deep(f, self.prop, tier, seed_of(base, self.prop + ' deep', 2 * i + j) // 2 * 2 + j)
                 for i, (f, _, _) in enumerate(self.parts) if f.name != 'fin' for j in range(2)]
        return piles + [sc for f in self.long_runs for sc in f(tier, base)]

    def shrink_moves(self, sc):
        if sc.get('kind') in SPECIAL:
            c = copy.deepcopy(sc)
            c['cfg']['steps'] = sc['cfg']['steps'] // 2
            if c['cfg']['steps'] >= 200:
                yield c
            return
        i = sc.get('_stopped_at')
        sc = {k: v for k, v in sc.items() if k != '_stopped_at'}
        if i is not None and i + 1 < sc['steps']:
            c = copy.deepcopy(sc)
            c['steps'] = i + 1
            yield c
        for k in (2, 1):
            if sc['steps'] > k:
                c = copy.deepcopy(sc)
                c['steps'] = sc['steps'] - k
                yield c
        for c in self.fams[sc['family']][0].shrink_cfg(sc):
            yield c
        yield from shrink_streams(sc)

    def describe(self, sc):
        if sc.get('kind') in SPECIAL:
            return sc
        d = {k: v for k, v in sc.items() if k not in ('streams', 'u')}
        d['streams'] = {r: {'type': s.get('type'), 'style': s.get('style'), 'first': s['vals'][:6]}
                        for r, s in sc['streams'].items()}
        return d
