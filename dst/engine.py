"""Seeded search over simulated runs, minimisation, replay, evidence."""
import collections
import concurrent.futures as cf
import copy
import hashlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import run as R
from . import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM_LIMIT = 4 << 30


class Outcome:
    """What one simulated run showed; small enough to send between processes."""

    def __init__(self):
        self.message = None
        self.counts = collections.Counter()
        self.states = set()
        self.steps = 0
        self.sim_time = 0.0
        self.trace = ''
        self.events = ''
        self.nontrivial = 0


def seed_of(base, prop, i):
    h = hashlib.blake2b(f'{base}/{prop}/{i}'.encode(), digest_size=6).digest()
    return int.from_bytes(h, 'big')


class Check:
    """One property's deciding machinery. Subclasses generate and execute scenarios."""
    prop = '?'
    quick_runs = 1000
    thorough_runs = 20000
    quick_cap = 150
    thorough_cap = 780
    chunk = 10
    rule = ''
    real = []
    stubs = []
    assumptions = []
    components = 'real'

    def gen(self, seed, tier):
        raise NotImplementedError

    def execute(self, sc):
        raise NotImplementedError

    state_measure = ('distinct (configuration class, queue length capped, busy channels, in system capped, kind of event) '
                     'tuples reached')

    def shrink_moves(self, sc):
        return iter(())

    def first(self, tier, base):
        """Scenarios that come before the generated ones (long runs judged as a whole)."""
        return []

    def scenario(self, tier, base, i):
        if not hasattr(self, '_first'):
            self._first = list(self.first(tier, base))
        if i < len(self._first):
            return copy.deepcopy(self._first[i])
        return self.gen(seed_of(base, self.prop, i - len(self._first)), tier)

    def describe(self, sc):
        return {k: v for k, v in sc.items() if k not in ('streams',)}


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, R.on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    W.install()


def guarded(check, sc):
    """Executes a scenario; an exhausted memory or an escaping error is an outcome, not an end."""
    try:
        return check.execute(sc)
    except MemoryError:
        o = Outcome()
        o.message = 'the simulated system exhausted %d MB of memory' % (MEM_LIMIT >> 20)
        return o
    except R.StepTimeout:
        o = Outcome()
        o.message = 'no progress: the simulated system did not come back'
        return o


def _work(check, tier, base, lo, hi):
    total = Outcome()
    events = set()
    samples = []
    viol = None
    n = 0
    t0 = time.time()
    for i in range(lo, hi):
        sc = check.scenario(tier, base, i)
        o = guarded(check, sc)
        n += 1
        total.counts.update(o.counts)
        total.states |= o.states
        total.steps += o.steps
        total.sim_time += o.sim_time
        if o.nontrivial:
            events.add((o.events, o.trace))
        if i < 2:
            samples.append(check.describe(sc))
        if o.message:
            viol = (i, sc, o.message)
            break
    return n, total, events, samples, viol, time.time() - t0


def cores():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except AttributeError:
        return os.cpu_count() or 1


def search(check, tier, base):
    runs = check.quick_runs if tier == 'quick' else check.thorough_runs
    cap = check.quick_cap if tier == 'quick' else check.thorough_cap
    cap = float(os.environ.get('DST_CAP', cap))
    runs = int(float(os.environ.get('DST_RUNS', runs)))
    t0 = time.time()
    k0 = len(list(check.first(tier, base)))
    runs += k0
    jobs = [(i, i + 1) for i in range(k0)] + [(lo, min(lo + check.chunk, runs)) for lo in range(k0, runs, check.chunk)]
    total, events, samples, viol, n = Outcome(), set(), [], None, 0
    states_seen = total.states
    stopped = None
    ctx = mp.get_context('fork')
    k = cores()
    it = iter(jobs)
    ex = cf.ProcessPoolExecutor(k, mp_context=ctx, initializer=_init_worker)
    try:
        pend = collections.deque()

        def refill():
            while len(pend) < 3 * k:
                try:
                    lo, hi = next(it)
                except StopIteration:
                    return
                pend.append((lo, ex.submit(_work, check, tier, base, lo, hi)))
        refill()
        while pend:
            lo, fut = pend.popleft()
            try:
                m, out, evs, smp, v, _ = fut.result()
            except cf.process.BrokenProcessPool:
                viol = (lo, check.scenario(tier, base, lo),
                        'the process running the simulated system was killed')
                break
            n += m
            total.counts.update(out.counts)
            states_seen |= out.states
            total.steps += out.steps
            total.sim_time += out.sim_time
            events |= evs
            samples += smp
            if v:
                viol = v
                break
            if time.time() - t0 > cap:
                stopped = 'time cap of %d s' % cap
                break
            refill()
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:  # noqa
                pass
    return dict(n=n, total=total, events=events, samples=samples, viol=viol, wall=time.time() - t0, stopped=stopped,
                planned=runs)


def failure_class(msg):
    """A crash may only be simplified to the same crash, a broken rule to a broken rule."""
    if msg.startswith('crash: '):
        head, _, place = msg.rpartition('(')
        return head.split(':')[1], place
    return 'no progress' in msg


def shrink(check, sc, message, budget_s=25, budget_n=500):
    """Greedy minimisation: keep any simpler scenario that still violates the property."""
    t0 = time.time()
    n = 0
    best, msg = sc, message
    progress = True
    while progress and time.time() - t0 < budget_s and n < budget_n:
        progress = False
        for cand in check.shrink_moves(best):
            if time.time() - t0 > budget_s or n >= budget_n:
                break
            n += 1
            try:
                o = guarded(check, copy.deepcopy(cand))
            except Exception:  # noqa  a move may produce something invalid
                continue
            if o.message and failure_class(o.message) == failure_class(message):
                best, msg = cand, o.message
                progress = True
                break
    return best, msg, n


def write_replay(check, sc, message, base, tier, index, orig):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    o = guarded(check, copy.deepcopy(sc))
    path = os.path.join(d, f'{check.prop}-seed{base}-run{index}.json')
    with open(path, 'w') as f:
        json.dump({'property': check.prop, 'seed': base, 'tier': tier, 'run': index, 'message': o.message or message,
                   'digest': o.trace, 'scenario': sc, 'original_scenario': orig,
                   'how': './check replay ' + os.path.relpath(path, VERIF)}, f, indent=1)
    return os.path.relpath(path, VERIF)


def confirm(path, tries=2):
    """Whether a fresh process that knows only the replay file shows the violation."""
    for _ in range(tries):
        try:
            r = subprocess.run([os.path.join(VERIF, 'check'), 'replay', path], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=100)
        except subprocess.TimeoutExpired:
            return True           # it hangs there as well
        if r.returncode != 0:
            return True
    return False


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data['findings'] if k['property'] == prop]


def scratch(fn):
    """Runs fn with one scratch directory for whatever it (and its killed workers) leave behind."""
    def inner(*a):
        old = tempfile.tempdir
        tempfile.tempdir = tempfile.mkdtemp(prefix='dst-')
        try:
            return fn(*a)
        finally:
            shutil.rmtree(tempfile.tempdir, ignore_errors=True)
            tempfile.tempdir = old
    return inner


@scratch
def run_check(check, tier, base):
    t0 = time.time()
    signal.signal(signal.SIGALRM, R.on_alarm)
    W.install()
    known = []
    for k in load_known(check.prop):
        o = guarded(check, copy.deepcopy(k['scenario']))
        if o.message:
            print(f'KNOWN-FINDING: property={check.prop} {k["what"]}')
            known.append(k['what'])
    s = search(check, tier, base)
    viol = s['viol']
    status = 0
    violations = 0
    if viol:
        i, sc, msg = viol
        violations = 1
        small, smsg, tried = (sc, msg, 0)
        if 'process running' not in msg and 'no progress' not in msg:
            small, smsg, tried = shrink(check, sc, msg)
        path = write_replay(check, small, smsg, base, tier, i, sc)
        again = confirm(path)
        if not again and small is not sc:
            small, smsg, tried = sc, msg, 0
            path = write_replay(check, small, smsg, base, tier, i, sc)
            again = confirm(path)
        print(f'run {i}: {smsg}' + ('' if again else ' (the replay in a fresh process did not show it again)'))
        print(f'minimised with {tried} runs: {json.dumps(check.describe(small))[:600]}')
        print(f'VIOLATION property={check.prop} replay={path}')
        status = 1
    t = s['total']
    wall = time.time() - t0
    hours = max(s['wall'], 1e-6) / 3600
    faults = {k: int(v) for k, v in sorted(t.counts.items())}
    samples = s['samples'][:3] or [{'note': 'no run completed'}]
    ev = {
        'property': check.prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': s['n'],
            'distinct_nontrivial': len(s['events']),
            'rule': check.rule,
            'samples': samples,
            'simulated_runs': s['n'],
            'planned_runs': s['planned'],
            'stopped_early': s['stopped'],
            'runs_per_hour': round(s['n'] / hours),
            'seeds_per_hour': round(s['n'] / hours),
            'events_simulated': t.steps,
            'simulated_time_units': t.sim_time,
            'faults_injected_and_conditions_reached': faults,
            'distinct_states': len(t.states),
            'state_measure': check.state_measure,
            'real_components': check.real,
            'stubbed_components': check.stubs,
            'known_findings_reproduced': known,
            'cores': cores(),
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 3),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{check.prop}: {s["n"]} runs, {t.steps} events, {len(s["events"])} distinct histories, '
          f'{len(t.states)} states, {wall:.1f} s' + (', VIOLATED' if status else ', held'))
    return status


@scratch
def replay(registry, path):
    with open(path) as f:
        d = json.load(f)
    signal.signal(signal.SIGALRM, R.on_alarm)
    W.install()
    check = registry(d['property'])
    o = guarded(check, copy.deepcopy(d['scenario']))
    print('recorded:', d['message'])
    print('now:     ', o.message)
    same = o.message == d['message'] and o.trace == d['digest']
    print('identical execution:', same)
    if o.message:
        print(f'VIOLATION property={check.prop} replay={path}')
        return 1
    return 0
