"""C16 and C17: several simulators at once; one simulator cut, observed, copied, restored."""
import copy
import hashlib
import pickle
import random
import signal
import sys
import threading
import traceback

from . import run as R
from . import world as W
from .engine import Check, Outcome
from .simcheck import REAL, STUB, protect, shrink_streams
from .world import Violation

MODULES = ['most_queue.rand_distribution', 'most_queue.sim.qs_sim', 'most_queue.sim.batch_sim',
           'most_queue.sim.impatient_queue_sim', 'most_queue.sim.queue_finite_source_sim',
           'most_queue.sim.priority_queue_sim', 'most_queue.sim.priority_network', 'most_queue.sim.fj_sim',
           'most_queue.sim.fj_delta_sim', 'most_queue.sim.flow_sum_sim', 'most_queue.sim.utils.servers',
           'most_queue.sim.utils.tasks', 'most_queue.sim.utils.phase', 'most_queue.sim.utils.qs_queue',
           'most_queue.sim.utils.stats_update', 'most_queue.sim.utils.distribution_utils']

_pristine = None


def simple(v):
    return isinstance(v, (int, float, str, list, dict, set, tuple, type(None))) and not isinstance(v, bool) or \
        isinstance(v, bool)


def import_state():
    """Class and module variables as they are right after import."""
    import importlib
    global _pristine
    if _pristine is not None:
        return
    _pristine = []
    for name in MODULES:
        try:
            m = importlib.import_module(name)
        except ImportError:
            continue
        spaces = [m] + [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == name]
        for sp in spaces:
            for k, v in list(vars(sp).items()):
                if k.startswith('__') or not simple(v):
                    continue
                try:
                    _pristine.append((sp, k, copy.deepcopy(v)))
                except Exception:  # noqa
                    pass


def restart():
    """What a new process starts from: class and module variables back to their initial values."""
    for sp, k, v in _pristine:
        cur = vars(sp).get(k)
        if isinstance(v, list) and isinstance(cur, list):
            cur[:] = copy.deepcopy(v)
        elif isinstance(v, (dict, set)) and isinstance(cur, type(v)):
            cur.clear()
            cur.update(copy.deepcopy(v))
        else:
            setattr(sp, k, copy.deepcopy(v))


def make_world(sub):
    return W.RealWorld(sub) if sub.get('real') else W.World(sub)


def signature(fam, sim):
    """Everything a user can see of a simulator, bit for bit."""
    s = fam.snap(sim)
    nodes = getattr(s, 'nodes', None)
    return repr((s.t, s.arrived, s.served, s.dropped, s.in_sys, s.end, [x is None for x in s.srv], s.nq,
                 [(len(x) if isinstance(x, list) else (x.t, x.arrived, x.served, x.nq)) for x in nodes or ()],
                 fam.pending(sim), fam.reported_v(sim), fam.reported_w(sim), getattr(sim, 'ppnz', None),
                 getattr(sim, 'ppnz_moments', None), getattr(sim, 'taked', None)))


def final(fam, sim):
    return repr([[(j, x) for j, x in enumerate(p) if x] for p in fam.raw_p(sim)])


def total_served(sim):
    s = sim.served
    return sum(s) if isinstance(s, (list, tuple)) else s


def digest(x):
    return hashlib.blake2b(x.encode(), digest_size=12).hexdigest()


def solo(fam, sub, with_served=False):
    """The run a simulator makes on its own: signatures after building and after every event."""
    w = make_world(sub)
    W.set_world(None)
    W.activate(w)
    try:
        sim = fam.build(sub)
        out = [signature(fam, sim)]
        served = [total_served(sim)]
        for _ in range(sub['steps']):
            w.begin()
            sim.run_one_step()
            out.append(signature(fam, sim))
            served.append(total_served(sim))
        end = final(fam, sim)
    finally:
        W.deactivate(w)
    return (out, end, served) if with_served else (out, end)


def differs(what, ref, got):
    for i, (a, b) in enumerate(zip(ref, got)):
        if a != b:
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            lo = max(0, k - 60)
            return '%s: after event %d the state is not that of the undisturbed run: ...%s... instead of ...%s...' % (
                what, i, b[lo:k + 60], a[lo:k + 60])
    if len(got) != len(ref):
        return '%s: %d events recorded instead of %d' % (what, len(got) - 1, len(ref) - 1)
    return None


class MultiCheck(Check):
    real = REAL
    stubs = STUB

    def __init__(self, prop, fams, rule, quick, thorough, assumptions=()):
        self.prop = prop
        self.fam = {f.name: f for f in fams}
        self.rule = rule
        self.quick_runs, self.thorough_runs = quick, thorough
        self.assumptions = list(assumptions)
        self.real = REAL
        W.install()
        import_state()

    def sub(self, r, seed, real=None):
        f = r.choice(list(self.fam.values()))
        sc = f.gen(seed, self.prop, 'quick')
        sc['steps'] = min(sc['steps'], r.choice([20, 40, 80]))
        sc['real'] = (r.random() < 0.35) if real is None else real
        if sc['real']:
            self.realistic(r, sc)
        return sc

    def realistic(self, r, sc):
        """With the real distributions: parameters that make a loaded system."""
        for role, st in sc['streams'].items():
            if 'params' not in st:
                continue
            st['real_note'] = True

    def twin(self, r, sc, seed):
        """The same model with other random draws."""
        c = copy.deepcopy(sc)
        c['seed'] = seed & 0x7fffffffffff
        for st in c['streams'].values():
            v = st['vals']
            keep = min(v) if v[0] > 0 else 0
            r.shuffle(v)
            if v[0] <= 0:
                v[0] = 0.5
            st['vals'] = v
        m = c['cfg'].get('m', 1)
        if 'src' in c['streams']:
            for i in range(min(m, len(c['streams']['src']['vals']))):
                if c['streams']['src']['vals'][i] <= 0:
                    c['streams']['src']['vals'][i] = 0.5
        for k, st in c['streams'].items():
            if k.startswith('src') and st['vals'][0] <= 0:
                st['vals'][0] = 0.5
        if 'u' in c:
            r.shuffle(c['u'])
        return c

    def execute(self, sc):
        o = Outcome()
        h = hashlib.blake2b(digest_size=12)
        protect(lambda: self.body(sc, o, h), o, 2 * R.STEP_LIMIT_S)
        o.trace = o.events = h.hexdigest()
        return o

    def describe(self, sc):
        d = {k: v for k, v in sc.items() if k != 'subs'}
        d['subs'] = [{'family': s['family'], 'cfg': s['cfg'], 'steps': s['steps'], 'real': s.get('real'),
                      'streams': {r: {'type': t.get('type'), 'style': t.get('style')} for r, t in s['streams'].items()}}
                     for s in sc['subs']]
        return d


# ------------------------------------------------------------------------------------------------- C16

class Baton:
    """Real threads under a seeded scheduler: one runs at a time, preempted between any two lines."""

    def __init__(self, seed, n, prob):
        self.rng = random.Random(seed)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.worlds = [None] * n
        self.switches = 0
        self.prob = prob
        self.done = threading.Semaphore(0)
        self.trace = hashlib.blake2b(digest_size=12)
        self.points = 0
        self.me = threading.local()

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(W.REPO):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line':
            self.points += 1
            if self.rng.random() < self.prob:
                self.switch()
        return self.local

    def switch(self):
        me = self.me.i
        others = sorted(self.alive)
        nxt = others[self.rng.randrange(len(others))]
        if nxt == me:
            return
        self.switches += 1
        self.trace.update(bytes([nxt]))
        W.deactivate(self.worlds[me])
        self.sems[nxt].release()
        self.sems[me].acquire()
        W.activate(self.worlds[me])

    def thread(self, i, fn):
        self.me.i = i
        self.sems[i].acquire()
        W.activate(self.worlds[i])
        sys.settrace(self.tracer)
        try:
            fn(i)
        finally:
            sys.settrace(None)
            W.deactivate(self.worlds[i])
            self.alive.discard(i)
            if self.alive:
                a = sorted(self.alive)
                self.sems[a[self.rng.randrange(len(a))]].release()
            else:
                self.done.release()


class Isolation(MultiCheck):
    state_measure = 'distinct (mode, set of simulators) pairs'
    def gen(self, seed, tier):
        r = random.Random(seed)
        k = r.choice([2, 2, 3, 4])
        subs = []
        for i in range(k):
            s = (seed * 31 + i * 7919) & 0x7fffffffffff
            if subs and r.random() < 0.4:
                subs.append(self.twin(r, r.choice(subs), s))
            else:
                subs.append(self.sub(r, s))
        mode = r.choice(['steps', 'steps', 'threads'])
        if mode == 'threads':
            for s in subs:
                s['steps'] = min(s['steps'], 40)
        return {'family': 'multi', 'seed': seed & 0x7fffffffffff, 'subs': subs, 'mode': mode,
                'sched': r.getrandbits(31), 'prob': r.choice([0.5, 0.1, 0.02]), 'first': r.choice(['solo', 'together'])}

    def body(self, sc, o, h):
        fams = [self.fam[s['family']] for s in sc['subs']]
        if sc['first'] == 'solo':
            ref = [solo(f, s) for f, s in zip(fams, sc['subs'])]
            got = self.together(sc, fams, o)
        else:
            got = self.together(sc, fams, o)
            ref = [solo(f, s) for f, s in zip(fams, sc['subs'])]
        for i, (a, b) in enumerate(zip(ref, got)):
            name = '%s simulator %d of %d, %s' % (sc['subs'][i]['family'], i + 1, len(ref), sc['mode'])
            if isinstance(b, Exception):
                raise Violation('%s: crashed with %s: %s' % (name, type(b).__name__, b))
            msg = differs(name, a[0], b[0])
            if msg:
                raise Violation(msg)
            if a[1] != b[1]:
                raise Violation('%s: final state probabilities are not those of the undisturbed run' % name)
            h.update(a[0][-1].encode())
            o.steps += len(b[0]) - 1
            o.nontrivial += 1
        o.counts['runs_' + sc['mode']] += 1
        for s in sc['subs']:
            o.counts['runs_' + ('real_distributions' if s.get('real') else 'tapes')] += 1
        o.states.add(hash((sc['mode'], tuple(sorted(s['family'] for s in sc['subs'])))))

    def together(self, sc, fams, o):
        if sc['mode'] == 'threads':
            return self.threads(sc, fams, o)
        r = random.Random(sc['sched'])
        worlds = [make_world(s) for s in sc['subs']]
        sims = [None] * len(fams)
        out = [[] for _ in fams]
        todo = {i: s['steps'] for i, s in enumerate(sc['subs'])}
        last = None
        W.set_world(None)
        while todo:
            i = r.choice(sorted(todo))
            if i != last:
                o.counts['switches'] += 1
                last = i
            W.activate(worlds[i])
            try:
                if sims[i] is None:
                    sims[i] = fams[i].build(sc['subs'][i])
                else:
                    worlds[i].begin()
                    sims[i].run_one_step()
                    todo[i] -= 1
                    if not todo[i]:
                        del todo[i]
            finally:
                W.deactivate(worlds[i])
            out[i].append(signature(fams[i], sims[i]))
        return [(a, final(f, s)) for a, f, s in zip(out, fams, sims)]

    def threads(self, sc, fams, o):
        n = len(fams)
        b = Baton(sc['sched'], n, sc['prob'])
        b.worlds = [make_world(s) for s in sc['subs']]
        res = [None] * n

        def body(i):
            fam, sub = fams[i], sc['subs'][i]
            try:
                sim = fam.build(sub)
                out = [signature(fam, sim)]
                for _ in range(sub['steps']):
                    b.worlds[i].begin()
                    sim.run_one_step()
                    out.append(signature(fam, sim))
                res[i] = (out, final(fam, sim))
            except Exception as e:  # noqa
                res[i] = e
        W.set_world(None)
        ts = [threading.Thread(target=b.thread, args=(i, body), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        b.sems[b.rng.randrange(n)].release()
        b.done.acquire()
        for t in ts:
            t.join()
        o.counts['thread_switches'] += b.switches
        o.counts['preemption_points'] += b.points
        return res

    def shrink_moves(self, sc):
        if len(sc['subs']) > 1:
            for i in range(len(sc['subs'])):
                c = copy.deepcopy(sc)
                del c['subs'][i]
                yield c
        for i, s in enumerate(sc['subs']):
            for k in (s['steps'] // 2, s['steps'] - 1):
                if 0 < k < s['steps']:
                    c = copy.deepcopy(sc)
                    c['subs'][i]['steps'] = k
                    yield c
            for x in self.fam[s['family']].shrink_cfg(s):
                c = copy.deepcopy(sc)
                c['subs'][i] = x
                yield c
        if sc['mode'] == 'threads':
            c = copy.deepcopy(sc)
            c['mode'] = 'steps'
            yield c
        for i, s in enumerate(sc['subs']):
            for x in shrink_streams(s):
                c = copy.deepcopy(sc)
                c['subs'][i] = x
                yield c


# ------------------------------------------------------------------------------------------------- C17

class Undisturbed(MultiCheck):
    state_measure = 'distinct (mode, simulator, kind of generators) tuples'
    def gen(self, seed, tier):
        r = random.Random(seed)
        sub = self.sub(r, seed)
        mode = r.choice(['jobs', 'events', 'observe', 'observe', 'deepcopy', 'pickle', 'mixed'])
        return {'family': 'cut', 'seed': seed & 0x7fffffffffff, 'subs': [sub], 'mode': mode, 'sched': r.getrandbits(31)}

    def body(self, sc, o, h):
        sub = sc['subs'][0]
        fam = self.fam[sub['family']]
        ref, end, served = solo(fam, sub, True)
        r = random.Random(sc['sched'])
        o.counts['runs_' + sc['mode']] += 1
        o.steps += 2 * sub['steps']
        o.nontrivial = 1
        h.update(ref[-1].encode())
        h.update(sc['mode'].encode())
        o.states.add(hash((sc['mode'], sub['family'], sub.get('real'))))
        self.where = sub['family']
        getattr(self, 'do_' + sc['mode'])(sc, sub, fam, ref, end, served, r, o)

    def same(self, fam, sim, ref, i, what):
        got = signature(fam, sim)
        if got != ref[i]:
            raise Violation(differs(what, [ref[i]], [got]).replace('after event 0', 'after event %d' % i))

    def start(self, fam, sub):
        w = make_world(sub)
        W.set_world(None)
        W.activate(w)
        return w, fam.build(sub)

    def counted(self, sim, w):
        step = sim.run_one_step
        n = [0]

        def one():
            n[0] += 1
            w.begin()
            return step()
        sim.run_one_step = one
        return n

    def do_jobs(self, sc, sub, fam, ref, end, served, r, o):
        w, sim = self.start(fam, sub)
        n = self.counted(sim, w)
        goals = sorted(r.choice(served) + r.choice([0, 0, -1]) for _ in range(r.randint(1, 4)))
        for g in goals:
            if g <= 0:
                continue
            want = max(n[0], next(i for i, s in enumerate(served) if s >= g))
            sim.run(g)
            if n[0] != want:
                raise Violation('%s: run(%d) ended after %d events, the %d-th job is finished by event %d' % (
                    self.where, g, n[0], g, want))
            self.same(fam, sim, ref, want, '%s, run() in pieces' % self.where)
            o.counts['cuts'] += 1
        W.deactivate(w)

    def do_events(self, sc, sub, fam, ref, end, served, r, o):
        w, sim = self.start(fam, sub)
        n = self.counted(sim, w)
        i = 0
        while i < sub['steps']:
            k = r.choice([0, 1, 2, r.randint(1, sub['steps'])])
            k = min(k, sub['steps'] - i)
            sim.run(k, False)
            i += k
            if n[0] != i:
                raise Violation('%s: run(%d, False) processed %d events' % (self.where, k, n[0] - i + k))
            self.same(fam, sim, ref, i, '%s, run() in pieces' % self.where)
            o.counts['cuts'] += 1
        self.check_end(fam, sim, end)
        W.deactivate(w)

    def check_end(self, fam, sim, end):
        if final(fam, sim) != end:
            raise Violation('%s: state probabilities are not those of the undisturbed run' % self.where)

    def look(self, fam, sim, r, o, first):
        """Whatever a user may look at."""
        t = sim.ttek
        for what in r.sample(['str', 'short', 'p', 'load', 'phases', 'print'], r.randint(1, 4)):
            o.counts['observations'] += 1
            if what == 'str':
                s = str(sim)
                if not isinstance(s, str) or not s:
                    raise Violation('%s: empty report' % self.where)
            elif what == 'short' and hasattr(type(sim), '__str__') and type(sim).__str__ is not object.__str__:
                try:
                    sim.__str__(True)
                except TypeError:
                    sim.__str__()
            elif what == 'p' and hasattr(sim, 'get_p') and t > 0:
                sim.get_p()
            elif what == 'load' and hasattr(sim, 'calc_load'):
                sim.calc_load()
            elif what == 'phases' and hasattr(sim, 'get_cold_prob') and t > 0:
                sim.get_cold_prob(), sim.get_warmup_prob(), sim.get_cold_delay_prob()
            elif what == 'print':
                print(sim)
                for x in getattr(sim, 'smos', ()):
                    for s in x.servers:
                        str(s)

    def do_observe(self, sc, sub, fam, ref, end, served, r, o):
        w, sim = self.start(fam, sub)
        p = r.choice([0.1, 0.5])
        for i in range(1, sub['steps'] + 1):
            w.begin()
            sim.run_one_step()
            if i == 1 or r.random() < p:
                self.look(fam, sim, r, o, i == 1)
            self.same(fam, sim, ref, i, '%s, inspected on the way' % self.where)
        self.check_end(fam, sim, end)
        W.deactivate(w)

    def do_deepcopy(self, sc, sub, fam, ref, end, served, r, o):
        w, sim = self.start(fam, sub)
        cuts = set(r.sample(range(sub['steps']), min(3, sub['steps'])))
        branches = []
        for i in range(sub['steps'] + 1):
            if i in cuts:
                W.deactivate(w)
                branches.append((i, copy.deepcopy(w), copy.deepcopy(sim)))
                W.activate(w)
                o.counts['copies'] += 1
            if i < sub['steps']:
                w.begin()
                sim.run_one_step()
                self.same(fam, sim, ref, i + 1, '%s, copied on the way (original)' % self.where)
        self.check_end(fam, sim, end)
        W.deactivate(w)
        for i, w2, sim2 in branches:
            W.activate(w2)
            for k in range(i, sub['steps']):
                w2.begin()
                sim2.run_one_step()
                self.same(fam, sim2, ref, k + 1, '%s, copy made at event %d' % (self.where, i))
            self.check_end(fam, sim2, end)
            W.deactivate(w2)

    def do_pickle(self, sc, sub, fam, ref, end, served, r, o):
        w, sim = self.start(fam, sub)
        cuts = set(r.sample(range(sub['steps']), min(3, sub['steps'])))
        for i in range(sub['steps']):
            if i in cuts:
                W.deactivate(w)
                b = pickle.dumps(sim)
                del sim
                restart()
                sim = pickle.loads(b)
                W.activate(w)
                o.counts['crash_restarts'] += 1
                self.same(fam, sim, ref, i, '%s, saved and restored at event %d' % (self.where, i))
            w.begin()
            sim.run_one_step()
            self.same(fam, sim, ref, i + 1, '%s, saved and restored' % self.where)
        self.check_end(fam, sim, end)
        W.deactivate(w)

    def do_mixed(self, sc, sub, fam, ref, end, served, r, o):
        w, sim = self.start(fam, sub)
        i = 0
        while i < sub['steps']:
            what = r.choice(['run', 'step', 'look', 'copy', 'restart'])
            if what == 'run':
                k = min(r.randint(0, 5), sub['steps'] - i)
                sim.run(k, False)
                i += k
            elif what == 'step':
                sim.run_one_step()
                i += 1
            elif what == 'look' and i > 0:
                self.look(fam, sim, r, o, False)
            elif what == 'copy':
                sim = copy.deepcopy(sim)
                o.counts['copies'] += 1
            elif what == 'restart':
                W.deactivate(w)
                b = pickle.dumps(sim)
                restart()
                sim = pickle.loads(b)
                W.activate(w)
                o.counts['crash_restarts'] += 1
            self.same(fam, sim, ref, i, '%s, cut, inspected and copied' % self.where)
        self.check_end(fam, sim, end)
        W.deactivate(w)

    def shrink_moves(self, sc):
        s = sc['subs'][0]
        for k in (s['steps'] // 2, s['steps'] - 1):
            if 0 < k < s['steps']:
                c = copy.deepcopy(sc)
                c['subs'][0]['steps'] = k
                yield c
        for x in self.fam[s['family']].shrink_cfg(s):
            c = copy.deepcopy(sc)
            c['subs'][0] = x
            yield c
        for x in shrink_streams(s):
            c = copy.deepcopy(sc)
            c['subs'][0] = x
            yield c
