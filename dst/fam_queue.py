"""Single-class simulators built on qs_sim: vacations, batches, impatience, finite sources."""
from .fam_base import *
from .fam_basic import BufferRule, Basic

INF = float('inf')


# ------------------------------------------------------------------------------------------- vacations

class Vac(Basic):
    """GI/G/n/r with warm-up, cooling, cooling delay in any combination."""
    name = 'vac'

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 1, 2, 2, 3, 4])
        B = r.choice([1, 1, 2, 3]) if prop == 'C05' else r.choice([None, None, None, 1, 2, 4])
        load = r.choice([0.1, 0.3, 0.5, 0.8, 1.2])
        steps = r.choice([40, 120, 200, 300])
        g.stream('src', 1.0, 61, 'src', first_positive=True)
        g.stream('srv', load * n, 67)
        phases = r.choice([('warm',), ('cold',), ('cold', 'delay'), ('warm', 'cold'), ('warm', 'cold', 'delay'),
                           ('warm', 'cold', 'delay')])
        for ph in phases:
            g.stream(ph, r.choice([0.3, 1.0, 3.0]), 29)
        return self.base_sc(g, steps, n=n, buffer=B, buffer_type=r.choice(['list', 'deque']), phases=list(phases))

    def setup(self, sim, sc):
        super().setup(sim, sc)
        st = sc['streams']
        for ph, name in (('warm', 'set_warm'), ('cold', 'set_cold'), ('delay', 'set_cold_delay')):
            if ph in sc['cfg']['phases']:
                getattr(sim, name)(st[ph]['params'], st[ph]['type'])

    def stats(self, sim):
        return super().stats(sim) + (sim.warm_phase.prob, sim.cold_phase.prob, sim.cold_delay_phase.prob)

    def shrink_cfg(self, sc):
        import copy
        yield from super().shrink_cfg(sc)
        for drop in sc['cfg']['phases']:
            c = copy.deepcopy(sc)
            left = [p for p in c['cfg']['phases'] if p != drop]
            if 'delay' in left and 'cold' not in left:
                continue
            c['cfg']['phases'] = left
            del c['streams'][drop]
            yield c


class VacBuffer(BufferRule):
    """In a vacation phase nobody is in service, so a job that finds waiting jobs and no busy channel waits."""

    def must_wait(self, run):
        p = run.prev
        return p.busy == run.sc['cfg']['n'] or (p.busy == 0 and p.nq > 0)


class Vacations(Oracle):
    """The phase protocol: off / delay / cold / warm, driven by what was observed and drawn."""

    def __init__(self, run):
        self.ph = run.sc['cfg']['phases']
        self.mode = 'up'              # up (serving or warm and idle), delay, cold, warm, off
        if 'warm' in self.ph:
            self.mode = 'off'         # an empty system that has never worked is cold
        self.since = 0.0
        self.due = INF
        self.done = {'warm': 0.0, 'cold': 0.0, 'delay': 0.0}

    def begin(self, run, mode):
        t = run.cur.t
        d = [x for r, x in run.world.log if r == mode]
        if not d:
            fail('the %s phase has to start at t=%.12g, but its length was not drawn', mode, t)
        self.mode, self.since, self.due = mode, t, t + d[-1]
        run.count('phase_' + mode)

    def stop(self, run, mode):
        self.done[self.mode] += run.cur.t - self.since
        self.mode, self.due = mode, INF

    def step(self, run):
        prev, cur, ev = run.prev, run.cur, run.ev
        t, n, ph = cur.t, run.sc['cfg']['n'], self.ph
        if self.due < t and not close(self.due, t, t):
            fail('the %s phase has to end at %.12g, but the next event is at %.12g', self.mode, self.due, t)
        if ev.interrupted:
            fail('a job went back to the queue at %.12g', t)
        arrived, left = sum(ev.d_arr), len(ev.left_srv)
        if arrived:
            self.arrival(run, prev, cur, ev, t, n)
        elif left:
            if self.mode in ('cold', 'warm', 'delay', 'off'):
                fail('a job was served at %.12g, during %s', t, self.mode)
            if cur.busy == 0 and cur.nq == 0 and 'cold' in ph:
                self.begin(run, 'delay' if 'delay' in ph else 'cold')
            elif cur.busy == 0 and cur.nq == 0 and 'warm' in ph:
                self.mode = 'off'
        else:
            self.phase_end(run, prev, cur, ev, t, n)
        if self.mode in ('cold', 'warm', 'delay', 'off') and cur.busy:
            fail('%d jobs are in service at %.12g, during %s', cur.busy, t, self.mode)
        if self.mode == 'up' and cur.nq and cur.busy < n:
            fail('%d jobs wait at %.12g although %d of %d channels are idle and no phase runs', cur.nq, t,
                 n - cur.busy, n)
        if self.mode in ('off', 'delay') and cur.nq:
            fail('%d jobs wait at %.12g and nothing is going on (%s)', cur.nq, t, self.mode)
        drawn = set(r for r, _ in run.world.log if r in ('warm', 'cold', 'delay'))
        if drawn and not (self.mode in drawn and self.since == t):
            fail('a phase (%s) was started at %.12g, the system has to be in: %s', sorted(drawn), t, self.mode)
        self.probs(run, t)

    def arrival(self, run, prev, cur, ev, t, n):
        started = len(ev.started)
        mode = self.mode
        if mode == 'delay':
            self.stop(run, 'up')
            if started != 1:
                fail('a job arriving during the cooling delay at %.12g is not served at once', t)
        elif mode in ('cold', 'warm'):
            if started:
                fail('a job is served at %.12g, during %s', t, mode)
        elif mode == 'off':
            self.begin(run, 'warm')
            if started:
                fail('a job is served at %.12g by a cold system', t)
        elif prev.busy < n:
            if started != 1:
                fail('a job arriving at %.12g is not served at once although a channel is free', t)

    def phase_end(self, run, prev, cur, ev, t, n):
        mode = self.mode
        if mode not in ('delay', 'cold', 'warm') or not close(self.due, t, t):
            fail('something happened at %.12g that is no arrival, no departure, and no end of a phase (%s)', t, mode)
        if mode == 'delay':
            self.stop(run, 'up')
            self.begin(run, 'cold')
            return
        if mode == 'cold' and 'warm' in self.ph:
            self.stop(run, 'off')
            if prev.nq:
                self.begin(run, 'warm')
            return
        self.stop(run, 'up')
        want = min(n, prev.nq)
        if len(ev.started) != want:
            fail('when %s ended at %.12g, %d jobs were started, it had to be %d', mode, t, len(ev.started), want)

    def probs(self, run, t):
        if t <= 0:
            return
        sim = run.sim
        for mode, name in (('warm', 'get_warmup_prob'), ('cold', 'get_cold_prob'), ('delay', 'get_cold_delay_prob')):
            want = self.done[mode] / t
            got = getattr(sim, name)()
            if not abs(want - got) <= 1e-9:
                fail('share of time in completed %s phases is %.12g, %s() gives %.12g (t=%.12g)', mode, want, name,
                     got, t)


# --------------------------------------------------------------------------------------------- batches

class Batch(Basic):
    name = 'batch'
    batches = True

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 1, 2, 3, 4])
        B = r.choice([0, 0, 1, 2, 3, 5]) if prop == 'C05' else r.choice([None, None, None, 0, 1, 2, 5])
        probs = batch_probs(r)
        mean = sum((i + 1) * p for i, p in enumerate(probs))
        load = r.choice([0.3, 0.7, 0.9, 1.2, 2.0])
        g.stream('src', 1.0, 61, 'src', first_positive=True)
        g.stream('srv', load * n / mean, 67)
        sc = self.base_sc(g, r.choice([40, 120, 200]), n=n, buffer=B, probs=probs)
        sc['u'] = g.uvals(71)
        return sc

    def build(self, sc):
        from most_queue.sim.batch_sim import QueueingSystemBatchSim
        c = sc['cfg']
        sim = QueueingSystemBatchSim(c['n'], list(c['probs']), buffer=c['buffer'])
        self.setup(sim, sc)
        return sim


def batch_probs(r):
    k = r.randint(1, 6)
    w = [r.choice([0.0, 1.0, 2.0, r.random()]) for _ in range(k)]
    if not any(w):
        w[-1] = 1.0
    s = sum(w)
    return [x / s for x in w]


class BatchBuffer(BufferRule):
    def expected(self, run, n_arr, B):
        if B is None:
            return 0
        prev = run.prev
        free = len(prev.srv) - prev.busy
        return max(0, n_arr - free - max(0, B - prev.nq))


class WholeBatches(Oracle):
    def step(self, run):
        ev, prev, cur = run.ev, run.prev, run.cur
        b = sum(ev.d_arr)
        t = cur.t
        if b == 0:
            # neither arrival nor departure: an arrival moment without a batch
            if not ev.left_srv:
                fail('at t=%.12g something happened that is no batch and no departure', t)
            return
        probs = run.sc['cfg']['probs']
        if ev.left_srv:
            fail('a batch arrived and a job departed in one event at t=%.12g', t)
        if b > len(probs) or probs[b - 1] <= 0:
            fail('a batch of %d arrived at t=%.12g, such a batch has probability 0', b, t)
        B = run.sc['cfg']['buffer']
        free = len(prev.srv) - prev.busy
        start = min(b, free)
        wait = b - start if B is None else min(b - start, max(0, B - prev.nq))
        got = (len(ev.started), cur.nq - prev.nq, sum(ev.d_drop))
        if got != (start, wait, b - start - wait):
            fail('batch of %d at t=%.12g finds %d free channels and %d waiting (buffer %s): started, queued, refused '
                 'have to be %s, they are %s', b, t, free, prev.nq, B, (start, wait, b - start - wait), got)
        run.count('batches')


def batch_frequencies(tier, base):
    """Batch sizes of runs with the real (seeded) generator against the given probabilities."""
    import random
    r = random.Random(f'{base}/batch')
    for c in range(6 if tier == 'quick' else 48):
        cfg = {'probs': batch_probs(r), 'n': r.randint(1, 3), 'steps': 6000, 'seed': r.getrandbits(31)}
        yield {'kind': 'batch_freq', 'family': 'batch_freq', 'cfg': cfg, 'seed': cfg['seed']}


def batch_freq_run(cfg):
    from . import world as W
    from .stat import chi2_fail
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    W.set_world(None)
    W.seed_globals(cfg['seed'])
    sizes = []
    with W.Mute():
        sim = QueueingSystemBatchSim(cfg['n'], list(cfg['probs']))
        sim.set_sources(1.0, 'M')
        sim.set_servers(50.0, 'M')
        for _ in range(cfg['steps'] * 20):
            if len(sizes) >= cfg['steps']:
                break
            before = sim.arrived
            gone = sim.served
            sim.run_one_step()
            if sim.arrived > before or sim.served == gone:
                sizes.append(sim.arrived - before)
    return chi2_fail(sizes, {i + 1: p for i, p in enumerate(cfg['probs']) if p > 0}, 'batch size'), len(sizes)


# ------------------------------------------------------------------------------------------ impatience

class Imp(Basic):
    name = 'imp'

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 1, 2, 2, 3])
        B = r.choice([0, 1, 2, 3, 5]) if prop == 'C05' else r.choice([None, None, None, 0, 1, 2, 5])
        load = r.choice([0.7, 1.0, 1.5, 3.0])
        g.stream('src', 1.0, 61, 'src', first_positive=True)
        g.stream('srv', load * n, 67)
        g.stream('imp', r.choice([0.2, 1.0, 1.0, 3.0, 10.0]), 59)
        return self.base_sc(g, r.choice([40, 120, 200, 300]), n=n, buffer=B)

    def build(self, sc):
        from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
        c = sc['cfg']
        sim = ImpatientQueueSim(c['n'], buffer=c['buffer'])
        self.setup(sim, sc)
        st = sc['streams']['imp']
        sim.set_impatiens(st['params'], st['type'])
        return sim

    def make_tracker(self, sc):
        return ImpTracker()

    def pending(self, sim):
        return super().pending(sim) + [x.moment_to_leave for x in sim.queue.queue]

    def departures(self, run):
        t = run.cur.t
        return [(0, t - j.arr) for j in run.ev.left_srv + run.ev.left_q]

    def waits(self, run):
        out = [(0, j.wait) for j in run.ev.left_q]
        return ([(0, j.wait) for j, _, _ in run.ev.started] + out, [(0, j.wait) for j in run.ev.left_srv] + out)

    def check_balance(self, run):
        self.balance(run, 0, len(run.ev.left_srv), len(run.ev.left_q))

    def reneged_total(self, run):
        return run.tracker.reneged


class ImpTracker(observe.Tracker):
    reneged = 0

    def step(self, prev, cur):
        ev = super().step(prev, cur)
        self.reneged += len(ev.left_q)
        return ev


class Impatience(Oracle):
    def __init__(self, run):
        self.total = 0

    def step(self, run):
        ev, cur, prev = run.ev, run.cur, run.prev
        t = cur.t
        drawn = [x for r, x in run.world.log if r == 'imp']
        for j in ev.new:
            if drawn:
                j.deadline = t + drawn[-1]
            elif j.loc == 'q':
                fail('%r starts waiting, but no patience was drawn for it', j)
        for j in ev.left_q:
            if j.deadline is None or not close(j.deadline, t, t):
                fail('%r left the queue at %.12g, its patience ends at %.12g', j, t, j.deadline)
        for j, _, _ in ev.started:
            if j.arr != t and j.deadline < t and not close(j.deadline, t, t):
                fail('%r is taken for service at %.12g, after its patience ended at %.12g', j, t, j.deadline)
        for o in cur.queue:
            j = run.tracker.jobs[id(o)]
            if j.deadline < t and not close(j.deadline, t, t):
                fail('%r still waits at %.12g, its patience ended at %.12g', j, t, j.deadline)
        for j in ev.left_srv:
            if not close(j.end, t, t):
                fail('%r in service was lost at %.12g, before its end %.12g', j, t, j.end)
        # the others keep their order
        seq = [run.tracker.jobs[id(o)].seq for o in cur.queue]
        if seq != sorted(seq):
            fail('the order of the waiting jobs changed at t=%.12g: %s', t, seq[:12])
        n_left = len(ev.left_q)
        refused = ev.d_drop[0] - n_left
        if refused < 0 or (refused and not ev.d_arr[0]):
            fail('%d jobs left out of impatience at t=%.12g, %d more count as refused', n_left, t, ev.d_drop[0])


# --------------------------------------------------------------------------------------- finite sources

class Fin(Basic):
    name = 'fin'

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 1, 2, 3])
        m = r.choice([1, 2, 3, 4, 6, 9])
        B = r.choice([0, 0, 1, 1, 2, 3]) if prop == 'C05' else r.choice([None, None, 0, 1, 2, 5])
        load = r.choice([0.3, 1.0, 2.0])
        g.stream('src', float(m), 61, 'src', first_positive=True)
        g.stream('srv', load * n, 67)
        v = g.streams['src']['vals']
        for i in range(m):
            if v[i] <= 0:
                v[i] = 0.25 * (1 + i)
        return self.base_sc(g, r.choice([40, 120, 200, 300]), n=n, m=m, buffer=B)

    def build(self, sc):
        from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
        c = sc['cfg']
        sim = QueueingFiniteSourceSim(c['n'], c['m'], buffer=c['buffer'])
        self.setup(sim, sc)
        return sim

    def pending(self, sim):
        return list(sim.arrival_times) + [c.time_to_end_service for c in sim.servers]

    def shrink_cfg(self, sc):
        import copy
        yield from super().shrink_cfg(sc)
        if sc['cfg']['m'] > 1:
            c = copy.deepcopy(sc)
            c['cfg']['m'] -= 1
            yield c


class FiniteSources(Oracle):
    """Each source: one job at a time, the next one drawn interval after service or refusal."""

    def __init__(self, run):
        self.pend = [x for r, x in run.world.log if r == 'src']
        self.check(run)

    def check(self, run):
        m = run.sc['cfg']['m']
        inside = run.cur.busy + run.cur.nq
        if inside > m:
            fail('%d jobs in the system with %d sources', inside, m)
        if len(self.pend) + inside != m:
            fail('%d sources: %d have a job in the system, %d are preparing one (t=%.12g)', m, inside, len(self.pend),
                 run.cur.t)
        t = run.cur.t
        for x in self.pend:
            if x < t and not close(x, t, t):
                fail('a source was due to send a job at %.12g, and has not by %.12g', x, t)

    def step(self, run):
        ev, t = run.ev, run.cur.t
        refused = sum(ev.d_drop)
        a = sum(ev.d_arr)
        if a > 1:
            fail('%d arrivals in one event at t=%.12g', a, t)
        if a:
            x = min(self.pend) if self.pend else INF
            if not close(x, t, t):
                fail('a job arrived at %.12g, the next source is due at %.12g', t, x)
            self.pend.remove(x)
        free = refused + len(ev.left_srv)
        drawn = [x for r, x in run.world.log if r == 'src']
        if len(drawn) != free:
            fail('%d sources became free at t=%.12g, %d intervals were drawn', free, t, len(drawn))
        self.pend += [t + x for x in drawn]
        self.check(run)
        if refused:
            run.count('refused_sources_continue', refused)


def phases_elsewhere(cfg):
    """set_warm / set_cold on the simulators derived from QueueingSystemSimulator (a recorded finding)."""
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
    from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
    from .world import seed_globals
    seed_globals(cfg['seed'])
    q = {'batch': lambda: QueueingSystemBatchSim(1, [0.5, 0.5]), 'impatience': lambda: ImpatientQueueSim(1),
         'finite': lambda: QueueingFiniteSourceSim(1, 3)}[cfg['sim']]()
    q.set_sources(0.5, 'M')
    q.set_servers(1.0, 'M')
    if cfg['sim'] == 'impatience':
        q.set_impatiens(0.1, 'M')
    getattr(q, 'set_' + cfg['phase'])(5.0, 'D')
    phase = getattr(q, cfg['phase'] + '_phase')
    for i in range(cfg['steps']):
        q.run_one_step()
        if phase.is_start and any(not s.is_free for s in q.servers):
            return ('%s simulator: a job is served during %s, event %d' % (cfg['sim'], cfg['phase'], i + 1), i + 1)
    if not phase.starts_times:
        return ('%s simulator: the %s phase never starts' % (cfg['sim'], cfg['phase']), cfg['steps'])
    return (None, cfg['steps'])
