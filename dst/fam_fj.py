"""Fork-join, split-join, purging, and parts that start with a delay."""
import math

from .fam_base import *
from .fam_basic import BufferRule


class TaskRec:
    __slots__ = ('seq', 'arr', 'parts', 'done', 'left', 'need')

    def __init__(self, seq, arr, parts, need):
        self.seq, self.arr, self.parts, self.need = seq, arr, parts, need
        self.done = 0
        self.left = None         # moment of departure

    def __repr__(self):
        return f'task {self.seq}(arrived {self.arr:.6g})'


class FjTracker(observe.Tracker):
    """Parts are the jobs; parts seen for the first time in one arrival are one task."""

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.tasks = []
        self.open = []

    def need(self):
        c = self.cfg
        return c['n'] if c['sj'] else c['k']

    def step(self, prev, cur):
        ev = super().step(prev, cur)
        if ev.new:
            task = TaskRec(len(self.tasks), cur.t, list(ev.new), self.need())
            self.tasks.append(task)
            self.open.append(task)
            for j in ev.new:
                j.task = task
        return ev


class Fj(Family):
    name = 'fj'

    def __init__(self, name='fj', kinds=('fj', 'fj', 'purge', 'purge', 'sj')):
        self.name = name
        self.kinds = kinds

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        kind = r.choice(self.kinds)
        k = r.randint(1, n) if kind != 'sj' else n
        if prop == 'C05':
            B = r.choice([0, 0, 1, 2, 3, n, n + 1, 2 * n, 2 * n + 1])
        else:
            B = r.choice([None, None, None, 0, 1, n, 2 * n + 1])
        load = r.choice([0.3, 0.6, 0.9, 1.3])
        g.stream('src', 1.0, 61, 'src', first_positive=True)
        g.stream('srv', load, 67)
        return self.base_sc(g, r.choice([60, 150, 300]), n=n, k=k, sj=kind == 'sj', purge=kind == 'purge', buffer=B)

    def build(self, sc):
        from most_queue.sim.fj_sim import ForkJoinSim
        c, st = sc['cfg'], sc['streams']
        sim = ForkJoinSim(c['n'], c['k'], c['sj'], c['purge'], c['buffer'])
        sim.set_sources(st['src']['params'], st['src']['type'])
        sim.set_servers(st['srv']['params'], st['srv']['type'])
        return sim

    def shrink_cfg(self, sc):
        import copy
        cfg = sc['cfg']
        if cfg.get('buffer') is not None:
            c = copy.deepcopy(sc)
            c['cfg']['buffer'] = None
            yield c
        if cfg['n'] > 1:
            c = copy.deepcopy(sc)
            c['cfg']['n'] -= 1
            if self.name == 'fj':
                c['cfg']['k'] = min(c['cfg']['k'], c['cfg']['n'])
                if c['cfg']['sj']:
                    c['cfg']['k'] = c['cfg']['n']
            yield c
        if cfg['k'] > 1 and not (cfg['sj'] and self.name == 'fj'):
            c = copy.deepcopy(sc)
            c['cfg']['k'] -= 1
            yield c

    def snap(self, sim):
        s = observe.snap_queueing(sim)
        s.nodes = [list(q) for q in sim.queues]
        s.sj = observe.flat_queue(sim.queue)
        return s

    def make_tracker(self, sc):
        return FjTracker(sc['cfg'])

    def stats(self, sim):
        return (tuple(sim.v),)

    def occupancy(self, run):
        return (len(run.tracker.open),)

    def coverage(self, run):
        settle(run)
        super().coverage(run)
        if run.fj_purged:
            run.counts['purged_parts'] += run.fj_purged

    def departures(self, run):
        t = run.cur.t
        return [(0, t - k.arr) for k in run.fj_left]

    def waits(self, run):
        return None, []

    def reported_w(self, sim):
        return None

    def check_balance(self, run):
        ev, cur, t = run.ev, run.cur, run.cur.t
        a = ev.d_arr[0]
        if a not in (0, 1):
            fail('%d tasks arrived in one event at t=%.12g', a, t)
        per = run.tracker.cfg['n'] if run.fam.name == 'fj' else run.tracker.cfg['k']
        if len(ev.new) != per * (a - ev.d_drop[0]):
            fail('%d tasks arrived at t=%.12g and %d were refused, but %d parts entered', a, t, ev.d_drop[0], len(ev.new))
        if ev.d_srv[0] != len(run.fj_left):
            fail('%d tasks departed at t=%.12g, reported %d', len(run.fj_left), t, ev.d_srv[0])
        if cur.in_sys[0] != len(run.tracker.open):
            fail('%d tasks are unfinished at t=%.12g, reported %d in system', len(run.tracker.open), t, cur.in_sys[0])
        if cur.arrived[0] != cur.served[0] + cur.dropped[0] + cur.in_sys[0]:
            fail('arrived %d != served %d + refused %d + in system %d (t=%.12g)', cur.arrived[0], cur.served[0],
                 cur.dropped[0], cur.in_sys[0], t)
        # parts: nothing is lost, whatever the task's fate
        if run.fj_odd:
            j = run.fj_odd[0]
            fail('part of %r vanished at t=%.12g without having been served', j.task, t)
        for k in run.tracker.open:
            here = sum(1 for j in k.parts if j.gone is None)
            if here + k.done != len(k.parts):
                fail('%r has %d parts, %d are done and %d left (t=%.12g)', k, len(k.parts), k.done, here, t)


def settle(run):
    """Which parts were completed, which purged; which tasks departed in this step."""
    ev, t = run.ev, run.cur.t
    tr = run.tracker
    purge = tr.cfg.get('purge')
    run.fj_left, run.fj_odd, run.fj_purged = [], [], 0
    gone = {}
    for j in ev.left_srv + ev.left_q:
        if j.task is None:
            run.fj_odd.append(j)
            continue
        gone.setdefault(id(j.task), (j.task, []))[1].append(j)
    for task, parts in gone.values():
        timely = [j for j in parts if j.how == 's' and close(j.end, t, t)]
        others = [j for j in parts if j not in timely]
        if purge:
            # one part is completed per event; the rest of its task goes with it if that was the k-th
            if timely:
                task.done += 1
            if task.done >= task.need:
                run.fj_purged += len(parts) - 1
            else:
                run.fj_odd += others + timely[1:]
        else:
            task.done += len(timely)
            run.fj_odd += others
        if task.done >= task.need and task.left is None:
            task.left = t
            run.fj_left.append(task)
            tr.open.remove(task)


class FjBuffer(BufferRule):
    def expected(self, run, n_arr, B):
        cfg = run.sc['cfg']
        prev = run.prev
        if B is None or prev.busy == 0:
            return 0
        new = cfg['n'] if cfg['sj'] else prev.busy
        return 1 if prev.nq + new > B else 0


class PartService(Oracle):
    """Parts are served as long as drawn and are not disturbed."""

    def __init__(self, run):
        self.pool = Pool()
        self.pool.feed(run.world.log)

    def step(self, run):
        cur, ev = run.cur, run.ev
        t = cur.t
        self.pool.feed(run.world.log)
        if ev.interrupted:
            fail('a part in service was put back into the queue at t=%.12g', t)
        for j, c, end in ev.started:
            if self.pool.match('srv', end - t, t) is None:
                fail('a part of %r starts at %.12g and is to be served for %.12g, which was not drawn', j.task, t, end - t)
        for c, o in enumerate(cur.srv):
            if o is None:
                continue
            j = run.tracker.jobs[id(o)]
            if not close(cur.end[c], j.end, t):
                fail('a part of %r: end of its running service changed from %.12g to %.12g', j.task, j.end, cur.end[c])
            if j.end < t and not close(j.end, t, t):
                fail('a part of %r is still in its channel at %.12g, its service ended at %.12g', j.task, t, j.end)


class ForkJoin(Oracle):
    def step(self, run):
        cfg = run.sc['cfg']
        ev, cur, prev, t = run.ev, run.cur, run.prev, run.cur.t
        if run.fj_odd:
            fail('a part of %r vanished at %.12g before its service was complete', run.fj_odd[0].task, t)
        if ev.d_srv[0] != len(run.fj_left):
            fail('%d tasks have their last needed part done at t=%.12g, %d departed', len(run.fj_left), t, ev.d_srv[0])
        if ev.d_arr[0] and not ev.d_drop[0] and len(ev.new) != cfg['n']:
            fail('the task arriving at %.12g split into %d parts for %d channels', t, len(ev.new), cfg['n'])
        if cfg['sj']:
            self.split_join(run, cfg, ev, cur, prev, t)
        else:
            self.fork_join(run, cfg, ev, cur, prev, t)

    def fork_join(self, run, cfg, ev, cur, prev, t):
        jobs = run.tracker.jobs
        if ev.new:
            for c in range(cfg['n']):
                own = [j for j in ev.new if j.loc == ('s', c) or any(o is j.obj for o in cur.nodes[c])]
                if len(own) != 1:
                    fail('channel %d got %d parts of the task arriving at %.12g', c, len(own), t)
                own[0].chan = c
                if prev.srv[c] is None and own[0].loc == 'q':
                    fail('a part waits for the free channel %d at %.12g', c, t)
        for j, c, _ in ev.started:
            if j.chan != c:
                fail('a part of channel %s started in channel %d at %.12g', j.chan, c, t)
            for o in cur.nodes[c]:
                if jobs[id(o)].seq < j.seq:
                    fail('a part of %r started in channel %d at %.12g, before a part of %r', j.task, c, t,
                         jobs[id(o)].task)
        for c in range(cfg['n']):
            if cur.nodes[c] and cur.srv[c] is None:
                fail('channel %d idles at %.12g while %d of its parts wait', c, t, len(cur.nodes[c]))
            for o in cur.nodes[c]:
                if jobs[id(o)].chan != c:
                    fail('a part changed from channel %s to channel %d at %.12g', jobs[id(o)].chan, c, t)
        if cfg['purge']:
            for k in run.fj_left:
                if any(j.gone is None for j in k.parts):
                    fail('%r departed at %.12g, but some of its parts are still there', k, t)

    def split_join(self, run, cfg, ev, cur, prev, t):
        jobs = run.tracker.jobs
        serving = {id(jobs[id(o)].task): jobs[id(o)].task for o in cur.srv if o is not None}
        if len(serving) > 1:
            fail('parts of %d tasks are in service at %.12g', len(serving), t)
        started = {}
        for j, c, _ in ev.started:
            started.setdefault(id(j.task), []).append(j)
        for lst in started.values():
            k = lst[0].task
            if len(lst) != cfg['n']:
                fail('%d of the %d parts of %r started together at %.12g', len(lst), cfg['n'], k, t)
            for w in run.tracker.open:
                if w.seq < k.seq:
                    fail('%r started at %.12g before %r', k, t, w)
        if cur.nq and not cur.busy:
            fail('all channels idle at %.12g while %d parts wait', t, cur.nq)


# ------------------------------------------------------------------------------------------- with delays

class FjdTracker(FjTracker):
    """Parts that have not entered yet are known from the list of future parts."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.future = {}         # id -> Job of a part that has not entered yet
        self.entered = []
        self.first = []

    def need(self):
        return self.cfg['k']

    def step(self, prev, cur):
        ev = observe.Tracker.step(self, prev, cur)
        self.entered, self.first = [], []
        for j in ev.new:
            old = self.future.pop(id(j.obj), None)
            if old is None:
                self.first.append(j)
            else:
                j.task = old.task
                j.task.parts[j.task.parts.index(old)] = j
                self.entered.append(j)
        fresh = []
        there = set()
        for o in cur.future:
            there.add(id(o))
            if id(o) in self.alive:
                ev.dup.append(o)
            elif id(o) in self.jobs:
                ev.back.append(self.jobs[id(o)])
            elif id(o) not in self.future:
                self.future[id(o)] = j = observe.Job(o, -1, 0, cur.t)
                fresh.append(j)
        for i, j in list(self.future.items()):
            if i not in there:       # gone without having entered
                del self.future[i]
                j.gone = cur.t
                j.how = 'f'
                ev.left_q.append(j)
        ev.new = self.first + fresh
        if ev.new:
            task = TaskRec(len(self.tasks), cur.t, list(ev.new), self.need())
            self.tasks.append(task)
            self.open.append(task)
            for j in ev.new:
                j.task = task
        return ev


class Fjd(Fj):
    name = 'fjd'

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 2, 2, 3, 4])
        k = r.choice([1, 2, 2, 3, 4, 5])
        sj = r.random() < 0.45
        load = r.choice([0.3, 0.6, 0.9, 1.3])
        g.stream('src', 1.0 * max(1, k / n), 61, 'src', first_positive=True)
        g.stream('srv', load, 67)
        d = r.choice([0.0, 0.1, 0.5, 0.5, 1.0, 3.0])
        if r.random() < 0.4:
            m = r.choice([0.1, 0.5, 2.0])
            cv2 = r.choice([0.5, 1.0, 1.7])
            d = [m, m * m * (1 + cv2), m ** 3 * (1 + cv2) * (1 + 2 * cv2)]
            g.stream('static', m * 1.5, 53)
            del g.streams['static']['params']
        return self.base_sc(g, r.choice([60, 150, 300]), n=n, k=k, sj=sj, delta=d, purge=False, buffer=None)

    def build(self, sc):
        from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
        c, st = sc['cfg'], sc['streams']
        delta = list(c['delta']) if isinstance(c['delta'], list) else c['delta']
        sim = ForkJoinSimDelta(c['n'], c['k'], delta, c['sj'], buffer=c['buffer'])
        sim.set_sources(st['src']['params'], st['src']['type'])
        sim.set_servers(st['srv']['params'], st['srv']['type'])
        return sim

    def make_tracker(self, sc):
        return FjdTracker(sc['cfg'])

    def pending(self, sim):
        return super().pending(sim) + [x.future_arr_time for x in sim.subtask_arr_queue]


class Delays(Oracle):
    """When each part enters, and that it is served in its turn."""

    def __init__(self, run):
        self.due = {}           # task -> list of entry moments still to come

    def step(self, run):
        cfg, tr = run.sc['cfg'], run.tracker
        ev, cur, t = run.ev, run.cur, run.cur.t
        if run.fj_odd:
            fail('a part of %r vanished at %.12g before its service was complete', run.fj_odd[0].task, t)
        if ev.d_srv[0] != len(run.fj_left):
            fail('%d tasks have all parts done at t=%.12g, %d departed', len(run.fj_left), t, ev.d_srv[0])
        if ev.d_arr[0]:
            if len(tr.first) != 1 and not ev.d_drop[0]:
                fail('%d parts entered with the task arriving at %.12g', len(tr.first), t)
            if len(ev.new) != cfg['k']:
                fail('the task arriving at %.12g has %d parts instead of %d', t, len(ev.new), cfg['k'])
            self.due[ev.new[0].task] = self.delays(run, cfg, t)
        for j in tr.entered:
            due = self.due[j.task]
            m = min(due, key=lambda x: abs(x - t), default=None)
            if m is None or not close(m, t, t):
                fail('a part of %r entered at %.12g, parts are due at %s', j.task, t, due)
            due.remove(m)
            run.count('late_parts_entered')
        for task, due in list(self.due.items()):
            if not due:
                del self.due[task]
                continue
            x = min(due)
            if x < t and not close(x, t, t):
                fail('a part of %r was due at %.12g and has not entered by %.12g', task, x, t)
        self.turns(run, cfg, tr, ev, cur, t)

    def delays(self, run, cfg, t):
        d = cfg['delta']
        if not isinstance(d, list):
            return [t + i * d for i in range(1, cfg['k'])]
        draws = [(r, x) for r, x in run.world.log if isinstance(r, tuple) and r[0] == 'static']
        if len(draws) != cfg['k'] - 1:
            fail('%d delays were drawn for the %d late parts of the task arriving at %.12g', len(draws), cfg['k'] - 1, t)
        var = d[1] - d[0] ** 2
        for i, ((_, kind, key), x) in enumerate(draws, 1):
            # the sum of i delays has i times the mean and i times the variance
            mu, alpha = d[0] / var, i * d[0] ** 2 / var
            if kind != 'Gamma' or len(key) != 2 or abs(key[0] - mu) > 1e-6 * mu or abs(key[1] - alpha) > 1e-6 * alpha:
                fail('the delay of part %d was drawn from %s%s, the sum of %d delays is Gamma(%.9g, %.9g)', i, kind, key, i,
                     mu, alpha)
        return [t + x for _, x in draws]

    def turns(self, run, cfg, tr, ev, cur, t):
        jobs = tr.jobs
        q = [jobs[id(o)] for o in cur.queue]
        if cfg['sj']:
            turn = tr.open[0] if tr.open else None
            for o in cur.srv:
                if o is not None and jobs[id(o)].task is not turn:
                    fail('a part of %r is in service at %.12g, it is the turn of %r', jobs[id(o)].task, t, turn)
            if turn is not None and cur.busy < cfg['n']:
                for j in q:
                    if j.task is turn:
                        fail('a part of %r has entered and waits at %.12g although it is its turn and a channel is free',
                             turn, t)
            return
        if q and cur.busy < cfg['n']:
            fail('%d parts wait at %.12g although a channel is free', len(q), t)
        first = min((j.seq for j in q), default=None)
        if first is not None:
            for j, c, _ in ev.started:
                if j.seq > first:
                    fail('a part of %r started at %.12g before a part that entered earlier', j.task, t)


def delay_buffer_run(cfg):
    """A finite buffer on ForkJoinSimDelta (a recorded finding)."""
    from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
    from .world import seed_globals
    seed_globals(cfg['seed'])
    q = ForkJoinSimDelta(2, 2, 0.1, cfg['sj'], buffer=cfg['buffer'])
    q.set_sources(5.0, 'M')
    q.set_servers(1.0, 'M')
    for i in range(cfg['steps']):
        q.run_one_step()
    if q.dropped == 0 and q.in_sys > 2 + cfg['buffer']:
        return ('fork-join with delays, buffer of %d: nothing is refused with %d tasks in the system' %
                (cfg['buffer'], q.in_sys), cfg['steps'])
    return (None, cfg['steps'])
