"""Several classes of jobs: priority_queue_sim and priority_network."""
from .fam_base import *
from .fam_basic import BufferRule

PREEMPTIVE = ('PR', 'RS', 'RW')


class Prio(Family):
    name = 'prio'
    kinds = ['No', 'NP', 'PR', 'RS', 'RW']

    def __init__(self, name='prio', kinds=None):
        self.name = name
        if kinds:
            self.kinds = kinds

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 1, 1, 2, 2, 3, 4])
        k = r.choice([1, 2, 2, 3, 3, 4])
        B = r.choice([0, 0, 1, 2, 3, 5]) if prop == 'C05' else r.choice([None, None, None, 0, 1, 2, 4, 8])
        load = r.choice([0.4, 0.8, 1.0, 1.5, 2.5])
        for i in range(k):
            g.stream(f'src{i}', float(k), 41, 'src', first_positive=True)
            g.stream(f'srv{i}', load * n * r.choice([0.5, 1.0, 2.0]), 47)
        warm = prop != 'C05' and r.random() < 0.25
        if warm:
            for i in range(k):
                g.stream(f'warm{i}', load * n * r.choice([0.5, 1.0, 3.0]), 43)
        return self.base_sc(g, r.choice([40, 120, 200, 300]), n=n, k=k, buffer=B, prty=r.choice(self.kinds), warm=warm)

    def build(self, sc):
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        c, st = sc['cfg'], sc['streams']
        sim = PriorityQueueSimulator(c['n'], c['k'], c['prty'], buffer=c['buffer'],
                                     **({'calc_next_event_time': True} if c.get('next') else {}))

        def spec(role):
            return {'type': st[role]['type'], 'params': st[role]['params']}
        sim.set_sources([spec(f'src{i}') for i in range(c['k'])])
        if c.get('warm'):
            sim.set_warm_up([spec(f'warm{i}') for i in range(c['k'])])
        sim.set_servers([spec(f'srv{i}') for i in range(c['k'])])
        return sim

    def make_tracker(self, sc):
        return observe.Tracker(cls_of=lambda o, ev: next((i for i, d in enumerate(ev.d_arr) if d > 0), -1))

    def stats(self, sim):
        return (tuple(map(tuple, sim.v)), tuple(map(tuple, sim.w)))

    def n_classes(self, sim):
        return len(sim.in_sys)

    def occupancy(self, run):
        occ = [0] * len(run.cur.in_sys)
        for j in run.tracker.alive.values():
            if 0 <= j.cls < len(occ):
                occ[j.cls] += 1
        return occ

    def touched(self, run):
        return [a != 0 or b != 0 for a, b in zip(run.ev.d_arr, run.ev.d_srv)]

    def raw_p(self, sim):
        return sim.p

    def get_p(self, sim):
        return sim.get_p()

    def source_roles(self, sc):
        return [f'src{i}' for i in range(sc['cfg']['k'])]

    def service_role(self, run, job, chan):
        if run.sc['cfg'].get('warm') and job.starts == 1 and run.prev.busy == 0 and run.prev.nq == 0:
            run.count('warm_starts')
            return f'warm{job.cls}'
        return f'srv{job.cls}'

    def waits(self, run):
        b = [(j.cls, j.wait) for j in run.ev.left_srv]
        if run.sc['cfg']['prty'] in PREEMPTIVE:
            return None, b
        return [(j.cls, j.wait) for j, _, _ in run.ev.started], b

    def reported_v(self, sim):
        return sim.v

    def reported_w(self, sim):
        return sim.w

    def check_balance(self, run):
        ev, cur = run.ev, run.cur
        if ev.left_q:
            fail('%r vanished from the queue at t=%.12g', ev.left_q[0], cur.t)
        for k in range(len(cur.in_sys)):
            self.balance(run, k, sum(1 for j in ev.left_srv if j.cls == k), 0)
        if sum(cur.in_sys) != cur.busy + cur.nq:
            fail('%d in system, but %d in channels and %d waiting', sum(cur.in_sys), cur.busy, cur.nq)

    def state_key(self, run):
        c = run.cur
        return (run.sc['cfg']['prty'], min(c.nq, 6), c.busy, tuple(min(x, 4) for x in c.in_sys), run.ev_kind())

    def shrink_cfg(self, sc):
        import copy
        yield from super().shrink_cfg(sc)
        if sc['cfg'].get('warm'):
            c = copy.deepcopy(sc)
            c['cfg']['warm'] = False
            c['streams'] = {n: x for n, x in c['streams'].items() if not n.startswith('warm')}
            yield c
        k = sc['cfg']['k']
        for drop in range(k):
            if k == 1:
                break
            c = copy.deepcopy(sc)
            st = c['streams']
            for kind in ('src', 'srv', 'warm') if c['cfg'].get('warm') else ('src', 'srv'):
                left = [st.pop(f'{kind}{i}') for i in range(k)]
                del left[drop]
                for i, x in enumerate(left):
                    st[f'{kind}{i}'] = x
            c['cfg']['k'] -= 1
            yield c


class PrioBuffer(BufferRule):
    def must_wait(self, run):
        p = run.prev
        if p.busy < run.sc['cfg']['n']:
            return False
        if run.sc['cfg']['prty'] not in PREEMPTIVE:
            return True
        k = next(i for i, d in enumerate(run.ev.d_arr) if d > 0)
        return not any(run.tracker.jobs[id(o)].cls > k for o in p.srv if o is not None)


# --------------------------------------------------------------------------- disciplines, on any node

def check_np(jobs_q, started, cls, kind, t, n, busy, where=''):
    """Highest class first (one class for kind 'No'), first come first served, no idling."""
    best = {}
    for j in jobs_q:
        c = 0 if kind == 'No' else cls(j)
        if c not in best or j.seq < best[c].seq:
            best[c] = j
    for j in started:
        c = 0 if kind == 'No' else cls(j)
        for c2, w in best.items():
            if c2 < c or (c2 == c and w.seq < j.seq):
                fail('%r started%s at %.12g although %r waits', j, where, t, w)
    if best and busy < n:
        fail('%d of %d channels idle%s at %.12g while %d jobs wait', n - busy, n, where, t, len(jobs_q))


def check_preemptive(jobs_q, jobs_s, started, interrupted, cls, t, n, where=''):
    top = min((cls(j) for j in jobs_q), default=None)
    if top is not None:
        for j in jobs_s:
            if cls(j) > top:
                w = next(x for x in jobs_q if cls(x) == top)
                fail('%r is in service%s at %.12g while %r of a higher class waits', j, where, t, w)
        if len(jobs_s) < n:
            fail('%d of %d channels idle%s at %.12g while %d jobs wait', n - len(jobs_s), n, where, t, len(jobs_q))
    first = {}
    for w in jobs_q:
        if w in interrupted:
            continue        # in a channel until this very moment
        c = cls(w)
        if c not in first or w.seq < first[c].seq:
            first[c] = w
    for j in started:
        w = first.get(cls(j))
        # of jobs that came at the same moment, an interrupted one may go first or last
        if w is not None and w.seq < j.seq and (w.arr < j.arr or not (w.interrupted or j.interrupted)):
            fail('%r started%s at %.12g although %r of its class came earlier and waits', j, where, t, w)
    for j in interrupted:
        if not any(cls(s) < cls(j) for s in started):
            fail('%r was interrupted%s at %.12g without a job of a higher class taking its place', j, where, t)


class PrioDiscipline(Oracle):
    def step(self, run):
        ev, cur = run.ev, run.cur
        kind, n = run.sc['cfg']['prty'], run.sc['cfg']['n']
        jobs = run.tracker.jobs
        q = [jobs[id(o)] for o in cur.queue]
        started = [j for j, _, _ in ev.started]
        if kind in PREEMPTIVE:
            check_preemptive(q, [jobs[id(o)] for o in cur.srv if o is not None], started, ev.interrupted, job_cls,
                             cur.t, n)
        else:
            check_np(q, started, job_cls, kind, cur.t, n, cur.busy)


def job_cls(j):
    return j.cls


class PrioService(ServiceAsDrawn):
    """Service lengths: as drawn for the job's own class; after an interruption as the discipline says."""

    def step(self, run):
        cur, ev = run.cur, run.ev
        t = cur.t
        kind = run.sc['cfg']['prty']
        self.pool.feed(run.world.log)
        if ev.interrupted and kind not in PREEMPTIVE:
            fail('%r in service was interrupted at t=%.12g', ev.interrupted[0], t)
        for j, c, end in ev.started:
            check_length(self.pool, j, end, t, kind, run.fam.service_role(run, j, c))
            if j.starts > 1:
                run.count('restarts_after_interruption')
                if j.interrupted > 1:
                    run.count('jobs_interrupted_repeatedly')
        for j in ev.left_srv:
            if j.end is None or not close(j.end, t, t):
                fail('%r left its channel at %.12g, its service ends at %s', j, t, j.end)
        for c, o in enumerate(cur.srv):
            if o is None:
                continue
            j = run.tracker.jobs[id(o)]
            if not close(cur.end[c], j.end, t):
                fail('%r: end of its running service changed from %.12g to %.12g', j, j.end, cur.end[c])
            if j.end < t and not close(j.end, t, t):
                fail('%r is still in its channel at %.12g, its service ended at %.12g', j, t, j.end)


def check_length(pool, j, end, t, kind, role):
    d = end - t
    if j.first_dur is None:
        if pool.match(role, d, t) is None:
            fail('%r starts at %.12g and is to be served for %.12g, which was not drawn for it (%s)', j, t, d, role)
        j.first_dur = d
        j.extra = t          # where rounding of first_dur was made
        return
    big = max(abs(t), abs(j.extra or 0))
    if kind == 'PR':
        if not close(d, j.remain, big):
            fail('%r resumes at %.12g for %.12g, %.12g of its service are left', j, t, d, j.remain)
    elif kind == 'RS':
        if pool.match(role, d, t) is None:
            fail('%r restarts at %.12g for %.12g, which is no fresh draw of its own class (%s)', j, t, d, role)
    elif kind == 'RW':
        if not close(d, j.first_dur, big):
            fail('%r restarts at %.12g for %.12g, its full service time is %.12g', j, t, d, j.first_dur)
