"""Families of simulated systems: how to generate, build and observe them."""
from . import observe
from .gen import ScGen
from .oracles import Oracle, fail, TimeFractions, Conservation, Moments, BusyPeriods, Arrivals, \
    ServiceAsDrawn, FifoNoIdling, Renewal, Pool
from .world import close


class Family:
    """A single-node simulator with one class of jobs and one queue."""
    name = '?'
    batches = False
    tracker_cls = observe.Tracker

    # ---- generation
    def gen(self, seed, prop, tier):
        raise NotImplementedError

    def base_sc(self, g, steps, **cfg):
        return {'family': self.name, 'seed': g.seed & 0x7fffffffffff, 'cfg': cfg, 'steps': steps,
                'streams': g.streams, 'regime': g.regime}

    def build(self, sc):
        raise NotImplementedError

    def shrink_cfg(self, sc):
        """Simpler configurations of the same family."""
        import copy
        cfg = sc['cfg']
        if cfg.get('n', 1) > 1:
            c = copy.deepcopy(sc)
            c['cfg']['n'] -= 1
            yield c
        if cfg.get('buffer') is not None:
            c = copy.deepcopy(sc)
            c['cfg']['buffer'] = None
            yield c
            if cfg['buffer'] > 1:
                c = copy.deepcopy(sc)
                c['cfg']['buffer'] -= 1
                yield c

    # ---- observation
    def snap(self, sim):
        return observe.snap_queueing(sim)

    def make_tracker(self, sc):
        return observe.Tracker()

    def pending(self, sim):
        out = list(observe.tup(sim.arrival_time))
        out += [c.time_to_end_service for c in sim.servers]
        for ph in ('warm_phase', 'cold_phase', 'cold_delay_phase'):
            p = getattr(sim, ph, None)
            if p is not None:
                out.append(p.end_time)
        return out

    def p_count(self, run):
        return len(run.prev.in_sys)

    def n_classes(self, sim):
        return 1

    def occupancy(self, run):
        return (run.cur.busy + run.cur.nq,)

    def touched(self, run):
        return (True,)

    def raw_p(self, sim):
        return (sim.p,)

    def get_p(self, sim):
        return (sim.get_p(),)

    def p_divisor(self, sim):
        return sim.ttek

    def source_roles(self, sc):
        return ['src']

    def is_arrival(self, run, k):
        return run.ev.d_arr[k] > 0

    def service_role(self, run, job, chan):
        return 'srv'

    def departures(self, run):
        t = run.cur.t
        return [(j.cls, t - j.arr) for j in run.ev.left_srv]

    def waits(self, run):
        """(waits of jobs that started now, total waits of jobs that departed now)"""
        a = [(j.cls, j.wait) for j, _, _ in run.ev.started if j.starts == 1]
        b = [(j.cls, j.wait) for j in run.ev.left_srv]
        return a, b

    def reported_v(self, sim):
        return (sim.v,)

    def reported_w(self, sim):
        return (sim.w,)

    def check_balance(self, run):
        ev, cur = run.ev, run.cur
        if len(cur.in_sys) != 1:
            return
        gone = len(ev.left_srv)
        if ev.left_q:
            fail('%r vanished from the queue at t=%.12g', ev.left_q[0], cur.t)
        self.balance(run, 0, gone, 0)

    def balance(self, run, k, gone, reneged):
        ev, cur = run.ev, run.cur
        new = sum(1 for j in ev.new if j.cls == k)
        inside = sum(1 for j in run.tracker.alive.values() if j.cls == k)
        t = cur.t
        refused = ev.d_drop[k] - reneged
        if ev.d_srv[k] != gone + reneged:
            fail('%d jobs left after service at t=%.12g, reported %d', gone + reneged, t, ev.d_srv[k])
        if refused < 0 or new + refused != ev.d_arr[k]:
            fail('%d arrived at t=%.12g, but %d entered and %d were refused', ev.d_arr[k], t, new, refused)
        if cur.in_sys[k] != inside:
            fail('%d jobs in the system, %d of them to be found (t=%.12g)', cur.in_sys[k], inside, t)
        out = cur.served[k] + cur.dropped[k] - run.fam.reneged_total(run)
        if cur.arrived[k] != out + cur.in_sys[k]:
            fail('arrived %d != served %d + refused %d + in system %d (t=%.12g)', cur.arrived[k], cur.served[k],
                 cur.dropped[k], cur.in_sys[k], t)
        if run.count_refused is not None and refused:
            run.count('refusals', refused)

    def started(self, run):
        pass

    def kind(self, run):
        """Short name of what happened in the step."""
        ev = run.ev
        k = ''
        if sum(ev.d_arr):
            k += 'A'
            if sum(ev.d_drop) - len(ev.left_q) > 0:
                k += 'r'
        if ev.left_srv:
            k += 'S'
        if ev.left_q:
            k += 'L'
        if ev.interrupted:
            k += 'P'
        if ev.started:
            k += 's%d' % len(ev.started)
        return k or 'ph'

    def coverage(self, run):
        """Counts the timing faults and workload extremes that actually happened."""
        ev, prev, cur = run.ev, run.prev, run.cur
        c = run.counts
        dt = cur.t - prev.t
        if dt == 0:
            c['simultaneous_events'] += 1
        if dt > 1e8:
            c['clock_jumps_beyond_1e8'] += 1
        if sum(ev.d_drop):
            c['refused_or_left'] += sum(ev.d_drop)
        if ev.interrupted:
            c['preemptions'] += len(ev.interrupted)
        if ev.left_q:
            c['impatient_departures'] += len(ev.left_q)
        for j, _, end in ev.started:
            if end == cur.t:
                c['zero_length_services'] += 1
        if cur.nq > 20:
            c['steps_with_backlog_over_20'] += 1
        run.nontrivial += len(ev.new)

    def digest(self, run):
        c = run.cur
        return repr((c.t, c.arrived, c.served, c.dropped, c.in_sys, c.end, c.nq)).encode()

    def reneged_total(self, run):
        return 0

    def state_key(self, run):
        """Abstract state for the coverage measure."""
        c = run.cur
        return (self.name, min(c.nq, 6), c.busy, tuple(min(x, 8) for x in c.in_sys), run.ev_kind())
