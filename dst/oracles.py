"""
Oracles shared by several simulators: invariants checked after every event and checks over the
recorded history. Each raises Violation with what was seen and what had to be seen.
"""
import math

from .world import Violation, close


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


class Oracle:
    def __init__(self, run):
        pass

    def step(self, run):
        pass

    def finish(self, run):
        pass


# ---------------------------------------------------------------------------------------------- C01

class TimeFractions(Oracle):
    """State probabilities = shares of time; clock monotone; events happen when scheduled."""

    def __init__(self, run):
        k = run.fam.p_count(run)
        self.k = k
        self.acc = [dict() for _ in range(k)]
        self.n = [0] * k              # occupancy since the previous event
        self.last = [0.0] * k         # latest event of the class
        self.acc_last = [dict() for _ in range(k)]
        self.pend = run.fam.pending(run.sim)

    def occupancy(self, run):
        return run.fam.occupancy(run)

    def step(self, run):
        t0, t = run.prev.t, run.cur.t
        if not t >= t0:
            fail('clock went back from %.12g to %.12g', t0, t)
        due = min(self.pend)
        if not close(t, due, t):
            fail('event processed at %.12g, but the earliest scheduled one was at %.12g', t, due)
        self.pend = run.fam.pending(run.sim)
        over = min(self.pend)
        if over < t and not close(over, t, t):
            fail('after the event at %.12g something scheduled at %.12g is still due', t, over)
        occ = self.occupancy(run)
        touched = run.fam.touched(run)
        for k in range(self.k):
            a = self.acc[k]
            a[self.n[k]] = a.get(self.n[k], 0.0) + (t - t0)
            self.n[k] = occ[k]
            if self.k == 1 or touched[k]:
                self.last[k] = t
                self.acc_last[k] = dict(a)
        self.compare(run, run.fam.raw_p(run.sim), 1.0)

    def compare(self, run, ps, div):
        t = run.cur.t
        tol = 1e-9 * (t + 1e-3) / div if div else 0
        for k in range(self.k):
            p = ps[k]
            top = max(self.acc[k])
            for j in range(0, min(len(p), top + 2)):
                lo = self.acc_last[k].get(j, 0.0) / div
                hi = self.acc[k].get(j, 0.0) / div
                if not (lo - tol <= p[j] <= hi + tol):
                    fail('class %d: time with %d in system is %.12g, reported %.12g%s (t=%.12g)', k, j,
                         hi * div, p[j] * div, '' if div == 1.0 else ' (through get_p)', t)

    def finish(self, run):
        t = run.cur.t
        if t <= 0 or not run.sc.get('full_p', True):
            return
        ps = run.fam.get_p(run.sim)
        if ps is None:
            return
        self.compare(run, ps, run.fam.p_divisor(run.sim))
        for k in range(self.k):
            s = math.fsum(ps[k])
            div = run.fam.p_divisor(run.sim)
            lo, hi = self.last[k] / div, t / div
            if not (lo - 1e-9 <= s <= hi + 1e-9) or any(x < -1e-12 for x in ps[k]):
                fail('class %d: reported probabilities sum to %.12g (or are negative)', k, s)


# ---------------------------------------------------------------------------------------------- C02

class Conservation(Oracle):
    """Every job is in exactly one place, once."""

    def step(self, run):
        ev, cur, fam = run.ev, run.cur, run.fam
        if ev.dup:
            fail('a job is in two places at once at t=%.12g', cur.t)
        if ev.back:
            fail('%r came back after it had left', ev.back[0])
        for j in ev.moved:
            fail('%r jumped from one channel to another', j)
        fam.check_balance(run)


# ---------------------------------------------------------------------------------------------- C04

class Sums:
    """Raw moment sums of a growing sample, with a bound on rounding."""

    def __init__(self):
        self.n = 0
        self.s = [0.0, 0.0, 0.0]
        self.err = [0.0, 0.0, 0.0]

    def add(self, x, t):
        d = 4e-16 * abs(t) + 1e-12 * abs(x)
        self.n += 1
        p = 1.0
        for i in range(3):
            q = p * x
            self.s[i] += q
            p = q
        self.err[0] += d
        self.err[1] += 2 * abs(x) * d + d * d
        self.err[2] += 3 * x * x * d + 3 * abs(x) * d * d + d ** 3

    def mismatch(self, rep):
        """None, or (order, expected, reported)."""
        for i in range(3):
            ref = self.s[i] / self.n if self.n else 0.0
            tol = 1e-9 * abs(ref) + (self.err[i] / self.n if self.n else 0.0) + 1e-15
            try:
                x = float(rep[i])
            except (TypeError, ValueError):
                return i + 1, ref, rep[i]
            if not abs(x - ref) <= tol:
                return i + 1, ref, x
        return None


class Moments(Oracle):
    """
    Reported waiting / sojourn moments are the raw sample moments. Waiting may be counted when a
    job starts or when it departs; whichever it is, it has to be that for the whole run.
    """

    def __init__(self, run):
        k = run.fam.n_classes(run.sim)
        self.k = k
        self.v = [Sums() for _ in range(k)]
        self.wa = [Sums() for _ in range(k)]
        self.wb = [Sums() for _ in range(k)]
        self.dead_a = None
        self.dead_b = None

    def step(self, run):
        t = run.cur.t
        fam = run.fam
        for cls, soj in fam.departures(run):
            self.v[cls].add(soj, t)
        a, b = fam.waits(run)
        if a is not None:
            for cls, x in a:
                self.wa[cls].add(x, t)
        for cls, x in b:
            self.wb[cls].add(x, t)
        self.check(run, a is not None)

    def check(self, run, has_a):
        fam = run.fam
        rv = fam.reported_v(run.sim)
        for k in range(self.k):
            m = self.v[k].mismatch(rv[k])
            if m:
                fail('class %d: sojourn moment %d of the %d departed jobs is %.12g, reported %.12g', k, m[0],
                     self.v[k].n, m[1], m[2])
        rw = fam.reported_w(run.sim)
        if rw is None:
            return
        for k in range(self.k):
            if self.dead_a is None:
                m = self.wa[k].mismatch(rw[k]) if has_a else (0, 0, 0)
                if m:
                    self.dead_a = (k, m, self.wa[k].n, run.i)
            if self.dead_b is None:
                m = self.wb[k].mismatch(rw[k])
                if m:
                    self.dead_b = (k, m, self.wb[k].n, run.i)
        if self.dead_a and self.dead_b:
            k, m, n, _ = max((self.dead_a, self.dead_b), key=lambda d: d[3])
            fail('class %d: waiting moment %d of the %d jobs counted is %.12g, reported %.12g', k, m[0], n,
                 m[1], m[2])


# ---------------------------------------------------------------------------------------------- C07

class BusyPeriods(Oracle):
    """Periods during which all channels are busy: number and moments."""

    def __init__(self, run):
        self.s = Sums()
        self.since = None

    def step(self, run):
        t = run.cur.t
        full = run.cur.busy == run.sc['cfg']['n']
        if self.since is None and full:
            self.since = t
        elif self.since is not None and not full:
            self.s.add(t - self.since, t)
            self.since = None
            run.count('busy_periods')
        if run.sim.ppnz_moments != self.s.n:
            fail('%d busy periods have ended, reported %s (t=%.12g)', self.s.n, run.sim.ppnz_moments, t)
        m = self.s.mismatch(run.sim.ppnz)
        if m:
            fail('busy period moment %d over %d periods is %.12g, reported %.12g (t=%.12g)', m[0], self.s.n, m[1],
                 m[2], t)


# ------------------------------------------------------------------------------------- arrival stream

class Renewal:
    """Arrival times of one stream = cumulative sums of its drawn intervals."""

    def __init__(self, role):
        self.role = role
        self.intervals = []
        self.used = 0
        self.t = 0.0

    def feed(self, log):
        for r, x in log:
            if r == self.role:
                self.intervals.append(x)

    def next(self):
        if self.used >= len(self.intervals):
            return None
        return self.t + self.intervals[self.used]

    def arrive(self, t):
        nx = self.next()
        if nx is None:
            fail('an arrival at %.12g without a drawn interval of stream %s', t, self.role)
        if not close(nx, t, t):
            fail('arrival at %.12g, but the drawn intervals of stream %s put it at %.12g', t, self.role, nx)
        self.used += 1
        self.t = t


class Arrivals(Oracle):
    """Every arrival is spaced by exactly its drawn interval, and none is skipped."""

    def __init__(self, run):
        self.streams = [Renewal(r) for r in run.fam.source_roles(run.sc)]
        for s in self.streams:
            s.feed(run.world.log)

    def step(self, run):
        t = run.cur.t
        for k, s in enumerate(self.streams):
            s.feed(run.world.log)
            if run.fam.is_arrival(run, k):
                s.arrive(t)
            nx = s.next()
            if nx is None:
                fail('no next arrival of stream %s was drawn by t=%.12g', s.role, t)
            if nx < t and not close(nx, t, t):
                fail('arrival of stream %s due at %.12g has not happened by t=%.12g', s.role, nx, t)


# ------------------------------------------------------------------------------------- service as drawn

class Pool:
    """Draws of the streams that have not been attributed to a service yet."""

    def __init__(self):
        self.d = {}

    def feed(self, log):
        for r, x in log:
            self.d.setdefault(r, []).append(x)

    def match(self, role, dur, t):
        lst = self.d.get(role)
        if not lst:
            return None
        i = min(range(len(lst)), key=lambda i: abs(lst[i] - dur))
        return lst.pop(i) if close(lst[i], dur, t) else None


class ServiceAsDrawn(Oracle):
    """Service without interruption: as long as drawn, ends on time, job never leaves early."""

    def __init__(self, run):
        self.pool = Pool()
        self.pool.feed(run.world.log)

    def step(self, run):
        cur, ev = run.cur, run.ev
        t = cur.t
        self.pool.feed(run.world.log)
        if ev.interrupted:
            fail('%r in service was put back into the queue at t=%.12g', ev.interrupted[0], t)
        for j, c, end in ev.started:
            role = run.fam.service_role(run, j, c)
            if self.pool.match(role, end - t, t) is None:
                fail('%r starts at %.12g and is to be served for %.12g, which was not drawn for it (%s)', j, t,
                     end - t, role)
            j.first_dur = end - t
        for j in ev.left_srv:
            if j.end is None or not close(j.end, t, t):
                fail('%r left its channel at %.12g, its service ends at %s', j, t, j.end)
        for c, o in enumerate(cur.srv):
            if o is None:
                continue
            j = run.tracker.jobs[id(o)]
            if not close(cur.end[c], j.end, t):
                fail('%r: end of its running service changed from %.12g to %.12g', j, j.end, cur.end[c])
            if j.end < t and not close(j.end, t, t):
                fail('%r is still in its channel at %.12g, its service ended at %.12g', j, t, j.end)


class FifoNoIdling(Oracle):
    """First come first served; no channel idles while a job waits."""
    idling = True

    def step(self, run):
        cur, ev = run.cur, run.ev
        first = None
        for o in cur.queue:
            j = run.tracker.jobs[id(o)]
            if first is None or j.seq < first.seq:
                first = j
        if first is not None:
            for j, c, _ in ev.started:
                # jobs of one batch arrive together: their order among themselves is free
                if j.seq > first.seq and not (run.fam.batches and j.arr == first.arr):
                    fail('%r started at %.12g although %r still waits', j, cur.t, first)
            if self.idling and cur.busy < len(cur.srv):
                fail('a channel idles at %.12g while %d jobs wait', cur.t, cur.nq)


class FifoOrder(FifoNoIdling):
    """First come first served; channels may rest."""
    idling = False
