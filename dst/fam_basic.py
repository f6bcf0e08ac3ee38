"""GI/G/n/r without vacations: qs_sim."""
from .fam_base import *


class BufferRule(Oracle):
    """Refused exactly when the job would have to wait and the buffer is full."""

    def must_wait(self, run):
        return run.prev.busy == run.sc['cfg']['n']

    def step(self, run):
        prev, cur, ev = run.prev, run.cur, run.ev
        B = run.sc['cfg']['buffer']
        n_arr = sum(ev.d_arr)
        refused = sum(ev.d_drop) - len(ev.left_q)
        if n_arr == 0:
            if refused:
                fail('%d jobs refused at t=%.12g without an arrival', refused, cur.t)
            return
        if refused and B is None:
            fail('a job was refused at t=%.12g by an unlimited buffer', cur.t)
        want = self.expected(run, n_arr, B)
        if refused != want:
            fail('%d of %d arrivals refused at t=%.12g, with %d waiting, %d of %d channels busy and a buffer '
                 'of %s it had to be %d', refused, n_arr, cur.t, prev.nq, prev.busy, len(prev.srv), B, want)
        if B is not None and cur.nq > B and cur.nq > prev.nq and not ev.interrupted:
            fail('arrival pushed the number waiting to %d with a buffer of %d (t=%.12g)', cur.nq, B, cur.t)
        if refused:
            run.count('refusals', refused)
        if refused == n_arr:
            self.untouched(run)

    def expected(self, run, n_arr, B):
        if B is None or not self.must_wait(run):
            return 0
        return 1 if run.prev.nq >= B else 0

    def untouched(self, run):
        prev, cur = run.prev, run.cur
        same = [id(a) for a in prev.srv] == [id(a) for a in cur.srv] and prev.end == cur.end and \
            sorted(id(a) for a in prev.queue) == sorted(id(a) for a in cur.queue)
        if not same or prev.in_sys != cur.in_sys or prev.served != cur.served:
            fail('a refused job changed the system at t=%.12g', cur.t)
        v = run.fam.stats(run.sim)
        if run.prev_stats is not None and v != run.prev_stats:
            fail('a refused job changed the statistics at t=%.12g', cur.t)


class Basic(Family):
    name = 'basic'

    def gen(self, seed, prop, tier):
        g = ScGen(seed)
        r = g.rng
        n = r.choice([1, 1, 2, 2, 3, 4, 5])
        if prop in ('C05',):
            B = r.choice([0, 0, 1, 1, 2, 3, 5])
        else:
            B = r.choice([None, None, None, 0, 1, 2, 3, 8])
        load = r.choice([0.3, 0.7, 0.9, 1.1, 1.5, 3.0])
        steps = r.choice([40, 120, 200, 300])
        g.stream('src', 1.0, 61, 'src', first_positive=True)
        g.stream('srv', load * n, 67)
        return self.base_sc(g, steps, n=n, buffer=B, buffer_type=r.choice(['list', 'deque']))

    def build(self, sc):
        from most_queue.sim.qs_sim import QueueingSystemSimulator
        c = sc['cfg']
        sim = QueueingSystemSimulator(c['n'], buffer=c['buffer'], buffer_type=c['buffer_type'])
        self.setup(sim, sc)
        return sim

    def setup(self, sim, sc):
        st = sc['streams']
        sim.set_sources(st['src']['params'], st['src']['type'])
        sim.set_servers(st['srv']['params'], st['srv']['type'])

    def stats(self, sim):
        return (tuple(sim.v), tuple(sim.w), tuple(sim.ppnz), sim.ppnz_moments)
