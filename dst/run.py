"""One simulated run: build the system from a scenario, step it, watch it."""
import collections
import hashlib
import signal
import traceback

from . import world as W
from .world import Violation, StepTimeout, World

STEP_LIMIT_S = 20      # real seconds without the simulated system coming back


def on_alarm(_s, _f):
    raise StepTimeout()


class Run:
    def __init__(self, fam, sc, oracles):
        self.fam = fam
        self.sc = sc
        self.oracle_classes = oracles
        self.counts = collections.Counter()
        self.states = set()
        self.trace = hashlib.blake2b(digest_size=12)
        self.events = hashlib.blake2b(digest_size=8)
        self.i = -1
        self.steps_done = 0
        self.prev_stats = None
        self.count_refused = None
        self.message = None
        self.sim_time = 0.0
        self.nontrivial = 0

    def count(self, what, n=1):
        self.counts[what] += n

    def ev_kind(self):
        return self._kind

    def execute(self):
        """Runs the scenario. Returns the violation message, or None."""
        sc, fam = self.sc, self.fam
        W.install()
        self.world = World(sc)
        W.set_world(self.world)
        timer = signal.getsignal(signal.SIGALRM) is on_alarm
        try:
            with W.Mute():
                try:
                    self._execute(timer)
                except Violation as e:
                    self.message = str(e)
                except StepTimeout:
                    self.message = 'no progress: the simulated system did not come back within %d s (step %d)' % (
                        STEP_LIMIT_S, self.i)
                except (KeyboardInterrupt, MemoryError):
                    raise
                except Exception as e:  # the system under test crashed (or its state is unreadable)
                    tb = traceback.extract_tb(e.__traceback__)
                    inside = [f for f in tb if f.filename.startswith(W.REPO)]
                    f = inside[-1] if inside else tb[-1]
                    self.message = 'crash at step %d: %s: %s (%s:%s)' % (
                        self.i, type(e).__name__, e, f.filename.split('/')[-1], f.name)
                    self.tb = ''.join(traceback.format_exception(e))
        finally:
            if timer:
                signal.setitimer(signal.ITIMER_REAL, 0)
            W.set_world(None)
        return self.message

    def _execute(self, timer):
        sc, fam, world = self.sc, self.fam, self.world
        if timer:
            signal.setitimer(signal.ITIMER_REAL, STEP_LIMIT_S)
        world.begin()
        self.sim = fam.build(sc)
        self.prev = self.cur = fam.snap(self.sim)
        self.tracker = fam.make_tracker(sc)
        self.ev = None
        fam.started(self)
        oracles = [c(self) for c in self.oracle_classes]
        want_stats = hasattr(fam, 'stats')
        perturb = sc.get('perturb', 0)
        for i in range(sc['steps']):
            self.i = i
            if timer and i % 64 == 0:
                signal.setitimer(signal.ITIMER_REAL, STEP_LIMIT_S)
            world.begin()
            self.sim.run_one_step()
            self.cur = fam.snap(self.sim)
            ev = self.ev = self.tracker.step(self.prev, self.cur)
            if world.unknown:
                raise Violation('a time was drawn from a distribution nobody configured: parameters %s' % (
                    world.unknown[0],))
            self._kind = fam.kind(self)
            fam.coverage(self)
            for o in oracles:
                o.step(self)
            self.steps_done = i + 1
            if want_stats:
                self.prev_stats = fam.stats(self.sim)
            self.trace.update(fam.digest(self))
            self.events.update(self._kind.encode())
            self.states.add(hash(fam.state_key(self)))
            self.prev = self.cur
        for o in oracles:
            o.finish(self)
        self.sim_time = float(self.cur.t)
