"""
The simulated world: every source of nondeterminism of most-queue behind a seam.

 * each random stream (arrival intervals, services, patience, warm-up, ...) is a *tape* of values
   decided by the scenario; distribution objects are recognised by the parameters they were
   configured with, not by how or where the code draws;
 * numpy's global generator and unseeded default_rng() are seeded from the scenario, uniform
   draws of the global generator come from a tape too;
 * time.sleep returns at once, terminal output goes nowhere.

Nothing in /repo is changed: the seams are the module attributes the code already uses.
"""
import math
import os
import random
import sys

REPO = os.environ.get('DST_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


class Violation(Exception):
    """The property under check does not hold in this run."""


class StepTimeout(BaseException):
    """A step of the simulated system did not come back."""


def flat(params):
    """Parameters of a distribution as a flat tuple of floats (the identity of a stream)."""
    out = []

    def rec(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                rec(y)
        elif isinstance(x, np.ndarray):
            for y in x.ravel().tolist():
                rec(y)
        elif isinstance(x, complex):
            out.append(float(x.real))
        else:
            out.append(float(x))
    rec(params)
    return tuple(out)


class World:
    """Tapes and draw log of one simulated run."""

    def __init__(self, sc, namespace=''):
        self.sc = sc
        self.seed = sc['seed']
        self.by_key = {}
        self.vals = {}
        self.pos = {}
        self.log = []            # (role, value) of the current step
        self.unknown = []        # parameters nobody configured
        for role, st in sc['streams'].items():
            if 'params' in st:
                self.by_key[flat(st['params'])] = role
            self.vals[role] = st['vals']
            self.pos[role] = 0
        self.u_vals = sc.get('u', [])
        self.u_pos = 0
        self.fallback = random.Random(self.seed ^ 0x5eed)
        self.draws = 0

    def begin(self):
        self.log = []

    def take(self, role):
        v = self.vals[role]
        i = self.pos[role]
        self.pos[role] = i + 1
        self.draws += 1
        x = float(v[i % len(v)]) if v else 1.0
        self.log.append((role, x))
        return x

    def draw(self, key, obj=None):
        role = self.by_key.get(key)
        if role is None:
            x = self.fallback.uniform(0.1, 2.0)
            self.log.append(('?', x))
            self.unknown.append(key)
            return x
        return self.take(role)

    def draw_static(self, kind, key):
        role = self.by_key.get(key)
        if role is not None:
            return self.take(role)
        if 'static' in self.vals:
            x = self.take('static')
            self.log[-1] = (('static', kind, key), x)
            return x
        return self.draw(key)

    def uniform(self):
        if self.u_vals:
            x = self.u_vals[self.u_pos % len(self.u_vals)]
        else:
            x = self.fallback.random()
        self.u_pos += 1
        return float(x)


class RealWorld:
    """The real distributions, on generators seeded for this simulator alone."""

    def __init__(self, sc):
        self.sc = sc
        self.seed = sc['seed'] & 0x7fffffff
        self.np_state = np.random.RandomState(self.seed).get_state()
        self.py_state = random.Random(self.seed).getstate()
        self.count = 0
        self.unknown = []
        self.log = []

    def begin(self):
        pass


class LogWorld:
    """The real distributions, with a record of what each of them gave."""

    def __init__(self, seed):
        self.seed = seed
        self.depth = 0
        self.seen = {}           # key -> list of (draw index, value)
        self.n = 0
        self.unknown = []
        self.log = []

    def begin(self):
        pass

    def through(self, fn, a, k, key, obj):
        self.depth += 1
        try:
            x = fn(*a, **k)
        finally:
            self.depth -= 1
        if self.depth == 0 and key is not None:
            self.seen.setdefault(key, []).append(x)
            self.n += 1
        return x


def activate(w):
    """Make w the world of whatever runs next; deactivate() before another one takes over."""
    global CURRENT
    if isinstance(w, RealWorld):
        CURRENT = None
        np.random.set_state(w.np_state)
        random.setstate(w.py_state)
        _rng_count[0], _rng_count[1] = w.seed, w.count
    else:
        CURRENT = w


def deactivate(w):
    global CURRENT
    if isinstance(w, RealWorld):
        w.np_state = np.random.get_state()
        w.py_state = random.getstate()
        w.count = _rng_count[1]
    CURRENT = None


CURRENT = None          # the active World, or None: real distributions
_installed = False
_rng_count = [0, 0]     # seed, counter for default_rng


def set_world(w):
    global CURRENT
    CURRENT = w
    if w is not None:
        seed_globals(w.seed)


def seed_globals(seed):
    s = seed & 0x7fffffff
    np.random.seed(s)
    random.seed(s)
    _rng_count[0] = s
    _rng_count[1] = 0


DIST_CLASSES = ['Normal_dist', 'Uniform_dist', 'H2_dist', 'Cox_dist', 'Det_dist', 'Pareto_dist',
                'Erlang_dist', 'Exp_dist', 'Gamma']


def install():
    """Put the seams in place (idempotent)."""
    global _installed
    if _installed:
        return
    _installed = True
    import time
    import tqdm as tq
    tq.tqdm.monitor_interval = 0
    time.sleep = lambda *_a, **_k: None

    import most_queue.rand_distribution as rd

    real_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None:
            _rng_count[1] += 1
            return real_rng([_rng_count[0], _rng_count[1]])
        return real_rng(seed)
    np.random.default_rng = default_rng

    for name in ('rand', 'random', 'random_sample'):
        _wrap_uniform(name)

    for name in DIST_CLASSES:
        cls = getattr(rd, name, None)
        if cls is None:
            continue
        _wrap_class(cls)


def _wrap_uniform(name):
    orig = getattr(np.random, name)

    def f(*a, **k):
        w = CURRENT
        if w is None or a or k or isinstance(w, LogWorld):
            return orig(*a, **k)
        return w.uniform()
    f.__name__ = name
    setattr(np.random, name, f)


def _wrap_class(cls):
    o_init = cls.__init__
    o_gen = cls.generate
    o_static = cls.__dict__.get('generate_static')

    def __init__(self, params, *a, **k):
        o_init(self, params, *a, **k)
        try:
            self._dst_key = flat(params)
        except Exception:  # noqa
            self._dst_key = ('unreadable', repr(params))
    cls.__init__ = __init__

    def generate(self, *a, **k):
        w = CURRENT
        if w is None:
            return o_gen(self, *a, **k)
        if isinstance(w, LogWorld):
            return w.through(o_gen, (self,) + a, k, self._dst_key, self)
        return w.draw(self._dst_key, self)
    cls.generate = generate

    if isinstance(o_static, staticmethod):
        o_sf = o_static.__func__

        def generate_static(*a, **k):
            w = CURRENT
            if w is None:
                return o_sf(*a, **k)
            if isinstance(w, LogWorld):
                return w.through(o_sf, a, k, None, None)
            nums = [x for x in a if isinstance(x, (int, float, np.floating, np.integer))]
            return w.draw_static(cls.__name__, flat(nums))
        cls.generate_static = staticmethod(generate_static)


class Mute:
    """Terminal output of the simulators goes nowhere."""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.null = open(os.devnull, 'w')
        sys.stdout = sys.stderr = self.null
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        self.null.close()


def close(a, b, t=0.0, rel=1e-12):
    """Equal up to rounding of arithmetic on times of size t."""
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-11 + 1e-15 * abs(t)
