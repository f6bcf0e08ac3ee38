"""C24: a change of the unit of time changes nothing else.

The same seeded system runs under two clocks whose units differ by a power of two (so that the
scaling itself is exact in floating point), event by event; and every calculator and every law of
the library is asked twice, in two units."""
import copy
import hashlib
import math
import random

import numpy as np

from . import calc as L
from . import multi as X
from . import run as R
from . import world as W
from .engine import Outcome
from .observe import tup
from .simcheck import protect, shrink_streams
from .world import Violation

RATES = {'l', 'mu', 'gamma', 'L'}
TIMES = {'mean', 'dm'}
MOMENTS = {'bw', 'bc', 'bd'}
GAMMAS = {'sp', 'wp', 'pw', 'pc', 'pd', 'warm', 'cold'}


def times(x, f):
    return [times(y, f) for y in x] if isinstance(x, (list, tuple)) else x * f


def moments(m, c):
    if isinstance(m[0], (list, tuple)):
        return [moments(x, c) for x in m]
    return [x * c ** (i + 1) for i, x in enumerate(m)]


def scale_law(kind, params, c):
    """Parameters of the same law with every time c times as long."""
    if kind == 'M':
        return params / c
    if kind == 'D':
        return params * c
    if kind in ('H', 'C'):
        return [params[0], params[1] / c, params[2] / c]
    if kind == 'E':
        return [params[0], params[1] / c]
    if kind == 'Gamma':
        return [params[0] / c, params[1]]
    if kind == 'Pa':
        return [params[0], params[1] * c]
    if kind in ('Uniform', 'Norm'):
        return [params[0] * c, params[1] * c]
    raise ValueError(kind)


def rescale_service(y, c):
    """A service of a network: its rate, the parameters of two phases, or kind, parameters and moments."""
    if not isinstance(y, (list, tuple)):
        return y / c
    if isinstance(y[0], str):
        return [y[0], scale_law(y[0], y[1], c), moments(y[2], c)]
    return scale_law('H', y, c)


def rescale(p, c):
    """Parameters of a model of calc.py in the unit of time 1/c."""
    q = {}
    for k, x in p.items():
        if k in RATES:
            x = times(x, 1.0 / c)
        elif k in TIMES:
            x = x * c
        elif k in MOMENTS:
            x = moments(x, c)
        elif k in ('b', 'a'):
            x = moments(x, c) if isinstance(x, list) else x * c
        elif k in GAMMAS:
            x = scale_law('Gamma', x, c)
        elif k == 'cox':
            x = scale_law('C', x, c)
        elif k == 'params':
            if 'kinds' in p:
                x = [scale_law(t, y, c) for t, y in zip(p['kinds'], x)]
            else:
                x = scale_law(p['kind'], x, c)
        elif k == 'aparams':
            x = scale_law(p['akind'], x, c)
        elif k in ('src', 'svc') and x and isinstance(x[0], dict):
            x = [{'type': y['type'], 'params': scale_law(y['type'], y['params'], c)} for y in x]
        elif k == 'svc':
            x = [[rescale_service(y, c) for y in row] for row in x]
        q[k] = x
    return q


class Clock(W.World):
    """The same tapes on a clock with another unit."""

    def __init__(self, sc, c):
        W.World.__init__(self, sc)
        self.c = c

    def take(self, role):
        x = W.World.take(self, role) * self.c
        self.log[-1] = (role, x)
        return x

    def draw(self, key, obj=None):
        if self.by_key.get(key) is None:
            return W.World.draw(self, key, obj) * self.c
        return W.World.draw(self, key, obj)


def rescaled(sub, c):
    """The scenario of a simulator on the other clock."""
    s = copy.deepcopy(sub)
    d = s['cfg'].get('delta')
    if isinstance(d, list):
        s['cfg']['delta'] = moments(d, c)
    elif d is not None:
        s['cfg']['delta'] = d * c
    if sub.get('real'):
        for st in s['streams'].values():
            if 'params' in st:
                st['params'] = scale_law(st['type'], st['params'], c)
    return s


def nums(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple, np.ndarray)):
        return [z for y in x for z in nums(y)]
    return [float(np.real(x))]


def view(fam, sim):
    """What a user sees after an event: (power of time, number)."""
    s = fam.snap(sim)
    out = [('clock', 1, s.t)] + [('end of service', 1, x) for x in nums(s.end)] + \
        [('pending event', 1, x) for x in nums(fam.pending(sim))]
    for k in ('arrived', 'served', 'dropped', 'in_sys', 'nq'):
        out += [(k, 0, x) for x in nums(getattr(s, k, 0))]
    for j, n in enumerate(getattr(s, 'nodes', None) or ()):
        if hasattr(n, 't'):
            out += [('node %d clock' % j, 1, n.t)] + [('node %d arrived' % j, 0, x) for x in nums(n.arrived)] + \
                [('node %d served' % j, 0, x) for x in nums(n.served)]
    busy = getattr(sim, 'ppnz', None)
    if busy is not None and not isinstance(busy[0], (list, tuple, np.ndarray)):
        busy = (busy,)
    for name, m in (('v', fam.reported_v(sim)), ('w', fam.reported_w(sim)), ('busy period', busy)):
        for k, x in enumerate(m or ()):
            out += [('%s[%d] moment %d' % (name, k, i + 1), i + 1, y) for i, y in enumerate(nums(x))]
    out += [('busy periods', 0, x) for x in nums(getattr(sim, 'ppnz_moments', 0))]
    return out


def final(fam, sim):
    out = []
    for k, p in enumerate(fam.raw_p(sim)):
        out += [('time with %d of class %d' % (j, k), 1, float(x)) for j, x in enumerate(p) if x]
    for k, p in enumerate(fam.get_p(sim) or ()):
        out += [('probability of %d, class %d' % (j, k), 0, float(x)) for j, x in enumerate(p) if x]
    for k in ('get_warmup_prob', 'get_cold_prob', 'get_cold_delay_prob'):
        if hasattr(sim, k):
            try:
                out.append((k, 0, float(getattr(sim, k)())))
            except (AttributeError, ZeroDivisionError):
                pass
    return out


def history(fam, sub, w):
    W.set_world(None)
    W.activate(w)
    try:
        sim = fam.build(sub)
        out = [view(fam, sim)]
        for _ in range(sub['steps']):
            w.begin()
            sim.run_one_step()
            out.append(view(fam, sim))
        out.append(final(fam, sim))
    finally:
        W.deactivate(w)
    return out


def unlike(a, b, c, rel):
    """First number of b which is not that of a in the unit 1/c."""
    if len(a) != len(b):
        return '%d numbers instead of %d' % (len(b), len(a))
    for (name, d, x), (_, _, y) in zip(a, b):
        z = y / c ** d if math.isfinite(y) else y
        if x == z or (x != x and z != z):
            continue
        if not (math.isfinite(x) and math.isfinite(z)) or abs(x - z) > rel * max(abs(x), abs(z)):
            return '%s is %.15g in one unit of time and %.15g in the other' % (name, x, z)
    return None


LAWS = ['M', 'D', 'Gamma', 'E', 'H', 'C', 'Uniform', 'Pa', 'Norm']


def law_numbers(kind, params, mean):
    """Everything a law of the library says of itself: (name, power of time, number)."""
    rd = L.rd()
    cls = {'M': 'Exp_dist', 'Gamma': 'Gamma', 'E': 'Erlang_dist', 'H': 'H2_dist', 'C': 'Cox_dist', 'Uniform': 'Uniform_dist',
           'Pa': 'Pareto_dist', 'Norm': 'Normal_dist', 'D': 'Det_dist'}[kind]
    cls = getattr(rd, cls)
    out = []
    args = params if isinstance(params, list) else [params]
    ts = [mean * x for x in (0.1, 0.37, 0.9, 1.0, 1.3, 2.4, 7.0)]
    if kind in ('Gamma', 'Uniform', 'Norm'):
        call = {'cdf': lambda t: cls.get_cdf(*args, t), 'tail': lambda t: cls.get_tail(*args, t), 'pdf': lambda t: cls.get_pdf(*args, t)}
    elif kind == 'Pa':
        call = {'cdf': lambda t: cls.get_cdf(params, t), 'tail': lambda t: cls.get_tail(params, t), 'pdf': lambda t: cls.get_pdf(t, *params)}
    else:
        call = {'cdf': lambda t: cls.get_cdf(params, t), 'tail': lambda t: cls.get_tail(params, t), 'pdf': lambda t: cls.get_pdf(params, t)}
    for name, f in call.items():
        if not hasattr(cls, 'get_' + name):
            continue
        for t in ts:
            out.append(('%s at %g means' % (name, t / mean), -1 if name == 'pdf' else 0, float(np.real(f(t)))))
    m = None
    if hasattr(cls, 'calc_theory_moments'):
        m = [float(np.real(x)) for x in cls.calc_theory_moments(*args)]
        out += [('moment %d' % (i + 1), i + 1, x) for i, x in enumerate(m)]
    if m and hasattr(cls, 'get_params') and kind not in ('Norm',):
        got = cls.get_params(m)
        dims = {'M': [-1], 'Gamma': [-1, 0], 'E': [0, -1], 'H': [0, -1, -1], 'C': [0, -1, -1], 'Uniform': [1, 1], 'Pa': [0, 1]}[kind]
        for i, (x, d) in enumerate(zip(nums(got), dims)):
            out.append(('fitted parameter %d' % (i + 1), d, x))
    if hasattr(cls, 'get_params_by_mean_and_coev') and kind not in ('E', 'Norm', 'M'):
        cv = 0.45 if kind == 'Uniform' else (1.3 if kind == 'H' else 0.8)
        got = cls.get_params_by_mean_and_coev(mean, cv)
        dims = {'Gamma': [-1, 0], 'H': [0, -1, -1], 'C': [0, -1, -1], 'Uniform': [1, 1], 'Pa': [0, 1]}[kind]
        for i, (x, d) in enumerate(zip(nums(got), dims)):
            out.append(('parameter %d by mean and variation' % (i + 1), d, x))
    return out


# a power of two scales floating-point numbers exactly; long passage-time iterations stop within their relative tolerance
REL = {'M/M/2, three preemptive classes': 1e-5, 'M/PH,M/n, two preemptive classes': 1e-5}
POW = {'a0': 1, 'a1': 2, 'a2': 3}
PURE = {'N', 'Q', 'q1', 'q2', 'pi', 'ready', 'load', 'printed', 'pw', 'pc', 'pd'}


def power(key):
    if key in POW:
        return POW[key]
    if key[0] == 'p' or key in PURE or key.startswith('busy') and key[4:5].isdigit():
        return 0
    if key[0] in 'lx' and key[1:2].isdigit():
        return -1
    return int(key[-1]) if '^' in key else 1


class Units(X.MultiCheck):
    state_measure = 'distinct (simulator, law or model, factor between the units) pairs'
    def __init__(self, *a, **k):
        X.MultiCheck.__init__(self, *a, **k)
        self.models = {**L.MODELS, **L.LOADS, **L.TRAFFIC}

    def gen(self, seed, tier):
        r = random.Random(seed)
        c = r.choice([-1, 1]) * r.choice([1, 3, 6, 10, 10, 14, 20])
        sc = {'family': 'units', 'seed': seed & 0x7fffffffffff, 'pow': c}
        what = r.random()
        if what < 0.75:
            sc['kind'] = 'sim'
            sc['subs'] = [self.sub(r, seed & 0x7fffffffffff)]
        elif what < 0.96:
            name = r.choice(list(self.models))
            sc.update(kind='calc', model=name, params=self.models[name].draw(r), subs=[])
            sc['pow'] = max(-13, min(13, c))
        else:
            k = r.choice(LAWS)
            mean = r.choice([0.01, 1.0, 1.0, 30.0]) * r.uniform(0.5, 2.0)
            kind, params, _ = L.law(r, [k], mean, 0.4, 1.6)
            sc.update(kind='law', law=kind, params=params, mean=mean, subs=[])
        return sc

    def body(self, sc, o, h):
        c = 2.0 ** sc['pow']
        o.counts['runs_' + sc['kind']] += 1
        getattr(self, 'do_' + sc['kind'])(sc, c, o, h)
        o.counts['unit_2^%d' % sc['pow']] += 1

    def do_sim(self, sc, c, o, h):
        sub = sc['subs'][0]
        fam = self.fam[sub['family']]
        other = rescaled(sub, c)
        if sub.get('real'):
            wa, wb = W.RealWorld(sub), W.RealWorld(other)
        else:
            wa, wb = W.World(sub), Clock(other, c)
        a = history(fam, sub, wa)
        b = history(fam, other, wb)
        for i, (x, y) in enumerate(zip(a, b)):
            msg = unlike(x, y, c, 1e-9)
            if msg:
                raise Violation('%s simulator, unit of time divided by 2^%d: after event %d of %d, %s' % (
                    sub['family'], sc['pow'], i, sub['steps'], msg))
        h.update(repr(a[-2]).encode())
        o.steps += 2 * sub['steps']
        o.sim_time += float(a[-2][0][2]) if math.isfinite(a[-2][0][2]) else 0.0
        o.nontrivial = 1
        o.counts['runs_' + ('real_distributions' if sub.get('real') else 'tapes')] += 1
        o.states.add(hash((sub['family'], sc['pow'])))

    def do_law(self, sc, c, o, h):
        a = law_numbers(sc['law'], sc['params'], sc['mean'])
        b = law_numbers(sc['law'], scale_law(sc['law'], sc['params'], c), sc['mean'] * c)
        msg = unlike(a, b, c, 1e-7)
        if msg:
            raise Violation('%s law, unit of time divided by 2^%d: %s' % (sc['law'], sc['pow'], msg))
        h.update(repr(a).encode())
        o.nontrivial = 1
        o.counts['numbers_compared'] += len(a)
        o.states.add(hash((sc['law'], sc['pow'])))

    def do_calc(self, sc, c, o, h):
        model, p = self.models[sc['model']], sc['params']
        W.seed_globals(1)
        a = L.flatten(model.theory(p))
        W.seed_globals(1)
        b = L.flatten(model.theory(rescale(p, c)))
        rel = REL.get(sc['model'], 1e-8)
        if set(a) != set(b):
            raise Violation('%s, unit of time divided by 2^%d: other quantities are calculated: %s' % (
                sc['model'], sc['pow'], sorted(set(a) ^ set(b))))
        for key, x in a.items():
            if key == 'printed':
                continue
            d = power(key.split('[')[0])
            y = b[key] / c ** d
            tol = rel * max(abs(x), abs(y)) + (rel if d == 0 else 0.0) + 1e-300
            if not abs(x - y) <= tol and not (x != x and y != y):
                raise Violation('%s, unit of time divided by 2^%d: calculated %s is %.10g in one unit and %.10g in the other' % (
                    sc['model'], sc['pow'], key, x, y))
        h.update(repr(sorted(a.items())).encode())
        o.nontrivial = 1
        o.counts['numbers_compared'] += len(a)
        o.states.add(hash((sc['model'], sc['pow'])))

    def shrink_moves(self, sc):
        for k in (1, -1, sc['pow'] // 2, sc['pow'] - 1, sc['pow'] + 1):
            if k and abs(k) < abs(sc['pow']):
                yield dict(copy.deepcopy(sc), pow=k)
        if sc['kind'] != 'sim':
            return
        s = sc['subs'][0]
        for k in (s['steps'] // 2, s['steps'] - 1):
            if 0 < k < s['steps']:
                x = copy.deepcopy(sc)
                x['subs'][0]['steps'] = k
                yield x
        for x in self.fam[s['family']].shrink_cfg(s):
            y = copy.deepcopy(sc)
            y['subs'] = [x]
            yield y
        for x in shrink_streams(s):
            y = copy.deepcopy(sc)
            y['subs'] = [x]
            yield y

    def describe(self, sc):
        if sc['kind'] != 'sim':
            return sc
        return X.MultiCheck.describe(self, sc)
