"""C21: long seeded simulated runs against the calculators of the same models.

The long run is the deciding object: a simulator of the repository, its real random streams under one
seed, cut into batches; the calculator's number has to lie within the statistical error of the run plus
the known error of the calculator (zero for the exact ones, up to numerical differentiation)."""
import copy
import hashlib
import json
import math
import os
import random
import re

import numpy as np

from . import world as W
from .engine import Check, Outcome
from .simcheck import protect

BATCHES = 25
SIGMAS = 6.0


def rd():
    import most_queue.rand_distribution as m
    return m


def gamma_moments(mean, cv, num=4):
    """Moments of a gamma law with this mean and variation; from the definition."""
    alpha = 1.0 / cv ** 2
    mu = alpha / mean
    out, p = [], 1.0
    for i in range(num):
        p *= (alpha + i) / mu
        out.append(p)
    return out


def gamma_params(mean, cv):
    alpha = 1.0 / cv ** 2
    return [alpha / mean, alpha]


def law(r, kinds, mean, lo=0.5, hi=1.5):
    """A service or interval law of this mean: its notation, parameters and moments (from the definition)."""
    kind = r.choice(kinds)
    if kind == 'M':
        return kind, 1.0 / mean, [math.factorial(k) * mean ** k for k in (1, 2, 3, 4)]
    if kind == 'D':
        return kind, mean, [mean ** k for k in (1, 2, 3, 4)]
    if kind == 'Gamma':
        cv = round(r.uniform(lo, hi), 2)
        return kind, gamma_params(mean, cv), gamma_moments(mean, cv)
    if kind == 'E':
        k = r.randint(2, 6)
        mu = k / mean
        m, p = [], 1.0
        for i in range(4):
            p *= (k + i) / mu
            m.append(p)
        return kind, [k, mu], m
    if kind == 'H':
        y = r.uniform(0.2, 0.8)
        m1, m2 = r.uniform(0.3, 1.0), r.uniform(1.0, 2.0)
        s = mean / (y * m1 + (1 - y) * m2)
        m1, m2 = m1 * s, m2 * s
        return kind, [y, 1 / m1, 1 / m2], [math.factorial(k) * (y * m1 ** k + (1 - y) * m2 ** k) for k in (1, 2, 3, 4)]
    if kind == 'C':
        y, m1, m2 = r.uniform(0.3, 0.9), r.uniform(0.3, 1.0), r.uniform(0.3, 1.0)
        s = mean / (m1 + y * m2)
        m1, m2 = m1 * s, m2 * s
        e1 = [1.0] + [math.factorial(k) * m1 ** k for k in (1, 2, 3, 4)]
        e2 = [1.0] + [math.factorial(k) * m2 ** k for k in (1, 2, 3, 4)]
        both = [sum(math.comb(k, j) * e1[j] * e2[k - j] for j in range(k + 1)) for k in range(5)]
        return kind, [y, 1 / m1, 1 / m2], [(1 - y) * e1[k] + y * both[k] for k in (1, 2, 3, 4)]
    if kind == 'Uniform':
        h = mean * r.uniform(0.2, 0.95)
        a, b = mean - h, mean + h
        return kind, [mean, h], [(b ** (k + 1) - a ** (k + 1)) / ((k + 1) * (b - a)) for k in (1, 2, 3, 4)]
    if kind == 'Norm':
        return kind, [mean, mean * r.uniform(0.03, 0.14)], None
    if kind == 'Pa':
        al = round(r.uniform(5.5, 9.0), r.choice([0, 4]))
        K = mean * (al - 1) / al
        return kind, [al, K], [al * K ** k / (al - k) for k in (1, 2, 3, 4)]
    raise ValueError(kind)


def fits(b, least=0.06):
    """Whether the two-phase fit behind the numerical methods is well conditioned for these moments."""
    f1, f2, f3 = b[0], b[1] / 2, b[2] / 6
    d = (f2 - f1 * f1) / f1 ** 2
    if abs(d) < 1e-9:
        return True
    if abs(d) < least:
        return False
    c1, c0 = (f1 * f2 - f3) / (d * f1 ** 2), (f1 * f3 - f2 * f2) / (d * f1 ** 2)
    s = (complex(c1 * c1 - 4 * c0)) ** 0.5
    return min(((-c1 + s) / 2).real, ((-c1 - s) / 2).real) > 0.02 * f1


def first(x):
    return float(np.real(x[0]))


def second(x):
    return float(np.real(x[1]))


def third(x):
    return float(np.real(x[2]))


def both(name, x, top=2):
    """The first moments of a waiting, sojourn or other time."""
    return {name + ('^%d' % (i + 1) if i else ''): float(np.real(x[i])) for i in range(min(top, len(x)))}


def three(name, x):
    return both(name, x, 3)


def numbers(q):
    """Mean number in the system and in the queue of one channel, from the simulated probabilities."""
    p = [float(np.real(x)) for x in q.get_p()]
    return {'N': math.fsum(i * x for i, x in enumerate(p)), 'Q': math.fsum((i - 1) * x for i, x in enumerate(p) if i > 1)}


def reals(p, k):
    return [float(np.real(x)) for x in list(p)[:k]]


class Model:
    name = '?'
    jobs = 120000
    rel = 0.004          # known error of the calculator (and of its numerical differentiation)
    rel2 = 0.015         # the same for second moments
    rel3 = 0.04          # and third moments
    abs_p = 0.001
    variants = ()        # conditions on the parameters which the cases take in turn

    def gen(self, r):
        raise NotImplementedError

    def ok(self, p):
        """Whether these parameters lie where the calculator's own approximation applies."""
        return True

    def draw(self, r, turn=None):
        want = self.variants[turn % len(self.variants)] if self.variants and turn is not None else None
        while True:
            p = self.gen(r)
            if self.ok(p) and (want is None or want(p)):
                return p

    def sim(self, p):
        raise NotImplementedError

    def read(self, q, p):
        return {**three('w', q.w), **three('v', q.v), 'p': reals(q.get_p(), 8)}

    def theory(self, p):
        raise NotImplementedError

    def tolerance(self, key, p):
        if key[0] == 'p':
            return self.abs_p, 0.0
        return 0.0, (self.rel3 if key.endswith('^3') else self.rel2 if key.endswith('^2') else self.rel)

    def simulate(self, p, jobs, seed):
        """Estimates with standard errors from one long run in batches (the first one warms up), and the time covered."""
        W.seed_globals(seed)
        q = self.sim(p)
        per = max(1, jobs // BATCHES)
        cums = []
        for i in range(BATCHES):
            q.run(per * (i + 1))
            cums.append(flatten(self.read(q, p)))
        out = {}
        for key in cums[-1]:
            c = [d.get(key, 0.0) for d in cums]
            out[key] = mean_se([(i + 1) * c[i] - i * c[i - 1] for i in range(1, BATCHES)])
        return out, float(getattr(q, 'ttek', 0.0))


class Estimate(tuple):
    """Mean and standard error; b: the batches."""
    b = ()

    def __new__(cls, m, se, b):
        self = tuple.__new__(cls, (m, se))
        self.b = b
        return self


def mean_se(b):
    m = math.fsum(b) / len(b)
    return Estimate(m, math.sqrt(math.fsum((x - m) ** 2 for x in b) / (len(b) - 1) / len(b)), b)


def ratio_se(num, den):
    """Ratio of two totals over batches, with its standard error."""
    r = math.fsum(num) / math.fsum(den)
    n = len(num)
    s = math.sqrt(math.fsum((a - r * b) ** 2 for a, b in zip(num, den)) / (n - 1) / n)
    d = math.fsum(den) / n
    return Estimate(r, s / d, [r + (a - r * b) / d for a, b in zip(num, den)])


class Gauge:
    """Steps a simulator and measures, event by event, what its channels do."""

    def __init__(self, systems, counters=None):
        self.systems = systems
        self.counters = counters or (lambda: {})

    def measure(self, q, jobs):
        per = max(1, 2 * jobs // BATCHES)
        rows = []
        for b in range(BATCHES):
            t0, c0 = q.ttek, self.counters()
            busy = [0.0] * len(self.systems)
            for _ in range(per):
                t = q.ttek
                work = [sum(1 for x in s.servers if not x.is_free) for s in self.systems]
                q.run_one_step()
                dt = q.ttek - t
                for i, w in enumerate(work):
                    busy[i] += w * dt
            row = {'busy%d' % i: x / self.systems[i].n for i, x in enumerate(busy)}
            c1 = self.counters()
            row.update({k: c1[k] - c0[k] for k in c1})
            rows.append((q.ttek - t0, row))
        rows = rows[1:]
        den = [t for t, _ in rows]
        return {k: ratio_se([r[k] for _, r in rows], den) for k in rows[0][1]}


def basic(n, lam_or, src, svc, svc_kind, buffer=None):
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    q = QueueingSystemSimulator(n, buffer=buffer)
    q.set_sources(lam_or, src)
    q.set_servers(svc, svc_kind)
    return q


class MG1(Model):
    name = 'M/G/1'
    rel, rel2, rel3 = 0.002, 0.004, 0.012
    variants = [lambda p, k=k: p['kind'] == k for k in ('Gamma', 'Uniform', 'Pa', 'D', 'H', 'M', 'C', 'E')]

    def gen(self, r):
        mean = r.choice([0.01, 0.5, 1.0, 1.0, 3.0, 40.0])
        kind, params, b = law(r, ['M', 'D', 'Gamma', 'Gamma', 'E', 'H', 'C', 'Uniform', 'Uniform', 'Pa'], mean)
        ro = r.uniform(0.2, 0.75)
        return dict(l=ro / mean, kind=kind, params=params, b=b)

    def sim(self, p):
        return basic(1, p['l'], 'M', p['params'], p['kind'])

    def read(self, q, p):
        d = Model.read(self, q, p)
        d.update(both('busy', q.ppnz))
        return d

    def theory(self, p):
        from most_queue.theory import mg1_calc as c
        f = both if p['kind'] == 'Pa' else three          # a power tail: too few moments to estimate more
        t = {**f('w', c.get_w(p['l'], p['b'])), **f('v', c.get_v(p['l'], p['b']))}
        from most_queue.theory.priority_calc import ppnz_calc
        t.update(both('busy', ppnz_calc(p['l'], p['b'], p.get('num', 5))))
        if p['kind'] in ('Gamma', 'Uniform', 'Pa'):
            t['p'] = reals(c.get_p(p['l'], p['b'], 30, p['kind']), 8)
        return t


class MMnr(Model):
    name = 'M/M/n/r'
    rel, rel2, rel3 = 0.002, 0.004, 0.012
    variants = [lambda p: p['r'] < 100 and p['n'] > 1, lambda p: p['n'] == 1, lambda p: p['r'] == 100,
                lambda p: p['l'] == p['n'] * p['mu'], lambda p: p['r'] == 1, lambda p: p['l'] > 1.1 * p['n'] * p['mu']]

    def gen(self, r):
        n = r.randint(1, 6)
        mu = r.choice([0.02, 0.7, 1.0, 1.0, 5.0])
        big = r.random() < 0.4
        ro = r.uniform(0.2, 0.75) if big else r.uniform(0.3, 1.6)
        if not big and r.random() < 0.15:
            ro = 1.0
        return dict(l=ro * n * mu, mu=mu, n=n, r=100 if big else r.randint(1, 12))

    def sim(self, p):
        return basic(p['n'], p['l'], 'M', p['mu'], 'M', p['r'])

    def read(self, q, p):
        d = Model.read(self, q, p)
        pr = q.get_p()
        n, r = p['n'], p['r']
        full = [float(x) for x in pr[:n + r + 1]]
        d['pi'] = full[n + r] if len(full) > n + r else 0.0
        d['Q'] = d['q1'] = sum((i - n) * x for i, x in enumerate(full) if i > n)
        d['q2'] = sum((i - n) * (i - n - 1) * x for i, x in enumerate(full) if i > n)
        return d

    def theory(self, p):
        from most_queue.theory.mmnr_calc import MMnr_calc as c
        a = (p['l'], p['mu'], p['n'], p['r'])
        return {**three('w', c.get_w(*a)), **three('v', c.get_v(*a)), 'p': reals(c.get_p(*a), 8), 'pi': float(c.getPI(*a)),
                'Q': float(c.getQ(*a)), 'q1': float(c.get_qs(*a)[0]), 'q2': float(c.get_qs(*a)[1])}


class MDn(Model):
    name = 'M/D/n'

    def gen(self, r):
        n = r.randint(1, 6)
        b = r.choice([0.05, 1.0, 1.0, 4.0])
        return dict(n=n, b=b, l=n * r.uniform(0.3, 0.75) / b)

    def sim(self, p):
        return basic(p['n'], p['l'], 'M', p['b'], 'D')

    def read(self, q, p):
        return {'p': reals(q.get_p(), 8)}

    def theory(self, p):
        from most_queue.theory.m_d_n_calc import M_D_n
        return {'p': reals(M_D_n(p['l'], p['b'], p['n']).calc_p(), 8)}


class EkDn(Model):
    name = 'Ek/D/n'

    def gen(self, r):
        n = r.randint(1, 4)
        k = r.randint(1, 4)
        b = r.choice([0.05, 1.0, 1.0, 4.0])
        return dict(n=n, k=k, b=b, l=k * n * r.uniform(0.3, 0.75) / b)

    def sim(self, p):
        return basic(p['n'], [p['k'], p['l']], 'E', p['b'], 'D')

    def read(self, q, p):
        return {'p': reals(q.get_p(), 8)}

    def theory(self, p):
        from most_queue.theory.ek_d_n_calc import Ek_D_n
        return {'p': reals(Ek_D_n(p['l'], p['k'], p['b'], p['n']).calc_p(), 8)}


class GiM1(Model):
    name = 'GI/M/1'
    rel, rel2, rel3 = 0.002, 0.004, 0.012
    variants = [lambda p, k=k: p['kind'] == k for k in ('Gamma', 'Pa', 'Gamma', 'M')]

    def gen(self, r):
        mean = r.choice([0.02, 1.0, 1.0, 5.0])
        kind, params, a = law(r, ['Gamma', 'Gamma', 'Pa', 'M'], mean, 0.4, 1.3)
        return dict(kind=kind, params=params, a=a, mu=1.0 / (r.uniform(0.3, 0.75) * mean))

    def sim(self, p):
        return basic(1, p['params'], p['kind'], p['mu'], 'M')

    def theory(self, p):
        from most_queue.theory import gi_m_1_calc as c
        k = 'Pa' if p['kind'] == 'Pa' else 'Gamma'
        return {**three('w', c.get_w(p['a'], p['mu'], approx_distr=k)), **three('v', c.get_v(p['a'], p['mu'], approx_distr=k)),
                'p': reals(c.get_p(p['a'], p['mu'], approx_distr=k), 8), 'pi': reals(c.get_pi(p['a'], p['mu'], approx_distr=k), 8)}

    def simulate(self, p, jobs, seed):
        W.seed_globals(seed)
        q = self.sim(p)
        per = max(1, jobs // BATCHES)
        cums, seen = [], []
        for i in range(BATCHES):
            met = [0] * 8
            while q.served < per * (i + 1):
                n, a = q.in_sys, q.arrived
                q.run_one_step()
                if q.arrived > a and n < 8:
                    met[n] += 1
            cums.append((flatten(self.read(q, p)), q.arrived))
            seen.append(met)
        out = {}
        for key in cums[-1][0]:
            c = [d.get(key, 0.0) for d, _ in cums]
            out[key] = mean_se([(i + 1) * c[i] - i * c[i - 1] for i in range(1, BATCHES)])
        for k in range(8):
            out['pi[%d]' % k] = mean_se([seen[i][k] / (cums[i][1] - cums[i - 1][1]) for i in range(1, BATCHES)])
        return out, float(q.ttek)


class GiMn(GiM1):
    name = 'GI/M/n'

    def gen(self, r):
        d = GiM1.gen(self, r)
        d['n'] = r.randint(1, 5)
        d['mu'] /= d['n']
        return d

    def sim(self, p):
        return basic(p['n'], p['params'], p['kind'], p['mu'], 'M')

    def theory(self, p):
        from most_queue.theory import gi_m_n_calc as c
        k = 'Pa' if p['kind'] == 'Pa' else 'Gamma'
        a = (p['a'], p['mu'], p['n'])
        return {**three('w', c.get_w(*a, approx_distr=k)), **three('v', c.get_v(*a, approx_distr=k)),
                'p': reals(c.get_p(*a, approx_distr=k), 8), 'pi': reals(c.get_pi(*a, approx_distr=k), 8)}


class Impatience(Model):
    name = 'M/M/1 with impatience'
    rel, rel2, rel3 = 0.002, 0.004, 0.012

    def gen(self, r):
        mu = r.choice([0.05, 0.9, 1.0, 4.0])
        return dict(l=mu * r.uniform(0.3, 1.5), mu=mu, gamma=mu * r.uniform(0.1, 1.0))

    def sim(self, p):
        from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
        q = ImpatientQueueSim(1)
        q.set_sources(p['l'], 'M')
        q.set_impatiens(p['gamma'], 'M')
        q.set_servers(p['mu'], 'M')
        return q

    def read(self, q, p):
        return dict(Model.read(self, q, p), **numbers(q))

    def theory(self, p):
        from most_queue.theory import impatience_calc as c
        a = (p['l'], p['mu'], p['gamma'])
        return {'N': float(c.get_N(*a)), 'Q': float(c.get_Q(*a)), 'v': float(c.get_v1(*a)), 'w': float(c.get_w1(*a)), 'p': reals(c.get_p(*a), 8)}


class Batch(Model):
    name = 'M[x]/M/1'
    rel, rel2, rel3 = 0.002, 0.004, 0.012

    def gen(self, r):
        k = r.randint(1, 5)
        x = [r.random() for _ in range(k)]
        s = sum(x)
        probs = [v / s for v in x]
        mean = sum((i + 1) * v for i, v in enumerate(probs))
        mu = r.choice([0.05, 1.0, 1.0, 6.0])
        return dict(probs=probs, mu=mu, l=r.uniform(0.25, 0.7) * mu / mean)

    def sim(self, p):
        from most_queue.sim.batch_sim import QueueingSystemBatchSim
        q = QueueingSystemBatchSim(1, p['probs'])
        q.set_sources(p['l'], 'M')
        q.set_servers(p['mu'], 'M')
        return q

    def read(self, q, p):
        return dict(Model.read(self, q, p), **numbers(q))

    def theory(self, p):
        from most_queue.theory.batch_mm1 import BatchMM1
        c = BatchMM1(p['l'], p['mu'], p['probs'])
        return {'N': float(c.get_N()), 'Q': float(c.get_Q()), 'v': float(c.get_v1()), 'w': float(c.get_w1()), 'p': reals(c.get_p(), 8)}


class Finite(Model):
    name = 'Engset'
    rel, rel2, rel3 = 0.003, 0.006, 0.025

    def gen(self, r):
        mu = r.choice([0.05, 1.0, 1.0, 6.0])
        return dict(m=r.randint(1, 9), mu=mu, l=mu * r.uniform(0.05, 0.8))

    def sim(self, p):
        from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
        q = QueueingFiniteSourceSim(1, p['m'])
        q.set_sources(p['l'], 'M')
        q.set_servers(p['mu'], 'M')
        return q

    def theory(self, p):
        from most_queue.theory.engset_model import Engset
        c = Engset(p['l'], p['mu'], p['m'])
        return {'v': float(c.get_v1()), 'w': float(c.get_w1()), 'p': reals(c.get_p(), p['m'] + 1)[:8],
                **three('wd', c.get_w()), **three('vd', c.get_v()), 'N': float(c.get_N()), 'Q': float(c.get_Q()),
                'ready': float(c.get_kg())}

    def read(self, q, p):
        d = Model.read(self, q, p)
        d.update({**three('wd', q.w), **three('vd', q.v)})
        d.update(numbers(q))
        d['ready'] = 1.0 - d['N'] / p['m']
        return d


class Prio1(Model):
    name = 'M/G/1 with priorities'
    jobs = 100000
    rel, rel2, rel3 = 0.003, 0.006, 0.015
    variants = [lambda p: p['prty'] == 'PR' and p['num'] == 3, lambda p: p['prty'] == 'NP', lambda p: p['prty'] == 'No',
                lambda p: p['prty'] == 'PR' and p['num'] == 2]

    def gen(self, r):
        k = r.randint(2, 3)
        prty = r.choice(['PR', 'NP', 'No'])
        scale = r.choice([0.1, 1.0, 1.0, 5.0])
        b, params, kinds, l = [], [], [], []
        x = [r.uniform(0.5, 1.5) for _ in range(k)]
        ro = r.uniform(0.3, 0.7)
        for i in range(k):
            mean = scale * r.uniform(0.4, 1.6)
            kind, pr, m = law(r, ['Gamma', 'M'], mean, 0.6, 1.3)
            b.append(m)
            params.append(pr)
            kinds.append(kind)
            l.append(ro * x[i] / sum(x) / mean)
        return dict(k=k, prty=prty, b=b, params=params, kinds=kinds, l=l, n=1, moments=r.choice([4, 4, 5]), num=r.choice([2, 3, 3]))

    def sim(self, p):
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        q = PriorityQueueSimulator(p['n'], p['k'], p['prty'])
        q.set_sources([{'type': 'M', 'params': x} for x in p['l']])
        q.set_servers([{'type': t, 'params': x} for t, x in zip(p['kinds'], p['params'])])
        return q

    def read(self, q, p):
        d = {}
        for k in range(p['k']):
            d.update({**three('v%d' % k, q.v[k]), **three('w%d' % k, q.w[k])})
        return d

    def simulate(self, p, jobs, seed):
        if p['prty'] != 'PR' or p['n'] != 1:
            return Model.simulate(self, p, jobs, seed)
        # the wait until the first start of the service, the time from there to the end, and the busy periods of the
        # upper classes are not among the reported statistics: observed
        W.seed_globals(seed)
        q = self.sim(p)
        per = max(1, jobs // BATCHES)
        cums, rows = [], []
        last = None
        K = p['k']
        starts, began = {}, [None] * K

        def note(a, x):
            a[0] += 1
            a[1] += x
            a[2] += x * x
            a[3] += x * x * x
        for i in range(BATCHES):
            sums = {name: [[0, 0.0, 0.0, 0.0] for _ in range(K)] for name in ('first', 'h', 'upper')}
            while sum(q.served) < per * (i + 1):
                done = sum(q.served)
                q.run_one_step()
                if sum(q.served) > done:
                    note(sums['h'][last.k], q.ttek - starts.pop(last))
                ts = q.servers[0].tsk_on_service
                if ts is not None and ts is not last and ts not in starts:
                    starts[ts] = q.ttek
                    note(sums['first'][ts.k], q.ttek - ts.arr_time)
                last = ts
                n = 0
                for k in range(K):
                    n += q.in_sys[k]
                    if n and began[k] is None:
                        began[k] = q.ttek
                    elif not n and began[k] is not None:
                        note(sums['upper'][k], q.ttek - began[k])
                        began[k] = None
            cums.append(flatten(self.read(q, p)))
            rows.append(sums)
        out = {}
        for key in cums[-1]:
            c = [d.get(key, 0.0) for d in cums]
            out[key] = mean_se([(i + 1) * c[i] - i * c[i - 1] for i in range(1, BATCHES)])
        for name in ('first', 'h', 'upper'):
            for k in range(K):
                for j in (1, 2, 3):
                    out['%s%d%s' % (name, k, '^%d' % j if j > 1 else '')] = ratio_se([r[name][k][j] for r in rows[1:]],
                                                                                    [max(r[name][k][0], 1e-9) for r in rows[1:]])
        return out, float(q.ttek)

    def moments(self, p):
        b = [list(x) for x in p['b']]
        if p.get('moments') == 5:
            for k, x in enumerate(b):
                if p['kinds'][k] == 'M':
                    x.append(120.0 * x[0] ** 5)
                else:
                    mu, alpha = p['params'][k]
                    x.append(x[3] * (alpha + 4) / mu)
        return b

    def theory(self, p):
        from most_queue.theory import priority_calc as c
        d = {}
        if p['prty'] == 'PR':
            w1 = c.get_w1_pr(p['l'], p['b'])
            pr = c.calc_pr1(p['l'], self.moments(p), p.get('num', 3))
            kl = c.climov_w_pr_calc(p['l'], p['b'])
            for k in range(p['k']):
                d.update(both('first%d' % k, kl[k]) if p.get('num', 3) == 2 else three('first%d' % k, pr['w'][k]))
            for k in range(p['k']):
                top = p.get('num', 3)
                d.update(both('v%d' % k, pr['v'][k], top))
                d.update(both('w%d' % k, pr['w_with_pr'][k], top))
                d['w%d' % k] = float(w1[k])
                d.update(both('h%d' % k, pr['h'][k], top))
                d.update(both('upper%d' % k, pr['pnz'][k], top))
        elif p['prty'] == 'NP':
            w1 = c.get_w1_np(p['l'], p['b'])
            v = c.get_v_np(p['l'], p['b'])
            for k in range(p['k']):
                d.update(three('v%d' % k, v[k]))
                d.update(three('w%d' % k, c.get_w_np(p['l'], p['b'])[k]))
                d['w%d' % k] = float(w1[k])
        else:
            v, w = c.get_v_mg1_bp(p['l'], p['b']), c.get_w_mg1_bp(p['l'], p['b'])
            for k in range(p['k']):
                d.update(three('v%d' % k, v[k]))
                d.update(three('w%d' % k, w[k]))
        return d


class PrioN(Prio1):
    name = 'M/G/n with priorities (invariants)'
    rel, rel2, rel3 = 0.1, 0.18, 0.35
    variants = [lambda p, k=k: p['prty'] == k for k in ('PR', 'NP', 'No')]

    def ok(self, p):
        for k in range(1, p['k'] + 1):
            s = sum(p['l'][:k])
            if not fits(p['b'][k - 1]) or not fits([sum(p['l'][i] * p['b'][i][j] for i in range(k)) / s for j in range(3)]):
                return False
        return True

    def gen(self, r):
        d = Prio1.gen(self, r)
        d['n'] = r.randint(2, 4)
        for i in range(d['k']):
            d['l'][i] *= d['n']
        return d

    def theory(self, p):
        from most_queue.theory import priority_calc as c
        if p['prty'] == 'No':
            v = c.get_v_MxGn_no_pr(p['l'], p['b'], p['n'])
        else:
            v = c.get_v_prty_invar(p['l'], p['b'], p['n'], p['prty'])
        d = {}
        for k in range(p['k']):
            d.update(three('v%d' % k, v[k]))
        return d


class SplitJoin(Model):
    name = 'split-join'
    variants = [lambda p: p['n'] == 2, lambda p: p['kind'] == 'M', lambda p: p['kind'] == 'E', lambda p: p['kind'] == 'H']
    rel = 0.01
    rel2 = 0.03

    def gen(self, r):
        n = r.randint(2, 5)
        mean = r.choice([0.02, 0.3, 1.0, 1.5, 30.0])
        kind, params, b = law(r, ['M', 'E', 'H'], mean)
        return dict(n=n, kind=kind, params=params, b=b, ro=r.uniform(0.3, 0.7), x=r.random())

    def bmax(self, p):
        from most_queue.theory import fj_calc as c
        return c.getMaxMoments(p['n'], p['b'])

    def rate(self, p):
        # the mean of the maximum, from the definition, decides the load
        rng = np.random.RandomState(int(p['x'] * 1e6))
        return p['ro'] / (p['b'][0] * sum(1.0 / i for i in range(1, p['n'] + 1)) * 1.3)

    def sim(self, p):
        from most_queue.sim.fj_sim import ForkJoinSim
        q = ForkJoinSim(p['n'], p['n'], True)
        q.set_sources(self.rate(p), 'M')
        q.set_servers(p['params'], p['kind'])
        return q

    def read(self, q, p):
        return three('v', q.v)

    def theory(self, p):
        from most_queue.theory import mg1_calc as c
        return three('v', c.get_v(self.rate(p), self.bmax(p)))


class ForkJoin(Model):
    name = 'fork-join M/M'
    variants = [lambda p: p['n'] > 2, lambda p: p['n'] == 2, lambda p: p['n'] > 4]
    rel = 0.02

    def gen(self, r):
        n = r.randint(2, 6)
        mu = r.choice([0.1, 1.0, 1.0, 7.0])
        return dict(n=n, mu=mu, l=mu * r.uniform(0.2, 0.75))

    def sim(self, p):
        from most_queue.sim.fj_sim import ForkJoinSim
        q = ForkJoinSim(p['n'], p['n'], False)
        q.set_sources(p['l'], 'M')
        q.set_servers(p['mu'], 'M')
        return q

    def read(self, q, p):
        v = first(q.v)
        return {'v': v, 'varma': v, 'nt': v, 'vm': v, 'nt_nk': v, 'varma_nk': v}

    def theory(self, p):
        from most_queue.theory import fj_calc as c
        a = (p['l'], p['mu'])
        d = {'varma': c.get_v1_fj_varma(*a, p['n']), 'nt': c.get_v1_fj_nelson_tantawi(*a, p['n']),
             'vm': c.get_v1_fj_varki_merchant(*a, p['n']), 'nt_nk': c.get_v1_fj_nelson_nk(*a, p['n'], p['n']),
             'varma_nk': c.get_v1_varma_nk(*a, p['n'], p['n'])}
        if p['n'] == 2:
            d['v'] = c.get_v1_fj2(*a)
        return d

    def tolerance(self, key, p):
        return (0.0, {'v': 0.002, 'vm': 0.06}.get(key, self.rel))


class ForkJoinK(ForkJoin):
    name = 'fork-join (n, k) M/M'
    variants = [lambda p: p['k'] < p['n'] - 1, lambda p: p['k'] == p['n'] - 1, lambda p: p['k'] == 1, lambda p: p['k'] == p['n']]

    def gen(self, r):
        d = ForkJoin.gen(self, r)
        d['n'] = r.randint(2, 5)
        d['k'] = r.randint(1, d['n'])
        return d

    def sim(self, p):
        from most_queue.sim.fj_sim import ForkJoinSim
        q = ForkJoinSim(p['n'], p['k'], False)
        q.set_sources(p['l'], 'M')
        q.set_servers(p['mu'], 'M')
        return q

    def theory(self, p):
        from most_queue.theory import fj_calc as c
        a = (p['l'], p['mu'], p['n'], p['k'])
        d = {'varma_nk': c.get_v1_varma_nk(*a)}
        if p['k'] >= p['n'] - 1 and p['n'] <= 4:
            d['nt_nk'] = c.get_v1_fj_nelson_nk(*a)
        return d

    def tolerance(self, key, p):
        return (0.0, 0.05 if key == 'nt_nk' else 0.02)


class Warm1(Model):
    name = 'M/G/1 with warm-up'
    rel, rel2, rel3 = 0.002, 0.004, 0.012

    def gen(self, r):
        mean = r.choice([0.1, 1.0, 1.0, 5.0])
        cv, cw = round(r.uniform(0.5, 1.4), 2), round(r.uniform(0.5, 1.4), 2)
        wm = mean * r.uniform(1.0, 2.5)
        return dict(l=r.uniform(0.3, 0.7) / mean, sp=gamma_params(mean, cv), b=gamma_moments(mean, cv),
                    wp=gamma_params(wm, cw), bw=gamma_moments(wm, cw))

    def sim(self, p):
        q = basic(1, p['l'], 'M', p['sp'], 'Gamma')
        q.set_warm(p['wp'], 'Gamma')
        return q

    def theory(self, p):
        from most_queue.theory import mg1_warm_calc as c
        # the calculator takes the whole first service of a busy period: here the warm-up and the service
        e, b = [1.0] + list(p['bw']), [1.0] + list(p['b'])
        first_service = [sum(math.comb(k, j) * e[j] * b[k - j] for j in range(k + 1)) for k in range(1, 5)]
        return three('v', c.get_v(p['l'], p['b'], first_service))


class MGn(Model):
    name = 'M/G/n (Takahashi-Takami)'
    variants = [lambda p: p['n'] > 1, lambda p: p['n'] == 1, lambda p: p['n'] > 2]
    rel = 0.012
    abs_p = 0.003

    def gen(self, r):
        n = r.randint(1, 5)
        mean = r.choice([0.1, 1.0, 1.0, 5.0])
        kind, params, b = law(r, ['Gamma', 'M', 'H', 'E'], mean, 0.6, 1.4)
        return dict(n=n, l=n * r.uniform(0.3, 0.75) / mean, kind=kind, params=params, b=b[:3])

    def sim(self, p):
        return basic(p['n'], p['l'], 'M', p['params'], p['kind'])

    def ok(self, p):
        return fits(p['b'])

    def tolerance(self, key, p):
        if p['kind'] in 'MH':            # the fit is the law itself
            return Model.tolerance(Model, key, p)
        return Model.tolerance(self, key, p)

    def theory(self, p):
        from most_queue.theory.mgn_tt import MGnCalc
        c = MGnCalc(p['n'], p['l'], p['b'])
        c.run()
        return {**three('w', c.get_w()), **three('v', c.get_v()), 'p': reals(c.get_p(), 8)}


class MGnR(MGn):
    name = 'M/G/n/r (Takahashi-Takami)'
    variants = [lambda p: p['n'] > 1, lambda p: p['r'] == 0, lambda p: p['n'] == 1, lambda p: p['l'] * p['b'][0] > p['n']]
    rel2, rel3, abs_p = 0.05, 0.08, 0.012

    def gen(self, r):
        p = MGn.gen(self, r)
        p['l'] *= r.uniform(0.8, 1.9)
        p['r'] = r.choice([0, 1, 2, 3, 5, 10, 30])
        return p

    def sim(self, p):
        return basic(p['n'], p['l'], 'M', p['params'], p['kind'], p['r'])

    def read(self, q, p):
        d = Model.read(self, q, p)
        d['pi'] = float((list(q.get_p()) + [0.0] * 50)[p['n'] + p['r']])
        return d

    def theory(self, p):
        from most_queue.theory.mgn_tt import MGnCalc
        c = MGnCalc(p['n'], p['l'], p['b'], buffer=p['r'])
        c.run()
        return {**three('w', c.get_w()), **three('v', c.get_v()), 'p': reals(c.get_p(), 8),
                'pi': float(np.real(c.get_p()[p['n'] + p['r']]))}


class Vac(Model):
    rel = 0.012
    abs_p = 0.003

    def ok(self, p):
        return all(fits(p[x]) for x in ('b', 'bw', 'bc', 'bd'))

    def phases(self, r, mean):
        d = {}
        for x in ('w', 'c', 'd'):
            m, cv = mean * r.uniform(0.3, 1.5), round(r.uniform(0.7, 1.4), 2)
            d['b' + x] = gamma_moments(m, cv, 3)
            d['p' + x] = gamma_params(m, cv)
        return d

    def gen(self, r):
        n = r.randint(1, 4)
        mean = r.choice([0.1, 1.0, 1.0, 5.0])
        cv = round(r.uniform(0.7, 1.4), 2)
        return dict(n=n, l=n * r.uniform(0.3, 0.7) / mean, b=gamma_moments(mean, cv, 3), sp=gamma_params(mean, cv),
                    mean=mean, **self.phases(r, mean))


class VacWarm(Vac):
    name = 'M/G/n with warm-up (Takahashi-Takami)'
    variants = [lambda p: p['n'] > 1, lambda p: p['n'] == 1, lambda p: p['n'] > 2]

    def sim(self, p):
        q = basic(p['n'], p['l'], 'M', p['sp'], 'Gamma')
        q.set_warm(p['pw'], 'Gamma')
        return q

    def theory(self, p):
        from most_queue.theory.m_h2_h2warm import Mh2h2Warm
        c = Mh2h2Warm(p['l'], p['b'], p['bw'], p['n'])
        c.run()
        return {**three('w', c.get_w()), **three('v', c.get_v()), 'p': reals(c.get_p(), 8)}


class VacMM(Vac):
    name = 'M/M/n with warm-up and cooling (Takahashi-Takami)'
    variants = [lambda p: p['n'] > 1, lambda p: p['n'] == 1, lambda p: p['n'] > 2]

    def sim(self, p):
        q = basic(p['n'], p['l'], 'M', 1.0 / p['mean'], 'M')
        q.set_warm(p['pw'], 'Gamma')
        q.set_cold(p['pc'], 'Gamma')
        return q

    def read(self, q, p):
        d = Model.read(self, q, p)
        d['pw'], d['pc'] = q.get_warmup_prob(), q.get_cold_prob()
        return d

    def theory(self, p):
        from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
        c = MMn_H2warm_H2cold(p['l'], 1.0 / p['mean'], p['bw'], p['bc'], p['n'])
        c.run()
        return {**three('w', c.get_w()), **three('v', c.get_v()), 'p': reals(c.get_p(), 8),
                'pw': float(np.real(c.get_warmup_prob())), 'pc': float(np.real(c.get_cold_prob()))}


class VacFull(Vac):
    name = 'M/G/n with warm-up, cooling and delay (Takahashi-Takami)'
    variants = [lambda p: p['n'] > 1, lambda p: p['n'] == 1, lambda p: p['n'] > 2]

    def sim(self, p):
        q = basic(p['n'], p['l'], 'M', p['sp'], 'Gamma')
        q.set_warm(p['pw'], 'Gamma')
        q.set_cold(p['pc'], 'Gamma')
        q.set_cold_delay(p['pd'], 'Gamma')
        return q

    def read(self, q, p):
        d = VacMM.read(self, q, p)
        d['pd'] = q.get_cold_delay_prob()
        return d

    def theory(self, p):
        from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
        c = MGnH2ServingColdWarmDelay(p['l'], p['b'], p['bw'], p['bc'], p['bd'], p['n'])
        c.run()
        return {**three('w', c.get_w()), **three('v', c.get_v()), 'p': reals(c.get_p(), 8),
                'pw': float(np.real(c.get_warmup_prob())), 'pc': float(np.real(c.get_cold_prob())),
                'pd': float(np.real(c.get_cold_delay_prob()))}


class MMnPR2(Model):
    name = 'M/M/n, two preemptive classes'
    variants = [lambda p: p['n'] > 1, lambda p: p['n'] == 1, lambda p: p['n'] > 2]
    rel = 0.012
    abs_p = 0.002
    jobs = 100000

    def gen(self, r):
        n = r.randint(1, 4)
        muH, muL = r.uniform(0.7, 2.0), r.uniform(0.7, 2.0)
        ro, x = r.uniform(0.3, 0.75), r.uniform(0.3, 0.7)
        f = r.choice([0.02, 1.0, 1.0, 80.0])
        muH, muL = muH * f, muL * f
        return dict(n=n, mu=[muH, muL], l=[n * ro * x * muH, n * ro * (1 - x) * muL])

    def sim(self, p):
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        q = PriorityQueueSimulator(p['n'], len(p['l']), 'PR')
        q.set_sources([{'type': 'M', 'params': x} for x in p['l']])
        q.set_servers([{'type': 'M', 'params': x} for x in p['mu']])
        return q

    def read(self, q, p):
        k = len(p['l']) - 1
        return {'v': first(q.v[k]), 'p': reals(q.get_p()[k], 8)}

    def theory(self, p):
        from most_queue.theory.mmn_prty_pnz_approx import MMn_PRTY_PNZ_Cox_approx
        c = MMn_PRTY_PNZ_Cox_approx(p['n'], p['mu'][1], p['mu'][0], p['l'][1], p['l'][0])
        c.run()
        return {'v': float(np.real(c.get_second_class_v1())), 'p': reals(c.get_p(), 8)}


POINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'calc_points.json')


def point(name, r):
    """Parameters from the committed list: where the calculator's iteration is known to converge."""
    with open(POINTS) as f:
        return r.choice(json.load(f)[name])


class MMnPR3(MMnPR2):
    name = 'M/M/2, three preemptive classes'
    variants = ()

    def gen(self, r):
        return point(self.name, r)

    def candidate(self, r):
        mu = [r.uniform(0.7, 2.0) for _ in range(3)]
        x = [r.uniform(0.5, 1.5) for _ in range(3)]
        ro = r.uniform(0.3, 0.75)
        return dict(n=2, mu=mu, l=[2 * ro * x[i] / sum(x) * mu[i] for i in range(3)])

    def theory(self, p):
        from most_queue.theory.mmn3_pnz_cox_approx import Mmn3_pnz_cox
        c = Mmn3_pnz_cox(p['mu'][2], p['mu'][1], p['mu'][0], p['l'][2], p['l'][1], p['l'][0])
        c.run()
        return {'v': float(np.real(c.get_low_class_v1())), 'p': reals(c.get_p(), 8)}


class MPhPR(MMnPR2):
    name = 'M/PH,M/n, two preemptive classes'
    variants = ()
    rel = 0.015
    abs_p = 0.003

    def gen(self, r):
        return point(self.name, r)

    def candidate(self, r):
        d = MMnPR2.gen(self, r)
        y, m1, m2 = r.uniform(0.3, 0.9), r.uniform(0.5, 1.0), r.uniform(0.5, 1.0)
        s = 1 / d['mu'][0] / (m1 + y * m2)
        d['cox'] = [y, 1 / (m1 * s), 1 / (m2 * s)]
        return d

    def sim(self, p):
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        q = PriorityQueueSimulator(p['n'], len(p['l']), 'PR')
        q.set_sources([{'type': 'M', 'params': x} for x in p['l']])
        q.set_servers([{'type': 'C', 'params': p['cox']}, {'type': 'M', 'params': p['mu'][1]}])
        return q

    def theory(self, p):
        from most_queue.theory.m_ph_n_prty import m_ph_n_prty
        y, m1, m2 = p['cox']
        c = m_ph_n_prty(p['mu'][1], m1, m2, y, p['l'][1], p['l'][0], n=p['n'], is_cox=True, max_iter=100)
        c.run()
        return {'v': float(np.real(c.get_low_class_v1())), 'p': reals(c.get_p(), 8)}


class Net(Model):
    name = 'priority network (decomposition)'
    variants = [lambda p: p['k'] > 1 and p['prty'][0] == 'NP', lambda p: p['k'] > 1 and p['prty'][0] == 'PR', lambda p: p['k'] == 1]
    jobs = 60000
    rel = 0.09

    def gen(self, r):
        k, m = r.randint(1, 3), r.randint(2, 4)
        n = [r.randint(1, 3) for _ in range(m)]
        R = []
        for _ in range(k):
            a = [[0.0] * (m + 1) for _ in range(m + 1)]
            a[0][0] = 1.0
            for i in range(1, m + 1):
                x = [r.random() if j >= i else 0.0 for j in range(m + 1)]
                s = sum(x)
                a[i] = [v / s for v in x]
            R.append(a)
        L = [r.uniform(0.2, 1.0) for _ in range(k)]
        flows = []
        for c in range(k):
            lam = [0.0] * m
            lam[0] = L[c]
            for i in range(m):
                for j in range(i + 1, m):
                    lam[j] += lam[i] * R[c][i + 1][j]
            flows.append(lam)
        svc = []
        prty = r.choice(['NP', 'PR'])
        for j in range(m):
            mean = r.uniform(0.3, 0.7) * n[j] / sum(flows[c][j] for c in range(k))
            y = r.uniform(0.3, 0.7)
            svc.append([[y, 0.8 / mean if False else 1 / (mean * 0.7), 1 / ((mean - y * mean * 0.7) / (1 - y))]] * k)
        order = []
        for j in range(m):
            o = list(range(k))
            r.shuffle(o)
            order.append(o)
        return dict(k=k, m=m, n=n, R=R, L=L, svc=svc, prty=[prty] * m, order=order)

    def sim(self, p):
        from most_queue.sim.priority_network import PriorityNetwork
        R = [np.matrix(a) for a in p['R']]
        sp = [[{'type': 'H', 'params': x} for x in row] for row in p['svc']]
        return PriorityNetwork(p['k'], p['L'], R, p['n'], p['prty'], sp, p['order'])

    def read(self, q, p):
        return {'v%d' % k: first(q.v_network[k]) for k in range(p['k'])}

    def theory(self, p):
        from most_queue.theory.network_calc import network_prty_calc
        h2 = rd().H2_dist
        b = [[h2.calc_theory_moments(*p['svc'][j][k], 4) for j in range(p['m'])] for k in range(p['k'])]
        res = network_prty_calc([np.matrix(a) for a in p['R']], b, p['n'], p['L'], p['prty'], p['order'])
        return {'v%d' % k: first(res['v'][k]) for k in range(p['k'])}


class Jackson(Net):
    """One class, exponential service, jobs may come back: the decomposition is exact."""
    name = 'Jackson network'
    variants = [lambda p: p['m'] > 1 and max(p['n']) > 1, lambda p: p['back'] and p['m'] > 2, lambda p: p['m'] == 1, lambda p: p['m'] > 3]
    rel = 0.004

    def gen(self, r):
        m = r.randint(1, 4)
        R, lam = routes(r, m, 1.0)
        n = [r.randint(1, 3) for _ in range(m)]
        f = r.choice([0.02, 1.0, 1.0, 50.0])
        mu = [f * max(lam[j], 0.02) / n[j] / r.uniform(0.25, 0.7) for j in range(m)]
        return dict(k=1, m=m, n=n, R=[R], L=[f], svc=[[x] for x in mu], prty=[r.choice(['NP', 'PR']) for _ in range(m)],
                    order=[[0]] * m, flow=[float(x) for x in lam], back=any(R[i + 1][j] for i in range(m) for j in range(i + 1)))

    def sim(self, p):
        from most_queue.sim.priority_network import PriorityNetwork
        sp = [[{'type': 'M', 'params': x} for x in row] for row in p['svc']]
        return PriorityNetwork(1, list(p['L']), [np.matrix(a) for a in p['R']], list(p['n']), list(p['prty']), sp, copy.deepcopy(p['order']))

    def simulate(self, p, jobs, seed):
        W.seed_globals(seed)
        q = self.sim(p)
        per = max(1, jobs // BATCHES)
        rows = []
        for i in range(BATCHES):
            q.run(per * (i + 1))
            row = {'v': (q.served[0], [q.served[0] * x for x in q.v_network[0]])}
            for j, x in enumerate(q.smos):
                row['at%d' % j] = (x.served[0], [x.served[0] * y for y in x.v[0]])
            rows.append(row)
        out = {}
        for key in rows[0]:
            den = [b[key][0] - a[key][0] for a, b in zip(rows, rows[1:])]
            if sum(den) < 1000:
                continue
            for k in range(3):
                out[key + ('^%d' % (k + 1) if k else '')] = ratio_se([b[key][1][k] - a[key][1][k] for a, b in zip(rows, rows[1:])], den)
        return out, float(q.ttek)

    def theory(self, p):
        from most_queue.theory.network_calc import network_prty_calc
        b = [[[math.factorial(i) / p['svc'][j][0] ** i for i in (1, 2, 3, 4)] for j in range(p['m'])]]
        res = network_prty_calc([np.matrix(a) for a in p['R']], b, list(p['n']), list(p['L']), list(p['prty']), copy.deepcopy(p['order']))
        d = {'v': first(res['v'][0])}
        for j in range(p['m']):
            if p['flow'][j] > 0.1:
                d.update(three('at%d' % j, res['v_node'][j][0]))
        return d


def routes(r, m, rate):
    """A random routing matrix with returns, and the flow through each node."""
    while True:
        a = [[r.random() if r.random() < 0.6 else 0.0 for _ in range(m + 1)] for _ in range(m + 1)]
        a[0][m] = 0.0
        for i in range(m + 1):
            if sum(a[i]) == 0:
                a[i][r.randrange(m) if i == 0 else m] = 1.0
            t = sum(a[i])
            a[i] = [x / t for x in a[i]]
        A = np.array(a)
        Q = A[1:, :m]
        if max(abs(np.linalg.eigvals(Q))) < 0.75:
            return a, np.linalg.solve(np.eye(m) - Q.T, rate * A[0, :m])


class SplitDelay(Model):
    name = 'split-join with start delay'
    rel = 0.05
    variants = [lambda p: not p['fixed'], lambda p: p['fixed'], lambda p: p['fixed'] and p['n'] == 2]

    def gen(self, r):
        n = r.randint(2, 4)
        mean = r.choice([0.02, 0.3, 0.6, 1.0, 30.0])
        dm, dcv = mean * r.uniform(0.05, 0.4), round(r.uniform(0.5, 1.3), 2)
        return dict(n=n, kind='Gamma', cv=round(r.uniform(0.5, 1.3), 2), mean=mean, ro=r.uniform(0.2, 0.5), dm=dm, dcv=dcv, fixed=r.random() < 0.5)

    def sim(self, p):
        from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
        q = ForkJoinSimDelta(p['n'], p['n'], self.delay(p), True)
        q.set_sources(self.rate(p), 'M')
        q.set_servers(gamma_params(p['mean'], p['cv']), 'Gamma')
        return q

    def delay(self, p):
        return p['dm'] if p.get('fixed') else gamma_moments(p['dm'], p['dcv'], 3)

    def rate(self, p):
        return p['ro'] / (p['mean'] * sum(1.0 / i for i in range(1, p['n'] + 1)) * 1.2 + p['n'] * p['dm'])

    def read(self, q, p):
        return {'v': first(q.v)}

    def theory(self, p):
        from most_queue.theory import fj_calc as c
        from most_queue.theory import mg1_warm_calc as w
        b = gamma_moments(p['mean'], p['cv'])
        return {'v': first(w.get_v(self.rate(p), c.getMaxMoments(p['n'], b, 4),
                                   c.getMaxMomentsDelta(p['n'], b, 4, self.delay(p))))}


class FlowSum(Model):
    """Calculated against simulated superposition of two flows."""
    name = 'sum of two flows'
    rel = 0.006
    jobs = 250000

    def ok(self, p):
        return all(fits(a) for a in p['a'])

    def gen(self, r):
        mean = r.choice([0.01, 1.0, 1.0, 30.0])
        a = []
        for _ in range(2):
            y, m1, m2 = r.uniform(0.2, 0.8), r.uniform(0.2, 1.0), r.uniform(1.0, 3.0)
            x = mean * r.uniform(0.4, 2.5) / (y * m1 + (1 - y) * m2)
            a.append([math.factorial(k) * (y * (x * m1) ** k + (1 - y) * (x * m2) ** k) for k in (1, 2, 3, 4)])
        return dict(a=a)

    def simulate(self, p, jobs, seed):
        from most_queue.sim.flow_sum_sim import FlowSumSim
        W.seed_globals(seed)
        per = max(1, jobs // BATCHES)
        rows = [FlowSumSim.sum_2_H2_flows(p['a'][0], p['a'][1], num_of_moments=3, num_of_sim=per) for _ in range(BATCHES)]
        return {'a%d' % k: mean_se([float(np.real(x[k])) for x in rows]) for k in range(3)}, \
            per * sum(float(np.real(x[0])) for x in rows)

    def theory(self, p):
        from .disk import no_plots
        no_plots()
        from most_queue.theory.utils.flow_sum import SummatorNumeric
        f = SummatorNumeric.sum_2_H2_flows(p['a'][0], p['a'][1])
        return {'a%d' % k: float(np.real(f[k])) for k in range(3)}


ANY = ['M', 'D', 'Gamma', 'E', 'H', 'C', 'Uniform', 'Pa', 'Norm']


class Load(Model):
    """Reported load against the share of channel time measured busy."""
    name = 'load, one class'
    jobs = 40000
    rel = 0.006

    def gen(self, r):
        n = r.randint(1, 5)
        mean = r.choice([0.01, 1.0, 1.0, 50.0])
        sk, sp, _ = law(r, ANY, mean, 0.4, 1.6)
        ak, ap, _ = law(r, ANY, mean / n / r.uniform(0.15, 0.85), 0.4, 1.6)
        d = dict(n=n, kind=sk, params=sp, akind=ak, aparams=ap, deque=r.random() < 0.3)
        if r.random() < 0.3:
            d['warm'] = gamma_params(mean * r.uniform(0.2, 2.0), 0.8)
        if r.random() < 0.2:
            d['cold'] = gamma_params(mean * r.uniform(0.2, 2.0), 0.8)
        return d

    def sim(self, p):
        from most_queue.sim.qs_sim import QueueingSystemSimulator
        q = QueueingSystemSimulator(p['n'], buffer_type='deque' if p['deque'] else 'list')
        q.set_sources(p['aparams'], p['akind'])
        q.set_servers(p['params'], p['kind'])
        if 'warm' in p:
            q.set_warm(p['warm'], 'Gamma')
        if 'cold' in p:
            q.set_cold(p['cold'], 'Gamma')
        return q

    def simulate(self, p, jobs, seed):
        W.seed_globals(seed)
        q = self.sim(p)
        est = Gauge([q]).measure(q, jobs)
        return {'load': est['busy0'], 'printed': est['busy0']}, float(q.ttek)

    def theory(self, p):
        q = self.sim(p)
        d = {'load': float(q.calc_load())}
        W.seed_globals(1)
        for _ in range(5):
            q.run_one_step()
        m = re.search(r'Load:\s*([-+.0-9a-z]+)', str(q))
        if m:
            d['printed'] = float(m.group(1))
        return d

    def tolerance(self, key, p):
        return (0.0006 if key == 'printed' else 0.0, self.rel)


class LoadBatch(Load):
    name = 'load, batches'

    def gen(self, r):
        d = Batch.gen(MODELS_BATCH, r)
        n = r.randint(1, 4)
        size = sum((i + 1) * v for i, v in enumerate(d['probs']))
        mean = 1 / d['mu']
        sk, sp, _ = law(r, ANY, mean, 0.4, 1.6)
        ak, ap, _ = law(r, ANY, mean * size / n / r.uniform(0.15, 0.85), 0.4, 1.6)
        return dict(n=n, kind=sk, params=sp, akind=ak, aparams=ap, probs=d['probs'])

    def sim(self, p):
        from most_queue.sim.batch_sim import QueueingSystemBatchSim
        q = QueueingSystemBatchSim(p['n'], p['probs'])
        q.set_sources(p['aparams'], p['akind'])
        q.set_servers(p['params'], p['kind'])
        return q


class LoadPrio(Load):
    name = 'load, several classes'

    def gen(self, r):
        n, k = r.randint(1, 4), r.randint(1, 4)
        scale = r.choice([0.01, 1.0, 1.0, 50.0])
        ro, x = r.uniform(0.2, 0.85), [r.uniform(0.2, 2.0) for _ in range(k)]
        src, svc = [], []
        for i in range(k):
            mean = scale * r.uniform(0.2, 3.0)
            sk, sp, _ = law(r, ANY, mean, 0.4, 1.6)
            ak, ap, _ = law(r, ANY, mean / n / (ro * x[i] / sum(x)), 0.4, 1.6)
            src.append({'type': ak, 'params': ap})
            svc.append({'type': sk, 'params': sp})
        return dict(n=n, k=k, prty=r.choice(['No', 'NP', 'PR']), src=src, svc=svc)

    def sim(self, p):
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        q = PriorityQueueSimulator(p['n'], p['k'], p['prty'])
        q.set_sources(copy.deepcopy(p['src']))
        q.set_servers(copy.deepcopy(p['svc']))
        return q


class Traffic(Model):
    """Calculated node intensities and loads against the visits and channel times of the simulated network."""
    name = 'network traffic'
    jobs = 60000
    rel = 0.006

    def gen(self, r):
        k, m = r.randint(1, 3), r.randint(1, 5)
        R, L, flows = [], [], []
        for c in range(k):
            L.append(r.uniform(0.2, 2.0))
            a, lam = routes(r, m, L[c])
            R.append(a)
            flows.append(lam)
        n = [r.randint(1, 3) for _ in range(m)]
        svc = []
        for j in range(m):
            row = []
            for c in range(k):
                f = max(flows[c][j], 0.02)
                x = n[j] * r.uniform(0.3, 0.75) / k / f
                row.append(list(law(r, ['M', 'Gamma', 'H', 'E', 'Uniform'], min(x, 20.0), 0.5, 1.4)))
            svc.append(row)
        return dict(k=k, m=m, n=n, R=R, L=L, svc=svc, prty=[r.choice(['NP', 'PR']) for _ in range(m)],
                    order=[r.sample(range(k), k) for _ in range(m)])

    def sim(self, p):
        from most_queue.sim.priority_network import PriorityNetwork
        sp = [[{'type': x[0], 'params': x[1]} for x in row] for row in p['svc']]
        return PriorityNetwork(p['k'], list(p['L']), [np.matrix(a) for a in p['R']], list(p['n']), list(p['prty']), sp,
                               copy.deepcopy(p['order']))

    def simulate(self, p, jobs, seed):
        W.seed_globals(seed)
        q = self.sim(p)

        def counts():
            d = {'l%d_%d' % (c, j): q.smos[j].arrived[p['order'][j][c]] for j in range(p['m']) for c in range(p['k'])}
            d.update({'x%d' % c: q.served[c] for c in range(p['k'])})
            return d
        est = Gauge(q.smos, counts).measure(q, jobs)
        return est, float(q.ttek)

    def theory(self, p):
        from most_queue.theory.network_calc import balance_equation, network_prty_calc
        d = {}
        for c in range(p['k']):
            for j, x in enumerate(balance_equation(p['L'][c], np.matrix(p['R'][c]))):
                d['l%d_%d' % (c, j)] = float(x)
            d['x%d' % c] = p['L'][c]
        b = [[p['svc'][j][c][2] for j in range(p['m'])] for c in range(p['k'])]
        if all(fits(x) for row in b for x in row):
            res = network_prty_calc([np.matrix(a) for a in p['R']], b, list(p['n']), list(p['L']), list(p['prty']),
                                    copy.deepcopy(p['order']))
            for j, x in enumerate(res['loads']):
                d['busy%d' % j] = float(x)
        return d

    def tolerance(self, key, p):
        return (1e-9, self.rel)


MODELS_BATCH = Batch()
LOADS = {m.name: m for m in (Load(), LoadBatch(), LoadPrio())}
TRAFFIC = {m.name: m for m in (Traffic(),)}
MODELS = {m.name: m for m in (FlowSum(), MG1(), MMnr(), MDn(), EkDn(), GiM1(), GiMn(), Impatience(), Batch(), Finite(), Prio1(),
                              PrioN(), SplitJoin(), ForkJoin(), ForkJoinK(), Warm1(), MGn(), MGnR(), VacWarm(), VacMM(), VacFull(),
                              MMnPR2(), MMnPR3(), MPhPR(), Net(), Jackson(), SplitDelay())}


def flatten(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, list):
            for i, x in enumerate(v):
                out['%s[%d]' % (k, i)] = x
        else:
            out[k] = v
    return out


def controlled(key, est, flat):
    """
    Estimate of a higher moment with the lower ones of the same time as control variates: the batches tell how far it
    goes with them, and their deviations from what is calculated for them are taken out.
    Returns estimate, standard error and the factors of the lower ones, or None.
    """
    name, _, order = key.partition('^')
    if not order:
        return None
    low = [name + ('^%d' % j if j > 1 else '') for j in range(1, int(order))]
    if not all(k in flat and math.isfinite(flat[k]) and len(getattr(est.get(k), 'b', ())) > 10 for k in low + [key]):
        return None
    y = np.array(est[key].b)
    X = np.array([est[k].b for k in low]).T
    n = len(y)
    if len(X) != n:
        return None
    scale = X.std(axis=0)
    if not (scale > 0).all() or not y.std() > 0:
        return None
    Z = (X - X.mean(axis=0)) / scale
    f, _, rank, _ = np.linalg.lstsq(Z, y - y.mean(), rcond=1e-6)
    if rank < len(low):
        return None
    res = y - y.mean() - Z @ f
    a = f / scale
    m = est[key][0] - sum(x * (est[k][0] - flat[k]) for x, k in zip(a, low))
    return m, math.sqrt(float(res @ res) / (n - 1 - len(low)) / n), dict(zip(low, a))


def compare(model, p, est, th, sigmas):
    """Deviations beyond statistical and known error, the worst first."""
    bad = []
    flat = flatten(th)
    tiny = 1e-7 * max([abs(t) for t in flat.values() if math.isfinite(t)] or [1.0])
    for key, t in flat.items():
        m, se = est.get(key, (0.0, 0.0))
        a, r = model.tolerance(key, p)
        allowed = a + r * abs(t) + tiny
        if not math.isfinite(t) or abs(m - t) > sigmas * se + allowed:
            over = float('inf') if not math.isfinite(t) else (abs(m - t) - allowed) / (abs(t) + a + 1e-12)
            bad.append((over, '%s: simulated %s = %.6g +- %.2g, calculated %.6g' % (model.name, key, m, se, t)))
            continue
        c = controlled(key, est, flat)
        if c is None:
            continue
        m, se, with_ = c
        for k, x in with_.items():
            a, r = model.tolerance(k, p)
            allowed += abs(x) * (a + r * abs(flat[k]))
        if abs(m - t) > sigmas * se + allowed:
            over = (abs(m - t) - allowed) / (abs(t) + 1e-12)
            bad.append((over, '%s: simulated %s = %.6g +- %.2g given the calculated %s, calculated %.6g' % (
                model.name, key, m, se, ', '.join(with_), t)))
    return sorted(bad, reverse=True)


# a suspicion has to survive two longer runs under other seeds before it counts
STAGES = [(0.4, 2.8), (4, 4.0), (10, 5.0)]


class Calc(Check):
    state_measure = 'distinct models, as counted in the conditions (the distinct estimates are in distinct_nontrivial)'
    quick_cap = 200
    chunk = 1
    rule = ('Each case: one model, one parameter set drawn from the seed, one long run of its simulator with the real '
            'generators under the seed (25 batches), and every number of the calculator against the batch means. A '
            'deviation beyond 2.8 standard errors plus the known error of the calculator is followed by runs 4 and 10 times '
            'as long under other seeds, and reported if it exceeds 4 and then 5 standard errors there. Counted as distinct '
            'and non-trivial: runs with distinct estimates.')
    real = ['most_queue.sim.*, most_queue.theory.*, most_queue.rand_distribution, utils: real code, real random generators']
    stubs = ['numpy global RNG and default_rng: seeded from the scenario', 'time.sleep, terminal: no-ops']
    assumptions = ['known errors of approximate calculators are those measured on the tree with its defects repaired '
                   '(stated per model in DESIGN.md)',
                   'two-phase fits are well conditioned: squared variation not within 12% of 1, or exactly 1',
                   'stationary load below 0.78 where no buffer bounds the queue']

    def __init__(self, prop, models=MODELS, quick=10, thorough=800):
        self.prop = prop
        self.models = models
        self.names = list(models)
        self.quick_runs, self.thorough_runs = quick * len(models), thorough * len(models)

    def scenario(self, tier, base, i):
        from .engine import seed_of
        name = self.names[i % len(self.names)]
        seed = seed_of(base, self.prop, i)
        return {'model': name, 'params': self.models[name].draw(random.Random(seed), i // len(self.names)), 'seed': seed % (1 << 31), 'stage': 0}

    def gen(self, seed, tier):
        r = random.Random(seed)
        name = r.choice(self.names)
        return {'model': name, 'params': self.models[name].draw(r), 'seed': seed % (1 << 31), 'stage': 0}

    def execute(self, sc):
        o = Outcome()
        model, p = self.models[sc['model']], sc['params']
        o.counts['model_' + sc['model']] = 1
        h = hashlib.blake2b(digest_size=12)
        th = protect(lambda: model.theory(p), o, 60)
        if o.message:
            o.message = '%s, calculator: %s' % (sc['model'], o.message)
        seen = None
        for n, (times, sigmas) in enumerate(STAGES):
            if o.message or n < sc.get('stage', 0):
                continue
            jobs = sc.get('jobs') or int(model.jobs * times)
            res = protect(lambda: model.simulate(p, jobs, (sc['seed'] + 7919 * n) % (1 << 31)), o, 300)
            if res is None:
                if 'no progress' in (o.message or ''):       # too slow here is not a matter of C21
                    o.message = None
                break
            est, t = res
            o.steps += jobs
            o.sim_time += t
            o.counts['jobs_served'] += jobs
            o.counts['runs_stage_%d' % (n + 1)] += 1
            seen = repr(sorted(est.items()))
            h.update(seen.encode())
            bad = compare(model, p, est, th, sigmas)
            o.counts['numbers_compared'] += len(flatten(th))
            if not bad:
                break
            if n == len(STAGES) - 1:
                o.message = bad[0][1]
        o.nontrivial = int(seen is not None)
        o.states = {(sc['model'],)}
        h.update(repr((sc['model'], o.message)).encode())
        o.trace = o.events = h.hexdigest()
        return o

    def shrink_moves(self, sc):
        if sc.get('stage', 0) == 0:
            yield dict(sc, stage=len(STAGES) - 1)

    def describe(self, sc):
        return sc
