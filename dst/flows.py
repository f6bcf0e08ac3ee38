"""C18: flow summation. Two streams of times are merged; the tapes decide every interleaving."""
import copy
import hashlib
import math
import random

from . import world as W
from .engine import Check, Outcome
from .gen import style_values
from .simcheck import protect
from .world import Violation, flat

KINDS = {'Gamma': ('Gamma', 'get_mu_alpha'), 'H': ('H2_dist', 'get_params'), 'E': ('Erlang_dist', 'get_params'),
         'Pa': ('Pareto_dist', 'get_a_k')}
TWO = {'Gamma': 'sum_2_Gamma_flows', 'H': 'sum_2_H2_flows', 'E': 'sum_2_Erlang_flows', 'Pa': 'sum_2_Pa_flows'}


def fit(kind, a):
    import most_queue.rand_distribution as rd
    cls, f = KINDS[kind]
    return flat(getattr(getattr(rd, cls), f)(list(a)))


def merged(t1, t2, n):
    """Intervals of the superposition of two flows, both observed from time 0, and the last time."""
    ev = []
    for tape in (t1, t2):
        t = 0.0
        for i in range(n):
            t += tape[i % len(tape)]
            ev.append(t)
    ev.sort()
    ev = ev[:n]
    return [b - a for a, b in zip([0.0] + ev, ev)], ev[-1]


def moments(xs, k):
    return [math.fsum(x ** (i + 1) for x in xs) / len(xs) for i in range(k)]


def implied(kind, key):
    """The first moments of the law with these parameters, from its definition; None where it is none."""
    try:
        if kind == 'Gamma':
            mu, al = key
            return [al / mu, al * (al + 1) / mu ** 2]
        if kind == 'Pa':
            al, K = key
            return [al * K / (al - 1), al * K * K / (al - 2)]
        if kind == 'E':
            r, mu = key
            return [r / mu, r * (r + 1) / mu ** 2]
        y, m1, m2 = key
        return [math.factorial(k) * (y / m1 ** k + (1 - y) / m2 ** k) for k in (1, 2, 3)]
    except ArithmeticError:
        return None


def represents(kind, key, m):
    """Whether a law with these parameters stands for a flow with these interval moments: the mean, and as many more
    as the kind can match (the Erlang order is whole; three moments of H2 are within reach above the exponential)."""
    got = implied(kind, key)
    if got is None or not all(math.isfinite(x) for x in got):
        return False
    if kind == 'E':
        want = m[0] * m[0] / (m[1] - m[0] * m[0])
        return abs(got[0] - m[0]) <= 1e-6 * m[0] and abs(key[0] - want) <= 0.5 + 1e-6 * want
    cv2 = m[1] / m[0] ** 2 - 1
    k = 2
    if kind == 'H' and m[2] > 1.505 * m[1] * m[1] / m[0] and cv2 > 1.0001:
        k = 3
    return all(abs(x - y) <= 1e-5 * 10 ** i * y for i, (x, y) in enumerate(zip(got[:k], m)))


def alike(x, y, scale):
    """The same parameter, up to the conditioning of the fit (a rate may stand for a mean of zero)."""
    if abs(x - y) <= 1e-6 * max(abs(x), abs(y)):
        return True
    return x != 0 and y != 0 and abs(1 / x - 1 / y) <= 1e-7 * scale


class FlowWorld:
    """Each distribution object in use is one flow and reads one tape."""

    def __init__(self, sc):
        self.sc = sc
        self.seed = sc['seed']
        self.flows = []          # one per object drawn from: key, tape, draws
        self.by_obj = {}
        self.keep = []
        self.unknown = []
        self.log = []

    def begin(self):
        pass

    def flow(self, obj, key):
        i = self.by_obj.get(id(obj) if obj is not None else key)
        if i is None:
            i = len(self.flows)
            self.by_obj[id(obj) if obj is not None else key] = i
            self.keep.append(obj)
            self.flows.append({'key': key, 'tape': tape(self.sc, i), 'n': 0})
        return self.flows[i]

    def draw(self, key, obj=None):
        f = self.flow(obj, key)
        x = f['tape'][f['n'] % len(f['tape'])]
        f['n'] += 1
        return x

    def draw_static(self, kind, key):
        return self.draw(key, None)

    def uniform(self):
        raise Violation('a time was drawn past the flows\' distributions')


def tape(sc, i):
    t = sc['tapes']
    if i < len(t):
        return t[i]
    r = random.Random(sc['seed'] * 1009 + i)
    return [x * sc.get('scale', 1.0) for x in style_values(r, r.choice(sc['styles']), 1.0, 60)]


class Flows(Check):
    state_measure = 'distinct (mode, fit, number of flows, styles of tapes) tuples'
    real = ['most_queue.sim.flow_sum_sim and the parameter fitting it calls: real code, unmodified']
    stubs = ['the two flows\' random times: scenario tapes', 'terminal output: none']

    def __init__(self, prop, rule, quick, thorough, assumptions=()):
        self.prop, self.rule = prop, rule
        self.quick_runs, self.thorough_runs = quick, thorough
        self.assumptions = list(assumptions)

    def gen(self, seed, tier):
        r = random.Random(seed)
        mode = r.choice(['two', 'two', 'class', 'class', 'n'])
        kind = r.choice(['Gamma', 'H', 'E', 'Pa']) if mode != 'n' else r.choice(['Gamma', 'H', 'E'])
        m = 2 if mode == 'two' else r.choice([2, 2, 3, 4, 6])
        a = []
        scale = r.choice([1.0, 1.0, 1.0, 1e-4, 1e-3, 0.02, 50.0, 1e4])
        for _ in range(m):
            mean = round(r.uniform(0.2, 5), 4) * scale
            cv = round(r.uniform(1.05, 3), 4) if kind == 'H' else \
                round(r.uniform(0.25, 0.9), 4) if kind == 'E' else round(r.uniform(0.3, 2), 4)
            m2 = mean * mean * (1 + cv * cv)
            m3 = 1.5 * m2 * m2 / mean * r.uniform(1.1, 2)
            a.append([mean, m2, m3, m3 * m2 * 2])
        if m > 1 and r.random() < 0.15:
            a[1] = list(a[0])
        styles = ['exp', 'exp', 'heavy', 'burst', 'grid', 'grid0', 'tiny', 'huge', 'const'] if mode == 'two' else \
            ['exp', 'heavy', 'grid', 'burst']
        tapes, st = [], []
        for i in range(m):
            s = r.choice(styles)
            mean = r.choice([1.0, 1.0, 1.0, 20.0, 0.05]) if mode == 'two' else r.choice([0.5, 1.0, 3.0])
            v = style_values(r, s, mean, r.choice([7, 31, 60]))
            if s in ('grid0', 'burst') and max(v) <= 0:
                v[0] = 1.0
            tapes.append([x * scale for x in v] if scale != 1.0 else v)
            st.append(s)
        return {'seed': seed & 0x7fffffffffff, 'mode': mode, 'kind': kind, 'a': a, 'tapes': tapes, 'tape_styles': st, 'scale': scale,
                'styles': ['exp', 'heavy'], 'moments': r.choice([1, 2, 3, 4, 5]) if mode == 'two' else r.choice([3, 4]),
                'jobs': r.choice([1, 2, 3, 10, 60, 200]) if mode == 'two' else r.choice([60, 200])}

    def execute(self, sc):
        o = Outcome()
        h = hashlib.blake2b(digest_size=12)
        protect(lambda: self.body(sc, o, h), o)
        o.trace = o.events = h.hexdigest()
        return o

    def same(self, got, ref, xs, last, what, scale=1.0):
        for k, (g, f) in enumerate(zip(got, ref)):
            top = max(xs)
            tol = 1e-9 * abs(f) + (k + 1) * top ** k * 4e-15 * max(last, 1e-3 * scale) + 1e-300
            if not abs(g - f) <= tol:
                raise Violation('%s: moment %d is %.12g, the merged stream of the two flows has %.12g' % (
                    what, k + 1, g, f))
        if len(got) != len(ref):
            raise Violation('%s: %d moments instead of %d' % (what, len(got), len(ref)))

    def infeasible(self, sc, w):
        """The last complete sum has moments no distribution of the kind can be fitted to."""
        n = len(w.flows) // 2
        if n < 1 or len(w.flows) % 2:
            return False
        for i in range(n):
            xs, _ = merged(w.flows[2 * i]['tape'], w.flows[2 * i + 1]['tape'], sc['jobs'])
            try:
                fit(sc['kind'], moments(xs, 4))
            except (ArithmeticError, ValueError):
                return True
        return False

    def body(self, sc, o, h):
        from most_queue.sim.flow_sum_sim import FlowSumSim
        w = FlowWorld(sc)
        W.set_world(w)
        N, km, kind = sc['jobs'], sc['moments'], sc['kind']
        a = copy.deepcopy(sc['a'])
        name = '%s flows' % kind
        scale = sc.get('scale', 1.0)
        if scale != 1.0:
            o.counts['other_time_scale'] += 1
        o.counts['runs_' + sc['mode']] += 1
        o.counts['runs_' + kind] += 1
        if sc['mode'] == 'two':
            f = getattr(FlowSumSim, TWO[kind])(a[0], a[1], num_of_moments=km, num_of_sim=N)
            out = [f]
        elif sc['mode'] == 'class':
            s = FlowSumSim(a, kind, verbose=False, num_of_moments=km, num_of_jobs=N)
            try:
                s.sum_flows()
            except (ArithmeticError, ValueError):
                if self.infeasible(sc, w):
                    o.counts['intermediate_flow_cannot_be_fitted'] += 1
                    return
                raise
            out = [list(x) for x in s.flows_]
            if len(a) > 1 and list(s.result_flow) != out[-1]:
                raise Violation('%s: the result is not the last sum' % name)
        else:
            fn = getattr(FlowSumSim, TWO[kind])
            old = fn.__defaults__
            if old and old[-1] == 1000000:
                fn.__defaults__ = old[:-1] + (N,)
            else:
                N = None            # the number of events is not ours to choose
            try:
                res = FlowSumSim.sum_n_flows(a, kind, verbose=False)
            except (ArithmeticError, ValueError):
                if self.infeasible(sc, w):
                    o.counts['intermediate_flow_cannot_be_fitted'] += 1
                    return
                raise
            finally:
                fn.__defaults__ = old
            out = None
        fl = w.flows
        m = len(sc['a'])
        for f in fl:
            o.steps += f['n']
            h.update(repr((f['key'], f['n'])).encode())
        if len(fl) != 2 * (m - 1):
            raise Violation('%s: summing %d flows drew from %d distributions, two per sum make %d' % (
                name, m, len(fl), 2 * (m - 1)))
        # which input or intermediate flow each one is
        avail = [('flow %d' % (i + 1), x, None) for i, x in enumerate(sc['a'])]
        for s in range(m - 1):
            p = fl[2 * s:2 * s + 2]
            for f in p:
                hit = next((i for i, (_, x, key) in enumerate(avail) if represents(kind, f['key'], x) or (
                    key and len(key) == len(f['key']) and all(alike(*xy, scale) for xy in zip(key, f['key'])))), None)
                if hit is None:
                    raise Violation('%s: sum %d has a flow with parameters %s; left to fold in are %s' % (
                        name, s + 1, f['key'], [x[0] for x in avail]))
                avail.pop(hit)
            n = N if N is not None else 1000000
            xs, last = merged(p[0]['tape'], p[1]['tape'], n)
            ties = sum(1 for x in xs[1:] if x == 0)
            o.counts['intervals'] += n
            o.counts['simultaneous_events'] += ties
            # which flow each event came from: the interleaving
            ref = moments(xs, km)
            if sc['mode'] == 'class' or sc['mode'] == 'two':
                self.same(out[s], ref, xs, last, '%s, sum %d' % (name, s + 1), scale)
            if s < m - 2:
                x = out[s] if out else moments(xs, 4)
                avail.append(('sum %d' % (s + 1), x, fit(kind, x)))
            o.sim_time += last
            h.update(repr(ref).encode())
        for st in sc['tape_styles']:
            if st != 'exp':
                o.counts['tape_' + st] += 1
        if sc['mode'] == 'n':
            self.same(list(res), moments(xs, len(res)), xs, last, '%s, all %d' % (name, m), scale)
        o.nontrivial = o.counts['intervals']
        o.states.add(hash((sc['mode'], kind, m, tuple(sc['tape_styles']))))

    def shrink_moves(self, sc):
        for k in (sc['jobs'] // 2, sc['jobs'] - 1):
            if 0 < k < sc['jobs']:
                yield dict(sc, jobs=k)
        if sc['moments'] > 1:
            yield dict(sc, moments=sc['moments'] - 1)
        if sc['mode'] != 'two' and len(sc['a']) > 2:
            yield dict(sc, a=sc['a'][:-1], tapes=sc['tapes'][:-1])
        for i, t in enumerate(sc['tapes']):
            if len(t) > 1:
                for k in (len(t) // 2, len(t) - 1):
                    yield dict(sc, tapes=sc['tapes'][:i] + [t[:k]] + sc['tapes'][i + 1:])
            rd = [float(round(x)) if x > 0.5 else round(x, 2) for x in t] if sc.get('scale', 1.0) == 1.0 else t
            if rd != t and max(rd) > 0:
                yield dict(sc, tapes=sc['tapes'][:i] + [rd] + sc['tapes'][i + 1:])

    def describe(self, sc):
        d = dict(sc)
        d['tapes'] = [t[:6] for t in sc['tapes']]
        return d
