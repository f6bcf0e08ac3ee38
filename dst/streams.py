"""C19: the random streams. Seeded generators, every interleaving of their users, laws of what they give."""
import copy
import hashlib
import math
import random

import numpy as np

from . import world as W
from .engine import Check, Outcome
from .gen import TYPES
from .simcheck import protect
from .stat import ALPHA
from .world import Violation, flat

BITGENS = ['PCG64', 'MT19937', 'Philox', 'SFC64']


def vec(params):
    return list(flat(params))


def cdf(typ, p, x):
    """Distribution function the notation declares (own formulas), elementwise."""
    x = np.asarray(x, dtype=float)
    pos = np.maximum(x, 0.0)
    if typ == 'M':
        f = -np.expm1(-p[0] * pos)
    elif typ == 'H':
        f = -(p[0] * np.expm1(-p[1] * pos) + (1 - p[0]) * np.expm1(-p[2] * pos))
    elif typ == 'E':
        from scipy.special import gammainc
        f = gammainc(p[0], p[1] * pos)
    elif typ == 'Gamma':
        from scipy.special import gammainc
        f = gammainc(p[1], p[0] * pos)
    elif typ == 'C':          # a first phase, and with probability y1 a second one
        y, a, b = p
        e1 = -np.expm1(-a * pos)
        if abs(a - b) > 1e-6 * a:
            e2 = 1 - (b * np.exp(-a * pos) - a * np.exp(-b * pos)) / (b - a)
        else:
            e2 = 1 - np.exp(-a * pos) * (1 + a * pos)
        f = (1 - y) * e1 + y * e2
    elif typ == 'Pa':
        f = np.where(x < p[1], 0.0, 1 - (p[1] / np.maximum(x, p[1])) ** p[0])
    elif typ == 'Uniform':
        f = np.clip((x - (p[0] - p[1])) / (2 * p[1]), 0, 1)
    elif typ == 'Norm':
        from scipy.special import ndtr
        return ndtr((x - p[0]) / p[1])
    else:
        raise ValueError(typ)
    return np.where(x < 0, 0.0, np.clip(f, 0, 1))


def support(typ, p):
    if typ == 'Pa':
        return p[1] * (1 - 1e-12), math.inf
    if typ == 'Uniform':
        return p[0] - p[1] - 1e-9 * p[0], p[0] + p[1] + 1e-9 * p[0]
    if typ == 'Norm':
        return -math.inf, math.inf
    return 0.0, math.inf


def law(typ, params, xs, what):
    """Raises if xs cannot be an independent sample of the declared distribution; gives the transforms."""
    from scipy.stats import chi2, kstwobign
    p = vec(params)
    x = np.array([float(v) for v in xs])
    n = len(x)
    name = '%s: %s %s' % (what, typ, params)
    if typ == 'D':
        bad = np.nonzero(x != p[0])[0]
        if len(bad):
            raise Violation('%s gave %.12g' % (name, x[bad[0]]))
        return None
    if not np.all(np.isfinite(x)):
        raise Violation('%s gave %r' % (name, float(x[~np.isfinite(x)][0])))
    lo, hi = support(typ, p)
    if x.min() < lo or x.max() > hi:
        raise Violation('%s gave %.12g, outside its range' % (name, x.min() if x.min() < lo else x.max()))
    u = cdf(typ, p, x)
    if n < 100:
        return u
    s = np.sort(u)
    i = np.arange(1, n + 1)
    d = float(max(np.max(i / n - s), np.max(s - (i - 1) / n)))
    pv = float(kstwobign.sf(d * math.sqrt(n)))
    if pv < ALPHA:
        k = int(np.argmax(np.maximum(i / n - s, s - (i - 1) / n)))
        raise Violation('%s: of %d times %.4f are below %.6g, the declared distribution has %.4f there (KS p=%.2g)' % (
            name, n, (k + 1) / n, np.sort(x)[k], s[k], pv))
    bins = min(100, n // 20)
    if bins >= 4:
        c = np.bincount(np.minimum((u * bins).astype(int), bins - 1), minlength=bins)
        st = float(np.sum((c - n / bins) ** 2) / (n / bins))
        if chi2.sf(st, bins - 1) < ALPHA:
            raise Violation('%s: %d times do not follow the declared distribution (chi-square over %d bins, p=%.2g)' % (
                name, n, bins, chi2.sf(st, bins - 1)))
    for lag in (1, 2, 3):
        z = corr(u[:-lag], u[lag:])
        if abs(z) > 7:
            raise Violation('%s: successive times are dependent (lag %d, %.1f standard deviations)' % (name, lag, z))
    return u


def corr(a, b):
    """Standardised correlation of two uniform samples."""
    n = min(len(a), len(b))
    if n < 100:
        return 0.0
    return float(np.sum((a[:n] - 0.5) * (b[:n] - 0.5)) * 12 / math.sqrt(n))


def make(typ, params, gen):
    from most_queue.sim.utils.distribution_utils import create_distribution
    return create_distribution(params, typ, gen)


def params_of(r, typ):
    a = round(math.exp(r.uniform(-3, 3)), 6)
    b = round(math.exp(r.uniform(-3, 3)), 6)
    if typ in ('M', 'D'):
        return a
    if typ in ('H', 'C'):
        return [r.choice([round(r.uniform(0.02, 0.98), 6), round(r.uniform(0.3, 0.7), 6)]), a, b]
    if typ == 'E':
        return [r.choice([1, 2, 3, 5, 10, 40, 900] if r.random() < 0.3 else [1, 2, 3, 4, 7]), a]
    if typ == 'Gamma':
        return [a, round(math.exp(r.uniform(-1.5, 3)), 6)]
    if typ == 'Pa':
        return [round(r.uniform(1.1, 6), 6), a]
    if typ == 'Uniform':
        return [a, round(a * r.uniform(0.05, 1.0), 6)]
    if typ == 'Norm':
        return [a, round(a * r.uniform(0.05, 2), 6)]
    raise ValueError(typ)


def np_gen(kind, seed):
    return np.random.Generator(getattr(np.random, kind)(seed))


CLS = {'M': 'Exp_dist', 'H': 'H2_dist', 'E': 'Erlang_dist', 'Gamma': 'Gamma', 'C': 'Cox_dist', 'Pa': 'Pareto_dist',
       'Uniform': 'Uniform_dist', 'Norm': 'Normal_dist', 'D': 'Det_dist'}


class Streams(Check):
    state_measure = 'distinct laws by way of drawing, sets of users of generators, families with the laws of their streams'
    real = ['most_queue.rand_distribution, most_queue.sim.*: real code, unmodified, on real numpy generators']
    stubs = ['numpy and random global generators, default_rng(): seeded from the scenario', 'terminal output: none']

    def __init__(self, prop, fams, rule, quick, thorough, assumptions=()):
        self.prop, self.rule = prop, rule
        self.fam = {f.name: f for f in fams}
        self.quick_runs, self.thorough_runs = quick, thorough
        self.assumptions = list(assumptions)

    def first(self, tier, base):
        r = random.Random(f'{base}/laws')
        for typ in TYPES:
            for via in ('generator', 'global', 'static', 'static_global'):
                p = params_of(r, typ)
                n = 100000 if typ != 'E' else max(3000, 100000 // p[0])
                yield {'mode': 'law', 'type': typ, 'params': p, 'via': via, 'n': n,
                       'seed': r.getrandbits(40), 'bit': r.choice(BITGENS)}

    def gen(self, seed, tier):
        r = random.Random(seed)
        mode = r.choice(['law', 'state', 'state', 'sim'])
        sc = {'mode': mode, 'seed': seed & 0x7fffffffffff, 'bit': r.choice(BITGENS)}
        if mode == 'law':
            typ = r.choice(TYPES)
            sc.update(type=typ, params=params_of(r, typ), via=r.choice(['generator', 'global', 'static', 'static_global']),
                      n=r.choice([2000, 5000, 20000]))
            if typ == 'E' and sc['params'][0] > 10:
                sc['n'] = 500
        elif mode == 'state':
            users = []
            for _ in range(r.randint(1, 4)):
                typ = r.choice(TYPES)
                users.append({'type': typ, 'params': params_of(r, typ), 'gen': r.choice([0, 1, 'own', 'own', None])})
            users[0]['gen'] = 'own'
            sc.update(users=users, n=r.choice([5, 20, 60]), sched=r.getrandbits(31))
        else:
            f = r.choice(list(self.fam.values()))
            sub = f.gen(seed, 'C02', 'quick')
            sub['steps'] = r.choice([1500, 3000])
            if f.name == 'net':
                sub['steps'] = 1200
            sc['sub'] = sub
        return sc

    def execute(self, sc):
        o = Outcome()
        h = hashlib.blake2b(digest_size=12)
        o.counts['runs_' + sc['mode']] += 1
        protect(lambda: getattr(self, 'do_' + sc['mode'])(sc, o, h), o)
        o.trace = o.events = h.hexdigest()
        return o

    # ---- one distribution, many times
    def do_law(self, sc, o, h):
        import most_queue.rand_distribution as rd
        typ, p, via, n = sc['type'], sc['params'], sc['via'], sc['n']
        W.set_world(None)
        W.seed_globals(sc['seed'])
        g = np_gen(sc['bit'], sc['seed'])
        cls = getattr(rd, CLS[typ])
        args = list(p) if isinstance(p, list) else [p]
        if via == 'generator':
            d = make(typ, copy.deepcopy(p), g)
            xs = [d.generate() for _ in range(n)]
        elif via == 'global':
            d = cls(copy.deepcopy(p))
            xs = [d.generate() for _ in range(n)]
        elif typ == 'D':
            xs = [cls.generate_static(*args) for _ in range(n)]
        else:
            g = g if via == 'static' else None
            xs = [cls.generate_static(*args, g) for _ in range(n)]
        law(typ, p, xs, {'generator': 'with a generator', 'global': 'without a generator',
                         'static': 'generate_static with a generator',
                         'static_global': 'generate_static without a generator'}[via])
        o.steps = n
        o.counts['times_drawn'] += n
        o.nontrivial = 1
        h.update(repr(xs[:20]).encode())
        o.states.add(hash((typ, via)))

    # ---- whose state decides, and whom it disturbs
    def do_state(self, sc, o, h):
        n, users = sc['n'], sc['users']
        args = [copy.deepcopy(u['params']) for u in users]
        # each on its own, from a fixed generator state
        alone = []
        for i, u in enumerate(users):
            if u['gen'] is None:
                alone.append(None)
                continue
            W.seed_globals(sc['seed'] + 17)
            before = repr(np.random.get_state()), random.getstate()
            d = make(u['type'], copy.deepcopy(args[i]), np_gen(sc['bit'], sc['seed'] + i))
            alone.append([d.generate() for _ in range(n)])
            if (repr(np.random.get_state()), random.getstate()) != before:
                raise Violation('%s %s, given a generator, moves a global generator' % (u['type'], u['params']))
        # all together, in a seeded interleaving, with noise on the global generators and on new ones
        r = random.Random(sc['sched'])
        W.seed_globals(sc['seed'] + 4711)
        shared = [np_gen(sc['bit'], 1), np_gen(sc['bit'], 2)]
        gens = [np_gen(sc['bit'], sc['seed'] + i) if u['gen'] == 'own' else
                shared[u['gen']] if u['gen'] is not None else None for i, u in enumerate(users)]
        ds = [make(u['type'], copy.deepcopy(args[i]), gens[i]) if u['gen'] is not None else
              getattr(__import__('most_queue.rand_distribution', fromlist=['x']), CLS[u['type']])(
                  copy.deepcopy(args[i])) for i, u in enumerate(users)]
        got = [[] for _ in users]
        todo = [i for i in range(len(users)) for _ in range(n)]
        r.shuffle(todo)
        for i in todo:
            if r.random() < 0.4:
                o.counts['noise_draws'] += 1
                k = r.randrange(5)
                if k == 0:
                    np.random.rand()
                elif k == 1:
                    random.random()
                elif k == 2:
                    np.random.default_rng().random()
                elif k == 3:
                    np.random.seed(r.getrandbits(31))
                else:
                    np.random.normal()
            x = ds[i].generate()
            got[i].append(x)
            if users[i]['gen'] == 'own' and r.random() < 0.1:
                # the same state again, through another object
                st = copy.deepcopy(gens[i].bit_generator.state)
                a = ds[i].generate()
                end = copy.deepcopy(gens[i].bit_generator.state)
                gens[i].bit_generator.state = st
                d2 = make(users[i]['type'], copy.deepcopy(args[i]), gens[i])
                b = d2.generate()
                if a != b or repr(end) != repr(gens[i].bit_generator.state):
                    raise Violation('%s %s: the same generator state gave %r and then %r' % (
                        users[i]['type'], users[i]['params'], a, b))
                gens[i].bit_generator.state = st
                o.counts['state_rewinds'] += 1
        for i, u in enumerate(users):
            if u['gen'] == 'own' and got[i] != alone[i]:
                k = next(k for k in range(n) if got[i][k] != alone[i][k])
                raise Violation('%s %s: draw %d from the same generator state is %r alone and %r with others drawing '
                                'in between' % (u['type'], u['params'], k + 1, alone[i][k], got[i][k]))
        o.steps = n * len(users)
        o.counts['interleaved_draws'] += n * len(users)
        o.nontrivial = 1
        h.update(repr(got).encode())
        o.states.add(hash(tuple(u['type'] for u in users)))

    # ---- the streams of a running simulator
    def do_sim(self, sc, o, h):
        sub = sc['sub']
        fam = self.fam[sub['family']]
        w = W.LogWorld(sc['seed'])
        W.set_world(w)
        sim = fam.build(sub)
        for _ in range(sub['steps']):
            sim.run_one_step()
        W.set_world(None)
        us = {}
        for role, st in sub['streams'].items():
            if 'params' not in st:
                continue
            xs = w.seen.get(flat(st['params']))
            if not xs:
                continue
            o.counts['streams_judged'] += 1
            o.counts['times_drawn'] += len(xs)
            u = law(st['type'], st['params'], xs, '%s simulator, stream %s' % (fam.name, role))
            if u is not None and len(u) >= 200:
                us[role] = u
            h.update(repr(xs[:5]).encode())
        for a in sorted(us):
            for b in sorted(us):
                for lag in (0, 1, 2):
                    if (a, lag) >= (b, 0) and lag == 0:
                        continue
                    z = corr(us[a][lag:], us[b])
                    if a != b and abs(z) > 7:
                        raise Violation('%s simulator: streams %s and %s are dependent (lag %d, %.1f standard '
                                        'deviations)' % (fam.name, a, b, lag, z))
        o.steps = sub['steps']
        o.sim_time = float(sim.ttek)
        o.nontrivial = 1
        o.states.add(hash((fam.name, tuple(sorted((r, s['type']) for r, s in sub['streams'].items() if 'params' in s)))))

    def shrink_moves(self, sc):
        if sc['mode'] == 'law':
            for k in (sc['n'] // 4, sc['n'] // 2):
                if k >= 100:
                    yield dict(sc, n=k)
        elif sc['mode'] == 'state':
            if len(sc['users']) > 1:
                for i in range(1, len(sc['users'])):
                    c = copy.deepcopy(sc)
                    del c['users'][i]
                    yield c
            if sc['n'] > 1:
                yield dict(sc, n=sc['n'] // 2)
        else:
            k = sc['sub']['steps']
            if k > 100:
                c = copy.deepcopy(sc)
                c['sub']['steps'] = k // 2
                yield c

    def describe(self, sc):
        if 'sub' in sc:
            return {'mode': 'sim', 'seed': sc['seed'], 'family': sc['sub']['family'], 'cfg': sc['sub']['cfg'],
                    'steps': sc['sub']['steps'], 'streams': {r: [s.get('type'), s.get('params')]
                                                            for r, s in sc['sub']['streams'].items()}}
        return sc
