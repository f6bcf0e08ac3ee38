"""Seeded generation of scenarios: configurations, tapes (workload and timing faults)."""
import math
import random

STYLES = ['exp', 'grid', 'grid0', 'heavy', 'const', 'burst', 'huge', 'tiny']


def style_values(rng, style, mean, n):
    """A tape of n non-negative times of the given style."""
    if style == 'exp':
        return [-math.log(1.0 - rng.random()) * mean for _ in range(n)]
    if style == 'grid':
        g = mean / 2
        g = 2.0 ** round(math.log2(g)) if g > 0 else 0.5
        return [rng.randint(1, 4) * g for _ in range(n)]
    if style == 'grid0':
        g = 2.0 ** round(math.log2(mean))
        return [rng.choice([0, 0, 1, 1, 2, 3]) * g for _ in range(n)]
    if style == 'heavy':      # a stalled / slow component now and then
        return [rng.uniform(0.2, 1.0) * mean if rng.random() < 0.9 else rng.uniform(10, 60) * mean
                for _ in range(n)]
    if style == 'const':
        g = 2.0 ** round(math.log2(mean))
        return [g] * n
    if style == 'burst':      # bursts, then an outage
        out = []
        while len(out) < n:
            out += [rng.choice([0.0, rng.random() * mean * 0.1]) for _ in range(rng.randint(2, 6))]
            out.append(rng.uniform(2, 8) * mean)
        return out[:n]
    if style == 'huge':       # clock far beyond every customary "infinity"
        return [-math.log(1.0 - rng.random()) * mean if rng.random() < 0.93 else 10.0 ** rng.randint(9, 12)
                for _ in range(n)]
    if style == 'tiny':
        return [-math.log(1.0 - rng.random()) * mean * (1e-6 if rng.random() < 0.3 else 1.0)
                for _ in range(n)]
    raise ValueError(style)


TYPES = ['M', 'H', 'E', 'Gamma', 'C', 'Pa', 'Uniform', 'Norm', 'D']


def make_params(rng, typ):
    """Valid parameters of a distribution; they serve as the stream's name."""
    a = round(rng.uniform(0.3, 3.0), 6)
    b = round(rng.uniform(0.3, 3.0), 6)
    if typ in ('M', 'D'):
        return a
    if typ == 'H' or typ == 'C':
        return [round(rng.uniform(0.05, 0.95), 6), a, b]
    if typ == 'E':
        return [rng.randint(1, 5), a]
    if typ == 'Gamma':
        return [a, b]
    if typ == 'Pa':
        return [round(rng.uniform(2.1, 5), 6), a]
    if typ == 'Uniform':
        return [a, round(a * rng.uniform(0.1, 0.9), 6)]
    if typ == 'Norm':
        return [a * 10, round(a * rng.uniform(0.1, 0.9), 6)]
    raise ValueError(typ)


class ScGen:
    """Builds one scenario from one seed."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.seed = seed
        self.used = set()
        self.streams = {}
        self.styles = {}
        r = self.rng
        # a scenario leans towards one regime, so that regimes combine across streams
        self.regime = r.choice(['exp', 'exp', 'grid', 'grid', 'mixed', 'mixed', 'wild'])

    def style(self, kind):
        r = self.rng
        if self.regime == 'exp':
            return r.choice(['exp', 'exp', 'heavy', 'tiny'])
        if self.regime == 'grid':
            return r.choice(['grid', 'grid', 'grid0', 'const'])
        if self.regime == 'mixed':
            return r.choice(['exp', 'grid', 'heavy', 'const', 'grid0'] + (['burst'] if kind == 'src' else []))
        return r.choice(['heavy', 'huge', 'exp', 'grid0', 'tiny'] + (['burst', 'burst'] if kind == 'src' else []))

    def stream(self, role, mean, n=40, kind='srv', types=None, style=None, first_positive=False):
        r = self.rng
        while True:
            typ = r.choice(types or TYPES)
            p = make_params(r, typ)
            from .world import flat
            k = flat(p)
            # no two streams may share a name, nor a name's suffix (Exp wraps Erlang([1, mu]))
            if k not in self.used and (1.0,) + k not in self.used:
                break
        self.used.add(k)
        st = style or self.style(kind)
        vals = style_values(r, st, mean, n)
        if first_positive and vals[0] <= 0:
            vals[0] = max(mean, 0.25)
        self.styles[role] = st
        self.streams[role] = {'type': typ, 'params': p, 'vals': [float(v) for v in vals], 'style': st}
        return self.streams[role]

    def uvals(self, n=64):
        r = self.rng
        out = []
        for _ in range(n):
            x = r.random()
            if r.random() < 0.1:
                x = r.choice([1e-6, 1 - 1e-6])
            out.append(x)
        return out
