"""C27: what the library says about a law is what the streams of that law show.

Streams are drawn under the seed; the functions of the law (moments, distribution, tail, density,
transform, rest of an interval), the laws fitted to wishes, sums of times and numbers of arrivals
during a time are held against the sample (statistically) and against a reference model (exactly);
the reference model is held against the same sample."""
import cmath
import hashlib
import math
import random

import numpy as np

from . import streams as S
from . import world as W
from .engine import Check, Outcome
from .simcheck import protect
from .world import Violation

SIGMAS = 6.5
LAWS = ['Uniform', 'H', 'C', 'Pa', 'E', 'M', 'Gamma']


def fail(s, *a):
    raise Violation(s % a)


def ref_moments(typ, p, num):
    """Moments of the law (own formulas); those that exist."""
    from scipy.special import gammaln
    out = []
    for k in range(1, num + 1):
        if typ == 'M':
            m = math.factorial(k) / p[0] ** k
        elif typ == 'H':
            m = math.factorial(k) * (p[0] / p[1] ** k + (1 - p[0]) / p[2] ** k)
        elif typ == 'C':
            # of the sum of two phases, the second with probability y1
            f = [math.factorial(k) / (math.factorial(j) * math.factorial(k - j)) * math.factorial(k - j) / p[1] ** (k - j)
                 * (math.factorial(j) / p[2] ** j * p[0] if j else 1.0) for j in range(k + 1)]
            m = sum(f)
        elif typ == 'E':
            m = math.exp(gammaln(p[0] + k) - gammaln(p[0])) / p[1] ** k
        elif typ == 'Gamma':
            m = math.exp(gammaln(p[1] + k) - gammaln(p[1])) / p[0] ** k
        elif typ == 'Pa':
            if p[0] <= k:
                break
            m = p[0] * p[1] ** k / (p[0] - k)
        elif typ == 'Uniform':
            a, b = p[0] - p[1], p[0] + p[1]
            m = math.fsum(a ** i * b ** (k - i) for i in range(k + 1)) / (k + 1)
        else:
            raise ValueError(typ)
        out.append(m)
    return out


def ref_pdf(typ, p, t):
    from scipy.special import gammaln
    if t <= 0 and typ != 'Uniform':
        return 0.0
    if typ == 'H':
        return p[0] * p[1] * math.exp(-p[1] * t) + (1 - p[0]) * p[2] * math.exp(-p[2] * t)
    if typ == 'Gamma':
        return math.exp(p[1] * math.log(p[0]) + (p[1] - 1) * math.log(t) - p[0] * t - gammaln(p[1]))
    if typ == 'Pa':
        return p[0] / p[1] * (p[1] / t) ** (p[0] + 1) if t >= p[1] else 0.0
    if typ == 'Uniform':
        return 0.5 / p[1] if abs(t - p[0]) <= p[1] else 0.0
    raise ValueError(typ)


def near(x, y, rel, tiny=0.0):
    return abs(x - y) <= rel * abs(y) + tiny


def implied(kind, p, num):
    if kind in ('M',) and not isinstance(p, (list, tuple)):
        p = [p]
    return ref_moments(kind, list(p), num)


def mean_test(x, m, var, what):
    """The sample mean against the mean m of a law with variance var."""
    n = len(x)
    got = float(np.mean(x))
    # a few of the largest times may be there by chance
    if abs(got - m) > SIGMAS * math.sqrt(var / n) + 3 * float(np.max(x)) / n + 1e-9 * abs(m):
        fail('%s: the mean of %d times drawn is %.6g (+- %.2g), it should be %.6g', what, n, got, math.sqrt(var / n), m)


WEIBULL = 'most_queue.theory.utils.weibull'


def weibull_class():
    """The module imports rand_distribution by the name it has when the package's folder is on the path (known finding)."""
    import importlib
    import sys
    import most_queue.rand_distribution as rd
    try:
        return importlib.import_module(WEIBULL).Weibull
    except ModuleNotFoundError:
        sys.modules['rand_distribution'] = rd
        return importlib.import_module(WEIBULL).Weibull


class Laws(Check):
    state_measure = 'distinct (mode, law, number of moments or probabilities) tuples'
    components = 'real'
    real = ['most_queue.rand_distribution, general_utils.conv, theory.utils.q_poisson_arrival_calc, theory.utils.weibull (with the folder of the package on its path): real code, unmodified']
    stubs = ['numpy global generators: seeded from the scenario']

    def __init__(self, prop, rule, quick, thorough):
        self.prop, self.rule, self.quick_runs, self.thorough_runs = prop, rule, quick, thorough
        self.assumptions = ['a fit is asked for moments its law can have', 'third moments of two-phase laws away from those that make the phases equal; hyperexponential '
                            'fits by complex parameters within 5% of the squared variations 1 and 1/2 have their second and third moments only nearly',
                            'densities away from the ends of the range']

    def gen(self, seed, tier):
        r = random.Random(seed)
        mode = r.choice(['law', 'law', 'fit', 'fit', 'sum', 'arrivals', 'weibull', 'corrected'])
        sc = {'family': 'laws', 'mode': mode, 'seed': seed & 0x7fffffffffff, 'n': r.choice([500, 2000, 5000])}
        if mode == 'law':
            typ = r.choice(LAWS)
            sc.update(type=typ, params=S.params_of(r, typ), num=r.choice([1, 2, 3, 3, 4, 5]))
        elif mode == 'fit':
            typ = r.choice(['Uniform', 'H', 'H', 'Hclx', 'C', 'Pa', 'E', 'M', 'Gamma'])
            cv = {'Uniform': lambda: r.uniform(0.02, 0.577), 'H': lambda: r.choice([1.0, r.uniform(1.0, 4.0), r.uniform(1.0, 1.3)]),
                  'E': lambda: r.choice([1.0, r.uniform(0.15, 1.1), 1 / math.sqrt(r.randint(1, 30))]), 'M': lambda: 1.0}.get(
                      typ, lambda: r.choice([r.uniform(0.2, 1.3), r.uniform(0.2, 4.0)]))()
            if typ in ('C', 'Hclx') and r.random() < 0.3:
                cv = r.choice([1.0, math.sqrt(0.5)]) * r.choice([1.0, 1 + 1e-5, r.uniform(0.99, 1.01)])
            sc.update(type=typ, mean=r.choice([1.0, 1.0, 1e-3, 0.2, 7.0, 3e3]) * r.uniform(0.5, 2), cv=cv,
                      third=None if cv == 1.0 else r.choice([None, None, r.uniform(0.6, 1.0), r.uniform(1.0, 4.0), 1.5]))
        elif mode == 'sum':
            a, b = [r.choice(['Uniform', 'H', 'C', 'E', 'M', 'Gamma']) for _ in range(2)]
            sc.update(a=[a, S.params_of(r, a)], b=[b, S.params_of(r, b)], times=r.randint(0, 6), n=2000)
        elif mode == 'arrivals':
            typ = r.choice(['Gamma', 'Uniform', 'Pa'])
            p = {'Gamma': lambda: [math.exp(r.uniform(-3, 3)), math.exp(r.uniform(-1, 2.5))], 'Uniform': lambda: S.params_of(r, 'Uniform'),
                 'Pa': lambda: [r.choice([r.uniform(1.3, 5), float(r.randint(2, 4))]), math.exp(r.uniform(-3, 3))]}[typ]()
            m = ref_moments(typ, p, 1)[0]
            sc.update(type=typ, params=p, l=r.uniform(0.1, 2.5) / m, num=r.randint(3, 12))
        elif mode == 'weibull':
            sc.update(mean=math.exp(r.uniform(-2, 2)), cv=r.uniform(0.3, 2.5))
        else:
            # moments of a law near a gamma law, three or four of them
            typ = r.choice(['Uniform', 'E', 'C', 'Gamma'])
            sc.update(type=typ, params=S.params_of(r, typ), num=r.choice([3, 3, 4]))
        return sc

    def execute(self, sc):
        o = Outcome()
        h = hashlib.blake2b(repr(sorted((k, repr(v)) for k, v in sc.items())).encode(), digest_size=12)
        o.counts['runs_' + sc['mode']] += 1
        protect(lambda: getattr(self, 'do_' + sc['mode'])(sc, o, h), o)
        o.nontrivial = 1
        o.states.add(hash((sc['mode'], sc.get('type'), sc.get('num'))))
        o.trace = o.events = h.hexdigest()
        return o

    def draw(self, sc, typ, params, n, o, h, salt=0):
        W.set_world(None)
        W.seed_globals((sc['seed'] + salt) % (1 << 31))
        d = S.make(typ, params, S.np_gen('PCG64', sc['seed'] + 7 * salt + 1))
        if typ == 'E':
            n = max(100, min(n, 40000 // int(params[0])))
        x = np.array([float(d.generate()) for _ in range(n)])
        o.steps += n
        o.sim_time += float(x.sum())
        o.counts['times_drawn'] += n
        h.update(repr(x[:20].tolist()).encode())
        return x

    def sample(self, sc, typ, params, n, o, h, salt=0):
        """A stream that follows its law."""
        x = self.draw(sc, typ, params, n, o, h, salt)
        S.law(typ, params, x, 'a stream')
        return x

    # ---- functions of a law
    def do_law(self, sc, o, h):
        import most_queue.rand_distribution as rd
        typ, params, num = sc['type'], sc['params'], sc['num']
        p = S.vec(params)
        x = self.sample(sc, typ, params, sc['n'], o, h)
        cls = getattr(rd, S.CLS[typ])
        name = '%s %s' % (S.CLS[typ], params)
        if typ == 'C':
            got = cls.calc_theory_moments(*p)
            num = 3
        elif typ == 'E':
            got = cls.calc_theory_moments(int(p[0]), p[1], num)
        else:
            got = cls.calc_theory_moments(*p, num)
        ref = ref_moments(typ, p, num)
        if len(got) != len(ref):
            fail('%s: %d moments instead of %d', name, len(got), len(ref))
        for k, (a, b) in enumerate(zip(got, ref)):
            if not near(a, b, 1e-9):
                fail('%s: moment %d is given as %.12g, it is %.12g', name, k + 1, a, b)
        if num == 3:
            q = cls.calc_theory_moments(*(params if isinstance(params, list) else [params]))
            if len(q) != len(got) or any(not near(a, b, 1e-12) for a, b in zip(q, got)):
                fail('%s: moments are %s by default and %s when three are asked for', name, q, got)
        top = ref_moments(typ, p, 4)
        for k in (1, 2):
            if len(top) >= 2 * k and top[2 * k - 1] - top[k - 1] ** 2 > 0 and not (typ in ('Pa',) and k == 2):
                mean_test(x ** k, got[k - 1] if len(got) >= k else ref_moments(typ, p, k)[-1], top[2 * k - 1] - top[k - 1] ** 2,
                          '%s, moment %d' % (name, k))
        self.functions(cls, typ, p, params, x, name, o)
        if typ == 'H':
            self.residual(cls, p, params, x, name, o, sc)
        if typ == 'Gamma':
            for s in (0.0, 0.3 / got[0], 2.0 / got[0]):
                a, b = cls.get_pls(p[0], p[1], s), math.exp(-p[1] * math.log1p(s / p[0]))
                if not near(a, b, 1e-9):
                    fail('%s: transform at %.6g is given as %.12g, it is %.12g', name, s, a, b)
                e = np.exp(-s * x)
                mean_test(e, a, max(math.exp(-p[1] * math.log1p(2 * s / p[0])) - b * b, 1e-12), name + ', transform at %.6g' % s)

    def functions(self, cls, typ, p, params, x, name, o):
        call = {'Uniform': (lambda f, t: f(p[0], p[1], t)), 'Gamma': (lambda f, t: f(p[0], p[1], t))}.get(typ, lambda f, t: f(params, t))
        pts = [float(t) for t in np.sort(x)[[int(q * (len(x) - 1)) for q in (0, .003, .05, .2, .4, .5, .6, .8, .95, .997, 1)]]]
        lo, hi = S.support(typ, p)
        pts += [-1.0 * pts[5], -1e-3 * pts[5], 0.5 * max(lo, 0.0), 0.999 * max(lo, 0.0), 3 * pts[10], min(hi, 1e3 * pts[10])]
        n = len(x)
        for t in pts:
            edge = abs(t) < 1e-12 or any(math.isfinite(z) and abs(t - z) <= 1e-6 * abs(z) for z in (lo, hi, p[0] - p[1] if typ == 'Uniform' else p[1] if typ == 'Pa' else 0.0, p[0] + p[1] if typ == 'Uniform' else 0.0))
            ref = float(S.cdf(typ, p, [t])[0])
            emp = float(np.sum(x <= t)) / n
            if hasattr(cls, 'get_cdf') and typ != 'M':
                got = float(call(cls.get_cdf, t))
                o.counts['function_values'] += 1
                if not abs(got - ref) <= 1e-9:
                    fail('%s: P(X <= %.9g) is given as %.12g, it is %.12g (%.4f of %d times drawn)', name, t, got, ref, emp, n)
                if abs(got - emp) > SIGMAS * math.sqrt(max(ref * (1 - ref), 1.0 / n) / n) + 1.0 / n:
                    fail('%s: P(X <= %.9g) is given as %.6g, %.6g of %d times drawn', name, t, got, emp, n)
            if hasattr(cls, 'get_tail') and typ != 'M':
                got = float(call(cls.get_tail, t))
                o.counts['function_values'] += 1
                if not abs(got - (1 - ref)) <= 1e-9:
                    fail('%s: P(X > %.9g) is given as %.12g, it is %.12g (%.4f of %d times drawn)', name, t, got, 1 - ref, 1 - emp, n)
            if edge or not hasattr(cls, 'get_pdf'):
                continue
            got = float(cls.get_pdf(t, *p) if typ == 'Pa' else call(cls.get_pdf, t))
            o.counts['function_values'] += 1
            ref = ref_pdf(typ, p, t)
            if not near(got, ref, 1e-8, 1e-12 / (abs(pts[5]) or 1.0)):
                fail('%s: density at %.9g is given as %.12g, it is %.12g', name, t, got, ref)
        if hasattr(cls, 'get_pdf'):
            # the density over an interval against the share of times drawn in it
            a, b = pts[3], pts[7]
            if b > a * (1 + 1e-6) and a > 0:
                z = np.exp(np.linspace(math.log(a), math.log(b), 401))
                f = np.array([float(cls.get_pdf(t, *p) if typ == 'Pa' else call(cls.get_pdf, float(t))) for t in z]) * z
                w = np.ones(401)
                w[1:-1:2], w[2:-1:2] = 4, 2
                got = float(np.sum(w * f)) * math.log(b / a) / 400 / 3
                if abs(got - 0.6) > SIGMAS * math.sqrt(0.6 * 0.4 / n) + 3.0 / n:
                    fail('%s: density over (%.6g, %.6g) gives %.6g, 0.6 of %d times drawn', name, a, b, got, n)

    def residual(self, cls, p, params, x, name, o, sc):
        """What remains of an interval of a stream seen at a random moment."""
        res = cls.get_residual_params(params)
        rng = np.random.RandomState(sc['seed'] % (1 << 31))
        at = rng.uniform(0, x.sum(), 1000)
        ends = np.cumsum(x)
        left = ends[np.minimum(np.searchsorted(ends, at), len(ends) - 1)] - at
        mean = p[0] / p[1] + (1 - p[0]) / p[2]
        for q in (0.05, 0.3, 0.5, 0.8, 0.97):
            t = float(np.quantile(left, q))
            got = 1 - res[0] * math.exp(-res[1] * t) - (1 - res[0]) * math.exp(-res[2] * t)
            ref = 1 - (p[0] / p[1] * math.exp(-p[1] * t) + (1 - p[0]) / p[2] * math.exp(-p[2] * t)) / mean
            if not abs(got - ref) <= 1e-9:
                fail('%s: P(rest of an interval <= %.9g) is given as %.12g, it is %.12g (%.2f of 1000 moments)', name, t, got, ref, q)
        o.counts['residuals'] += 1

    # ---- laws made to measure
    def do_fit(self, sc, o, h):
        import most_queue.rand_distribution as rd
        typ, m, cv = sc['type'], sc['mean'], sc['cv']
        kind = 'H' if typ == 'Hclx' else typ
        # near the points where the fit is singular the moments asked for are shifted a little
        # (those of Cox laws by imaginary amounts)
        near_singular = typ in ('C', 'Hclx') and (abs(cv * cv - 1) < 0.05 or abs(cv * cv - 0.5) < 0.05)
        cls = getattr(rd, S.CLS[kind])
        b = [m, m * m * (1 + cv * cv), m ** 3 * (1 + cv * cv) * (1 + 2 * cv * cv)]
        name = '%s fitted to mean %.6g and variation %.6g' % (S.CLS[kind], m, cv)
        fits = []           # how, parameters, moments that have to come out
        if typ == 'Uniform':
            fits = [('mean', cls.get_params_by_mean_and_coev(m, cv), 2), ('moments', cls.get_params(b), 2)]
        elif typ == 'H':
            if sc['third']:
                # from barely possible upwards
                b[2] = 1.5 * b[1] ** 2 / m * sc['third']
            third = 3 if cv > 1 and b[2] > 1.5 * b[1] ** 2 / m * (1 + 1e-9) else 2
            fits = [('moments', cls.get_params(b), third)]
            if not sc['third']:
                fits.append(('mean', cls.get_params_by_mean_and_coev(m, cv), third))
        elif typ == 'Hclx':
            fits = [('moments', cls.get_params_clx(b, verbose=False), 3), ('mean', cls.get_params_by_mean_and_coev(m, cv, True), 3)]
        elif typ == 'C':
            fits = [('moments', cls.get_params(b, verbose=False), 3), ('mean', cls.get_params_by_mean_and_coev(m, cv), 3)]
        elif typ == 'Pa':
            fits = [('mean', cls.get_a_k_by_mean_and_coev(m, cv), 2), ('moments', cls.get_params(b), 2), ('moments', cls.get_a_k(b), 2)]
        elif typ == 'E':
            fits = [('mean', cls.get_params_by_mean_and_coev(m, cv), 1), ('moments', cls.get_params(b), 1)]
            for how, p, _ in fits:
                if p[0] != int(p[0]) or abs(p[0] - 1 / cv ** 2) > 0.5 + 1e-6:
                    fail('%s (by %s): order %r for %.6g', name, how, p[0], 1 / cv ** 2)
        elif typ == 'M':
            fits = [('moments', cls.get_params([m, 2 * m * m]), 3)]
            b = [m, 2 * m * m, 6 * m ** 3]
        elif typ == 'Gamma':
            fits = [('mean', cls.get_mu_alpha_by_mean_and_coev(m, cv), 2), ('moments', cls.get_params(b[:2]), 2), ('moments', cls.get_mu_alpha(b), 2)]
        for i, (how, p, good) in enumerate(fits):
            if isinstance(p, complex):
                p = [p]
            got = implied(kind, p, good)
            o.counts['fits'] += 1
            if len(got) < good:
                fail('%s (by %s): moment %d of the law is infinite', name, how, len(got) + 1)
            for k in range(good):
                tol = (1e-6, 6e-3, 0.025)[k] if near_singular and typ == 'Hclx' else 1e-6 if typ in ('C', 'Hclx') else 1e-7
                if not near(complex(got[k]).real if near_singular else got[k], b[k], tol):
                    fail('%s (by %s): moment %d is %.9g instead of %.9g', name, how, k + 1, complex(got[k]).real, b[k])
            flat = p if isinstance(p, (list, tuple)) else [p]
            if any(abs(complex(z).imag) > 1e-9 * abs(complex(z)) for z in flat):
                o.counts['complex_fits'] += 1
                continue
            real = [complex(z).real for z in flat]
            if kind in ('H', 'C') and not (0 <= real[0] <= 1 and min(real[1:]) > 0):
                continue            # a law with formal parameters only
            if kind == 'E':
                real[0] = int(real[0])
            x = self.draw(sc, kind, real if kind != 'M' else real[0], sc['n'], o, h, i)
            var = got[1] - got[0] ** 2 if good > 1 else m * m / real[0] if kind == 'E' else m * m
            if kind == 'Pa' and real[0] < 2.5:
                continue
            mean_test(x, m, complex(var).real, name + ' (by %s)' % how)

    # ---- sums of times
    def do_sum(self, sc, o, h):
        from most_queue.general_utils import conv
        (ka, pa), (kb, pb) = sc['a'], sc['b']
        a, b = ref_moments(ka, S.vec(pa), 4), ref_moments(kb, S.vec(pb), 4)
        x, y = self.sample(sc, ka, pa, sc['n'], o, h), self.sample(sc, kb, pb, sc['n'], o, h, 1)
        n = min(len(x), len(y))
        z = x[:n] + y[:n]
        name = 'sum of %s %s and %s %s' % (ka, pa, kb, pb)

        def cum(m):
            return [m[0], m[1] - m[0] ** 2, m[2] - 3 * m[1] * m[0] + 2 * m[0] ** 3]

        def mom(c):
            return [c[0], c[1] + c[0] ** 2, c[2] + 3 * c[1] * c[0] + c[0] ** 3]

        def same(got, ref, what):
            o.counts['sums'] += 1
            if len(got) != 3:
                fail('%s, %s: %d moments instead of 3', name, what, len(got))
            for k in range(3):
                if not near(got[k], ref[k], 1e-9, 1e-9 * (a[k] + b[k])):
                    fail('%s, %s: moment %d is given as %.12g, it is %.12g', name, what, k + 1, got[k], ref[k])
        ref = mom([u + v for u, v in zip(cum(a), cum(b))])
        got = conv.get_moments(a[:3], b[:3])
        same(got, ref, 'together')
        mean_test(z, got[0], ref[1] - ref[0] ** 2, name)
        four = a[3] + 4 * a[2] * b[0] + 6 * a[1] * b[1] + 4 * a[0] * b[2] + b[3]
        mean_test(z * z, got[1], four - ref[1] ** 2, name + ', squared')
        same(conv.get_moments_minus(ref, b[:3]), a, 'without the second')
        same(conv.get_self_conv_moments(a[:3], sc['times']), mom([sc['times'] * u for u in cum(a)]), '%d times the first' % sc['times'])

    # ---- arrivals during a time
    def do_arrivals(self, sc, o, h):
        from scipy import integrate
        from scipy.stats import nbinom
        from most_queue.theory.utils import q_poisson_arrival_calc as Q
        typ, p, l, num = sc['type'], sc['params'], sc['l'], sc['num']
        x = self.sample(sc, typ, p, sc['n'], o, h)
        got = {'Gamma': Q.get_q_Gamma, 'Uniform': Q.get_q_uniform, 'Pa': Q.get_q_Pareto}[typ](l, *p, num)
        rng = np.random.RandomState(sc['seed'] % (1 << 31))
        cnt = rng.poisson(l * x)
        name = 'arrivals at rate %.6g during %s %s' % (l, S.CLS[typ], p)
        if len(got) != num:
            fail('%s: %d probabilities instead of %d', name, len(got), num)
        n = len(x)
        for j in range(num):
            if typ == 'Gamma':
                ref = float(nbinom.pmf(j, p[1], p[0] / (p[0] + l)))
            elif typ == 'Uniform':
                from scipy.special import gammainc
                lo, hi = p[0] - p[1], p[0] + p[1]
                ref = float(gammainc(j + 1, l * hi) - gammainc(j + 1, l * lo)) / (2 * p[1] * l)
            else:
                # u: P(X > t); every moment of the law once
                g = lambda s: p[0] * math.exp(-p[0] * s - l * p[1] * math.exp(s) + j * (math.log(l * p[1]) + s) - math.lgamma(j + 1))
                top = max(1.0, math.log(max(j, 1) / (l * p[1]) + 1) + math.log(60 / (l * p[1]) + 1))
                ref = integrate.quad(g, 0, top, epsabs=1e-12, epsrel=1e-11, limit=400)[0]
            emp = float(np.sum(cnt == j)) / n
            o.counts['function_values'] += 1
            v = complex(got[j]).real
            if not abs(v - ref) <= 1e-7:
                fail('%s: P(%d arrivals) is given as %.10g, it is %.10g (%.4f of %d times drawn)', name, j, v, ref, emp, n)
            if abs(v - emp) > SIGMAS * math.sqrt(max(ref * (1 - ref), 1.0 / n) / n) + 5.0 / n:
                fail('%s: P(%d arrivals) is given as %.6g, it was so for %.6g of %d times drawn', name, j, v, emp, n)

    # ---- Weibull laws
    def do_weibull_import(self, sc, o, h):
        import importlib
        import sys
        old = {k: sys.modules.pop(k, None) for k in (WEIBULL, 'rand_distribution')}
        try:
            importlib.import_module(WEIBULL)
        except ModuleNotFoundError as e:
            fail('%s: %s', WEIBULL, e)
        finally:
            for k, v in old.items():
                if v is not None:
                    sys.modules[k] = v

    def do_weibull(self, sc, o, h):
        Weibull = weibull_class()
        m, cv = sc['mean'], sc['cv']
        b = [m, m * m * (1 + cv * cv)]
        name = 'Weibull law fitted to mean %.6g and variation %.6g' % (m, cv)
        rng = np.random.RandomState(sc['seed'] % (1 << 31))
        for how, p in (('moments', Weibull.get_params(b)), ('mean', Weibull.get_params_by_mean_and_coev(m, cv))):
            k, scale = p[0], p[1] ** (1 / p[0])
            got = [scale ** i * math.gamma(1 + i / k) for i in (1, 2)]
            for i in range(2):
                if not near(got[i], b[i], 1e-4):
                    fail('%s (by %s): moment %d is %.9g instead of %.9g', name, how, i + 1, got[i], b[i])
            x = scale * rng.weibull(k, sc['n'])
            o.counts['fits'] += 1
            o.counts['times_drawn'] += len(x)
            mean_test(x, m, m * m * cv * cv, name)
            pts = [float(t) for t in np.quantile(x, [0.01, 0.2, 0.5, 0.8, 0.99])]
            ref = [math.exp(-(t / scale) ** k) for t in pts]
            for what, f, r in (('>', Weibull.get_tail(p, pts), ref), ('<=', Weibull.get_cdf(p, pts), [1 - z for z in ref])):
                for t, u, v in zip(pts, f, r):
                    o.counts['function_values'] += 1
                    if not abs(u - v) <= 1e-9:
                        fail('%s (by %s): P(X %s %.9g) is given as %.12g, it is %.12g', name, how, what, t, u, v)

    # ---- gamma laws with a correction
    def do_corrected(self, sc, o, h):
        import most_queue.rand_distribution as rd
        b = ref_moments(sc['type'], S.vec(sc['params']), sc['num'])
        cv2 = b[1] / b[0] ** 2 - 1
        if not 0.08 < cv2 < 4:
            return
        G = rd.Gamma
        mu, alpha, g = G.get_params(b)
        name = 'gamma law corrected to moments %s' % ', '.join('%.6g' % z for z in b)
        if not (near(mu, b[0] / (b[1] - b[0] ** 2), 1e-9) and near(alpha, 1 / cv2, 1e-8)) or len(g) != len(b) + 1:
            fail('%s: parameters %.9g, %.9g and %d factors', name, mu, alpha, len(g))
        top = ref_moments('Gamma', [mu, alpha], 2 * len(b) + 1)
        top = [1.0] + top
        for k in range(len(b) + 1):
            got = math.fsum(g[j] * top[j + k] for j in range(len(g)))
            if not near(got, ([1.0] + b)[k], 1e-5, 1e-9 * max(abs(g[j] * top[j + k]) for j in range(len(g)))):
                fail('%s: moment %d is %.9g', name, k, got)
        for q in (0.2, 0.7, 1.0, 2.5):
            t = q * b[0]
            f = ref_pdf('Gamma', [mu, alpha], t)
            ref = f * math.fsum(g[j] * t ** j for j in range(len(g)))
            got = G.get_f_corrective(mu, alpha, g, t)
            o.counts['function_values'] += 1
            if not near(got, ref, 1e-7, 1e-9 * f):
                fail('%s: density at %.9g is given as %.12g, it is %.12g', name, t, got, ref)
        o.counts['fits'] += 1

    def shrink_moves(self, sc):
        out = []
        if sc['n'] > 100:
            out.append(dict(sc, n=100))
        return out

    def describe(self, sc):
        return {k: v for k, v in sc.items()}
