"""Statistical tests with fixed seeds and thresholds far beyond chance."""
import math

ALPHA = 1e-9


def chi2_sf(x, df):
    from scipy.stats import chi2
    return float(chi2.sf(x, df))


def gof(counts, probs):
    """Goodness of fit p-value; outcomes of tiny expectation are pooled. None: impossible outcome."""
    n = sum(counts.values())
    for k in counts:
        if counts[k] and probs.get(k, 0) <= 0:
            return 0.0, k
    small_e = small_o = 0.0
    stat, df = 0.0, -1
    for k, p in probs.items():
        if p <= 0:
            continue
        e = n * p
        o = counts.get(k, 0)
        if e < 8:
            small_e += e
            small_o += o
            continue
        stat += (o - e) ** 2 / e
        df += 1
    if small_e >= 8:
        stat += (small_o - small_e) ** 2 / small_e
        df += 1
    if df <= 0:
        return 1.0, None
    return chi2_sf(stat, df), None


def chi2_fail(sample, probs, what):
    """Message if the sample does not follow the probabilities, or is not independent."""
    import collections
    c = collections.Counter(sample)
    p, bad = gof(c, probs)
    if bad is not None:
        return '%s %s occurred %d times in %d, its probability is 0' % (what, bad, c[bad], len(sample))
    if p < ALPHA:
        return '%s: counts %s in %d draws do not follow the probabilities %s (p=%.3g)' % (
            what, dict(sorted(c.items())), len(sample), probs, p)
    if len(sample) > 500:
        pairs = collections.Counter(zip(sample[0::2], sample[1::2]))
        pp = {(a, b): x * y for a, x in probs.items() for b, y in probs.items()}
        p, _ = gof(pairs, pp)
        if p < ALPHA:
            return '%s: consecutive values are not independent (p=%.3g)' % (what, p)
    return None
