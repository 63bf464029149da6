"""Distribution comparisons with a false-alarm probability far below one per campaign."""
import numpy as np
from scipy import stats as st

P = 1e-10


def ks(case, key, v, cdf, msg, nmin=200):
    v = np.asarray(v, float)
    if len(v) < nmin:
        return False
    D, p = st.kstest(v, cdf)[:2]
    case.check(p > P, key, lambda: '%s: observed distribution differs from the configured one (n=%d, D=%.3f, p=%.1e, mean %r, min %r, max %r)' % (msg, len(v), D, p, v.mean(), v.min(), v.max()))
    case.count('samples_tested', len(v))
    return True


def ks2(case, key, v, w, msg, nmin=200):
    v, w = np.asarray(v, float), np.asarray(w, float)
    if len(v) < nmin or len(w) < nmin:
        return False
    D, p = st.ks_2samp(v, w, method='asymp')[:2]
    case.check(p > P, key, lambda: '%s: observed distribution differs from the reference (n=%d, D=%.3f, p=%.1e, means %r %r)' % (msg, len(v), D, p, v.mean(), w.mean()))
    case.count('samples_tested', len(v))
    return True


def zcheck(case, key, got, mean, sd, msg, z=6.5):
    case.check(abs(got - mean) <= z * sd + 1e-9 * abs(mean), key, lambda: '%s: got %r, expected %r +- %r' % (msg, got, mean, sd))
