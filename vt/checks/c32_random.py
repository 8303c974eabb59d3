'''C32: draws from tabulated probability densities.'''
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2, kstest

from vt.core import sub, ensure, same, trivial, label, raises
from vt.gen import no_trend, rng_of, seeds, floats

from marxs.math.random import RandomArbitraryPdf

PMIN = 1e-10


def table(rng, n, steps, dens, zeros, dup):
    '''bin edges and density'''
    if steps == 'equal':
        w = np.full(n, 10**rng.uniform(-6, 6))
    elif steps == 'random':
        w = rng.uniform(.1, 1, n)
    else:
        w = 10**rng.uniform(-5, 5, n)
    x = np.cumsum(w) + (rng.uniform(-10, 10) * w.max() if rng.uniform() < .5 else 0)
    if dup:
        k = int(rng.integers(1, n))
        x[k] = x[k - 1]
    if dens == 'flat':
        p = np.full(n, 10**rng.uniform(-30, 30))
    elif dens == 'random':
        p = rng.uniform(.1, 1, n) * 10**rng.uniform(-30, 30)
    elif dens == 'steep':
        p = 10**rng.uniform(-12, 12, n)
    else:   # same probability for every bin
        p = 1 / w
    if zeros:
        p[rng.uniform(size=n) < zeros] = 0
    return x, p


def chisq(counts, prob, N):
    '''p value, bins with few events are pooled'''
    o = np.argsort(prob)
    e, c = prob[o] * N, counts[o]
    k = np.searchsorted(np.cumsum(e), 30) + 1
    e = np.append(e[:k].sum(), e[k:])
    c = np.append(c[:k].sum(), c[k:])
    if len(e) < 2:
        return 1.
    return chi2.sf(((c - e)**2 / e).sum(), len(e) - 1)


args = dict(seed=seeds, n=st.integers(2, 60), steps=st.sampled_from(['equal', 'random', 'log']),
            dens=st.sampled_from(['flat', 'random', 'steep', 'area']), zeros=st.sampled_from([0, 0, .3, .8]), dup=st.booleans(),
            sort=st.sampled_from([None, True, False]), inbin=st.sampled_from([None, True, False]), kind=st.sampled_from(['array', 'list']))


@sub('C32', args, quick=300, thorough=30000)
def distribution(seed, n, steps, dens, zeros, dup, sort, inbin, kind):
    rng = rng_of(seed)
    x, p = table(rng, n, steps, dens, zeros, dup)
    wid = np.append(0, np.diff(x))
    prob = p * wid
    if prob.sum() == 0:
        trivial()
        return
    prob = prob / prob.sum()
    kw = {k: v for k, v in [('sort', sort), ('randomize_in_bin', inbin)] if v is not None}
    x0, p0 = x.copy(), p.copy()
    a, b = (x, p) if kind == 'array' else (x.tolist(), p.tolist())
    obj = RandomArbitraryPdf(a, b, **kw)
    np.random.seed(seed % 2**32)
    N = 4000
    v = np.asarray(obj(N))
    v2 = np.asarray(obj(N))
    same(x, x0, 'input is unchanged')
    same(p, p0, 'input is unchanged')
    ensure(v.shape == (N,) and np.isfinite(v).all(), 'number of values')
    ensure(np.asarray(obj(1)).shape == (1,) and len(obj(0)) == 0, 'number of values')
    ensure(N < 100 or (prob > .3).sum() == 1 or (v != v2).any(), 'every call returns new values')
    v = np.append(v, v2)
    if inbin is False:
        ensure(np.isin(v, x).all(), 'values are bin edges')
        # several bins with the same upper edge: only the first has non-zero width
        i = np.searchsorted(x, v, side='left')
    else:
        ensure((v >= x[0]).all() and (v <= x[-1]).all(), 'values are in the range of the table')
        i = np.clip(np.searchsorted(x, v, side='left'), 1, n - 1)
        # values at the lower edge (or rounded to it) may belong to either bin
        tol = 4 * np.finfo(float).eps * (np.abs(x).max())
        up = (v <= x[i - 1] + tol)
        zero = prob[i] == 0
        ok = ~zero
        ok |= (v >= x[i] - tol) | up
        ensure(ok.all(), 'no values in bins with probability zero', bad=v[~ok][:3])
    if inbin is False:
        ensure((prob[i] > 0).all(), 'no values in bins with probability zero', bad=v[prob[i] == 0][:3])
        same(v[0] in x, True, 'edge')
    wide = wid > 1e-9 * np.abs(x).max()
    if wide[prob > 1e-6].all():
        c = np.bincount(i, minlength=n)
        ensure(chisq(c, prob, len(v)) > PMIN, 'bins are filled in proportion to density times width', counts=c, expected=prob * len(v))
        if inbin is not False:
            cdf = np.cumsum(prob)
            inn = (v - x[i - 1]) / wid[i]
            ensure(kstest(cdf[i - 1] + prob[i] * inn, 'uniform').pvalue > PMIN, 'values are uniform in each bin')
            no_trend(v, 'random values')
            k = np.argmax(prob)
            if (i == k).sum() > 50:
                ensure(kstest(inn[i == k], 'uniform').pvalue > PMIN, 'values are uniform in each bin')
                # place in the bin does not depend on the bin
    label('large dynamic range', prob[prob > 0].max() > 1e6 * prob[prob > 0].min())
    trivial((prob > 0).sum() == 1)


@sub('C32', dict(seed=seeds, logn=floats(2, 5.3), few=st.booleans(), sort=st.sampled_from([None, True, False]), inbin=st.booleans()), quick=60, thorough=3000)
def long_tables(seed, logn, few, sort, inbin):
    '''Tables with up to 200,000 bins, e.g. a high resolution spectrum.'''
    rng = rng_of(seed)
    n = int(10**logn)
    x = np.cumsum(rng.uniform(.5, 1, n)) + rng.uniform(-1e5, 1e5)
    if few:      # emission lines
        p = np.zeros(n)
        k = rng.choice(np.arange(1, n), size=int(rng.integers(1, 10)), replace=False)
        p[k] = 10**rng.uniform(-3, 3, len(k))
    else:
        p = rng.uniform(0, 1, n)**rng.uniform(0, 3)
    prob = p * np.append(0, np.diff(x))
    prob /= prob.sum()
    kw = {} if sort is None else {'sort': sort}
    np.random.seed(seed % 2**32)
    v = np.asarray(RandomArbitraryPdf(x, p, randomize_in_bin=inbin, **kw)(4000))
    ensure((v >= x[0]).all() and (v <= x[-1]).all(), 'values are in the range of the table')
    if not inbin:
        ensure(np.isin(v, x).all(), 'values are bin edges')
        v = v - 1e-6          # inside the bin
    i = np.clip(np.searchsorted(x, v), 1, n - 1)
    if few:
        bad = (prob[i] == 0) & (np.abs(v - x[i]) > 1e-8) & (np.abs(v - x[i - 1]) > 1e-8)
        ensure(not bad.any(), 'no values in bins with probability zero', bad=v[bad][:3])
        ensure(chisq(np.bincount(i, minlength=n)[k], prob[k], 4000) > PMIN, 'bins are filled in proportion to density times width')
    else:
        cdf = np.cumsum(prob)
        ensure(kstest(cdf[i - 1] + prob[i] * rng.uniform(size=len(i)), 'uniform').pvalue > PMIN, 'bins are filled in proportion to density times width')
    label('more than 2**15 bins', n > 2**15)


@sub('C32', dict(seed=seeds, n=st.integers(2, 20), sort=st.booleans()), quick=60, thorough=5000)
def value_of_the_first_density_does_not_matter(seed, n, sort):
    rng = rng_of(seed)
    x, p = table(rng, n, 'random', 'random', 0, False)
    p[0] = p[1:].sum() * 10**rng.uniform(-3, 6)
    np.random.seed(seed % 2**32)
    v = RandomArbitraryPdf(x, p, sort=sort)(2000)
    ensure((v >= x[0]).all() and (v <= x[-1]).all(), 'values are in the range of the table')
    prob = p[1:] * np.diff(x)
    c = np.histogram(v, x)[0]
    ensure(chisq(c, prob / prob.sum(), 2000) > PMIN, 'first density is ignored', counts=c)


@sub('C32', dict(seed=seeds, n=st.integers(2, 200), sort=st.booleans(), inbin=st.booleans()), quick=60, thorough=5000)
def scaling_does_not_matter(seed, n, sort, inbin):
    '''Only relative values matter: density is scaled by a power of two, with the same stream of random numbers.
    Compares distributions only.'''
    from scipy.stats import ks_2samp
    rng = rng_of(seed)
    x, p = table(rng, n, 'log', 'area', .2, False)
    if (p[1:] * np.diff(x)).sum() == 0:
        trivial()
        return
    np.random.seed(seed % 2**32)
    a = RandomArbitraryPdf(x, p, sort=sort, randomize_in_bin=inbin)(3000)
    b = RandomArbitraryPdf(x, p * 1e-40, sort=sort, randomize_in_bin=inbin)(3000)
    c = RandomArbitraryPdf(x * 2, p * 1e40, sort=not sort, randomize_in_bin=inbin)(3000)
    ensure(ks_2samp(a, b).pvalue > PMIN, 'scale of the density')
    ensure(ks_2samp(a, c / 2).pvalue > PMIN, 'scale of x')


@sub('C32', dict(seed=seeds, n=st.integers(2, 30), what=st.sampled_from(['length', 'negative', 'order']), amount=floats(1e-6, 1)), quick=60, thorough=5000)
def invalid_tables_are_refused(seed, n, what, amount):
    rng = rng_of(seed)
    x, p = table(rng, n, 'random', 'random', 0, False)
    k = int(rng.integers(0, n))
    if what == 'length':
        p = p[:-1] if rng.uniform() < .5 else np.append(p, p[0])
    elif what == 'negative':
        p[k] = -amount * p[k]
    else:
        k = max(k, 1)
        x[k:] -= (x[k] - x[k - 1]) + amount
    with raises(ValueError, f'invalid table: {what}'):
        RandomArbitraryPdf(x, p, sort=bool(rng.integers(2)))
