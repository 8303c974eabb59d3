'''C08: order selectors.'''
import os
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2, binom
import astropy.units as u
from astropy.table import Table

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, photon_table, placements

from marxs.optics import OrderSelector, EfficiencyFile, FlatGrating
from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable



def check_counts(orders, p, got, msg):
    '''exact support, chi-square for the frequencies'''
    orders = np.asarray(orders)
    p = np.asarray(p, dtype=float) / np.sum(p)
    allowed = set(orders[p > 0].tolist())
    ensure(set(np.asarray(got).tolist()) <= allowed, msg + ': an order that cannot occur was drawn',
           got=sorted(set(np.asarray(got).tolist())), allowed=sorted(allowed))
    n = len(got)
    uo = np.unique(orders)
    pe = np.array([p[orders == o].sum() for o in uo])
    cnt = np.array([np.sum(got == o) for o in uo])
    big = pe * n > 20
    if big.sum() >= 1:
        rest_p, rest_c = 1 - pe[big].sum(), n - cnt[big].sum()
        x = np.sum((cnt[big] - n * pe[big])**2 / (n * pe[big]))
        df = big.sum() - 1
        if rest_p * n > 20:
            x += (rest_c - n * rest_p)**2 / (n * rest_p)
            df += 1
        if df > 0:
            ensure(chi2.sf(x, df) > 1e-9, msg + ': frequencies do not follow the probabilities',
                   counts=cnt, expected=n * pe)
    for c, q in zip(cnt, pe):
        if q * n <= 20 and q > 0:
            ensure(binom.sf(c - 1, n, q) > 1e-12, msg + ': rare order drawn too often', count=c, expected=n * q)


prob_lists = st.lists(st.one_of(st.just(0.), floats(0.001, 1.)), min_size=1, max_size=60).filter(lambda p: sum(p) > 0)


@sub('C08', dict(p=prob_lists, total=st.one_of(st.just(1.), floats(0.01, 1.)), first=st.integers(-30, 5), seed=seeds,
                 default=st.booleans()), quick=200, thorough=4000)
def order_selector(p, total, first, seed, default):
    rng = rng_of(seed)
    np.random.seed(seed)
    p = np.array(p)
    p = p / p.sum() * total
    orders = rng.permutation(np.arange(first, first + len(p)))
    n = 4000
    e = rng.uniform(0.1, 10, n)
    if default:
        s = OrderSelector(orders)
        p, total = np.ones(len(orders)) / len(orders), 1.
    else:
        s = OrderSelector(orders, p=p)
    o, pr = s(e, None, None)
    trivial(len(orders) == 1)
    ensure(len(o) == n and len(pr) == n, 'one order and probability per photon')
    close(np.asarray(pr, dtype=float), np.full(n, total), 'survival probability is the sum of all probabilities',
          atol=1e-12)
    ensure(np.all(np.asarray(pr) <= 1), 'survival probability larger than 1', got=np.max(pr))
    check_counts(orders, p, o, 'OrderSelector')
    # one photon at a time
    o1, p1 = s(1.)
    ensure(o1 in orders[p > 0] and abs(p1 - total) < 1e-12, 'single photon')
    # through a grating
    t = photon_table(rng, np.tile([5., 0, 0], (20, 1)) + rng.uniform(-.5, .5, (20, 3)), np.tile([-1., 0, 0], (20, 1)),
                     prob=np.ones(20))
    g = FlatGrating(d=1., order_selector=s)
    t = g(t)
    close(np.asarray(t['probability']), np.full(20, total), 'probability after the grating', atol=1e-12)


def in_scratch(name):
    return os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), name)


def write_eff(name, energy, prob):
    fn = in_scratch(name)
    np.savetxt(fn, np.column_stack([energy, prob]), fmt='%.17g')
    return fn


@sub('C08', dict(seed=seeds, nen=st.integers(1, 8), nord=st.integers(1, 12), zeros=st.booleans(), full=st.booleans()),
     quick=200, thorough=3000)
def efficiency_file(seed, nen, nord, zeros, full):
    rng = rng_of(seed)
    np.random.seed(seed)
    energy = np.cumsum(rng.uniform(0.05, 2, nen))
    prob = rng.dirichlet(np.ones(nord), size=nen) * (1. if full else rng.uniform(0.01, .99, (nen, 1)))
    if rng.random() < .3:       # absorbed almost completely
        prob *= 10**rng.uniform(-12, 0, (nen, 1))
    if zeros:
        prob[rng.random(prob.shape) < .3] = 0
        prob[rng.integers(nen)] = 0
    orders = rng.permutation(np.arange(-10, 10))[:nord]
    # tables do not need to be sorted by energy
    perm = rng.permutation(nen) if rng.random() < .5 else np.arange(nen)
    f = EfficiencyFile(write_eff('eff.dat', energy[perm], prob[perm]), orders)
    n = 3000
    row = rng.integers(nen, size=n)
    # energies that are clearly closest to one row
    gap = np.min(np.diff(energy)) if nen > 1 else 1.
    e = energy[row] + rng.uniform(-.45, .45, n) * gap
    if nen == 1:
        e = rng.uniform(.01, 20, n)
    o, p = f(e, None, None)
    trivial(nen * nord == 1)
    close(p, prob.sum(axis=1)[row], 'survival probability is that of the closest energy', atol=1e-15, rtol=1e-11)
    ensure(np.all((np.asarray(p) >= 0) & (np.asarray(p) <= 1)), 'survival probability outside 0..1')
    for r in range(nen):
        m = row == r
        if prob[r].sum() > 0 and m.any():
            check_counts(orders, prob[r], o[m], 'EfficiencyFile')
    ensure(set(o.tolist()) <= set(orders.tolist()), 'orders from the list')
    # beyond the ends of the table
    o, p = f(np.array([energy[0] * .01, energy[-1] * 50]), None, None)
    close(p, prob.sum(axis=1)[[0, -1]], 'closest energy beyond the ends of the table', atol=1e-12)
    with raises(ValueError, 'wrong number of orders must be refused'):
        EfficiencyFile(in_scratch('eff.dat'), list(orders) + [99])


def eff_table(rng, nw, nt, nord, unit_w, unit_t, zeros=False):
    w = np.cumsum(rng.uniform(.1, .6, nw)) + .3           # nm
    th = np.cumsum(rng.uniform(.2, 1., nt))               # deg
    orders = np.arange(-nord + 1, 1)
    if rng.random() < .5:
        orders = np.arange(nord)
    prob = rng.dirichlet(np.ones(nord + 1), size=(nw, nt))[:, :, :nord]
    if zeros:
        prob[rng.random(prob.shape) < .4] = 0
    rows = [(a, b) for a in w for b in th]
    t = Table()
    t['wave'] = (np.array([r[0] for r in rows]) * u.nm).to(unit_w)
    t['theta'] = (np.array([r[1] for r in rows]) * u.deg).to(unit_t)
    for i, o in enumerate(orders):
        t[str(o)] = prob[:, :, i].ravel()
    return w, th, orders, prob, t


def bilinear(w, th, P, x, y):
    i = np.clip(np.searchsorted(w, x) - 1, 0, len(w) - 2)
    j = np.clip(np.searchsorted(th, y) - 1, 0, len(th) - 2)
    x = np.clip(x, w[0], w[-1])
    y = np.clip(y, th[0], th[-1])
    a = (x - w[i]) / (w[i + 1] - w[i])
    b = (y - th[j]) / (th[j + 1] - th[j])
    return ((1 - a) * (1 - b))[:, None] * P[i, j] + (a * (1 - b))[:, None] * P[i + 1, j] \
        + ((1 - a) * b)[:, None] * P[i, j + 1] + (a * b)[:, None] * P[i + 1, j + 1]


@sub('C08', dict(seed=seeds, nw=st.integers(2, 6), nt=st.integers(2, 6), nord=st.integers(2, 6), zeros=st.booleans(),
                 ), quick=200, thorough=3000)
def efficiency_table(seed, nw, nt, nord, zeros):
    '''Interpolated tables (wavelength, blaze angle, order).'''
    rng = rng_of(seed)
    np.random.seed(seed)
    w, th, orders, prob, tab = eff_table(rng, nw, nt, nord, u.nm, rng.choice(['deg', 'rad', 'arcmin']), zeros)
    s = InterpolateEfficiencyTable(tab)
    same(np.asarray(s.orders), orders, 'orders are read from the column names')
    # nodes and points in between and beyond
    n = 50
    x = rng.uniform(w[0] - .05, w[-1] + .05, n)
    y = rng.uniform(th[0] * .5, th[-1] * 1.2, n)
    k = rng.integers(nw, size=n // 2), rng.integers(nt, size=n // 2)
    x[:n // 2], y[:n // 2] = w[k[0]], th[k[1]]
    e = (x * u.nm).to(u.keV, equivalencies=u.spectral()).value
    o, p = s.probabilities(e, None, np.deg2rad(y))
    exp = bilinear(w, th, prob, x, y)
    close(np.asarray(p).T, exp, 'probability interpolated in the table', atol=1e-6)
    close(np.asarray(p).T[:n // 2], prob[k], 'probability at the nodes', atol=1e-6)
    oo, pp = s(e, None, np.deg2rad(y))
    close(pp, exp.sum(axis=1), 'survival probability', atol=1e-6)
    ensure(np.all(np.isfinite(pp)), 'survival probability is a number')
    # frequencies at one point
    i = int(rng.integers(n))
    N = 4000
    oo, pp = s(np.full(N, e[i]), None, np.full(N, np.deg2rad(y[i])))
    if exp[i].sum() > 1e-6:
        pe = exp[i].copy()
        pe[pe < 1e-12] = 0
        if np.all((pe == 0) | (pe > 1e-5)):
            check_counts(orders, pe, oo, 'InterpolateEfficiencyTable')
    else:
        trivial()
    # each photon uses its own entry: mixed lists
    a, b = rng.integers(n, size=2)
    if exp[a].sum() > 1e-3 and exp[b].sum() > 1e-3:
        sw = rng.integers(0, 2, 2000).astype(bool)
        oo, pp = s(np.where(sw, e[a], e[b]), None, np.deg2rad(np.where(sw, y[a], y[b])))
        for m, q in ((sw, a), (~sw, b)):
            pe = exp[q].copy()
            pe[pe < 1e-12] = 0
            if np.all((pe == 0) | (pe > 1e-5)):
                check_counts(orders, pe, oo[m], 'InterpolateEfficiencyTable in a mixed list')
            close(pp[m], np.full(m.sum(), exp[q].sum()), 'survival probability in a mixed list', atol=1e-6)


@sub('C08', dict(seed=seeds, kind=st.integers(0, 3)), quick=40, thorough=400)
def invalid_selectors(seed, kind):
    rng = rng_of(seed)
    n = int(rng.integers(1, 8))
    p = rng.dirichlet(np.ones(n)) * rng.uniform(.1, 1)
    o = np.arange(n)
    if kind == 0:
        with raises(ValueError, 'lists of different length'):
            OrderSelector(np.arange(n + 1), p=p)
    elif kind == 1:
        with raises(ValueError, 'probabilities larger than 1 in total'):
            OrderSelector(o, p=p / p.sum() * rng.uniform(1.001, 3))
    elif kind == 2:
        q = np.append(p, -rng.uniform(1e-3, .1))
        with raises(ValueError, 'negative probabilities'):
            OrderSelector(np.arange(n + 1), p=q)
    else:
        trivial()
        OrderSelector(o, p=list(p))


@sub('C08', dict(seed=seeds, k=st.integers(1, 5), dw=st.integers(0, 4), dt=st.integers(0, 4), nord=st.integers(1, 5),
                 sform=st.sampled_from(['constant', 'poly'])), quick=60, thorough=2000)
def smooth_efficiency_table(seed, k, dw, dt, nord, sform):
    '''Splines of any degree: they go through the table and reproduce polynomials up to their degree.'''
    rng = rng_of(seed)
    np.random.seed(seed)
    nw, nt = k + 1 + dw, k + 1 + dt
    w = np.cumsum(rng.uniform(.1, .6, nw)) + .3
    th = np.cumsum(rng.uniform(.2, 1., nt))
    orders = np.arange(1, nord + 1) * rng.choice([-1, 1])
    deg = 0 if sform == 'constant' else k
    coef = rng.uniform(0, 1, (nord, deg + 1, deg + 1))

    def func(x, y):
        x, y = np.asarray(x) / w[-1], np.asarray(y) / th[-1]
        return np.array([sum(c[i, j] * x**i * y**j for i in range(deg + 1) for j in range(deg + 1)) / (nord * (deg + 1)**2) for c in coef])
    ww, tt = [g.ravel() for g in np.meshgrid(w, th, indexing='ij')]
    tab = Table()
    tab['wave'] = ww * u.nm
    tab['theta'] = tt * u.deg
    val = func(ww, tt)
    for o, v in zip(orders, val):
        tab[str(o)] = v
    s = InterpolateEfficiencyTable(tab, k=k)
    n = 30
    x, y = rng.uniform(w[0], w[-1], n), rng.uniform(th[0], th[-1], n)
    en = (x * u.nm).to(u.keV, equivalencies=u.spectral()).value
    o, p = s.probabilities(en, None, np.deg2rad(y))
    same(np.asarray(o), orders, 'orders')
    close(np.asarray(p), func(x, y), 'polynomial of the degree of the spline is reproduced', atol=1e-6)
    en = (ww * u.nm).to(u.keV, equivalencies=u.spectral()).value
    o, p = s.probabilities(en, None, np.deg2rad(tt))
    close(np.asarray(p), val, 'value of the table', atol=1e-6)
    oo, pp = s(en, None, np.deg2rad(tt))
    close(np.asarray(pp), val.sum(axis=0), 'survival probability', atol=1e-6)
    ensure(np.isin(oo, orders).all(), 'an order of the table')
    label(f'k={k}')
