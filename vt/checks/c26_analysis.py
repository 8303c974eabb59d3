'''C26: spectral figures of merit.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table, MaskedColumn

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, logfloats, photon_table

from marxs.analysis import gratings as ag
from marxs.analysis.analysis import detected_fraction, sigma_clipped_std, mean_width_2d, find_best_detector_position
from marxs.optics import FlatGrating, FlatDetector, OrderSelector, CircularDetector
from marxs.optics.grating import EfficiencyFile
from marxs.simulator import Parallel
from marxs.design.rowland import RowlandTorus

FWHM = 2.3548
NORD = np.arange(-4, 5)


def clipped(x):
    '''reference 3 sigma clipping around the median, at most 5 iterations'''
    x = np.asarray(x, dtype=float)
    x = x[np.isfinite(x)]
    for i in range(5):
        if len(x) == 0:
            break
        med, s = np.median(x), x.std()
        keep = np.abs(x - med) <= 3 * s * (1 + 1e-12)
        if keep.all():
            break
        x = x[keep]
    if len(x) == 0:
        return np.nan, np.nan
    return x.mean(), x.std()


def random_list(rng, counts=None, outliers=True):
    '''Table with columns order, x, y, probability; number per order never 20.'''
    o, x = [], []
    for k in NORD:
        n = int(rng.choice([0, 3, 19, 21, 22, 30, 80])) if counts is None else counts
        c = rng.uniform(-500, 500)
        v = c + rng.normal(size=n) * 10**rng.uniform(-3, 1)
        if outliers and n > 25:
            m = int(rng.integers(0, 4))
            v[:m] += rng.uniform(-1, 1, m) * 1000
        o.append(np.full(n, k))
        x.append(v)
    o, x = np.concatenate(o), np.concatenate(x)
    p = rng.permutation(len(o))
    t = Table({'myorder': o[p], 'x': x[p], 'y': rng.normal(size=len(o))})
    t['probability'] = rng.choice([0., 1., .3, .77], size=len(o)) if rng.uniform() < .7 else rng.uniform(0, 1, len(o))
    return t


def order_list(rng):
    o = rng.permutation(np.arange(-6, 7))[:int(rng.integers(1, 13))]
    return o if rng.uniform() < .5 else [int(a) for a in o]


def ref_R(t, orders, col, zeropos):
    res = np.full((3, len(orders)), np.nan)
    for i, o in enumerate(orders):
        x = t[col].data[t['myorder'] == o]
        if len(x) > 20:
            m, s = clipped(x)
            with np.errstate(all='ignore'):
                res[:, i] = np.abs(m - zeropos) / (FWHM * s), m, s
    return res


def nanclose(a, b, msg, rtol=1e-7, atol=1e-9):
    a, b = np.ma.filled(np.ma.asarray(a).astype(float), np.nan), np.asarray(b, dtype=float)
    ensure(a.shape == b.shape, msg + ' (shape)', got=a.shape, want=b.shape)
    ensure((np.isnan(a) == np.isnan(b)).all(), msg + ': undefined values', got=a, want=b)
    ok = ~np.isnan(b)
    close(a[ok], b[ok], msg, rtol=rtol, atol=atol)


def copy_of(t):
    return {c: np.array(t[c]) for c in t.colnames}


def unchanged(t, snap, msg):
    ensure(list(t.colnames) == list(snap), msg + ': columns of input')
    for c in snap:
        same(np.asarray(t[c]), snap[c], msg + f': input column {c}')


@sub('C26', dict(seed=seeds, auto=st.booleans(), zero=floats(-100, 100)), quick=150, thorough=20000)
def resolving_power_of_photon_list(seed, auto, zero):
    rng = rng_of(seed)
    t = random_list(rng)
    orders = order_list(rng)
    snap = copy_of(t)
    n0 = (t['myorder'] == 0).sum()
    if auto and n0 < 20:
        with raises(ag.AnalysisError, 'too few photons in order 0'):
            ag.resolvingpower_from_photonlist(t, orders, col='x', ordercol='myorder')
        return
    out = ag.resolvingpower_from_photonlist(t, orders, col='x', ordercol='myorder', zeropos=None if auto else zero)
    unchanged(t, snap, 'resolving power')
    zp = clipped(t['x'].data[t['myorder'] == 0])[0] if auto else zero
    want = ref_R(t, orders, 'x', zp)
    scale = [1e-6 + 1e-7 * np.nanmax(np.append(want[0], 0)), 1e-8, 1e-8]
    for a, b, n, s in zip(out, want, ['resolving power', 'position', 'width'], scale):
        nanclose(a, b, n, atol=s)
    perm = rng.permutation(len(t))
    out2 = ag.resolvingpower_from_photonlist(t[perm], orders, col='x', ordercol='myorder', zeropos=None if auto else zero)
    for a, b in zip(out2, out):
        nanclose(a, np.asarray(b, dtype=float), 'order of photons is irrelevant', rtol=1e-6, atol=1e-6)
    trivial(np.isnan(want[0]).all())


@sub('C26', dict(seed=seeds, m=st.integers(1, 4)), quick=80, thorough=8000)
def worst_case_resolving_power(seed, m):
    rng = rng_of(seed)
    lists, cols, zero = [], [], []
    for i in range(m):
        if i and rng.uniform() < .3:    # another column of the same list
            t = lists[0]
            t['c%i' % i] = t['x'] * rng.uniform(.1, 2) + rng.normal(size=len(t))
            cols.append('c%i' % i)
        else:
            t = random_list(rng)
            cols.append('x')
        lists.append(t)
        ok = (t['myorder'] == 0).sum() >= 20
        zero.append(None if ok and rng.uniform() < .5 else rng.uniform(-50, 50))
    orders = order_list(rng)
    out = ag.resolvingpower_from_photonlist_robust(lists, orders, cols, zero, ordercol='myorder')
    ref = []
    for t, c, z in zip(lists, cols, zero):
        ref.append(ref_R(t, orders, c, clipped(t[c].data[t['myorder'] == 0])[0] if z is None else z))
    ref = np.array(ref)
    for j in range(len(orders)):
        got = np.array([o[j] for o in out])
        if np.isnan(ref[:, 0, j]).any():
            ensure(np.isnan(got[0]), 'undefined in one list is reported as nan', got=got)
        else:
            k = np.argmin(ref[:, 0, j])
            second = np.sort(ref[:, 0, j])[1:2]
            close(got[0], ref[k, 0, j], 'worst case resolving power', rtol=1e-6, atol=1e-6)
            if len(second) == 0 or second[0] > ref[k, 0, j] * (1 + 1e-6) + 1e-6:
                close(got[1:], ref[k, 1:, j], 'position and width belong to the worst case', rtol=1e-6, atol=1e-6)
    bad = int(rng.integers(2))
    with raises(ValueError, 'inconsistent lengths'):
        ag.resolvingpower_from_photonlist_robust(lists, orders, cols + ['x'] * (1 - bad), zero + [0] * bad, ordercol='myorder')
    trivial(np.isnan(ref[:, 0]).any(axis=0).all())


@sub('C26', dict(seed=seeds, area=logfloats(.01, 1000), unit=st.sampled_from([None, 'cm2', 'mm2']), extra=st.integers(0, 500)),
     quick=120, thorough=20000)
def effective_area_and_fractions(seed, area, unit, extra):
    rng = rng_of(seed)
    t = random_list(rng)
    orders = order_list(rng)
    snap = copy_of(t)
    A = area if unit is None else area * u.Unit(unit)
    n = max(1, int(rng.integers(1, len(t) + 1))) if len(t) and extra % 3 == 1 else len(t) + extra     # e.g. a subset of a larger list
    w = np.array([t['probability'].data[t['myorder'] == o].sum() for o in orders])
    if len(t):
        f = detected_fraction(t, orders, col='myorder')
        close(f, w / len(t), 'detected fraction')
        few = t[:int(rng.integers(1, 8))].copy()
        close(detected_fraction(few, orders, col='myorder'),
              [few['probability'].data[few['myorder'] == o].sum() / len(few) for o in orders], 'detected fraction of a short list')
    if n:
        aeff = ag.effectivearea_from_photonlist(t, orders, n, A_geom=A, ordercol='myorder')
        if unit:
            close(aeff.to_value(u.Unit(unit)), w / n * area, 'effective area', rtol=1e-9)
        else:
            close(aeff, w / n * area, 'effective area', rtol=1e-9)
        t2 = t[rng.permutation(len(t))]
        t2 = t2[t2['probability'] > 0]
        a2 = ag.effectivearea_from_photonlist(t2, orders, n, A_geom=A, ordercol='myorder')
        close(u.Quantity(a2).value, u.Quantity(aeff).value, 'photons of zero probability and order of photons', rtol=1e-9)
        full = ag.effectivearea_from_photonlist(t, NORD, n, A_geom=A, ordercol='myorder')
        close(u.Quantity(full).value.sum(), t['probability'].sum() / n * area, 'sum over orders', rtol=1e-9)
        if unit is None:
            a1 = ag.effectivearea_from_photonlist(t, orders, n, ordercol='myorder')
            close(a1.to_value(u.cm**2), w / n, 'default area', rtol=1e-9)
    unchanged(t, snap, 'effective area')
    trivial(w.sum() == 0)


@sub('C26', dict(seed=seeds, area=logfloats(.01, 1000), gaps=st.booleans(), masked=st.booleans(),
                 auto=st.booleans(), extra=st.sampled_from([None, 0, 77])), quick=150, thorough=15000)
def captured_summary(seed, area, gaps, masked, auto, extra):
    rng = rng_of(seed)
    t = random_list(rng)
    n = len(t)
    orders = order_list(rng)
    bad = rng.uniform(size=n) < rng.choice([0., .1, .5])
    x = t['x'].data.copy()
    x[bad] = rng.choice([np.nan, np.inf, -np.inf], size=bad.sum())
    msk = np.zeros(n, dtype=bool)
    if masked:
        msk = rng.uniform(size=n) < .1
        t['x'] = MaskedColumn(x, mask=msk)
    else:
        t['x'] = x
    t['CCD'] = rng.integers(-1, 3, n)
    zero = None if auto else float(rng.uniform(-50, 50))
    kw = dict(A_geom=area, order_col='myorder', orders=orders, dispersion_coord='x', zeropos=zero)
    cap = ag.CaptureResAeff_CCDgaps(aeff_filter_col='CCD', **kw) if gaps else ag.CaptureResAeff(**kw)
    use = np.isfinite(x) & (t['probability'].data > 0) & ~msk
    cnt = [(t['myorder'].data[use] == o).sum() for o in NORD]
    if any(c == 20 for c in cnt) or n == 0:
        trivial()
        return
    snap = copy_of(t)
    n_ph = None if extra is None else n + extra
    out = cap(t) if n_ph is None else cap(t, n_ph)
    unchanged(t, snap, 'capture')
    n_ph = n_ph or n
    oo = np.asarray(orders)
    sel = t['CCD'].data >= 0 if gaps else np.ones(n, dtype=bool)
    aeff = np.array([t['probability'].data[sel & (t['myorder'].data == o)].sum() for o in orders]) / n_ph * area
    close(out['Aeff'], aeff, 'effective area by order', rtol=1e-9)
    close(out['Aeff0'], aeff[oo == 0].sum(), 'effective area in order 0', rtol=1e-9)
    close(out['Aeffgrat'], aeff[oo != 0].sum(), 'effective area of the gratings', rtol=1e-9)
    sub_ = Table({'myorder': t['myorder'].data[use], 'x': x[use]})
    n0 = (sub_['myorder'] == 0).sum()
    if zero is None and n0 < 20:
        R = np.full(len(orders), np.nan)
    else:
        z = clipped(sub_['x'].data[sub_['myorder'] == 0])[0] if zero is None else zero
        R = ref_R(sub_, orders, 'x', z)[0]
    nanclose(out['R'], R, 'resolving power by order', rtol=1e-6, atol=1e-5)
    g = (oo != 0) & np.isfinite(R)
    if aeff[g].sum() > 0:
        close(out['Rgrat'], (R[g] * aeff[g]).sum() / aeff[g].sum(), 'average resolving power', rtol=1e-6, atol=1e-5)
    else:
        ensure(out['Rgrat'] is np.ma.masked or not np.isfinite(out['Rgrat']), 'undefined average', got=out['Rgrat'])
    # photons that cannot be detected are irrelevant
    keep = (t['probability'] > 0)
    out2 = cap(t[keep][rng.permutation(keep.sum())], n_ph)
    for k in ['Aeff', 'Aeff0', 'Aeffgrat', 'R']:
        nanclose(out2[k], np.asarray(out[k], dtype=float), f'photons of zero probability: {k}', rtol=1e-6, atol=1e-5)
    trivial(np.isnan(R).all())


@sub('C26', dict(seed=seeds, axis=st.sampled_from([None, 0, 1, 2, -1]), nd=st.integers(1, 3), ma=st.booleans(), unit=st.booleans()),
     quick=150, thorough=20000)
def average_over_orders(seed, axis, nd, ma, unit):
    rng = rng_of(seed)
    shape = tuple(rng.integers(1, 5, nd))
    if axis is not None and axis >= nd:
        axis = nd - 1
    r = rng.uniform(0, 5000, shape)
    a = rng.uniform(0, 100, shape) * rng.choice([0, 1, 1], size=shape)
    r[rng.uniform(size=shape) < .3] = np.nan
    if rng.uniform() < .2:
        r[rng.uniform(size=shape) < .3] = np.inf
    valid = np.isfinite(r)
    arg = r
    if ma:
        m = rng.uniform(size=shape) < .2
        arg = np.ma.array(r, mask=m)
        valid = valid & ~m
    aa = a * u.cm**2 if unit and not ma else a
    res, tot = ag.average_R_Aeff(arg, aa, axis=axis)
    if unit and not ma:
        ensure(tot.unit == u.cm**2, 'unit of effective area')
        tot = tot.value
    close(tot, a.sum(axis=axis), 'total effective area', rtol=1e-9)
    w = (a * valid).sum(axis=axis)
    s = (np.where(valid, r, 0) * a).sum(axis=axis)
    with np.errstate(all='ignore'):
        want = np.where(w > 0, s / w, np.nan)
    got = np.ma.filled(np.ma.asarray(res).astype(float), np.nan)
    nanclose(got, want, 'weighted average', rtol=1e-9)
    trivial(not (w > 0).any())


@sub('C26', dict(seed=seeds, m=st.integers(1, 6), shuffle=st.booleans()), quick=80, thorough=5000)
def expected_weights_by_order(seed, m, shuffle):
    import os
    import tempfile
    rng = rng_of(seed)
    orders = rng.permutation(np.arange(-5, 6))[:int(rng.integers(1, 7))]
    en = np.sort(rng.uniform(.2, 8, int(rng.integers(2, 7))))
    if (np.diff(en) < 1e-3).any():
        trivial()
        return
    prob = rng.uniform(0, 1. / len(orders), (len(en), len(orders)))
    prob[rng.uniform(size=prob.shape) < .2] = 0
    k = rng.permutation(len(en)) if shuffle else np.arange(len(en))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'eff.dat')
        np.savetxt(f, np.column_stack([en[k], prob[k]]), fmt='%.17g')
        eff = EfficiencyFile(f, orders)
    sel = orders[rng.permutation(len(orders))[:int(rng.integers(1, len(orders) + 1))]]
    e = rng.uniform(.1, 9, m)
    data = rng.uniform(0, 1000, (len(sel), m))
    if rng.random() < .3:
        data = np.round(data).astype(int)
    got = ag.weighted_per_order(data, sel, e, eff)
    w = np.zeros(data.shape)
    for i, o in enumerate(sel):
        j = list(orders).index(o)
        for q in range(m):
            b = np.searchsorted(en, e[q])
            if b == 0:
                w[i, q] = prob[0, j]
            elif b == len(en):
                w[i, q] = prob[-1, j]
            else:
                f = (e[q] - en[b - 1]) / (en[b] - en[b - 1])
                w[i, q] = prob[b - 1, j] * (1 - f) + prob[b, j] * f
    ok = w.sum(axis=0) > 1e-12
    want = (data * w).sum(axis=0)[ok] / w.sum(axis=0)[ok]
    close(np.ma.filled(np.ma.asarray(got).astype(float), np.nan)[ok], want, 'weighted by expected fraction', rtol=1e-8)
    with raises(ValueError, 'wrong number of orders'):
        ag.weighted_per_order(data[:-1] if len(sel) > 1 else np.ones((2, m)), sel, e, eff)
    with raises(ValueError, 'wrong number of energies'):
        ag.weighted_per_order(np.ones((len(sel), m + 1)), sel, e, eff)
    with raises(KeyError, 'unknown order'):
        ag.weighted_per_order(data, np.append(sel[:-1], 99), e, eff)
    trivial(not ok.any())


@sub('C26', dict(seed=seeds, ang0=floats(0, 2 * np.pi), width=floats(0, np.pi), default=st.booleans()), quick=150, thorough=20000)
def subaperture_of_two_sectors(seed, ang0, width, default):
    rng = rng_of(seed)
    if default:
        ang0 = np.pi / 2
    a = rng.uniform(-10, 10, 200)
    a[:20] = rng.choice([0, np.pi, 2 * np.pi, -np.pi / 2, np.pi / 2], 20)
    got = ag.identify_photon_in_subaperture(a, width, **({} if default else {'ang_0': ang0}))

    def dist(x, y):
        return np.abs((x - y + np.pi) % (2 * np.pi) - np.pi)
    d = np.minimum(dist(a, ang0), dist(a, -ang0))
    clear = np.abs(d - width) > 1e-3
    same(np.asarray(got, dtype=bool)[clear], (d < width)[clear], 'inside one of two mirrored sectors')


def grating_and_photons(rng, n):
    m = int(rng.integers(1, 4))
    gas = Parallel(elem_class=FlatGrating, elem_pos={'position': [[1000., y, 0] for y in np.arange(m) * 22. - 11 * (m - 1)],
                                                     'zoom': [[1, 10, 30.]] * m},
                   elem_args={'d': 10**rng.uniform(-4.3, -3.2), 'order_selector': OrderSelector([0, 1]),
                              'groove_angle': float(rng.uniform(-.1, .1))}, id_col='facet')
    p = np.stack([np.full(n, 1100.), rng.uniform(-30, 30, n) / 3 * m, rng.uniform(-25, 25, n)], axis=1)
    foc = np.stack([rng.normal(size=n) * .1, rng.normal(size=n) * .05, rng.normal(size=n) * .05], axis=1)
    t = photon_table(rng, p, foc - p, energy=rng.uniform(.5, 3) * np.ones(n), prob=rng.choice([1., 0, .5], size=n, p=[.8, .1, .1]))
    return gas, t


@sub('C26', dict(seed=seeds, n=st.integers(60, 200), kind=st.sampled_from(['flat', 'flat2', 'torus', None])), quick=40, thorough=1500)
def resolving_power_by_simulation(seed, n, kind):
    rng = rng_of(seed)
    s = int(rng.integers(2**31))
    gas, t = grating_and_photons(rng_of(s), n)
    tref = t.copy()
    orders = np.array(rng.permutation([-2, -1, 0, 1, 2])[:int(rng.integers(1, 4))])
    kw = {}
    if kind is None:
        det = None
    elif kind == 'torus':
        det = RowlandTorus(R=500., r=500.)
    else:
        det = FlatDetector(position=[rng.uniform(-3, 3), 0, 0], zoom=[1, 300, 300], pixsize=.1)
        kw = {'colname': 'det_y'} if kind == 'flat2' else {}
    res, fwhm, info = ag.resolvingpower_per_order(gas, t, orders, detector=det, **kw)
    ensure(isinstance(info, dict) and 'method' in info, 'information about the method')
    for c in tref.colnames:
        same(t[c], tref[c], f'input photons unchanged: {c}')
    ensure(list(t.colnames) == list(tref.colnames), 'input photons unchanged')
    gas0, t0 = grating_and_photons(rng_of(s), n)

    def positions(table, x=None, col='det_x'):
        p, d = table['pos'].data[:, :3], table['dir'].data[:, :3]
        if kind == 'torus':
            # circle of radius 500 around x=500, wall at the focus side
            p2 = p - np.array([500., 0, 0])
            a = d[:, 0]**2 + d[:, 1]**2
            b = p2[:, 0] * d[:, 0] + p2[:, 1] * d[:, 1]
            c = p2[:, 0]**2 + p2[:, 1]**2 - 500.**2
            L = (-b + np.sqrt(b * b - a * c)) / a
            q = p2 + L[:, None] * d
            return -np.arctan2(q[:, 1], -q[:, 0]) * 500.
        L = (x - p[:, 0]) / d[:, 0]
        q = p + L[:, None] * d
        return q[:, 2 if col == 'det_y' else 1]

    live = t0[t0['probability'] > 0]
    x0 = None if kind is None else 0 if kind == 'torus' else det.pos4d[0, 3]
    col = kw.get('colname', 'det_x')
    zero = 0. if kind is None else clipped(positions(live, x0, col))[0]
    n_ok = 0
    for i, o in enumerate(orders):
        g2, t2 = grating_and_photons(rng_of(s), n)
        for e in g2.elements:
            e.order_selector = OrderSelector([o])
        p2 = g2(t2)
        p2 = p2[(p2['order'] == o) & (p2['probability'] > 0)]
        if len(p2) < 5:
            continue
        if kind is None:
            x = info['fit_results'][i].x
            got = clipped(positions(p2, x))
            own = find_best_detector_position(p2.copy(), objective_func=sigma_clipped_std)
            best = clipped(positions(p2, own.x))[1]
            ensure(got[1] <= best * 1.05 + 1e-5, 'position of best focus of this order', order=o, width=got[1], best=best, x=x, own=own.x)
            for xx in x + np.array([-20, -5, -1, 1, 5, 20.]):
                ensure(clipped(positions(p2, xx))[1] > got[1] * .5, 'width at best position is not far above others',
                       got=got[1], other=clipped(positions(p2, xx))[1])
            m, sg = got
        else:
            m, sg = clipped(positions(p2, x0, col))
        if sg < 1e-7:
            continue
        n_ok += 1
        close(fwhm[i], FWHM * sg, 'full width at half maximum', rtol=1e-4)
        close(res[i], abs(m - zero) / (FWHM * sg), 'resolving power', rtol=1e-4, atol=1e-4 + 1e-6 / sg)
    # photons of zero probability are irrelevant
    g3, t3 = grating_and_photons(rng_of(s), n)
    if kind is not None:
        r3, f3, _ = ag.resolvingpower_per_order(g3, t3[t3['probability'] > 0], orders, detector=det, **kw)
        nanclose(r3, np.asarray(res, dtype=float), 'photons of zero probability: resolving power', rtol=1e-6, atol=1e-6)
        nanclose(f3, np.asarray(fwhm, dtype=float), 'photons of zero probability: fwhm', rtol=1e-6, atol=1e-6)
    trivial(n_ok == 0)


@sub('C26', dict(seed=seeds, n=st.integers(1, 200)), quick=80, thorough=5000)
def widths(seed, n):
    rng = rng_of(seed)
    t = Table({'det_x': rng.normal(size=n) * 10**rng.uniform(-3, 2), 'det_y': rng.normal(size=n) + rng.uniform(-100, 100)})
    k = int(rng.integers(0, 4))
    t['det_x'][:k] += rng.uniform(-1000, 1000)
    x, y = t['det_x'].data, t['det_y'].data
    for c in ['det_x', 'det_y']:
        close(sigma_clipped_std(t, colname=c), clipped(t[c].data)[1], 'clipped standard deviation', rtol=1e-7, atol=1e-10)
    close(sigma_clipped_std(t), clipped(x)[1], 'default column', rtol=1e-7, atol=1e-10)
    want = np.mean(np.hypot(x - x.mean(), y - y.mean()))
    close(mean_width_2d(t), want, 'mean distance from centre', rtol=1e-9)
    trivial(n < 3)
