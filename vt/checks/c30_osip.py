'''C30: order sorting.'''
import logging
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa
import astropy.units as u
from astropy.table import QTable
from scipy.special import ndtr, ndtri

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats

from marxs.optics.detector import CCDRedistNormal
from marxs.reduction.osip import FixedWidthOSIP, FixedFractionOSIP, FractionalDistanceOSIP, OSIPBase
from marxs.reduction.ogip import ARF

logging.getLogger('marxs.reduction.osip').setLevel(logging.ERROR)
HC = 12.398419843320026
FWHM = 2.3548200450309493
KINDS = ['width', 'fraction', 'distance', 'tab', 'range', 'offset']
UNITS = ['keV', 'eV', 'AA', 'nm']


class Redist:
    '''a table for the CCD and its model'''
    def __init__(self, rng):
        m = int(rng.integers(1, 6))
        self.e = np.sort(rng.uniform(.05, 8, m)) + .01 * np.arange(m)
        self.s = rng.uniform(.01, .15, m)
        eu, su = str(rng.choice(['keV', 'eV'])), str(rng.choice(['keV', 'eV']))
        fw = rng.uniform() < .5
        self.obj = CCDRedistNormal(tab_width=QTable({'energy': (self.e * u.keV).to(eu),
                                                     'FWHM' if fw else 'sigma': ((self.s * FWHM if fw else self.s) * u.keV).to(su)}))

    def sigma(self, e):
        return np.interp(e, self.e, self.s)


class TabOSIP(OSIPBase):
    osip_description = 'mytab'

    def osip_tab(self, chan_mid, order):
        e = chan_mid.to(u.keV, equivalencies=u.spectral())
        return np.stack([.05 * e, .1 * e / abs(order)])


class RangeOSIP(OSIPBase):
    osip_description = 'myrange'

    def osip_range(self, chan_mid, order):
        e = chan_mid.to(u.keV, equivalencies=u.spectral())
        return np.stack([.95 * e, e + .1 * e / abs(order)])


class OffsetOSIP(OSIPBase):
    '''a window that does not contain the line'''
    osip_description = 'myoffset'

    def osip_range(self, chan_mid, order):
        e = chan_mid.to(u.keV, equivalencies=u.spectral())
        return np.stack([(1. + .02 * np.sign(order)) * e, (1.1 + .06 * np.sign(order)) * e])


def make(rng, kind, ccd, par=None, **kw):
    '''OSIP and function for the window'''
    f = rng.uniform() if par is None else par
    if kind == 'width':
        o = FixedWidthOSIP((.2 * f * u.keV).to(str(rng.choice(['keV', 'eV', 'J']))), ccd_redist=ccd.obj, **kw)
        return o, lambda e, m: (e - .2 * f, e + .2 * f), str(o.halfwidth)
    if kind == 'fraction':
        f = .01 + .98 * f
        return (FixedFractionOSIP(f, ccd_redist=ccd.obj, **kw),
                lambda e, m: (e + ndtri(.5 - f / 2) * ccd.sigma(e), e + ndtri(.5 + f / 2) * ccd.sigma(e)), 'OSIPFrac' + str(f))
    if kind == 'distance':
        kw2 = {'fraction': f}
        if par is None and rng.uniform() < .3:
            f, kw2 = 1., {}
        return (FractionalDistanceOSIP(ccd_redist=ccd.obj, **kw2, **kw), lambda e, m: (e - f * e / abs(m) / 2, e + f * e / abs(m) / 2),
                'OSIPDist' + str(f))
    if kind == 'offset':
        return OffsetOSIP(ccd_redist=ccd.obj, **kw), lambda e, m: ((1. + .02 * np.sign(m)) * e, (1.1 + .06 * np.sign(m)) * e), 'myoffset'
    c, d = {'tab': (TabOSIP, 'mytab'), 'range': (RangeOSIP, 'myrange')}[kind]
    return c(ccd_redist=ccd.obj, **kw), lambda e, m: (.95 * e, e + .1 * e / abs(m)), d


def factor(ccd, window, e, nom, true):
    if np.sign(nom) != np.sign(true):
        return np.zeros_like(e)
    lo, hi = window(e, nom)
    et = e * true / nom
    s = ccd.sigma(et)
    return ndtr((hi - et) / s) - ndtr((lo - et) / s)


orders = st.integers(-12, 12).filter(lambda x: x != 0)


@sub('C30', dict(seed=seeds, kind=st.sampled_from(KINDS), unit=st.sampled_from(UNITS), nom=orders, off=st.integers(-4, 4), n=st.integers(1, 12)),
     quick=150, thorough=15000)
def windows_and_fractions(seed, kind, unit, nom, off, n):
    rng = rng_of(seed)
    ccd = Redist(rng)
    osip, window, descr = make(rng, kind, ccd)
    ensure(osip.osip_description == descr, 'description of the window', got=osip.osip_description)
    e = rng.uniform(.1, 8, n)
    q = (e * u.keV).to(u.Unit(unit), equivalencies=u.spectral())
    lo, hi = window(e, nom)
    r = osip.osip_range(q, nom)
    t = osip.osip_tab(q, nom)
    ensure(r.shape == t.shape == (2, n), 'shape')
    close(r[0].to_value(u.keV), lo, 'lower end of the window', rtol=1e-7, atol=1e-10)
    close(r[1].to_value(u.keV), hi, 'upper end of the window', rtol=1e-7, atol=1e-10)
    close(t[0].to_value(u.keV), e - lo, 'width below the line', rtol=1e-7, atol=1e-8)
    close(t[1].to_value(u.keV), hi - e, 'width above the line', rtol=1e-7, atol=1e-8)
    true = nom + off
    want = factor(ccd, window, e, nom, true)
    got = np.broadcast_to(u.Quantity(osip.osip_factor(q, nom, true)).to_value(u.dimensionless_unscaled), (n,))
    close(got, want, 'fraction of the photons in the window', rtol=1e-6, atol=1e-9)
    ensure((got >= 0).all() and (got <= 1).all(), 'fraction between 0 and 1')
    if off == 0 and kind == 'fraction':
        close(got, np.full(n, osip.fraction), 'fraction that was asked for', rtol=1e-6)
    trivial(np.sign(nom) != np.sign(true))
    label('partial overlap', ((want > .01) & (want < .99)).any())


@sub('C30', dict(seed=seeds, kind=st.sampled_from(['width', 'fraction', 'distance']), a=floats(0, 1), b=floats(0, 1), nom=orders, off=st.integers(-3, 3)),
     quick=100, thorough=10000)
def wider_windows_keep_more(seed, kind, a, b, nom, off):
    rng = rng_of(seed)
    ccd = Redist(rng)
    a, b = sorted([a, b])
    e = rng.uniform(.1, 8, 10) * u.keV
    f = []
    for p in [a, b]:
        osip, window, descr = make(rng, kind, ccd, par=p)
        f.append(np.broadcast_to(osip.osip_factor(e, nom, nom + off), (10,)))
    ensure((f[1] >= f[0] - 1e-9).all(), 'a wider window never keeps fewer photons', narrow=f[0], wide=f[1])
    trivial(a == b or np.sign(nom) != np.sign(nom + off))


@sub('C30', dict(seed=seeds, frac=floats(.01, 1), dE=floats(.02, .8), true=st.integers(1, 9), sign=st.sampled_from([-1, 1])), quick=100, thorough=10000)
def windows_of_neighbouring_orders(seed, frac, dE, true, sign):
    '''At the same position on the detector (same m lambda)'''
    rng = rng_of(seed)
    ccd = Redist(rng)
    osip = FractionalDistanceOSIP(frac, ccd_redist=ccd.obj)
    N = 12
    r = np.array([osip.osip_range([o * dE] * u.keV, sign * o).to_value(u.keV)[:, 0] for o in range(1, N + 1)])
    gap = r[1:, 0] - r[:-1, 1]
    close(gap, np.full(N - 1, (1 - frac) * dE), 'gap between windows', rtol=1e-6, atol=1e-9)
    f = np.array([osip.osip_factor([o * dE] * u.keV, sign * o, sign * true)[0] for o in range(1, N + 1)])
    ensure(f.sum() <= 1 + 1e-9, 'no photon is counted twice', total=f.sum())
    e = true * dE
    s = ccd.sigma(e)
    full = ndtr(((N + .5) * dE - e) / s) - ndtr((.5 * dE - e) / s)
    ensure(f.sum() <= full + 1e-7, 'no more than all photons')
    if frac == 1:
        close(f.sum(), full, 'every photon in one window', rtol=1e-6)
    osip = FractionalDistanceOSIP(ccd_redist=ccd.obj)
    f = np.array([osip.osip_factor([o * dE] * u.keV, sign * o, sign * true)[0] for o in range(1, N + 1)])
    close(f.sum(), full, 'every photon is in exactly one of the windows that touch', rtol=1e-6)


HEAD = {'TELESCOP': 'tel', 'INSTRUME': 'ins', 'FILTER': 'fil'}


def write_arf(rng, fname, order, n, bins=False):
    e = rng.uniform(.2, 3) + np.cumsum(rng.uniform(.01, .1, n + 1))
    area = rng.uniform(1, 100, n)
    arf = ARF()
    arf['ENERG_LO'] = e[:-1] * u.keV
    arf['ENERG_HI'] = e[1:] * u.keV
    arf['SPECRESP'] = area * u.cm**2
    if bins:
        arf['BIN_LO'] = HC / e[1:] * u.AA
        arf['BIN_HI'] = HC / e[:-1] * u.AA
    arf.meta.update(HEAD)
    arf.meta['ORDER'] = order
    arf.write(fname)
    return .5 * (e[1:] + e[:-1]), area


def check_out(fname, e, area, fac, nom, true, descr, msg):
    arf = ARF.read(fname)
    n = len(e)
    close(.5 * (arf['ENERG_LO'] + arf['ENERG_HI']).to_value(u.keV), e, msg + ': energies', rtol=1e-9)
    close(np.broadcast_to(u.Quantity(arf['SPECRESP']).to_value(u.cm**2), (n,)), area * fac, msg + ': effective area is multiplied by the fraction',
          rtol=1e-5, atol=1e-9)
    close(np.broadcast_to(np.asarray(arf['OSIPFAC'], dtype=float), (n,)), fac, msg + ': fraction is recorded', rtol=1e-5, atol=1e-10)
    ensure(int(arf.meta['TRUEORD']) == true and int(arf.meta['CCDORDER']) == nom and int(arf.meta['ORDER']) == true, msg + ': orders',
           meta=str(dict(arf.meta)))
    ensure(arf.meta['OSIP'] == descr, msg + ': description', got=arf.meta['OSIP'], want=descr)
    ensure(arf.meta['INSTRUME'] == f'ORDER_{nom}' and arf.meta['TELESCOP'] == 'tel', msg + ': keywords')


@sub('C30', dict(seed=seeds, kind=st.sampled_from(KINDS), kind2=st.sampled_from(KINDS), nom=orders, off=st.integers(-2, 2), n=st.integers(2, 20),
                 root=st.sampled_from(['', 'my'])), quick=60, thorough=3000)
def effective_area_file(seed, kind, kind2, nom, off, n, root):
    rng = rng_of(seed)
    true = nom + off
    if true == 0:
        trivial()
        return
    ccd = Redist(rng)
    osip, window, descr = make(rng, kind, ccd)
    with tempfile.TemporaryDirectory() as d:
        f0 = os.path.join(d, 'in.arf')
        e, area = write_arf(rng, f0, true, n)
        with open(f0, 'rb') as f:
            raw = f.read()
        out = os.path.join(d, 'sub', 'out')
        kw = {'outroot': root} if root else {}
        osip.apply_osip(f0, out, nom, **kw)
        with open(f0, 'rb') as f:
            ensure(f.read() == raw, 'input file is unchanged')
        files = os.listdir(out)
        ensure(len(files) == 1 and files[0].startswith(root) and files[0].endswith('.arf'), 'one output file', files=files)
        fac = factor(ccd, window, e * nom / true, nom, true)
        f1 = os.path.join(out, files[0])
        check_out(f1, e, area, fac, nom, true, descr, 'first pass')
        with raises(OSError, 'files are not overwritten'):
            osip.apply_osip(f0, out, nom, **kw)
        osip.apply_osip(f0, out, nom, overwrite=True, **kw)
        check_out(f1, e, area, fac, nom, true, descr, 'overwritten')
        if (fac > 1e-4).all():
            osip2, window2, descr2 = make(rng, kind2, ccd)
            nom2 = nom + int(rng.integers(-1, 2))
            if nom2 != 0:
                out2 = os.path.join(d, 'again')
                osip2.apply_osip(f1, out2, nom2)
                fac2 = factor(ccd, window2, e * nom2 / true, nom2, true)
                check_out(os.path.join(out2, os.listdir(out2)[0]), e, area, fac2, nom2, true, descr2, 'new sorting replaces the old one')
                label('sorting applied to a file that was sorted before')
    trivial((fac == 0).all())


@sub('C30', dict(seed=seeds, kind=st.sampled_from(KINDS), sign=st.sampled_from([-1, 1]), offs=st.sampled_from([None, [0], [-1, 0, 1], [-2, -1, 0, 1, 2], [-4, -3, -2], [0, 2, 3]])),
     quick=8, thorough=100, hang=180)
def directory_of_files(seed, kind, sign, offs):
    rng = rng_of(seed)
    ccd = Redist(rng)
    kw = {} if offs is None else {'offset_orders': offs}
    osip, window, descr = make(rng, kind, ccd, **kw)
    offs = offs or [-1, 0, 1]
    have = sorted(set(int(x) for x in rng.integers(1, 7, int(rng.integers(1, 5)))))
    noms = sorted(set(int(x) for x in rng.integers(1, 7, int(rng.integers(1, 4)))))
    if rng.random() < .7:       # offsets that reach the other side of the zeroth order
        noms = sorted({1} | set(noms))
    other = -sign * int(rng.integers(1, 3))
    with tempfile.TemporaryDirectory() as d:
        inp, out = os.path.join(d, 'in'), os.path.join(d, 'out')
        os.mkdir(inp)
        data = {}
        n = int(rng.integers(3, 9))
        for o in [sign * o for o in have] + [other]:
            data[o] = write_arf(rng, os.path.join(inp, f'r_{o:+}.arf'), o, n, bins=True)
        before = set(os.listdir(inp))
        plt.close('all')
        osip.apply_osip_all(inp, out, [sign * o for o in noms], inroot='r', outroot='x')
        figs = [plt.figure(i) for i in plt.get_fignums()]
        want = {(sign * o, sign * o + k) for o in noms for k in offs if sign * (sign * o + k) in have}
        ensure(set(os.listdir(inp)) == before, 'input directory is unchanged')
        files = [f for f in (os.listdir(out) if os.path.isdir(out) else []) if f.endswith('.arf')]
        got = set()
        for f in files:
            a = ARF.read(os.path.join(out, f))
            o, t = int(a.meta['CCDORDER']), int(a.meta['TRUEORD'])
            got.add((o, t))
            e, area = data[t]
            check_out(os.path.join(out, f), e, area, factor(ccd, window, e * o / t, o, t), o, t, descr, f'order {o}, true order {t}')
            ensure(f.startswith('x'), 'name of the file')
        ensure(got == want and len(files) == len(want), 'one file for every nominal order and contaminating order', got=got, want=want)
        if want:
            pdf = [f for f in os.listdir(out) if f.endswith('.pdf')]
            ensure(len(pdf) == 2, 'plots', files=os.listdir(out))
            x, y = figs[-1].axes[0].lines[0].get_data()
            x, y = np.asarray(u.Quantity(x)), np.asarray(u.Quantity(y))
            tot = np.zeros(len(x))
            for o, t in want:
                e, area = data[t]
                a = ARF.read(os.path.join(out, [f for f in files if f'ccdord_{o}_true_{t}.' in f][0]))
                xx = np.asarray(a['BIN_LO'])[::-1]
                yy = (area * factor(ccd, window, e * o / t, o, t))[::-1]
                tot += np.interp(x, xx, yy)
            close(y, tot, 'plot of the sum of all orders', rtol=1e-5, atol=1e-7)
        plt.close('all')
    trivial(not want)


@sub('C30', dict(seed=seeds, kind=st.sampled_from(KINDS), order=orders, n=st.integers(2, 30)), quick=20, thorough=400)
def plots_show_the_windows(seed, kind, order, n):
    rng = rng_of(seed)
    ccd = Redist(rng)
    osip, window, descr = make(rng, kind, ccd)
    mlam = np.sort(rng.uniform(20, 100, n))
    if np.diff(mlam).min() < 1e-3:
        trivial()
        return
    fig, axes = plt.subplots(ncols=2)
    try:
        osip.plot_osip(axes[0], mlam * u.AA, order)
        x, y = axes[0].lines[0].get_data()
        e = HC * abs(order) / mlam
        close(np.asarray(u.Quantity(x)), mlam, 'position on the detector', rtol=1e-7)
        close(np.asarray(u.Quantity(y)), e, 'energy', rtol=1e-7)
        v = np.unique(axes[0].collections[0].get_paths()[0].vertices, axis=0)
        lo, hi = window(e, order)
        for k in range(n):
            yy = v[np.isclose(v[:, 0], mlam[k], rtol=1e-9)][:, 1]
            close(yy.min(), min(lo[k], hi[k]), 'shaded region, lower end', rtol=1e-6, atol=1e-8)
            close(yy.max(), max(lo[k], hi[k]), 'shaded region, upper end', rtol=1e-6, atol=1e-8)
        osip.plot_mixture(axes[1], mlam * u.AA, order)
        lines = axes[1].lines
        c = factor(ccd, window, e, order, order)
        tot = c.copy()
        for o in [-1, 1]:
            tot += factor(ccd, window, e, order, order + o)
        close(np.asarray(u.Quantity(lines[-1].get_ydata())), tot, 'sum of order and contamination', rtol=1e-5, atol=1e-8)
        for i, o in enumerate([0, -1, 1]):
            yy = np.asarray(u.Quantity(lines[i].get_ydata()))
            want = factor(ccd, window, e, order, order + o) if i else c
            close(yy, want, f'fraction for order offset {o}', rtol=1e-5, atol=1e-8)
    finally:
        plt.close(fig)
