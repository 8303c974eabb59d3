'''C12: number, time, energy and polarization of emitted photons.'''
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2, binom, poisson, kstest, binomtest
import astropy.units as u
from astropy.table import QTable
from astropy.coordinates import SkyCoord

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import no_trend, no_link, rng_of, seeds, floats, logfloats
from vt.checks.c08_orders import check_counts

from marxs.source import (Source, PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource,
                          poisson_process, LabPointSourceCone, FarLabPointSource)
from marxs.source.basesources import SourceSpecificationError

TIMES = [u.s, u.ms, u.minute, u.hour, u.ks]
AREAS = [u.cm**2, u.mm**2, u.m**2]
ENERGIES = [u.keV, u.eV, u.erg, u.J]
COO = SkyCoord(30., 20., unit='deg')

SOURCES = {
    'Source': lambda **k: Source(**k),
    'PointSource': lambda **k: PointSource(coords=COO, **k),
    'DiskSource': lambda **k: DiskSource(coords=COO, a_outer=1 * u.arcmin, **k),
    'SphericalDiskSource': lambda **k: SphericalDiskSource(coords=COO, a_outer=1 * u.deg, **k),
    'GaussSource': lambda **k: GaussSource(coords=COO, sigma=1 * u.arcmin, **k),
    'SymbolFSource': lambda **k: SymbolFSource(coords=COO, **k),
}
LAB = {
    'LabPointSourceCone': lambda **k: LabPointSourceCone(**k),
    'FarLabPointSource': lambda **k: FarLabPointSource([100., 0, 0], **k),
}


def basics(t, T):
    n = len(t)
    time = np.asarray(t['time'])
    ensure(np.all(np.diff(time) > 0), 'times increase')
    ensure(n == 0 or (time[0] >= 0 and time[-1] <= T * (1 + 1e-9)), 'times inside the exposure', T=T)
    same(np.asarray(t['probability']), np.ones(n), 'initial probability')
    close(t.meta['EXPOSURE'][0], T, 'exposure in the header', rtol=1e-12)
    ensure(t['time'].unit == u.s and t['energy'].unit == u.keV and t['polangle'].unit == u.rad, 'units of columns')
    for c in ('time', 'energy', 'polangle'):
        ensure(np.all(np.isfinite(np.asarray(t[c]))), f'{c} finite')


@sub('C12', dict(src=st.sampled_from(sorted(SOURCES)), count=floats(.01, 400), T=logfloats(1e-2, 1e6), area=logfloats(1e-2, 1e4),
                 ut=st.sampled_from(TIMES), uf=st.sampled_from(TIMES), ua=st.sampled_from(AREAS), uaf=st.sampled_from(AREAS),
                 noarea=st.booleans(), seed=seeds), quick=200, thorough=4000)
def constant_rate(src, count, T, area, ut, uf, ua, uaf, noarea, seed):
    np.random.seed(seed)
    rate = count / T   # 1/s
    if noarea:
        flux = (rate / u.s).to(1 / uf)
        geom = None
    else:
        flux = (rate / area / u.s / u.cm**2).to(1 / uf / uaf)
        geom = (area * u.cm**2).to(ua)
    s = SOURCES[src](flux=flux, geomarea=geom, energy=1. * u.keV)
    t = s.generate_photons((T * u.s).to(ut))
    basics(t, T)
    want = int(np.ceil(count))
    near = abs(count - round(count)) < 1e-6
    ensure(len(t) == want or (near and abs(len(t) - want) <= 1), 'number of photons for a constant flux', got=len(t), expected=want)
    close(np.asarray(t['time']), np.arange(len(t)) / rate, 'constant rate', rtol=1e-9, atol=1e-9 * T)
    trivial(count < 1)


@sub('C12', dict(lab=st.sampled_from(sorted(LAB)), count=floats(.1, 300), T=logfloats(1e-2, 1e5), uf=st.sampled_from(TIMES),
                 ut=st.sampled_from(TIMES), en=logfloats(.05, 50), ue=st.sampled_from(ENERGIES), pol=floats(-7, 7), seed=seeds), quick=80, thorough=1500)
def lab_sources(lab, count, T, uf, ut, en, ue, pol, seed):
    np.random.seed(seed)
    s = LAB[lab](flux=(count / T / u.s).to(1 / uf), energy=(en * u.keV).to(ue), polarization=(pol * u.rad).to(u.deg))
    t = s((T * u.s).to(ut))
    basics(t, T)
    want = int(np.ceil(count))
    near = abs(count - round(count)) < 1e-6
    ensure(len(t) == want or (near and abs(len(t) - want) <= 1), 'number of photons', got=len(t), expected=want)
    close(t['energy'], np.full(len(t), en), 'energy', rtol=1e-9)
    close(t['polangle'], np.full(len(t), pol), 'polarization angle', rtol=1e-9, atol=1e-12)
    d, p = np.asarray(t['dir'])[:, :3], np.asarray(t['polarization'])[:, :3]
    close(np.linalg.norm(d, axis=1), np.ones(len(t)), 'direction is a unit vector')
    y = np.array([0, 1., 0]) - d[:, 1:2] * d
    ok = np.linalg.norm(y, axis=1) > 1e-3
    y = y / np.linalg.norm(y, axis=1)[:, None]
    want = np.cos(pol) * y + np.sin(pol) * np.cross(d, y)
    close(p[ok], want[ok], 'polarization vector', atol=1e-9)


@sub('C12', dict(expected=logfloats(1e-4, 3000), T=logfloats(1e-2, 1e6), area=logfloats(1e-2, 1e4), ut=st.sampled_from(TIMES),
                 uf=st.sampled_from(TIMES), ua=st.sampled_from(AREAS), via=st.booleans(), seed=seeds), quick=150, thorough=4000, hang=20)
def poisson_rate(expected, T, area, ut, uf, ua, via, seed):
    np.random.seed(seed)
    rate = (expected / T / area / u.s / u.cm**2).to(1 / uf / u.cm**2)
    geom = (area * u.cm**2).to(ua)
    p = poisson_process(rate)
    if via:
        t = PointSource(coords=COO, flux=p, geomarea=geom, energy=2 * u.keV).generate_photons((T * u.s).to(ut))
        basics(t, T)
        times = np.asarray(t['time'])
    else:
        times = p((T * u.s).to(ut), geom).to(u.s).value
        ensure(np.all(np.diff(times) > 0), 'times increase')
        ensure(len(times) == 0 or (times[0] > 0 and times[-1] <= T), 'inside the exposure')
    n = len(times)
    ensure(poisson.sf(n - 1, expected) > 1e-10 and poisson.cdf(n, expected) > 1e-10,
           'number of photons is not Poisson distributed', n=n, expected=expected)
    if n > 30:
        ensure(kstest(times / T, 'uniform').pvalue > 1e-10, 'arrival times not uniform')
        ensure(kstest(np.diff(times) * expected / T, 'expon').pvalue > 1e-10, 'waiting times not exponential')
    trivial(n == 0)
    label('few', n < 3)


@sub('C12', dict(expected=floats(.05, 3.), seed=seeds), quick=8, thorough=100, hang=60, examples=[dict(expected=.9, seed=3), dict(expected=1.8, seed=4)])
def poisson_mean_count(expected, seed):
    '''Mean and variance over many short exposures'''
    np.random.seed(seed)
    p = poisson_process(expected / u.s / u.cm**2)
    m = 1200
    n = np.array([len(p(1 * u.s, 1 * u.cm**2)) for i in range(m)])
    z = (n.sum() - m * expected) / np.sqrt(m * expected)
    ensure(abs(z) < 6.5, 'mean count', got=n.mean(), expected=expected)
    z0 = (np.sum(n == 0) - m * np.exp(-expected)) / np.sqrt(m * np.exp(-expected) * (1 - np.exp(-expected)))
    ensure(abs(z0) < 6.5, 'fraction of empty exposures', got=np.mean(n == 0), expected=np.exp(-expected))
    for k in range(1, 12):
        ensure(binomtest(int(np.sum(n >= k)), m, poisson.sf(k - 1, expected)).pvalue > 1e-10, 'distribution of the number of photons',
               k=k, n=np.bincount(n), expected=expected)


@st.composite
def densities(draw):
    n = draw(st.integers(2, 9))
    w = draw(st.lists(logfloats(.05, 5), min_size=n, max_size=n))
    d = draw(st.lists(st.one_of(st.just(0.), logfloats(.02, 20)), min_size=n, max_size=n).filter(lambda x: sum(x) > 0))
    first = draw(st.sampled_from([0., 1., 456.]))
    return draw(floats(.1, 3)), np.array(w), np.array(d), first


def in_bins(x, edges, dens, msg):
    idx = np.clip(np.searchsorted(edges, x, side='left') - 1, 0, len(dens) - 1)
    tol = 1e-9 * edges[-1]
    ensure(np.all((x >= edges[0] - tol) & (x <= edges[-1] + tol)), msg + ': outside of the table')
    # values on an edge belong to either bin
    for i in range(len(edges)):
        near = np.abs(x - edges[i]) < tol
        if near.any():
            other = [dens[k] for k in (i - 1, i) if 0 <= k < len(dens)]
            if max(other) > 0:
                best = [k for k in (i - 1, i) if 0 <= k < len(dens) and dens[k] > 0][0]
                idx[near] = best
    p = dens * np.diff(edges)
    check_counts(np.arange(len(dens)), p, idx, msg)
    for k in range(len(dens)):
        m = idx == k
        if m.sum() > 40:
            f = (x[m] - edges[k]) / (edges[k + 1] - edges[k])
            ensure(kstest(np.clip(f, 0, 1), 'uniform').pvalue > 1e-10, msg + ': not uniform inside the bin', k=k)


@sub('C12', dict(dens=densities(), src=st.sampled_from(sorted(SOURCES)), ue=st.sampled_from(ENERGIES), uarea=st.sampled_from(AREAS),
                 table=st.sampled_from(['energy', 'pol', 'both']), ua=st.sampled_from([u.rad, u.deg, u.arcmin]), seed=seeds),
     quick=100, thorough=2500)
def tabulated_spectra(dens, src, ue, uarea, table, ua, seed):
    np.random.seed(seed)
    lo, w, d, first = dens
    edges = lo + np.hstack([[0], np.cumsum(w)])
    kw = {}
    dd = np.hstack([[first], d])
    if table in ('energy', 'both'):
        kw['energy'] = QTable({'energy': (edges * u.keV).to(ue), 'fluxdensity': (dd / u.s / u.cm**2 / u.keV).to(1 / u.s / uarea / ue)})
    ang = -3. + edges / edges[-1] * 6
    if table in ('pol', 'both'):
        kw['polarization'] = QTable({'angle': (ang * u.rad).to(ua), 'probabilitydensity': (dd / u.rad).to(1 / ua)})
    keep = {k: QTable(v, copy=True) for k, v in kw.items()}
    s = SOURCES[src](flux=1 / u.s / u.cm**2, **kw)
    t = s.generate_photons(3000 * u.s)
    ensure(len(t) == 3000, 'number')
    if 'energy' in kw:
        in_bins(np.asarray(t['energy']), edges, d, 'energies')
        no_trend(t['energy'], 'energies')
    if 'polarization' in kw:
        in_bins(np.asarray(t['polangle']) + 10, ang + 10, d, 'polarization angles')
        no_trend(t['polangle'], 'polarization angles')
    if 'energy' in kw:
        no_link(t['energy'], t['polangle'], 'energy and polarization angle')
    for k, v in keep.items():
        for c in v.colnames:
            ensure(np.all(v[c] == kw[k][c]), 'specification table is modified')
    label('zero bins', np.any(d == 0))


@sub('C12', dict(kind_e=st.sampled_from(['const', 'wave', 'freq', 'call']), kind_p=st.sampled_from(['const', 'none', 'call']), e=logfloats(.01, 100),
                 ue=st.sampled_from(ENERGIES), pol=floats(-400, 400), src=st.sampled_from(sorted(SOURCES)), n=st.integers(1, 300), seed=seeds),
     quick=150, thorough=3000)
def fixed_and_function(kind_e, kind_p, e, ue, pol, src, n, seed):
    np.random.seed(seed)
    calls = []
    if kind_p == 'none':
        n *= 10
    T = (n - .5) * u.s

    def ef(t):
        calls.append(t)
        return ((e + .001 * t.to(u.s).value) * u.keV).to(ue)

    def pf(t, en):
        calls.append((t, en))
        return (pol + .1 * t.to(u.s).value + en.to(u.keV).value) * u.deg
    energy = {'const': (e * u.keV).to(ue), 'wave': (e * u.keV).to(u.Angstrom, equivalencies=u.spectral()),
              'freq': (e * u.keV).to(u.Hz, equivalencies=u.spectral()), 'call': ef}[kind_e]
    p = {'const': pol * u.deg, 'none': None, 'call': pf}[kind_p]
    s = SOURCES[src](energy=energy, polarization=p)
    t = s.generate_photons(T)
    ensure(len(t) == n, 'number', got=len(t), expected=n)
    # the energy of a source can be changed, e.g. for a scan over energies
    for e2 in (e * 1.7, e):
        s.energy = (e2 * u.keV).to(ue)
        close(s.generate_photons(min(n, 5) * u.s - .5 * u.s)['energy'], np.full(min(n, 5), e2), 'energy after a change', rtol=1e-9)
    tt = np.arange(n)
    want = np.full(n, e) + (.001 * tt if kind_e == 'call' else 0)
    close(t['energy'], want, 'energy', rtol=1e-9)
    if kind_p == 'const':
        close(t['polangle'], np.full(n, np.deg2rad(pol)), 'polarization angle', rtol=1e-9)
    elif kind_p == 'call':
        close(t['polangle'], np.deg2rad(pol + .1 * tt + want), 'polarization angle', rtol=1e-9)
    else:
        a = np.asarray(t['polangle'])
        ensure(np.all((a >= 0) & (a <= 2 * np.pi)), 'range of angles')
        if n > 40:
            ensure(kstest(a / 2 / np.pi, 'uniform').pvalue > 1e-10, 'unpolarized source: angles are not uniform')
            no_trend(a, 'unpolarized source')


@sub('C12', dict(n=st.integers(2, 30), short=st.integers(1, 5), what=st.sampled_from(
    ['energy', 'pol', 'flux_obj', 'energy_obj', 'pol_obj', 'flux_vec', 'energy_vec', 'rate_vec', 'coords_vec']), seed=seeds), quick=40, thorough=300)
def bad_specifications_refused(n, short, what, seed):
    np.random.seed(seed)
    bad = object()
    kw = {'energy': {'energy': lambda t: np.ones(len(t) + short) * u.keV},
          'pol': {'polarization': lambda t, e: np.ones(len(t) + short) * u.rad},
          'flux_obj': {'flux': bad}, 'energy_obj': {'energy': bad}, 'pol_obj': {'polarization': bad},
          'flux_vec': {'flux': np.ones(n) / u.s / u.cm**2}, 'energy_vec': {'energy': np.ones(n + short) * u.keV}}
    if what == 'rate_vec':
        with raises(ValueError, 'rate must be scalar'):
            poisson_process(np.ones(n) / u.s / u.cm**2)
    elif what == 'coords_vec':
        with raises(ValueError, 'coordinates must be scalar'):
            PointSource(coords=SkyCoord(np.ones(n), np.ones(n), unit='deg'))
    else:
        with raises(SourceSpecificationError, what):
            Source(**kw[what]).generate_photons((n - .5) * u.s)
