'''C29: redistribution matrices from line profiles.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table, QTable
from scipy.interpolate import CubicSpline, RectBivariateSpline
from scipy.special import ndtr

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, logfloats

from marxs.reduction import lsfparm
from marxs.reduction.ogip import RMF
from marxs.missions.arcus.arfrmf import mkrmf0

HC = 12.398419843320026
FWHM = 2 * np.sqrt(2 * np.log(2))


def gauss(lo, hi, pos, sig):
    a, b = (lo - pos) / sig, (hi - pos) / sig
    # for accuracy far from the line
    return np.where(a > 0, ndtr(-a) - ndtr(-b), ndtr(b) - ndtr(a))


def lorentz(lo, hi, pos, fwhm):
    return (np.arctan((hi - pos) / (fwhm / 2)) - np.arctan((lo - pos) / (fwhm / 2))) / np.pi


def notaknot(x, y):
    return CubicSpline(x, y, bc_type='not-a-knot')


def rows_of(rmf, n, edges_kev):
    '''full matrix by energy bin'''
    out = np.zeros((n, n))
    for r in range(n):
        lo, hi, m = rmf.full_rmf(.5 * (edges_kev[r] + edges_kev[r + 1]) * u.keV)
        out[r] = m
    close(u.Quantity(lo, u.keV).value, edges_kev[:-1], 'lower bounds of channels', rtol=1e-9)
    close(u.Quantity(hi, u.keV).value, edges_kev[1:], 'upper bounds of channels', rtol=1e-9)
    return out


def cut(full, got, thr, msg, rtol=1e-6):
    sure = np.abs(full / thr - 1) > 1e-4
    close(np.where(sure, got, 0), np.where(sure & (full > thr), full, 0), msg, rtol=rtol, atol=1e-10)


UNITS = ['keV', 'eV', 'AA', 'nm']
HEAD = {'SATELLIT': 'sat', 'TELESCOP': 'tel', 'INSTRUME': 'ins', 'FILTER': 'fil'}


def grid(rng, n, kind):
    '''wavelengths of bins in AA, increasing'''
    w0 = rng.uniform(2, 40)
    if kind == 'wave':
        e = w0 + np.cumsum(rng.uniform(.2, 1, n + 1) * 10**rng.uniform(-3, -.5))
    else:
        k = HC / w0 + np.cumsum(np.full(n + 1, HC / w0 * 10**rng.uniform(-3, -1.2)))
        e = np.sort(HC / k)
    return e


@sub('C29', dict(seed=seeds, n=st.integers(1, 25), kind=st.sampled_from(['wave', 'energy']), unit=st.sampled_from(UNITS),
                 tabkind=st.sampled_from(['wave', 'energy']), q=st.booleans(), rev=st.booleans(), m=st.integers(4, 8),
                 thr=st.sampled_from([1e-6, 1e-4, 1e-9])), quick=120, thorough=4000)
def gaussian_redistribution(seed, n, kind, unit, tabkind, q, rev, m, thr):
    rng = rng_of(seed)
    e = grid(rng, n, kind)
    binw = np.median(np.diff(e))
    # table of widths
    lo, hi = e[0] * .99, e[-1] * 1.01
    frac = np.linspace(0, 1, m)
    frac[1:-1] += rng.uniform(-.2, .2, m - 2) / m
    w = lo + (hi - lo) * frac
    s = binw * 10**rng.uniform(-1, 1) * rng.uniform(.9, 1.1, m)
    k = rng.permutation(m)
    cls = QTable if q else Table
    if tabkind == 'wave':
        tu = u.Unit(str(rng.choice(['AA', 'nm'])))
        su = u.Unit(str(rng.choice(['AA', 'nm', 'pm'])))
        tab = cls({'wave': (w[k] * u.AA).to(tu), 'sigma_wave': (s[k] * u.AA).to(su)})
    else:
        tu = u.Unit(str(rng.choice(['keV', 'eV'])))
        su = u.Unit(str(rng.choice(['keV', 'eV'])))
        tab = cls({'energy': (HC / w[k] * u.keV).to(tu), 'sigma_energy': (s[k] / w[k] * HC / w[k] * u.keV).to(su)})
    before = tab.copy()
    edges = (e * u.AA).to(u.Unit(unit), equivalencies=u.spectral())
    if rev:
        edges = edges[::-1]
    kw = {} if thr == 1e-6 and rng.uniform() < .5 else {'threshold': thr}
    rmf = RMF.from_Gauss_sigma(edges, tab, headerkw=HEAD, **kw)
    ensure(tab.colnames == before.colnames and len(tab) == m, 'input table is unchanged')
    for c in tab.colnames:
        same(u.Quantity(tab[c]).value, u.Quantity(before[c]).value, 'input table is unchanged')
    for t in (rmf.matrix, rmf.ebounds):
        for a, b in HEAD.items():
            if a != 'SATELLIT':
                ensure((t.meta[a][0] if isinstance(t.meta[a], tuple) else t.meta[a]) == b, f'keyword {a}')
    kev = HC / e[::-1]
    got = rows_of(rmf, n, kev)
    spl = notaknot(w, s)
    mid = .5 * (e[1:] + e[:-1])
    full = np.array([gauss(e[:-1], e[1:], x, abs(spl(x))) for x in mid])[::-1, ::-1]
    cut(full, got, thr, 'every element is the integral of the line over the channel')
    lost = np.array([ndtr((e[0] - x) / abs(spl(x))) + ndtr((x - e[-1]) / abs(spl(x))) for x in mid])[::-1]
    d = 1 - lost - got.sum(axis=1)
    ensure((d > -1e-7).all() and (d < n * thr + 1e-7).all(), 'probability one, except for the part of the line outside of the channels',
           diff=d)
    trivial(n == 1)
    label('line extends beyond the channels', (lost > .01).any())


def lsf_table(rng, m, nw, comps):
    waves = np.sort(rng.uniform(5, 30, m))
    while np.diff(waves).min() < .5:
        waves = np.sort(rng.uniform(5, 30, m))
    widths = np.sort(rng.uniform(.1, 2, nw))
    while nw > 1 and np.diff(widths).min() < .1:
        widths = np.sort(rng.uniform(.1, 2, nw))
    cols = {'NUM_WIDTHS': [nw], 'WIDTHS': [widths], 'NUM_LAMBDAS': [m], 'LAMBDAS': [waves],
            'EE_FRACS': [rng.uniform(.3, .99, (nw, m))]}
    pars = {}
    for c in comps:
        p = np.zeros((nw, m, 3))
        p[:, :, 0] = rng.uniform(.2, 2, (nw, m))
        p[:, :, 1] = 10**rng.uniform(-2.5, -1) * rng.uniform(.8, 1.2, (nw, m))
        p[:, :, 2] = waves + rng.uniform(-.01, .01)
        pars[c] = p
        cols[c + '_PARMS'] = [p]
    tab = Table(cols)
    tab.meta.update({'TELESCOP': 'tel', 'INSTRUME': 'ins', 'FILTER': 'fil', 'ORDER': 3, 'OTHER': 'x'})
    return tab, waves, widths, cols['EE_FRACS'][0], pars


COMPS = st.sampled_from([['GAUSS1'], ['GAUSS1', 'GAUSS2'], ['LORENTZ1'], ['GAUSS1', 'LORENTZ1'], ['GAUSS1', 'GAUSS2', 'GAUSS3', 'LORENTZ1', 'LORENTZ2']])


@sub('C29', dict(seed=seeds, n=st.integers(2, 20), m=st.integers(4, 7), nw=st.sampled_from([1, 1, 2, 3, 4]), comps=COMPS,
                 interp=st.sampled_from(['cubic', 'linear']), unit=st.sampled_from(UNITS), node=st.booleans()), quick=80, thorough=3000)
def tabulated_line_profile(seed, n, m, nw, comps, interp, unit, node):
    rng = rng_of(seed)
    tab, waves, widths, ee, pars = lsf_table(rng, m, nw, comps)
    c = rng.uniform(waves[0] + .2, waves[-1] - .2)
    if node:
        c = waves[int(rng.integers(1, m - 1))]
    binw = 10**rng.uniform(-2.5, -1.5)
    e = c + binw * (np.arange(n + 1) - n / 2)
    width = widths[int(rng.integers(nw))] if rng.uniform() < .5 else rng.uniform(widths[0], widths[-1])
    edges = (e * u.AA).to(u.Unit(unit), equivalencies=u.spectral())
    thr = 1e-7
    kw = {} if interp == 'cubic' and rng.uniform() < .5 else {'kw_interp': {'kind': interp}}
    rmf = lsfparm.make_rmf(tab[0], edges, width * u.deg, threshold=thr, **kw)
    for t in (rmf.matrix, rmf.ebounds):
        for k in ['TELESCOP', 'INSTRUME', 'FILTER', 'ORDER']:
            ensure(t.meta[k] == tab.meta[k], f'keyword {k}')
        ensure(t.meta['DETCHANS'] == n and t.meta['CHANTYPE'] == 'PHA' and t.meta['HDUCLAS3'] == 'REDIST', 'keywords')
        ensure('OTHER' not in t.meta, 'only selected keywords are copied')

    def at(z, x):
        if nw == 1:
            return float(notaknot(waves, z[0])(x)) if interp == 'cubic' else float(np.interp(x, waves, z[0]))
        k = 3 if interp == 'cubic' else 1
        return float(RectBivariateSpline(widths, waves, z, kx=min(k, nw - 1), ky=k)(width, x)[0, 0])
    got = rows_of(rmf, n, HC / e[::-1])
    full = np.zeros((n, n))
    for r in range(n):
        x = .5 * (e[r] + e[r + 1])
        p = {c_: np.abs([at(v[:, :, i], x) for i in range(3)]) for c_, v in pars.items()}
        tot = sum(v[0] for v in p.values())
        for c_, v in p.items():
            f = gauss if c_[0] == 'G' else lorentz
            full[r] += f(e[:-1], e[1:], v[2], v[1]) * v[0] / tot
        full[r] *= at(ee, x)
    cut(full[::-1, ::-1], got, thr, 'every element is the integral of the profile over the channel', rtol=1e-5)
    label('several widths', nw > 1)


@sub('C29', dict(seed=seeds, m=st.integers(2, 5), nw=st.integers(1, 3), comps=COMPS), quick=100, thorough=6000)
def conversion_to_and_from_models(seed, m, nw, comps):
    rng = rng_of(seed)
    tab, waves, widths, ee, pars = lsf_table(rng, m, nw, comps)
    iw, il = int(rng.integers(nw)), int(rng.integers(m))
    model = lsfparm.caldb2sherpa(tab, 0, iw, il)
    x = waves[il] + np.linspace(-.3, .3, 21)
    p = {c: pars[c][iw, il] for c in comps}
    tot = sum(v[0] for v in p.values())
    want = ee[iw, il] * sum((gauss if c[0] == 'G' else lorentz)(x[:-1], x[1:], v[2], v[1]) * v[0] / tot for c, v in p.items())
    close(model(x[:-1], x[1:]), want, 'model evaluates to the tabulated profile', rtol=1e-6, atol=1e-12)
    parts = [c for c in lsfparm.flatten_sherpa_model(model) if c.name != 'EE_FRACS']
    ensure([c.name for c in parts] == [c + '_PARMS' for c in comps], 'components of the model')
    back = lsfparm.sherpa2caldb(sum(parts[1:], parts[0]))
    ensure(set(back) == {c + '_PARMS' for c in comps}, 'all components are converted')
    for c in comps:
        close(back[c + '_PARMS'], p[c] / np.array([tot, 1, 1]), 'converted parameters', rtol=1e-9)
    with raises(Exception, 'components that cannot be converted'):
        lsfparm.sherpa2caldb(model)


@sub('C29', dict(seed=seeds, m=st.integers(2, 5), nw=st.integers(1, 3), comps=COMPS, bad=st.sampled_from([None, None, 'dup', 'type'])),
     quick=60, thorough=3000)
def new_parameter_tables(seed, m, nw, comps, bad):
    from sherpa.astro.models import Lorentz1D
    from sherpa.models import NormGauss1D, Const1D
    rng = rng_of(seed)
    waves, widths = np.sort(rng.uniform(5, 30, m)), np.sort(rng.uniform(.1, 1, nw))
    names = list(comps)
    if bad == 'dup':
        names = names + [names[0]]
    mods = [(NormGauss1D if c[0] == 'G' else Lorentz1D)(c) for c in names]
    if bad == 'type':
        mods.append(Const1D('GAUSS7'))
    model = sum(mods[1:], mods[0])
    if bad:
        with raises(ValueError, 'bad models are refused'):
            lsfparm.empty_lsfparmtable(widths, waves, model, 'HEG', -1)
        trivial()
        return
    t = lsfparm.empty_lsfparmtable(widths, waves, model, 'HEG', -1)
    ensure(len(t) == 1 and t['NUM_WIDTHS'][0] == nw and t['NUM_LAMBDAS'][0] == m, 'sizes')
    close(t['WIDTHS'][0], widths, 'widths', rtol=1e-6)
    close(t['LAMBDAS'][0], waves, 'wavelengths', rtol=1e-6)
    ensure((t['TG_LAM_LO'][0] < waves).all() and (t['TG_LAM_HI'][0] > waves).all(), 'bounds of wavelengths')
    ensure((t['TG_LAM_LO'][0][1:] <= t['TG_LAM_HI'][0][:-1] + 1e-4).all(), 'boxes cover all wavelengths in between')
    close((t['TG_LAM_LO'][0] + t['TG_LAM_HI'][0]) / 2, waves, 'box around wavelengths', rtol=1e-5)
    ensure(t['WIDTHS'].unit == u.degree and t['LAMBDAS'].unit == t['TG_LAM_LO'].unit == t['TG_LAM_HI'].unit == u.Angstrom, 'units')
    evt = Table()
    instr, grat = [('ACIS', 'HETG'), ('HRC', 'LETG')][rng.integers(2)]
    evt.meta.update({'DetectorType': instr + '-S', 'GratingType': grat})
    arm = {'HETG': ['HEG', 'MEG'], 'LETG': ['LEG']}[grat][rng.integers(2) % (2 if grat == 'HETG' else 1)]
    tc = lsfparm.lsfparmtable_add_Chandra_header(lsfparm.empty_lsfparmtable(widths, waves, model, arm, 2), evt)
    m_ = tc.meta
    ensure(m_['TELESCOP'] == 'CHANDRA' and m_['INSTRUME'] == instr and m_['DETNAM'] == instr + '-S' and m_['GRATING'] == grat
           and m_['EXTNAME'] == arm and m_['ORDER'] == m_['TG_M'] == 2, 'keywords for Chandra', meta=dict(m_))
    ensure(m_['SHELL'] == {'HEG': '0011', 'MEG': '1100', 'LEG': '1111'}[arm] and m_['GRATTYPE'] == (arm if grat == 'HETG' else '')
           and m_['CBD10001'] == 'ORDER(2)', 'keywords for Chandra', meta=dict(m_))
    ensure(t['EE_FRACS'].shape == (1, nw, m), 'shape of encircled energy fraction')
    ensure([c for c in t.colnames if c.endswith('_PARMS')] == [c + '_PARMS' for c in comps], 'columns for components')
    ensure(t.meta['ORDER'] == t.meta['TG_M'] == -1 and t.meta['EXTNAME'] == 'HEG', 'keywords')
    # fill and use
    p = {}
    for c in comps:
        ensure(t[c + '_PARMS'].shape == (1, nw, m, 3), 'shape of parameters')
        p[c] = np.array([rng.uniform(.2, 1), rng.uniform(.01, .1), waves[0]])
        t[c + '_PARMS'][0][0, 0] = p[c]
    t['EE_FRACS'][0][0, 0] = .5
    x = np.linspace(-.2, .2, 9) + waves[0]
    tot = sum(v[0] for v in p.values())
    want = .5 * sum((gauss if c[0] == 'G' else lorentz)(x[:-1], x[1:], v[2], v[1]) * v[0] / tot for c, v in p.items())
    close(lsfparm.caldb2sherpa(t, 0, 0, 0)(x[:-1], x[1:]), want, 'values filled in the table', rtol=1e-3, atol=1e-4)


@sub('C29', dict(seed=seeds, n=st.integers(1, 30), unit=st.sampled_from(UNITS), rev=st.booleans(), thr=st.sampled_from([1e-6, 1e-3])),
     quick=80, thorough=3000)
def zeroth_order_matrix(seed, n, unit, rev, thr):
    rng = rng_of(seed)
    kev = rng.uniform(.3, 4) + np.cumsum(rng.uniform(.5, 1, n + 1) * 10**rng.uniform(-2.5, -1))
    tab = QTable({'energy': np.sort(rng.uniform(.2, 6, 5)) * u.keV, 'FWHM': rng.uniform(30, 200, 5) * u.eV})
    e = (kev * u.keV).to(u.Unit(unit), equivalencies=u.spectral())
    rmf = mkrmf0(e[::-1] if rev else e, ccdfwhm=tab, threshold=thr)
    got = rows_of(rmf, n, kev)
    mid = .5 * (kev[1:] + kev[:-1])
    sig = np.interp(mid, tab['energy'].value, tab['FWHM'].value / 1000) / FWHM
    full = np.array([gauss(kev[:-1], kev[1:], x, s) for x, s in zip(mid, sig)])
    cut(full, got, thr, 'every element is the integral of the line over the channel')
    trivial(n == 1)


@sub('C29', dict(seed=seeds, pos=floats(5, 30), sig=logfloats(.002, .006), weighted=st.booleans()), quick=15, thorough=400)
def fitted_line_profile(seed, pos, sig, weighted):
    '''A fit to photons with a Gaussian distribution finds that Gaussian.'''
    from sherpa.models import NormGauss1D
    from scipy.stats import norm
    rng = rng_of(seed)
    n = 4000
    x = norm.ppf((np.arange(n) + .5) / n) * sig + pos
    w = np.ones(n)
    if weighted:   # dim photons that are twice as far from the center, on one side
        w = np.where(rng.uniform(size=n) < .5, .5, .25)
    k = rng.permutation(n)
    evt = Table({'tg_mlam': x[k], 'probability': w[k]})
    model = NormGauss1D('GAUSS1')
    model.pos, model.fwhm, model.ampl = pos + .3 * sig, FWHM * sig * 1.3, w.sum() * .7
    sdata, res = lsfparm.fit_LSF(evt, model)
    h = np.asarray(sdata.y)
    for lo, hi, y in zip(sdata.xlo, sdata.xhi, h):
        inn = (x > lo + 1e-9) & (x < hi - 1e-9)
        edge = (x >= lo - 1e-9) & (x <= hi + 1e-9)
        ensure(w[inn].sum() - 1e-6 <= y <= w[edge].sum() + 1e-6, 'histogram is the sum of probabilities')
    ensure(abs(model.pos.val - pos) < .1 * sig, 'position of the line', got=model.pos.val)
    ensure(abs(model.fwhm.val / (FWHM * sig) - 1) < .15, 'width of the line', got=model.fwhm.val, want=FWHM * sig)
    # amplitude is the area
    area = h.sum()
    ensure(abs(model.ampl.val / area - 1) < .1, 'number of photons', got=model.ampl.val, want=area)
