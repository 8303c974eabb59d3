'''C25: tolerance sweeps.'''
import os
import warnings

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table
from astropy.coordinates import SkyCoord

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, logfloats, photon_table, rotmat
from vt.checks.c24_tolerance import KEYS, six

from marxs.simulator import Parallel, Sequence
from marxs.optics import FlatDetector, FlatGrating, OrderSelector, FlatStack, EnergyFilter, RectangleAperture, ThinLens
from marxs.design.tolerancing import (run_tolerances, run_tolerances_for_energies,
                                      run_tolerances_for_energies2, moveglobal, moveindividual,
                                      moveelem, varyperiod, varyattribute, generate_6d_wigglelist,
                                      select_1dof_changed, reset_6d, DispersedWigglePlotter)
from marxs.analysis.plots import OrderColor
from marxs.analysis.run_helpers import monoenergetic_astrosimulation
from marxs.source import PointSource, FixedPointing


class SubDetector(FlatDetector):
    pass


def instrument(rng, sub=False):
    '''deterministic: grating array, filter and detectors'''
    order = int(rng.integers(-2, 3))
    gr = Parallel(elem_class=FlatGrating, elem_pos={'position': [[100., y, 0] for y in (-20., 0, 20)]},
                  elem_args={'zoom': [1, 10, 30], 'd': 1e-4 * rng.uniform(1, 3), 'order_selector': OrderSelector([order])})
    a = rng.uniform(.2, 1)
    fil = EnergyFilter(filterfunc=lambda e: a * np.exp(-np.asarray(e) / 10), position=[50., 0, 0], zoom=[1, 60, 60])
    det = Parallel(elem_class=SubDetector if sub else FlatDetector, elem_pos={'position': [[0., y, 0] for y in (-25., 25.)]},
                   elem_args={'zoom': [1, 25, 50], 'pixsize': .5})
    return gr, fil, det


def photons_for(rng, n, energy=None):
    p = np.stack([np.full(n, 200.), rng.uniform(-30, 30, n), rng.uniform(-30, 30, n)], axis=1)
    d = np.stack([-np.ones(n), rng.normal(size=n) * .01, rng.normal(size=n) * .01], axis=1)
    t = photon_table(rng, p, d, energy=energy)
    t['probability'] = rng.uniform(0, 1, n)
    t['probability'][::5] = 0
    return t


def analyse(photons):
    w = photons['probability'].data
    out = {'sump': float(w.sum()), 'n': len(photons)}
    if 'det_x' in photons.colnames:
        ok = np.isfinite(photons['det_x'].data)
        out['x'] = float((w * photons['det_x'].data)[ok].sum())
        out['y'] = float((w * photons['det_y'].data)[ok].sum())
        out['nd'] = int(ok.sum())
    else:
        out.update({'x': 0., 'y': 0., 'nd': 0})
    return out


def nasty(photons):
    '''An analysis that destroys the photon list it gets.'''
    out = analyse(photons)
    photons['probability'][:] = -1
    photons['pos'][:] = np.nan
    photons.remove_column('dir')
    photons.meta.clear()
    return out


pars6 = st.lists(
    st.one_of(st.just({}), st.lists(floats(-1, 1), min_size=6, max_size=6).map(
        lambda x: {k: a * (5. if k[0] == 'd' else .02) for k, a in zip(KEYS, x)})),
    min_size=0, max_size=5)


def snapshot(t):
    return {c: np.array(t[c]) for c in t.colnames}, dict(t.meta)


def compare(t, snap, msg):
    ensure(list(t.colnames) == list(snap[0]), msg + ': columns')
    for c in t.colnames:
        same(np.asarray(t[c]), snap[0][c], f'{msg}: {c}')
    ensure(dict(t.meta) == snap[1], msg + ': meta')


def eq(a, b, msg):
    for k, v in b.items():
        ensure(k in a, msg + f': {k} missing')
        close(a[k], v, msg + f': {k}', rtol=1e-9, atol=1e-7)


def exact(rng):
    return int(rng.integers(2**31))


@sub('C25', dict(seed=seeds, pars=pars6, n=st.integers(1, 60), what=st.sampled_from(['gr', 'det', 'both']),
                 func=st.sampled_from([moveglobal, moveindividual]), destroy=st.booleans()), quick=100, thorough=3000)
def sweep_equals_direct_simulation(seed, pars, n, what, func, destroy):
    rng = rng_of(seed)
    s = exact(rng)
    photons = photons_for(rng, n)
    snap = snapshot(photons)
    gr, fil, det = instrument(rng_of(s))
    ins = Sequence(elements=[gr, fil, det])
    parts = {'gr': gr, 'det': det, 'both': [gr, det]}[what]
    calls = []

    def wf(p, **kw):
        ensure(p is parts, 'wigglefunc is called with the parts to be changed')
        calls.append(dict(kw))
        func(p, **kw)
    seen = []

    def af(p):
        seen.append(len(p))
        return (nasty if destroy else analyse)(p)
    inp = [dict(p) for p in pars]
    out = run_tolerances(photons, ins, wf, parts, inp, af)
    ensure(inp == pars, 'parameters are not modified')
    ensure(calls == pars, 'every parameter set once, in order', calls=calls)
    ensure(len(out) == len(pars) == len(seen), 'one result per parameter set')
    compare(photons, snap, 'input photons')
    for p, o in zip(pars, out):
        g2, f2, d2 = instrument(rng_of(s))
        func({'gr': g2, 'det': d2, 'both': [g2, d2]}[what], **p)
        want = analyse(Sequence(elements=[g2, f2, d2])(photons.copy()))
        ensure(set(o) == set(p) | set(want), 'result has parameters and figures of merit')
        for k, v in p.items():
            ensure(o[k] == v, f'parameter {k} in result')
        eq(o, want, f'figures of merit for {p}')
    trivial(len(pars) == 0)
    label('different results', len({o['x'] for o in out}) > 1)


class FakeSource:
    '''Deterministic photons of the energy that was set last.'''
    def __init__(self, seed, n):
        self.seed, self.n, self.log = seed, n, []
        self.energy = None

    def generate_photons(self, t):
        self.log.append((self.energy, t))
        return photons_for(rng_of(self.seed), self.n, energy=np.full(self.n, self.energy.to_value(u.keV)))


@sub('C25', dict(seed=seeds, energies=st.lists(floats(.2, 8), min_size=1, max_size=3), n=st.integers(1, 40),
                 pars=pars6.filter(lambda x: len(x) > 0 and all(len(a) for a in x)),
                 variant=st.integers(1, 2), subclass=st.booleans(), reset=st.booleans(), empty=st.booleans(),
                 unit=st.sampled_from(['keV', 'eV', 'J'])), quick=80, thorough=2500)
def sweep_over_energies(seed, energies, n, pars, variant, subclass, reset, empty, unit):
    rng = rng_of(seed)
    s, s2 = exact(rng), exact(rng)
    src = FakeSource(s2, n)
    gr, fil, det = instrument(rng_of(s), sub=subclass)
    count = []

    class Counter(Sequence):
        def __call__(self, photons):
            count.append(photons)
            return super().__call__(photons)
    E = (energies * u.keV).to(unit)
    calls = []

    def wf(p, **kw):
        calls.append(dict(kw))
        moveglobal(p, **kw)
    # an empty set of parameters is a reset to the defaults
    rs = (dict(reset_6d) if empty else {}) if reset else None
    inp = [dict(p) for p in pars]
    if variant == 1:
        tab = run_tolerances_for_energies(src, E, Counter(elements=[gr, fil]), Sequence(elements=[det]), wf, det,
                                          inp, analyse, reset=rs, t_source=7 * u.s)
        ensure(len(count) == len(E), 'first part of the instrument runs once per energy', n=len(count))
    else:
        ins = Sequence(elements=[gr, fil, det])
        cls = FlatDetector if subclass else type(det.elements[0])

        def wf2(p, **kw):
            ensure(list(p) == list(det.elements), 'all elements of the class are selected')
            calls.append(dict(kw))
            moveelem(p, **kw)
        tab = run_tolerances_for_energies2(src, E, ins, cls, wf2, inp, analyse, reset=rs,
                                           subclass_ok=subclass, t_source=7 * u.s)
        with raises(Exception, 'class that is not part of the instrument'):
            run_tolerances_for_energies2(src, E, ins, ThinLens, wf2, inp, analyse)
    ensure(inp == pars, 'parameters are not modified')
    want = pars * len(E) + ([rs] if reset else [])
    ensure(calls == want, 'calls of the wiggle function', calls=calls, want=want)
    ensure([e for e, t in src.log][:len(E)] == list(E) and all(t == 7 * u.s for e, t in src.log[:len(E)]),
           'photons are generated once for every energy')
    ensure(len(tab) == len(E) * len(pars), 'one row per energy and parameter set')
    i = 0
    for e in energies:
        for p in pars:
            row = tab[i]
            close((tab['energy'][i] * (tab['energy'].unit or 1)).to_value(u.keV), e, 'energy column', rtol=1e-9)
            close((tab['wave'][i] * (tab['wave'].unit or 1)).to_value(u.AA), 12.398419843320026 / e, 'wave column', rtol=1e-9)
            for k, v in p.items():
                ensure(row[k] == v, f'parameter {k}')
            g2, f2, d2 = instrument(rng_of(s), sub=subclass)
            if variant == 1:
                moveglobal(d2, **p)
            else:
                moveelem(d2.elements, **p)
            ph = photons_for(rng_of(s2), n, energy=np.full(n, (e * u.keV).to(unit).to_value(u.keV)))
            eq({k: row[k] for k in tab.colnames}, analyse(Sequence(elements=[g2, f2, d2])(ph)), f'row {i}')
            i += 1
    # state at the end
    g2, f2, d2 = instrument(rng_of(s), sub=subclass)
    if not reset:
        (moveglobal if variant == 1 else lambda d, **k: moveelem(d.elements, **k))(d2, **pars[-1])
    for a, b in zip(det.elements, d2.elements):
        close(a.pos4d, b.pos4d, 'state of the instrument after the sweep', rtol=1e-12, atol=1e-9)


@sub('C25', dict(trans=st.lists(floats(-50, 50), min_size=1, max_size=6), rot=st.lists(floats(-50, 50), min_size=1, max_size=6),
                 zero=st.booleans(), ut=st.sampled_from(['mm', 'cm', 'm', 'um']), ur=st.sampled_from(['deg', 'arcmin', 'rad', 'arcsec']),
                 names=st.booleans(), whole=st.booleans()), quick=120, thorough=10000)
def six_dimensional_lists(trans, rot, zero, ut, ur, names, whole):
    # no denormal numbers (which may vanish in a change of units)
    trans, rot = [round(x, 4) for x in trans], [round(x, 4) for x in rot]
    if whole:
        trans, rot = [float(round(x)) for x in trans], [float(round(x)) for x in rot]
    if zero:
        trans, rot = [0.] + trans, [0.] + rot
    kw, nm = {}, KEYS
    if names:
        nm = ['a', 'b', 'c', 'd', 'e', 'f']
        kw = {'names': nm}
    t, r = np.array(trans) * u.Unit(ut), np.array(rot) * u.Unit(ur)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g, ind = generate_6d_wigglelist(t, r, **kw)
    warned = any('should be 0' in str(x.message) for x in w)
    ensure(warned == (trans[0] != 0 or rot[0] != 0), 'warning if the nominal configuration is missing')
    fac = [u.Unit(ut).to(u.mm)] * 3 + [u.Unit(ur).to(u.rad)] * 3
    for lst, sides, n in [(g, (1, -1), 'both sides'), (ind, (1,), 'one side')]:
        want = set()
        for i in range(6):
            for x in (trans if i < 3 else rot):
                for sgn in sides:
                    v = [0.] * 6
                    v[i] = x * sgn
                    want.add(tuple(a + 0. for a in v))
        ensure(all(set(d) == set(nm) for d in lst), 'names')
        got = [tuple(d[k] / f for k, f in zip(nm, fac)) for d in lst]
        ensure(len(got) == len(want), f'{n}: every configuration exactly once', got=len(got), want=len(want))
        a = np.array(got)
        for v in want:
            d = np.abs(a - np.array(v)).max(axis=1)
            ensure(d.min() <= 1e-12 * max(map(abs, v)) + 1e-300, f'{n}: configuration is in the list', config=v)


@sub('C25', dict(seed=seeds, n=st.integers(1, 40), k=st.integers(2, 6)), quick=80, thorough=5000)
def select_one_degree_of_freedom(seed, n, k):
    rng = rng_of(seed)
    nm = KEYS[:k] if rng.uniform() < .5 else ['blaze', 'period_mean', 'dx', 'spread', 'a', 'b'][:k]
    v = rng.choice([0., 0, 0, 0, 1, -1, 1e-12], size=(n, k))
    tab = Table({a: v[:, i] for i, a in enumerate(nm)})
    tab['id'] = np.arange(n)
    tab['other'] = rng.normal(size=n)
    before = snapshot(tab)
    for i, a in enumerate(nm):
        want = [j for j in range(n) if all(v[j, l] == 0 for l in range(k) if l != i)]
        got = select_1dof_changed(tab, a, parlist=list(nm)) if k < 6 or nm[0] != KEYS[0] or rng.uniform() < .5 else select_1dof_changed(tab, a)
        ensure(list(got['id']) == want, f'rows with changes in {a} only', got=list(got['id']), want=want)
        for c in tab.colnames:
            same(got[c], tab[c][want], 'values of selected rows')
    compare(tab, before, 'input table')


@sub('C25', dict(seed=seeds, n=st.integers(1, 5)), quick=6, thorough=60)
def plotted_lines(seed, n):
    '''The lines in an overview plot are the selected rows.'''
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    rng = rng_of(seed)
    names = ['dx', 'dy', 'rz']
    rows = []
    waves = [10., 20., 30.][:int(rng.integers(1, 4))]
    for wv in waves:
        rows.append((0, 0, 0, wv))
        for i in range(3):
            for x in rng.choice(np.arange(1, 20), n, replace=False):
                r = [0, 0, 0, wv]
                r[i] = float(x) * rng.choice([-1, 1])
                rows.append(tuple(r))
        rows.append((1, 1, 0, wv))
    rows = [rows[i] for i in rng.permutation(len(rows))]
    a = np.array(rows)
    tab = Table({'dx': a[:, 0], 'dy': a[:, 1], 'rz': a[:, 2], 'wave': a[:, 3],
                 'Rgrat': rng.uniform(1, 1000, len(a)), 'Aeffgrat': rng.uniform(1, 1000, len(a))})
    for par, scale in [('dx', 1), ('rz', 180 / np.pi)]:
        for twin in (True, False):
            if twin:
                fig, ax = plt.subplots()
                axt = None
            else:
                fig, (ax, axt) = plt.subplots(ncols=2)
            try:
                DispersedWigglePlotter().plot_wiggle(tab, par, names, ax, axt)
                axes = [x for x in fig.axes if len(x.lines)]
                ensure(len(axes) == 2, 'two axes are filled')
                for x, col in zip(axes, ['Rgrat', 'Aeffgrat']):
                    ensure(len(x.lines) == len(waves), 'one line per wavelength')
                    for wv, line in zip(sorted(waves), x.lines):
                        ind = (a[:, 3] == wv)
                        for i, nn in enumerate(names):
                            if nn != par:
                                ind &= a[:, i] == 0
                        ind = np.flatnonzero(ind)
                        ind = ind[np.argsort(a[ind, names.index(par)], kind='stable')]
                        close(line.get_xdata(), a[ind, names.index(par)] * scale, 'x of line')
                        close(np.sort(line.get_ydata()), np.sort(tab[col].data[ind]), 'y of line')
                        u_ = len(set(a[ind, names.index(par)])) == len(ind)
                        if u_:
                            close(line.get_ydata(), tab[col].data[ind], 'y of line')
            finally:
                plt.close(fig)


@sub('C25', dict(m=st.integers(1, 30), seed=seeds), quick=20, thorough=200)
def colors_by_order(m, seed):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    rng = rng_of(seed)
    name = ['nipy_spectral', 'viridis', 'jet'][int(rng.integers(3))]
    oc = OrderColor(colormap=name, max_order=m)
    cmap = plt.get_cmap(name)
    for o in range(-m, m + 1):
        d = oc(o)
        if o == 0:
            ensure(d['color'] == 'k', 'zeroth order')
        else:
            close(d['color'], cmap(abs(o) / m), 'color is the position of the order in the color map')
        ensure((d['linestyle'] == ':') == (o > 0), 'line style by sign')


@sub('C25', dict(seed=seeds, e=floats(.2, 8), n=st.integers(1, 300), unit=st.sampled_from(['keV', 'eV'])), quick=8, thorough=150)
def simple_simulation(seed, e, n, unit):
    np.random.seed(seed % 2**32)
    ins = Sequence(elements=[RectangleAperture(position=[100., 0, 0], zoom=[1, 5, 5]),
                             FlatDetector(zoom=[1, 10, 10])])
    p = monoenergetic_astrosimulation(ins, (e * u.keV).to(unit), n_photons=n)
    ensure(len(p) == n, 'number of photons', got=len(p))
    close((p['energy'].data * p['energy'].unit).to_value(u.keV), np.full(n, e), 'energies', rtol=1e-9)
    # on-axis source
    close(p['dir'], np.tile([-1., 0, 0, 0], (n, 1)), 'on-axis direction', atol=1e-7)
    close(p['probability'], np.ones(n), 'probability')
