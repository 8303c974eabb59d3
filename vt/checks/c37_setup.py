'''C37: contradictory or unknown set-ups are refused, records are truthful.'''
import copy
import datetime
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import QTable, Table

from vt.core import sub, ensure, close, same, raises, trivial, label
from vt.gen import (rng_of, seeds, placements, make_pos4d, rotmat, photon_table, rand_rot,
                    aimed_rays, perp_unit, rand_unit)
from vt.instr import KINDS, ML, grating_kwargs, beam

import marxs
from marxs import optics, source
from marxs.analysis.coords import ProjectOntoPlane
from marxs.base import (MarxsElement, TagVersion, check_meta_consistent, check_energy_consistent)
from marxs.design import rowland
from marxs.math.geometry import Cylinder, FinitePlane
from marxs.optics.detector import CCDRedistNormal
from marxs.optics.multiLayerMirror import MultiLayerMirror, MultiLayerEfficiency, FlatBrewsterMirror
from marxs.missions.arcus.boom import Rod
from marxs.missions.chandra.dither import LissajousDither
from marxs.missions.mitsnl import catgrating as snl
from marxs.simulator import (BaseContainer, Sequence, Parallel, ParallelCalculated, Propagator,
                             KeepCol)

SKY = SkyCoord(123.4, -12.3, unit='deg')
REDIST = QTable({'energy': [0.1, 10] * u.keV, 'FWHM': [50, 100] * u.eV})
OS = optics.OrderSelector([-1, 0, 1])
ELEMPOS = {'position': [[0., -3, 0], [0., 3, 0]]}


def random_place(seed):
    rng = np.random.default_rng(seed + 99)
    pos = rng.choice([0, 1., 100.]) * rng.normal(size=3)
    rot = np.eye(3) if rng.random() < .2 else rand_rot(rng)
    zoom = np.exp(rng.uniform(-3, 4, 3))
    if rng.random() < .2:       # tiny
        zoom = 10**rng.uniform(-5, -2, 3)
    return pos, rot, zoom


def torus():
    return rowland.RowlandTorus(R=5900., r=6000., position=[2900., 0, 0])


GAS = dict(rowland=torus(), d_element=[200., 200.], elem_class=optics.FlatGrating,
           elem_args={'zoom': [1., 90., 90.], 'd': 1e-3, 'order_selector': OS},
           normal_spec=np.array([0., 0, 0, 1]))

# Everything with a position: (class, settings)
PLACED = {
    'OpticalElement': (optics.OpticalElement, {}),
    'FlatOpticalElement': (optics.FlatOpticalElement, {}),
    'FlatStack': (optics.FlatStack, {'elements': [optics.EnergyFilter, optics.FlatDetector],
                                     'keywords': [{'filterfunc': lambda e: 0.5 * np.ones(len(e))},
                                                  {'pixsize': 0.1, 'ignore_pixel_warning': True}]}),
    'RectangleAperture': (optics.RectangleAperture, {}),
    'CircleAperture': (optics.CircleAperture, {}),
    'Baffle': (optics.Baffle, {}),
    'FlatDetector': (optics.FlatDetector, {'pixsize': 0.1, 'ignore_pixel_warning': True}),
    'CircularDetector': (optics.CircularDetector, {'pixsize': 0.1}),
    'CCDRedistNormal': (CCDRedistNormal, {'tab_width': REDIST}),
    'EnergyFilter': (optics.EnergyFilter, {'filterfunc': lambda e: 0.5 * np.ones(len(e))}),
    'FlatGrating': (optics.FlatGrating, {'d': 1e-3, 'order_selector': OS}),
    'CATGrating': (optics.CATGrating, {'d': 1e-3, 'order_selector': OS}),
    'NonParallelCATGrating': (snl.NonParallelCATGrating, {'d': 1e-3, 'order_selector': OS}),
    'L1': (snl.L1, {'order_selector': OS}),
    'L2Abs': (snl.L2Abs, {}),
    'QualityFactor': (snl.QualityFactor, {}),
    'CATL1L2Stack': (snl.CATL1L2Stack, {'d': 2e-4, 'order_selector': OS}),
    'PerfectLens': (optics.PerfectLens, {'focallength': 1000.}),
    'ThinLens': (optics.ThinLens, {'focallength': 1000.}),
    'RadialMirrorScatter': (optics.RadialMirrorScatter, {'inplanescatter': 1 * u.arcsec}),
    'RandomGaussianScatter': (optics.RandomGaussianScatter, {'scatter': 1 * u.arcsec}),
    'FlatBrewsterMirror': (FlatBrewsterMirror, {}),
    'MultiLayerMirror': (MultiLayerMirror, ML),
    'Parallel': (Parallel, {'elem_class': optics.FlatDetector, 'elem_args': {'pixsize': .5},
                            'elem_pos': ELEMPOS}),
    'RowlandTorus': (rowland.RowlandTorus, {'R': 1000., 'r': 1100.}),
    'FarLabPointSource': (source.FarLabPointSource, {'sourcePos': [1000., 0, 0]}),
}
# Things without a position
UNPLACED = {
    'MarxsElement': (MarxsElement, {}),
    'GlobalEnergyFilter': (optics.GlobalEnergyFilter, {'filterfunc': lambda e: 0.5 * np.ones(len(e))}),
    'MultiAperture': (optics.MultiAperture, {'elements': [optics.RectangleAperture()]}),
    'Sequence': (Sequence, {'elements': []}),
    'Propagator': (Propagator, {'distance': 3.}),
    'ProjectOntoPlane': (ProjectOntoPlane, {}),
    'GratingArrayStructure': (rowland.GratingArrayStructure, dict(GAS, radius=[300., 800.])),
    'RectangularGrid': (rowland.RectangularGrid, dict(GAS, y_range=[-300., 300.], z_range=[-200., 300.])),
    'ParallelCalculated': (ParallelCalculated, {
        'elem_class': optics.FlatDetector, 'elem_args': {'pixsize': 1.},
        'pos_spec': np.array([[0., 1, 2, 1], [3., 4, 5, 1]]), 'normal_spec': np.array([1., 0, 0, 0]),
        'parallel_spec': np.array([0., 1, 0, 0])}),
    'Rod': (Rod, {}),
    'PointSource': (source.PointSource, {'coords': SKY}),
    'SphericalDiskSource': (source.SphericalDiskSource, {'coords': SKY, 'a_outer': 1 * u.deg}),
    'DiskSource': (source.DiskSource, {'coords': SKY, 'a_outer': 1 * u.deg}),
    'GaussSource': (source.GaussSource, {'coords': SKY, 'sigma': 1 * u.deg}),
    'SymbolFSource': (source.SymbolFSource, {'coords': SKY}),
    'RadialDistributionSource': (source.RadialDistributionSource, {
        'coords': SKY, 'radial_distribution': lambda n: np.ones(n) * u.arcsec}),
    'LabPointSourceCone': (source.LabPointSourceCone, {}),
    'FixedPointing': (source.FixedPointing, {'coords': SKY}),
    'JitterPointing': (source.JitterPointing, {'coords': SKY, 'jitter': 1 * u.arcsec}),
    'LissajousDither': (LissajousDither, {'coords': SKY}),
}
ALL = {**PLACED, **UNPLACED}


def misspell(rng, words):
    w = str(rng.choice(words))
    k = int(rng.integers(4))
    i = int(rng.integers(len(w)))
    if k == 0:
        w = w[:i] + w[i + 1:]
    elif k == 1:
        w = w[:i] + w[i] + w[i:]
    elif k == 2:
        w = w.upper() if w.upper() != w else w.lower()
    else:
        w = w + 's'
    return w or 'x'


VALIDWORDS = ['position', 'orientation', 'zoom', 'pos4d', 'name', 'id_col', 'id_num', 'geometry',
              'phi', 'r_inner', 'd', 'order_selector', 'groove_angle', 'pixsize', 'coords', 'roll',
              'energy', 'flux', 'polarization', 'geomarea', 'elements', 'elem_pos', 'elem_args',
              'focallength', 'display', 'jitter', 'transmission', 'reference_transform',
              'preprocess_steps', 'postprocess_steps', 'radius', 'd_element', 'normal_spec']
# settings that really exist somewhere (a misspelling could hit one)
REAL = set(VALIDWORDS) - {'display'} | {'R', 'r', 'd_blaze_mm', 'blaze_center', 'sigma', 'L1', 'D'}


@sub('C37', {'name': st.sampled_from(sorted(ALL)), 'seed': seeds,
             'value': st.sampled_from([1, 0, None, 'x', [1., 2, 3]])}, quick=500, thorough=8000)
def unknown_settings_are_refused(name, seed, value):
    cls, kw = ALL[name]
    rng = rng_of(seed)
    bad = misspell(rng, VALIDWORDS)
    while bad in REAL:
        bad = bad + 'q'
    cls(**dict(kw))          # is fine
    with raises((ValueError, TypeError), f'{name} accepts the unknown setting {bad}={value!r}'):
        cls(**dict(kw), **{bad: value})
    label(name)


def four(e):
    return np.asarray(e.pos4d, dtype=float)


@sub('C37', {'name': st.sampled_from(sorted(PLACED)), 'seed': seeds,
             'scalar': st.booleans()}, quick=500, thorough=8000)
def equivalent_positions_give_the_same_element(name, seed, scalar):
    cls, kw = PLACED[name]
    place = random_place(seed)
    rng = rng_of(seed)
    pos, rot, zoom = place
    if name in ('CircularDetector', 'CircleAperture'):
        zoom = np.array([zoom[0], zoom[1], zoom[1]])
        if name == 'CircularDetector':
            zoom[0] = zoom[1]
    z_arg = zoom
    if scalar:
        zoom = np.ones(3) * zoom[0]
        z_arg = [float(zoom[0]), np.float64(zoom[0])][int(rng.integers(2))]
    else:
        z_arg = [list(zoom), tuple(zoom), zoom][int(rng.integers(3))]
    use = rng.random(3) < 0.75
    args = {}
    exp = make_pos4d(pos if use[0] else np.zeros(3), rot if use[1] else np.eye(3),
                     zoom if use[2] else np.ones(3))
    if use[0]:
        args['position'] = [list(pos), tuple(pos), pos][int(rng.integers(3))]
    if use[1]:
        args['orientation'] = [rot, rot.tolist()][int(rng.integers(2))]
    if use[2]:
        args['zoom'] = z_arg
    before = copy.deepcopy(args)
    e1 = cls(**dict(kw), **args)
    e2 = cls(**dict(kw), pos4d=exp.copy())
    e3 = cls(**dict(kw), **args)
    close(four(e1), exp, f'{name}: position, orientation and zoom do not give the documented matrix',
          rtol=1e-12, atol=1e-12)
    close(four(e2), exp, f'{name}: pos4d is not the matrix given', rtol=0, atol=0)
    same(four(e3), four(e1), f'{name}: building it twice gives two positions')
    ensure(set(args) == set(before) and all(np.array_equal(args[k], before[k]) for k in args),
           f'{name}: building it changed the position settings given', args=args, before=before)
    # ... and photons are treated the same
    if name in ('FlatDetector', 'EnergyFilter', 'Baffle', 'ThinLens', 'PerfectLens', 'L2Abs', 'CircularDetector',
                'Parallel', 'FlatBrewsterMirror', 'QualityFactor') and use[0]:
        p, d, t = aimed_rays(rng, 20, (exp[:3, 3], rot if use[1] else np.eye(3), zoom if use[2] else np.ones(3)))
        a = photon_table(rng, p, d)
        a['order'] = 1
        b = a.copy()
        r1 = e1(a)
        r2 = e2(b)
        ensure(r1.colnames == r2.colnames, f'{name}: different columns for equivalent positions')
        for c in r1.colnames:
            if r1[c].dtype.kind == 'f':
                x, y = np.asarray(r1[c]), np.asarray(r2[c])
                ok = np.isclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True)
                # allow for photons exactly on an edge
                ensure(np.mean(ok) > 0.9, f'{name}: equivalent positions treat photons differently in {c}',
                       got=x, expected=y)
    trivial(not use.any())
    label(name)


@sub('C37', {'name': st.sampled_from(sorted(PLACED)), 'seed': seeds,
             'what': st.sampled_from(['both', 'zoom0', 'negative zoom', 'zoom length', 'singular'])},
     quick=500, thorough=8000)
def contradictory_or_degenerate_positions_are_refused(name, seed, what):
    cls, kw = PLACED[name]
    place = random_place(seed)
    rng = rng_of(seed)
    pos, rot, zoom = place
    m = make_pos4d(*place)
    if what == 'both':
        args = {'pos4d': m}
        k = ['position', 'orientation', 'zoom']
        val = {'position': pos, 'orientation': rot, 'zoom': zoom}
        for i in np.nonzero(rng.random(3) < 0.5)[0]:
            args[k[i]] = val[k[i]]
        if len(args) == 1:
            i = int(rng.integers(3))
            args[k[i]] = val[k[i]]
    elif what == 'zoom0':
        z = zoom.copy()
        z[rng.integers(3)] = 0.
        args = {'position': pos, 'zoom': z if rng.random() < .7 else 0.}
    elif what == 'negative zoom':
        z = zoom.copy()
        z[rng.integers(3)] *= -1.
        args = {'position': pos, 'zoom': list(z) if rng.random() < .7 else -zoom[0]}
    elif what == 'zoom length':
        args = {'zoom': np.ones(int(rng.choice([1, 2, 4, 5])))}
    else:
        m = np.eye(4)
        m[:3, 3] = pos
        i = int(rng.integers(3))
        m[:3, i] = 0.
        args = {'pos4d': m}
    with raises(Exception, f'{name} accepts {what}: {args}'):
        cls(**dict(kw), **args)
    label(f'{what}')


@sub('C37', {'seed': seeds, 'n': st.integers(1, 20),
             'cls': st.sampled_from(['EnergyFilter', 'GlobalEnergyFilter']),
             'val': st.sampled_from([-0.1, -1e-9, 1 + 1e-9, 1.2, 7., np.nan, np.inf, -np.inf])},
     quick=80, thorough=1500)
def filters_refuse_invalid_probabilities(seed, n, cls, val):
    rng = rng_of(seed)
    p = rng.uniform(0, 1, n)
    p[rng.integers(n)] = rng.choice([0., 1.])
    bad = p.copy()
    bad[rng.integers(n)] = val
    d = np.tile([-1., 0, 0], (n, 1))
    pos = np.stack([np.ones(n), rng.uniform(-.9, .9, n), rng.uniform(-.9, .9, n)], axis=1)
    t = photon_table(rng, pos, d)
    ok = t.copy()
    out = getattr(optics, cls)(filterfunc=lambda e: p)(ok)
    close(out['probability'], np.asarray(t['probability']) * p, 'a filter with valid probabilities', rtol=1e-12)
    with raises(Exception, f'{cls} accepts the probability {val}'):
        getattr(optics, cls)(filterfunc=lambda e: bad)(t.copy())


class Transmit(optics.FlatOpticalElement):
    def __init__(self, **kwargs):
        self.values = kwargs.pop('values')
        super().__init__(**kwargs)

    def specific_process_photons(self, photons, intersect, interpos, intercoos):
        return {'probability': np.asarray(self.values)[intersect]}


class TransmitOne(optics.FlatOpticalElement):
    def __init__(self, **kwargs):
        self.values = kwargs.pop('values')
        self.n = 0
        super().__init__(**kwargs)

    def process_photon(self, dir, pos, energy, polarization):
        self.n += 1
        return dir, pos, energy, polarization, self.values[self.n - 1]



@sub('C37', {'seed': seeds, 'n': st.integers(1, 12), 'cls': st.sampled_from([Transmit, TransmitOne]),
             'val': st.sampled_from([-0.1, -1e-9, 1 + 1e-9, 1.2, 7., np.nan, np.inf, -np.inf])},
     quick=80, thorough=1500)
def elements_with_invalid_probabilities_are_refused(seed, n, cls, val):
    '''probabilities of elements that users write'''
    rng = rng_of(seed)
    p = rng.uniform(0, 1, n)
    p[rng.integers(n)] = rng.choice([0., 1.])
    bad = p.copy()
    bad[rng.integers(n)] = val
    pos = np.stack([np.ones(n), rng.uniform(-.9, .9, n), rng.uniform(-.9, .9, n)], axis=1)
    t = photon_table(rng, pos, np.tile([-1., 0, 0], (n, 1)))
    out = cls(values=p)(t.copy())
    close(out['probability'], np.asarray(t['probability']) * p, 'an element with valid probabilities', rtol=1e-12)
    with raises(Exception, f'{cls.__name__}: the probability {val} is accepted'):
        cls(values=bad)(t.copy())


@sub('C37', {'seed': seeds, 'n': st.integers(1, 9),
             'what': st.sampled_from(['ok', 'length', 'sum', 'negative'])}, quick=250, thorough=5000)
def order_selectors_refuse_invalid_probabilities(seed, n, what):
    rng = rng_of(seed)
    orders = rng.choice(np.arange(-9, 10), size=n, replace=False)
    p = rng.dirichlet(np.ones(n)) * rng.choice([1., rng.uniform(0.01, 1)])
    if what == 'ok':
        p = p * min(1., 1 / p.sum())
        s = optics.OrderSelector(orders, p=list(p))
        o, prob = s(np.ones(50))
        ensure(set(o.tolist()) <= set(orders[p > 0].tolist()), 'an order that has no probability is drawn')
        close(prob, np.ones(50) * p.sum(), 'the probability to end up in any order')
        return
    if what == 'length':
        k = int(rng.choice([i for i in range(n + 3) if i not in (n,)]))
        p = np.ones(k) / max(2 * k, 1)
    elif what == 'sum':
        p = p / p.sum() * rng.choice([1.001, 1.3, 5.])
    else:
        p = p * 0.5
        i = int(rng.integers(n))
        p[i] = -rng.choice([1e-6, 0.1, 3.])
    with raises(Exception, f'OrderSelector accepts probabilities with wrong {what}: {p} for {n} orders'):
        optics.OrderSelector(orders, p=p)
    label(what)


@sub('C37', {'seed': seeds, 'n': st.integers(1, 5), 'delta': st.integers(-3, 3)}, quick=40, thorough=400)
def efficiency_files_refuse_wrong_order_lists(seed, n, delta):
    rng = rng_of(seed)
    dat = np.column_stack([np.linspace(.3, 5, 6), rng.dirichlet(np.ones(n + 1), size=6)[:, :n]])
    k = max(0, n + delta)
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'eff.dat')
        np.savetxt(f, dat)
        if k == n:
            optics.EfficiencyFile(f, np.arange(n))
        else:
            with raises(Exception, f'EfficiencyFile accepts {k} orders for {n} columns'):
                optics.EfficiencyFile(f, np.arange(k))
    trivial(k == n)


names = st.text('ABCDEFGHIJKLMNOPQRSTUVWXYZ', min_size=1, max_size=7).filter(
    lambda s: s not in ('DATE', 'MARXSVER', 'MARXSGIT', 'MARXSTIM', 'ORIGIN', 'CREATOR'))
values = st.one_of(st.integers(-5, 5), st.text('abc ', max_size=6),
                   st.tuples(st.text('xyz', max_size=4), st.text('comment', max_size=5)))


@sub('C37', {'tags': st.dictionaries(names, values, max_size=4),
             'call': st.dictionaries(names | st.sampled_from('ABC'), values, max_size=3), 'again': st.booleans(),
             'origin': st.none() | st.text('MITABC', min_size=1, max_size=5),
             'creator': st.none() | st.tuples(st.text('abc', min_size=1, max_size=5), st.just('who')),
             'n': st.integers(0, 3)}, quick=250, thorough=5000)
def tags_are_written(tags, call, again, origin, creator, n):
    if again:       # values given in the call are for that call
        tags = {**tags, **{k: f'old{i}' for i, k in enumerate(call)}}
    kw = {}
    if origin is not None:
        kw['ORIGIN'] = origin
    if creator is not None:
        kw['CREATOR'] = creator
    before = copy.deepcopy(tags)
    tag = TagVersion(**kw, **tags)
    t = Table({'a': np.arange(n)})
    t.meta['KEEPME'] = 5
    d0 = datetime.datetime.now().isoformat()[:10]
    out = tag(t, **call)
    d1 = datetime.datetime.now().isoformat()[:10]
    exp = {**tags, **call}
    for k, v in exp.items():
        ensure(k in out.meta and out.meta[k] == v, f'tag {k} is not written as given',
               got=out.meta.get(k), expected=v)
    ensure(tags == before, 'the tags passed in were changed')
    if 'KEEPME' not in exp:
        ensure(out.meta['KEEPME'] == 5, 'existing meta information is lost')
    first = lambda x: x[0] if isinstance(x, tuple) else x
    ensure('ORIGIN' in out.meta and 'CREATOR' in out.meta, 'ORIGIN and CREATOR are not written', got=dict(out.meta))
    if origin is not None:
        ensure(first(out.meta['ORIGIN']) == origin, 'ORIGIN given is not written', got=out.meta['ORIGIN'])
    if creator is not None:
        ensure(out.meta['CREATOR'] == creator, 'CREATOR given is not written', got=out.meta['CREATOR'])
    ensure(first(out.meta['DATE']) in (d0, d1), 'DATE is not today', got=out.meta['DATE'])
    v = first(out.meta['MARXSVER'])
    ensure(len(v) > 0 and marxs.__version__.startswith(v), 'MARXSVER is not the version of the code', got=v)
    # two tables tagged by the same object are consistent
    check_meta_consistent(out.meta, tag(Table({'b': [1]})).meta)


KW = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM']


@sub('C37', {'seed': seeds, 'p': st.sampled_from([0.3, 0.8, 1.]), 'diff': st.booleans(),
             'missing': st.integers(0, 2), 'default': st.booleans(), 'allow': st.booleans()},
     quick=250, thorough=6000)
def meta_check_accepts_exactly_consistent_headers(seed, p, diff, missing, default, allow):
    rng = rng_of(seed)
    a = {k: (f'v{rng.integers(3)}', 'comment') for k in KW + ['OBSERVER', 'OTHER'] if rng.random() < p}
    b = copy.deepcopy(a)
    if diff and len(b):
        b[str(rng.choice(sorted(b)))] = ('w', 'comment')
    for i in range(missing):
        tgt = [a, b][int(rng.integers(2))]
        if len(tgt):
            del tgt[str(rng.choice(sorted(tgt)))]
    kw = {}
    checked = KW
    if not default:
        checked = [str(k) for k in rng.choice(KW + ['OBSERVER'], size=rng.integers(0, 5), replace=False)]
        kw['keywords'] = list(checked)
    kw['allow_missing'] = allow
    if default and allow:
        kw = {}
    bad = []
    for k in checked:
        if (k in a) != (k in b):
            bad.append(k)
        elif k in a:
            if a[k] != b[k]:
                bad.append(k)
        elif not allow:
            bad.append(k)
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    if bad:
        with raises((AssertionError, KeyError), f'headers that differ in {bad} are accepted'):
            check_meta_consistent(a, b, **kw)
    else:
        try:
            check_meta_consistent(a, b, **kw)
        except (AssertionError, KeyError) as e:
            ensure(False, f'consistent headers are refused: {type(e)} {e}', a=a, b=b, kw=kw)
    ensure(a == a0 and b == b0, 'the headers were changed')
    label('bad' if bad else 'consistent')


@sub('C37', {'seed': seeds, 'n': st.integers(1, 30), 'kind': st.sampled_from(['same', 'one', 'none', 'all', 'unit'])},
     quick=80, thorough=1000)
def energy_check_accepts_exactly_monoenergetic_lists(seed, n, kind):
    rng = rng_of(seed)
    e = np.full(n, rng.uniform(0.1, 10))
    t = Table({'time': np.arange(n)})
    if kind == 'none':
        check_energy_consistent(t)
        return
    expect = True
    if kind == 'one' and n > 1:
        e[rng.integers(n)] *= 1 + rng.choice([-1, 1]) * rng.uniform(1e-3, .5)
        expect = False
    elif kind == 'all' and n > 1:
        e = rng.permutation(np.linspace(.2, 9, n))
        expect = False
    t['energy'] = e
    if kind == 'unit':
        t['energy'].unit = u.keV
    if expect:
        check_energy_consistent(t)
    else:
        with raises(AssertionError, 'a list with several energies passes as monoenergetic'):
            check_energy_consistent(t)
    trivial(n == 1)


SOURCES = {
    'PointSource': lambda **k: source.PointSource(coords=SKY, **k),
    'GaussSource': lambda **k: source.GaussSource(coords=SKY, sigma=1 * u.arcmin, **k),
    'DiskSource': lambda **k: source.DiskSource(coords=SKY, a_outer=1 * u.arcmin, **k),
    'SphericalDiskSource': lambda **k: source.SphericalDiskSource(coords=SKY, a_outer=1 * u.arcmin, **k),
    'SymbolFSource': lambda **k: source.SymbolFSource(coords=SKY, **k),
    'LabPointSourceCone': lambda **k: source.LabPointSourceCone(**k),
    'FarLabPointSource': lambda **k: source.FarLabPointSource([1e3, 0, 0], **k),
}


def flux_for(name, val):
    return val / u.s if 'Lab' in name else val / u.s / u.cm**2


@sub('C37', {'name': st.sampled_from(sorted(SOURCES)), 'expo': st.floats(0.5, 200),
             'unit': st.sampled_from(['s', 'ms', 'ks', 'min', 'h']), 'energy': st.floats(.1, 10),
             'seed': seeds}, quick=100, thorough=2000)
def exposure_records_are_in_seconds(name, expo, unit, energy, seed):
    np.random.seed(seed)
    expq = (expo * u.s).to(u.Unit(unit))
    ph = SOURCES[name](energy=energy * u.keV, flux=flux_for(name, 1.))(expq)
    e = ph.meta['EXPOSURE']
    e = e[0] if isinstance(e, tuple) else e
    close(float(e), expo, 'EXPOSURE record', rtol=1e-9)
    ensure(np.all(np.asarray(ph['time']) <= expo * (1 + 1e-12)), 'photons after the end of the exposure')
    t = ph['time'].unit
    ensure(t == u.s and ph['energy'].unit == u.keV and ph['polangle'].unit == u.rad, 'units of the photon list')
    close(ph['energy'], np.full(len(ph), energy), 'energy', rtol=1e-12)
    same(ph['probability'], np.ones(len(ph)), 'probability')
    ensure(marxs.__version__ in str(ph.meta['CREATOR']), 'CREATOR does not name the version')
    ensure('MARXSVER' in ph.meta and ph.meta['EXTNAME'] == 'EVENTS', 'meta data')


@sub('C37', {'name': st.sampled_from(sorted(SOURCES)), 'what': st.sampled_from(
    ['flux array', 'flux number', 'flux str', 'energy array', 'energy number', 'energy str', 'energy length',
     'energy unit', 'pol array', 'pol number', 'pol str', 'pol length', 'pol unit', 'time unit', 'flux none',
     'energy none']), 'n': st.integers(2, 9)}, quick=250, thorough=3000)
def sources_refuse_invalid_specifications(name, what, n):
    kw = {'flux': flux_for(name, 1.), 'energy': 1 * u.keV}
    t = n * u.s
    par, how = what.split()
    key = {'pol': 'polarization'}.get(par, par)
    if par == 'time':
        t = [n, n * u.m, n * u.keV][n % 3]
    elif how == 'array':
        # as long as the photon list, or not
        k = n if n % 2 else n + 1
        kw[key] = {'flux': flux_for(name, np.ones(k)), 'energy': np.ones(k) * u.keV,
                   'pol': np.ones(k) * u.rad}[par]
    elif how == 'number':
        kw[key] = 1.5
    elif how == 'str':
        kw[key] = 'high'
    elif how == 'none':
        kw[key] = None
    elif how == 'unit':
        kw[key] = 2 * u.s
    elif how == 'length':
        k = n + (1 if n % 2 else -1)
        kw[key] = (lambda t: np.ones(k) * u.keV) if par == 'energy' else (lambda t, e: np.ones(k) * u.rad)
    with raises(Exception, f'{name} accepts an invalid specification of {what}'):
        SOURCES[name](**kw)(t)
    label(what)


@sub('C37', {'name': st.sampled_from(['PointSource', 'GaussSource', 'DiskSource', 'SphericalDiskSource', 'SymbolFSource',
                                      'FixedPointing', 'JitterPointing', 'LissajousDither', 'RadialDistributionSource']),
             'n': st.integers(1, 4), 'frame': st.sampled_from(['icrs', 'galactic']), 'miss': st.booleans()},
     quick=60, thorough=300)
def arrays_of_coordinates_are_refused(name, n, frame, miss):
    cls, kw = UNPLACED[name]
    kw = dict(kw)
    cls(**dict(kw, coords=SkyCoord(1., 2., unit='deg', frame=frame)))
    kw['coords'] = SkyCoord(np.arange(n) * 1., np.arange(n) * 1., unit='deg', frame=frame)
    if miss:
        del kw['coords']
    with raises(Exception, f'{name} accepts {"no" if miss else "an array of"} coordinates'):
        cls(**kw)


@sub('C37', {'npos': st.integers(0, 5), 'ndir': st.integers(0, 5)}, quick=36, thorough=36)
def lab_sources_need_euclidean_vectors(npos, ndir):
    if npos == 3 and ndir == 3:
        source.LabPointSourceCone(position=np.ones(3), direction=np.ones(3))
    else:
        with raises(Exception, f'vectors of length {npos} and {ndir} are accepted'):
            source.LabPointSourceCone(position=np.ones(npos), direction=np.ones(ndir))


@sub('C37', {'where': st.sampled_from(['elements', 'preprocess_steps', 'postprocess_steps']), 'n': st.integers(0, 4),
             'bad': st.sampled_from([None, 5, 'detector', [], {}, np.ones(3)]), 'seed': seeds,
             'cls': st.sampled_from([Sequence, optics.MultiAperture])}, quick=80, thorough=800)
def containers_refuse_what_cannot_be_called(where, n, bad, seed, cls):
    rng = rng_of(seed)
    good = (lambda: optics.RectangleAperture()) if cls is optics.MultiAperture and where == 'elements' else \
        (lambda: KeepCol('pos'))
    lst = [good() for i in range(n)]
    kw = {'elements': [optics.RectangleAperture()] if cls is optics.MultiAperture else []}
    kw[where] = list(lst)
    if n or where != 'elements' or cls is Sequence:
        c = cls(**kw)
        ensure(list(getattr(c, where)) == lst, f'{where} are not kept', got=getattr(c, where))
    lst.insert(int(rng.integers(n + 1)), bad)
    kw[where] = lst
    with raises(Exception, f'{cls} accepts {bad!r} in {where}'):
        cls(**kw)


@sub('C37', {'seed': seeds, 'n': st.integers(1, 5), 'what': st.sampled_from(
    ['length', 'scalar', 'contradiction', 'zoom', 'args shear', 'uncertainty shear', 'args contradiction', 'key']),
    'delta': st.sampled_from([-1, 1, 2])}, quick=300, thorough=5000)
def arrays_refuse_inconsistent_lists(seed, n, what, delta):
    rng = rng_of(seed)
    pos = [rng.uniform(-9, 9, 3) for i in range(n)]
    rots = [rand_rot(rng) for i in range(n)]
    zoom = [rng.uniform(.5, 2, 3) for i in range(n)]
    ep = {'position': pos, 'orientation': rots, 'zoom': zoom}
    order = [str(k) for k in rng.permutation(list(ep))]
    ep = {k: ep[k] for k in order}
    args = {'pixsize': 0.1, 'ignore_pixel_warning': True}
    build = lambda ep, args: Parallel(elem_class=optics.FlatDetector, elem_pos=ep, elem_args=args)
    keep = copy.deepcopy(ep)
    keepargs = copy.deepcopy(args)
    p = build(ep, args)
    ensure(len(p.elements) == n, 'number of elements')
    ensure(list(ep) == list(keep) and all(len(ep[k]) == len(keep[k]) and np.array_equal(ep[k], keep[k]) for k in ep),
           'building an array changed the list of positions')
    ensure(args == keepargs, 'building an array changed the arguments')
    for i in range(n):
        close(four(p.elements[i]), make_pos4d(pos[i], rots[i], zoom[i]), 'position of an element', atol=1e-9)
    m = 'Parallel accepts '
    if what == 'length':
        k = str(rng.choice(order))
        ep[k] = (ep[k] * 4)[:max(n + delta, 0)]
        with raises(Exception, m + f'{k} of length {len(ep[k])} for {n} elements (keys in order {order})'):
            build(ep, args)
    elif what == 'scalar':
        ep['zoom'] = 3.
        with raises(Exception, m + 'a number in place of a list'):
            build(ep, args)
    elif what == 'contradiction':
        ep['pos4d'] = [np.eye(4)] * n
        with raises(Exception, m + 'pos4d together with position'):
            build(ep, args)
    elif what == 'zoom':
        z = zoom[int(rng.integers(n))]
        z[rng.integers(3)] *= rng.choice([0, -1.])
        with raises(Exception, m + f'an element with zoom {z}'):
            build(ep, args)
    elif what == 'args shear':
        s = np.eye(4)
        i, j = rng.choice(3, size=2, replace=False)
        s[i, j] = rng.choice([-1, 1]) * rng.uniform(.1, 1)
        with raises(Exception, m + 'elements that are sheared'):
            build(ep, dict(args, pos4d=s))
    elif what == 'uncertainty shear':
        s = np.eye(4)
        i, j = rng.choice(3, size=2, replace=False)
        s[i, j] = rng.choice([-1, 1]) * rng.uniform(.1, 1)
        p.elem_uncertainty[int(rng.integers(n))] = s
        with raises(Exception, m + 'an uncertainty with shear'):
            p.generate_elements()
    elif what == 'args contradiction':
        with raises(Exception, m + 'pos4d and zoom for all elements'):
            build(ep, dict(args, pos4d=np.eye(4), zoom=3.))
    else:
        with raises(Exception, m + 'an unknown setting for its elements'):
            build(ep, dict(args, pixelsize=3.))
    label(what)


@sub('C37', {'n': st.integers(0, 6), 'which': st.sampled_from(['normal_spec', 'parallel_spec']), 'seed': seeds},
     quick=40, thorough=200)
def calculated_arrays_refuse_wrong_directions(n, which, seed):
    cls, kw = UNPLACED['ParallelCalculated']
    rng = rng_of(seed)
    kw = dict(kw)
    if n == 4:
        # parallel to the other direction: the orientation is ambiguous
        other = {'normal_spec': 'parallel_spec', 'parallel_spec': 'normal_spec'}[which]
        kw[which] = kw[other] * rng.choice([-1, 1]) * rng.uniform(.5, 3)
    else:
        kw[which] = rng.uniform(.2, 1, n)
    with raises(Exception, f'{which}={kw[which]} is accepted'):
        cls(**kw)


class NoProcess(optics.FlatOpticalElement):
    pass


@sub('C37', {'seed': seeds, 'n': st.integers(1, 9), 'hit': st.booleans()}, quick=40, thorough=400)
def elements_without_function_are_refused(seed, n, hit):
    rng = rng_of(seed)
    y = rng.uniform(-.9, .9, (n, 2)) + (0 if hit else 3)
    t = photon_table(rng, np.column_stack([np.ones(n), y]), np.tile([-1., 0, 0], (n, 1)))
    if hit:
        with raises(Exception, 'photons pass through an element that has no function'):
            NoProcess()(t)
    else:
        ref = t.copy()
        out = NoProcess()(t)
        for c in ref.colnames:
            same(out[c], ref[c], f'{c} of photons that do not hit')
    trivial(not hit)


@sub('C37', {'seed': seeds, 'what': st.sampled_from(
    ['r_inner', 'ellipse', 'degrees', 'unordered', 'more than full', 'grating d', 'ok', 'order', 'lens', 'scatter'])},
    quick=150, thorough=2500)
def impossible_hardware_is_refused(seed, what):
    rng = rng_of(seed)
    place = random_place(seed)
    pos, rot, zoom = place
    zoom = np.array([zoom[0], zoom[1], zoom[1]])
    r = zoom[1]
    lo = rng.uniform(-6, 3)
    hi = lo + rng.uniform(.1, 6)
    base = dict(position=pos, orientation=rot, zoom=zoom)
    m = 'CircleAperture accepts '
    if what == 'ok':
        ri = rng.uniform(0, .99) * r
        a = optics.CircleAperture(**base, r_inner=ri, phi=[lo, hi])
        close(a.area.to_value(u.mm**2), (hi - lo) / 2 * (r**2 - ri**2), 'area of a ring segment', rtol=1e-9, atol=1e-12)
    elif what == 'r_inner':
        with raises(Exception, m + 'an inner radius larger than the outer one'):
            optics.CircleAperture(**base, r_inner=r * rng.uniform(1.001, 3))
    elif what == 'ellipse':
        z = zoom.copy()
        z[rng.integers(1, 3)] *= rng.choice([.5, .99, 1.01, 2])
        with raises(Exception, m + 'an ellipse'):
            optics.CircleAperture(**dict(base, zoom=z))
    elif what == 'degrees':
        with raises(Exception, m + 'an angle that must be in degrees'):
            optics.CircleAperture(**base, phi=[[0, rng.uniform(11, 360)], [-rng.uniform(11, 360), 0.]][int(rng.integers(2))])
    elif what == 'unordered':
        with raises(Exception, m + 'unordered angles'):
            optics.CircleAperture(**base, phi=[hi, lo])
    elif what == 'more than full':
        with raises(Exception, m + 'more than a full circle'):
            optics.CircleAperture(**base, phi=[-3., 3.5 + rng.uniform(0, 2)])
    else:
        cls, kw, key = {
            'grating d': (optics.FlatGrating if rng.random() < .5 else optics.CATGrating, {'order_selector': OS}, 'd'),
            'order': (optics.FlatGrating, {'d': 1e-3}, 'order_selector'),
            'lens': (optics.ThinLens if rng.random() < .5 else optics.PerfectLens, {}, 'focallength'),
            'scatter': (optics.RandomGaussianScatter if rng.random() < .5 else optics.RadialMirrorScatter, {}, 'scatter'),
        }[what]
        with raises(Exception, f'{cls} can be made without {key}'):
            cls(**base, **kw)
    label(what)


def snapshot(x):
    '''comparable deep picture of nested settings (callables and objects by identity)'''
    if isinstance(x, dict):
        return ('d', tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    if isinstance(x, (u.Quantity, np.ndarray)):
        return ('a', str(getattr(x, 'unit', '')), np.asarray(x).shape, np.asarray(x).tobytes())
    if isinstance(x, (Table, QTable)):
        return ('t', tuple(x.colnames))
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return ('o', id(x))


@sub('C37', {'name': st.sampled_from(sorted(set(ALL) - {'CCDRedistNormal'})), 'seed': seeds,
             'n': st.integers(1, 3)}, quick=250, thorough=5000)
def building_does_not_modify_the_settings(name, seed, n):
    cls, kw = ALL[name]
    place = random_place(seed)
    rng = rng_of(seed)
    kw = copy.copy(kw)
    if name in PLACED and name not in ('CircleAperture', 'CircularDetector'):
        kw['position'] = list(place[0])
        kw['zoom'] = list(place[2])
        kw['orientation'] = place[1]
    if name in PLACED and name not in ('RowlandTorus', 'FarLabPointSource'):
        kw['id_col'] = 'someid'
        kw['id_num'] = 4
    before = snapshot(kw)
    made = [cls(**kw) for i in range(n)]
    ensure(snapshot(kw) == before, f'building {name} modifies the settings that were passed in')
    if name in PLACED:
        for m in made:
            same(four(m), four(made[0]), f'{name} built twice from the same settings')
    # objects built later do not change objects built before
    if name in PLACED and name not in ('CircleAperture', 'CircularDetector'):
        ref = four(made[0]).copy()
        cls(**dict(kw, position=[1., 2, 3], zoom=4., orientation=np.eye(3)))
        same(four(made[0]), ref, f'building a second {name} moved the first one')
    label(name)


@sub('C37', {'seed': seeds, 'nx': st.integers(2, 6), 'ny': st.integers(2, 6), 'axis': st.integers(0, 1), 'swap': st.booleans()}, quick=100, thorough=2000)
def tables_that_are_no_grid_are_refused(seed, nx, ny, axis, swap):
    from marxs.utils import tablerows_to_2d, DataFileFormatException
    rng = rng_of(seed)
    x, y = np.sort(rng.permutation(50)[:nx]) * 1., np.sort(rng.permutation(50)[:ny]) * .5
    X, Y = (a.copy() for a in np.meshgrid(x, y, indexing='ij'))
    def table():
        return Table([X.ravel(), Y.ravel(), np.arange(X.size) * 1.], names=['wave', 'theta', '0'])
    gx, gy, gd = tablerows_to_2d(table())
    same(np.asarray(gx), x, 'grid')
    same(np.asarray(gy), y, 'grid')
    A = [X, Y][axis]
    i, j = rng.integers(nx), rng.integers(ny)
    if swap:      # one row or column is in a different order
        line = A[:, j] if axis == 0 else A[i]
        line[:] = np.roll(line, int(rng.integers(1, len(line))))
    else:
        A[i, j] = rng.choice(np.delete(x if axis == 0 else y, i if axis == 0 else j))
    with raises(DataFileFormatException, 'a table that is no sorted grid is accepted'):
        tablerows_to_2d(table())
