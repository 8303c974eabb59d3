'''C41: objects do not influence each other.'''
import copy
import io

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import QTable, Table

from vt.core import sub, ensure, same, trivial, label
from vt.gen import rng_of, seeds, rand_rot, make_pos4d, rotmat
from vt.instr import KINDS, STYLES, beam, place_ahead
from vt.checks.c01_table import ALLKINDS, fill
from vt.checks.c37_setup import ALL, PLACED, GAS, torus

from marxs import optics, simulator
from marxs.design import rowland, tolerancing
from marxs.visualization import threejs, threejsjson
from marxs.missions.chandra.dither import LissajousDither
from marxs.source import (PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource,
                          FixedPointing, JitterPointing, LabPointSourceCone)
from marxs.simulator import Parallel, Sequence, Propagator, KeepCol


def tables_equal(a, b, msg):
    ensure(a.colnames == b.colnames, msg + ': columns', got=b.colnames, expected=a.colnames)
    for c in a.colnames:
        same(np.asarray(b[c]), np.asarray(a[c]), f'{msg}: column {c}')


def snap(x):
    '''A representation of any argument that can be compared. Functions and objects by identity.'''
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v) for v in x]
    if isinstance(x, Table):
        return [(c, snap(np.asarray(x[c])), str(x[c].unit)) for c in x.colnames] + [str(dict(x.meta))]
    if isinstance(x, u.Quantity):
        return (str(x.unit), snap(np.asarray(x.value)))
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes() if x.dtype != object else [snap(v) for v in x.ravel()])
    if isinstance(x, SkyCoord):
        return repr(x)
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    return id(x)


def leaves(e):
    '''element and everything in it'''
    out = [e]
    for x in getattr(e, 'elements', None) or []:
        out += leaves(x)
    return out


def disturb(rng, e, photons=None):
    '''Use, move, misalign, recolour and draw an element.'''
    for _ in range(int(rng.integers(1, 5))):
        k = rng.integers(7)
        x = leaves(e)
        x = x[int(rng.integers(len(x)))]
        if k == 0 and photons is not None and callable(e):
            e(photons.copy())
        elif k == 1 and getattr(getattr(x, 'geometry', None), 'pos4d', None) is not None:
            m = make_pos4d(rng.normal(size=3) * 10, rotmat(rng.normal(size=3), rng.uniform(-3, 3)), 1.)
            x.geometry.pos4d = m @ x.geometry.pos4d
        elif k == 2 and hasattr(x, 'display'):
            x.display['color'] = 'pink'
            x.display['opacity'] = float(rng.uniform())
            x.display['shape'] = str(rng.choice(['box', 'surface', 'None', 'cylinder']))
        elif k == 3 and isinstance(e, Parallel):
            e.uncertainty[:3, 3] += rng.normal(size=3)
            e.elem_uncertainty[0][:3, 3] += 1.
            e.generate_elements()
        elif k == 4 and isinstance(e, Parallel):
            tolerancing.wiggle(e, *np.abs(rng.normal(size=6)))
        elif k == 5:
            for name in ('id_num', 'id_col'):
                if hasattr(x, name):
                    setattr(x, name, {'id_num': 77, 'id_col': 'new_id'}[name])
        elif k == 6:
            for name in ('preprocess_steps', 'postprocess_steps', 'elements'):
                if isinstance(getattr(x, name, None), list) and isinstance(x, (Sequence, Parallel)):
                    getattr(x, name).append(Propagator(distance=3.))
    return e


def run(e, photons, seed):
    np.random.seed(seed)
    return e(photons.copy())


def geo_display(e):
    out = []
    for x in leaves(e):
        g = getattr(x, 'geometry', None)
        out.append((snap(dict(getattr(x, 'display', {}))),
                    snap(np.asarray(g.pos4d)) if getattr(g, 'pos4d', None) is not None else None))
    return out


@sub('C41', dict(k=st.sampled_from(ALLKINDS), k2=st.one_of(st.none(), st.sampled_from(ALLKINDS)), seed=seeds, n=st.integers(1, 25),
                 style=st.sampled_from(STYLES), how=st.sampled_from(['other', 'copy'])), quick=350, thorough=8000)
def elements(k, k2, seed, n, style, how):
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, style)
    place = place_ahead(rng, t)
    fill(t, k, rng)
    if k2:
        fill(t, k2, rng)
    s2 = int(rng.integers(2**31))
    a = KINDS[k].build(rng_of(s2), place)
    r0 = run(a, t, s2)
    d0 = geo_display(a)
    if how == 'copy':
        b = copy.deepcopy(a)
        tables_equal(r0, run(b, t, s2), f'{k}: a copy of the element')
        disturb(rng, b, t)
    else:
        for _ in range(int(rng.integers(1, 4))):
            b = KINDS[k2 or k].build(rng, place_ahead(rng, t))
            disturb(rng, b, t)
    tables_equal(r0, run(a, t, s2), f'{k} after another {k2 or k} was used')
    ensure(geo_display(a) == d0, f'{k}: position or display of one element changes with another one')
    c = KINDS[k].build(rng_of(s2), place)
    tables_equal(r0, run(c, t, s2), f'{k} built again after another {k2 or k} was used')
    ensure(len(geo_display(c)) == len(d0), 'number of elements')
    ensure([x[1] for x in geo_display(c)] == [x[1] for x in d0], f'{k}: position of a new element')
    ensure([x[0] for x in geo_display(c)] == [x[0] for x in d0], f'{k}: display of a new element')
    trivial(np.array_equal(r0['pos'], t['pos']) and 'detpix_x' not in r0.colnames)


@sub('C41', dict(k=st.sampled_from(ALLKINDS), seed=seeds, n=st.integers(1, 20), m=st.integers(1, 20), style=st.sampled_from(STYLES)),
     quick=200, thorough=5000)
def elements_keep_no_memory(k, seed, n, m, style):
    '''An element that has been used works like a new one.'''
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, style)
    place = place_ahead(rng, t)
    t2 = beam(rng, m, style)
    both = []
    for x in (t, t2):
        fill(x, k, rng)
    s2 = int(rng.integers(2**31))
    a = KINDS[k].build(rng_of(s2), place)
    b = KINDS[k].build(rng_of(s2), place)
    for i in range(int(rng.integers(1, 3))):
        a(t2.copy())
    tables_equal(run(b, t, s2), run(a, t, s2), f'{k}: a used and a new element')
    trivial(np.array_equal(run(b, t, s2)['pos'], t['pos']))


def new_kwargs(kw):
    return {k: (copy.deepcopy(v) if isinstance(v, (dict, list)) else v) for k, v in kw.items()}


@sub('C41', dict(name=st.sampled_from(sorted(set(ALL) - {'CCDRedistNormal'})), seed=seeds, n=st.integers(1, 10)), quick=300, thorough=6000)
def same_arguments(name, seed, n):
    '''Objects built from the very same arguments.'''
    cls, kw = ALL[name]
    rng = rng_of(seed)
    kw = new_kwargs(kw)
    if name in PLACED and rng.random() < .7:
        kw['position'] = rng.normal(size=3)
        if rng.random() < .7:
            kw['orientation'] = rand_rot(rng)
    before = snap(kw)
    a = cls(**kw)
    ensure(snap(kw) == before, f'{name}: building the object changes its arguments')
    b = cls(**kw)
    da = geo_display(a)
    ensure(geo_display(b) == da, f'{name}: two objects from the same arguments differ')
    disturb(rng, b)
    if name not in ('MultiAperture', 'Sequence'):    # share the elements by construction
        ensure(geo_display(a) == da, f'{name}: two objects from the same arguments share their state')
        ensure(snap(kw) == before, f'{name}: changing the object changes the arguments it was made from')
    c = cls(**new_kwargs(ALL[name][1]))
    d = cls(**new_kwargs(ALL[name][1]))
    ensure(geo_display(c) == geo_display(d), f'{name}: default state')
    disturb(rng, c)
    ensure(geo_display(cls(**new_kwargs(ALL[name][1]))) == geo_display(d), f'{name}: default state after another object was changed')
    label(name)


def parallels(rng):
    m = int(rng.integers(1, 5))
    epos = [make_pos4d(rng.normal(size=3) * 30, rand_rot(rng), rng.uniform(1, 5, 3)) for _ in range(m)]
    args = {'pixsize': [.1 * (i + 1) for i in range(m)], 'ignore_pixel_warning': True, 'zoom': 3.}
    kw = {'elem_class': optics.FlatDetector, 'elem_args': args, 'elem_pos': epos}
    if rng.random() < .5:
        kw['elem_pos'] = {'position': [p[:3, 3] for p in epos], 'orientation': [rand_rot(rng) for p in epos]}
    return kw


@sub('C41', dict(seed=seeds, kind=st.sampled_from(['parallel', 'gas', 'grid']), op=st.sampled_from(
    ['uncertainty', 'elem_uncertainty', 'elem_pos', 'elem_args', 'move_center', 'wiggle', 'varyperiod', 'moveglobal', 'default'])), quick=200, thorough=4000)
def arrays(seed, kind, op):
    '''Arrays from the same settings, one of them is changed in all ways that are documented.'''
    rng = rng_of(seed)
    if kind == 'parallel':
        kw = parallels(rng)
        cls = Parallel
    else:
        kw = new_kwargs(GAS)
        kw['rowland'] = torus()
        if kind == 'gas':
            cls, kw['radius'] = rowland.GratingArrayStructure, [300., 600.]
        else:
            cls, kw['y_range'], kw['z_range'] = rowland.RectangularGrid, [-300., 300.], [-200., 300.]
    before = snap({k: v for k, v in kw.items() if k != 'rowland'})
    a, b = cls(**kw), cls(**kw)
    c0 = geo_display(a)
    unc = snap(a.uncertainty)
    def settings(x):
        return [{k: (snap(v) if not callable(v) else id(v)) for k, v in vars(e).items() if k in ('pixsize', 'centerpix', 'id_num', 'id_col', 'order_selector', '_d')}
                for e in x.elements]
    s0 = settings(a)
    if op == 'uncertainty':
        b.uncertainty[:3, 3] += rng.normal(size=3)
    elif op == 'elem_uncertainty':
        for x in b.elem_uncertainty:
            x[:3, 3] += rng.normal(size=3)
    elif op == 'elem_pos':
        b.elem_pos = [make_pos4d([1., 2, 3], rand_rot(rng), 1.) @ x for x in b.elem_pos]
    elif op == 'elem_args':
        b.elem_args['zoom'] = 17.
        b.elem_args['id_col'] = 'something'
    elif op == 'move_center':
        b.move_center(make_pos4d(rng.normal(size=3), rand_rot(rng), 1.))
    elif op == 'wiggle':
        tolerancing.wiggle(b, 1, 1, 1, .1, .1, .1)
    elif op == 'varyperiod' and kind != 'parallel':
        tolerancing.varyperiod(b.elements, .1, .001)
    elif op == 'moveglobal':
        tolerancing.moveglobal(b, 1, 2, 3, .1, .2, .3)
    elif op == 'default':
        b.elements[0].geometry.pos4d[0, 3] += 4
        b.elements[0].display['color'] = 'pink'
        b.elements.pop()
    if op != 'default':
        b.generate_elements()
    a.generate_elements()
    ensure(geo_display(a) == c0, f'{kind}: an array changes with another one ({op})')
    ensure(settings(a) == s0, f'{kind}: settings of elements change with another array ({op})')
    ensure(snap(a.uncertainty) == unc, f'{kind}: misalignment of an array changes with another one ({op})')
    ensure(snap({k: v for k, v in kw.items() if k != 'rowland'}) == before, f'{kind}: settings passed in are changed ({op})')
    c = cls(**kw)
    ensure(geo_display(c) == c0 and settings(c) == s0, f'{kind}: a new array differs after another one was changed ({op})')
    label(op)


FIELD = SkyCoord(123.4, -12.3, unit='deg')


def build_source(rng, kind):
    e = QTable({'energy': np.sort(rng.uniform(.3, 8, 6)) * u.keV, 'fluxdensity': rng.uniform(0, 1, 6) / u.s / u.cm**2 / u.keV})
    p = QTable({'angle': np.sort(rng.uniform(0, 6, 6)) * u.rad, 'probabilitydensity': rng.uniform(.1, 1, 6) / u.rad})
    kw = {'energy': e if rng.random() < .5 else rng.uniform(1, 2) * u.keV, 'polarization': p if rng.random() < .5 else None,
          'flux': rng.uniform(.01, .1) / u.s / u.cm**2, 'coords': FIELD}
    extra = {'point': {}, 'disk': {'a_outer': 1 * u.arcmin}, 'sphere': {'a_outer': 1 * u.arcmin}, 'gauss': {'sigma': 3 * u.arcsec},
             'F': {'size': 1 * u.arcmin}, 'lab': {'position': rng.normal(size=3)}}[kind]
    cls = {'point': PointSource, 'disk': DiskSource, 'sphere': SphericalDiskSource, 'gauss': GaussSource, 'F': SymbolFSource, 'lab': LabPointSourceCone}[kind]
    kw.update(extra)
    if kind == 'lab':
        kw['flux'] = kw['flux'] * u.cm**2
        del kw['coords']
    return cls, kw


def build_front(rng):
    '''pointing and aperture'''
    k = int(rng.integers(3))
    ref = {'reference_transform': make_pos4d(np.zeros(3), rand_rot(rng), 1.)} if rng.random() < .5 else {}
    p = [(FixedPointing, {'coords': FIELD, 'roll': rng.uniform(0, 3) * u.rad, **ref}),
         (JitterPointing, {'coords': FIELD, 'jitter': 1 * u.arcsec, **ref}),
         (LissajousDither, {'coords': FIELD, 'DitherAmp': rng.uniform(0, 30, 3) * u.arcsec})][k]
    k = int(rng.integers(3))
    a = [(optics.RectangleAperture, {'zoom': rng.uniform(1, 5, 3)}), (optics.CircleAperture, {'zoom': rng.uniform(1, 5), 'r_inner': .3, 'phi': [0, rng.uniform(1, 6)]}),
         (optics.MultiAperture, {'elements': [optics.RectangleAperture(position=[0, i, 0], zoom=i + 1.) for i in range(3)]})][k]
    return p, a


@sub('C41', dict(seed=seeds, kind=st.sampled_from(['point', 'disk', 'sphere', 'gauss', 'F', 'lab']), kind2=st.sampled_from(['point', 'disk', 'sphere', 'gauss', 'F', 'lab'])),
     quick=100, thorough=2500)
def sources(seed, kind, kind2):
    rng = rng_of(seed)
    if rng.random() < .5:
        kind2 = kind
    cls, kw = build_source(rng, kind)
    (pc, pk), (ac, ak) = build_front(rng)
    before = snap([kw, pk, {k: v for k, v in ak.items() if k != 'elements'}])
    expo = rng.uniform(500, 2000) * u.s

    def chain():
        return cls(**kw), pc(**pk), ac(**ak)

    def go(s, p, a):
        np.random.seed(seed)
        out = s.generate_photons(expo)
        if kind != 'lab':
            out = a(p(out))
        return out
    one = chain()
    r0 = go(*one)
    ensure(snap([kw, pk, {k: v for k, v in ak.items() if k != 'elements'}]) == before, 'settings passed in are changed')
    # something else happens
    cls2, kw2 = build_source(rng, kind2)
    s2 = cls2(**kw2)
    o2 = s2.generate_photons(expo * .3)
    if kind2 != 'lab':
        (pc2, pk2), (ac2, ak2) = build_front(rng)
        ac2(**ak2)(pc2(**pk2)(o2))
    for x in ('energy', 'polarization', 'flux'):
        setattr(s2, x, None)
    tables_equal(r0, go(*one), 'the same source used again')
    tables_equal(r0, go(*chain()), 'a source built again from the same settings')
    ensure(snap([kw, pk, {k: v for k, v in ak.items() if k != 'elements'}]) == before, 'settings passed in are changed')
    trivial(len(r0) < 2)


@sub('C41', dict(seed=seeds, ka=st.sampled_from(ALLKINDS), kb=st.sampled_from(ALLKINDS), shared=st.booleans(), n=st.integers(1, 12)), quick=120, thorough=3000)
def containers(seed, ka, kb, shared, n):
    '''Steps added to one container do not run in another.'''
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, 'cone')
    pl = place_ahead(rng, t)
    for k in (ka, kb):
        fill(t, k, rng)
    ea, eb = KINDS[ka].build(rng, pl), KINDS[kb].build(rng, pl)
    elems = [ea, eb]
    s1 = Sequence(elements=elems)
    if shared:
        s2 = Sequence(elements=[ea, eb])
    else:
        s2 = Sequence(elements=[KINDS[ka].build(rng, pl)])
    r0 = run(s1, t, seed)
    keep = KeepCol('pos')
    s2.preprocess_steps.append(keep)
    s2.postprocess_steps.append(keep)
    s2.display['shape'] = 'None'
    if shared:
        s2.elements.reverse()
    s2(t.copy())
    nkept = len(keep.data)
    ensure(nkept == 2 * len(s2.elements), 'steps of a container run before and after each element')
    tables_equal(r0, run(s1, t, seed), 'a container after another one was used')
    ensure(len(keep.data) == nkept, 'a step of one container runs in another one')
    ensure(s1.display['shape'] == 'container', 'display of a container changes with another one')
    s3 = Sequence(elements=[ea])
    s3(t.copy())
    ensure(len(keep.data) == nkept, 'a step of one container runs in another one')
    ensure(len(elems) == 2 and elems[0] is ea, 'list of elements passed in')
    k1, k2 = KeepCol('pos'), KeepCol('pos')
    Sequence(elements=[ea, eb], postprocess_steps=[k1])(t.copy())
    ensure(len(k2.data) == 0 and len(k1.data) == 2, 'two recorders share their data')


@sub('C41', dict(seed=seeds, n=st.integers(1, 5), N=st.integers(2, 6), how=st.sampled_from(['threejs', 'json', 'x3d']), withprop=st.booleans()), quick=80, thorough=1500)
def drawing_rays(seed, n, N, how, withprop):
    '''Drawing with the same settings many times.'''
    rng = rng_of(seed)
    pos = rng.normal(size=(n, N, 3))
    prop = {'linewidth': 2, 'opacity': .5}
    before = snap(prop)
    sc = rng.uniform(size=n)
    p0 = pos.copy()

    def draw(prop):
        kw = {} if prop is None else {'prop': prop}
        if how == 'threejs':
            f = io.StringIO()
            threejs.plot_rays(pos, f, sc, **kw)
            return f.getvalue()
        return repr(threejsjson.plot_rays(pos, sc, **kw))
    if how == 'x3d':
        from marxs.visualization.x3d import plot_rays
        import x3d.x3d as x
        out = [plot_rays(pos, sc) for _ in range(2)]
        ensure(str(out[0].XML()) == str(out[1].XML()), 'drawing twice gives two pictures') if hasattr(out[0], 'XML') else None
    else:
        ref = draw(None)
        a = draw(prop if withprop else None)
        b = draw(prop if withprop else None)
        ensure(a == b, 'drawing twice gives two pictures')
        ensure(draw(None) == ref, 'settings of one picture appear in the next')
        ensure(snap(prop) == before, 'settings passed in are changed', prop=prop)
    same(pos, p0, 'positions passed in')


def freeze(x, depth=0):
    '''Contents of settings, with identity for anything that is not a container of values.'''
    if isinstance(x, dict):
        return {k: freeze(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v, depth + 1) for v in x]
    if isinstance(x, (Table, u.Quantity, np.ndarray)):
        return (id(x), repr(np.asarray(x).tolist()))
    if isinstance(x, rowland.RowlandTorus):
        return (id(x), x.R, x.r, repr(x.pos4d.tolist()))
    if isinstance(x, (int, float, str, bool, np.generic)) or x is None:
        return x
    return id(x)


def new_settings(x):
    '''Own dictionaries and lists, but the same values'''
    if isinstance(x, dict):
        return {k: new_settings(v) for k, v in x.items()}
    if isinstance(x, list):
        return [new_settings(v) for v in x]
    return x


def check_displays(elements, rng, msg):
    '''Changing how one element is shown does not change the others'''
    elements = [e for e in elements if getattr(e, 'display', None) is not None]
    if len(elements) < 2:
        return
    one = elements[int(rng.integers(len(elements)))]
    others = [e for e in elements if e is not one]
    before = [repr(sorted((k, repr(v)) for k, v in dict(e.display).items())) for e in others]
    one.display['color'] = (.123, .456, .789)
    one.display['opacity'] = .321
    after = [repr(sorted((k, repr(v)) for k, v in dict(e.display).items())) for e in others]
    ensure(before == after, msg + ': changing the display of one element changes another one')


@sub('C41', dict(seed=seeds, what=st.sampled_from(['gas', 'det', 'aperture', 'mirror', 'two', 'model'])), quick=6, thorough=120, hang=600)
def lynx_settings(seed, what):
    '''Parts of Lynx made from the same settings or from settings that share entries.'''
    from marxs.missions.lynx import lynx
    from marxs.missions.lynx.mirror import MetaShell, MetaShellAperture
    rng = rng_of(seed)
    conf = new_settings(lynx.conf)
    conf['grating_size'] = rng.uniform(150, 240, 2)
    conf['grating_frame'] = rng.uniform(0, 10)
    if what in ('two', 'model') or rng.random() < .5:
        lynx.add_rowland_to_conf(conf)
    before = freeze(conf)
    cl = {'gas': lynx.LynxGAS, 'det': lynx.RowlandDetArray, 'aperture': MetaShellAperture, 'mirror': MetaShell}
    if what in cl:
        a = cl[what](conf)
        b = cl[what](conf)
        ensure(len(a.elements) == len(b.elements) and
               all(np.array_equal(x.pos4d, y.pos4d) for x, y in zip(a.elements, b.elements) if hasattr(x, 'pos4d')),
               'the second one is the same as the first')
        check_displays(list(a.elements) + list(b.elements), rng, what)
    elif what == 'model':
        a = lynx.LynxForPlot(conf)
        check_displays(leaves(a), rng, 'model')
    else:
        # like conf and conf_5050 in that module, which share the settings of the gratings
        other = copy.copy(conf)
        other['grating_size'] = conf['grating_size'] * 1.2
        a = lynx.LynxGAS(conf)
        p = [e.pos4d.copy() for e in a.elements]
        lynx.LynxGAS(other)
        a.generate_elements()
        ensure(len(p) == len(a.elements) and all(np.array_equal(x, e.pos4d) for x, e in zip(p, a.elements)),
               'gratings are moved or resized when gratings of another configuration are made')
    ensure(freeze(conf) == before, 'the configuration was changed', what=what)
