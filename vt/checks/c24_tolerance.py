'''C24: tolerancing operations.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import (rng_of, seeds, floats, logfloats, rotations, positions, placements, make_pos4d,
                    rotmat, rand_rot, photon_table, aimed_rays)
from vt.instr import KINDS
from vt.checks.c01_table import fill
from vt.checks.c10_parallel import model, T, R, random_elem_pos, EP

from marxs.simulator import Parallel, Sequence
from marxs.optics import (FlatDetector, CircularDetector, FlatGrating, CATGrating, OrderSelector, FlatStack,
                          EnergyFilter, ThinLens, RectangleAperture, RadialMirrorScatter, Baffle)
from marxs.design.tolerancing import (wiggle, moveglobal, moveindividual, moveelem, varyperiod,
                                      varyorderselector, varyattribute, reset_6d, oneormoreelements)
from marxs.design.uncertainties import generate_facet_uncertainty

KEYS = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']


def six(d):
    '''dict of offsets -> rigid motion: rotation about x, then y, then z, then shift.'''
    v = [d.get(k, 0.) for k in KEYS]
    rot = (rotmat([0, 0, 1.], v[5]) @ rotmat([0, 1., 0], v[4]) @ rotmat([1., 0, 0], v[3]))
    return T(v[:3]) @ R(rot)


offsets = st.one_of(
    st.just({}), st.just(dict(reset_6d)),
    st.tuples(st.sampled_from(KEYS), floats(-1, 1)).map(lambda t: {t[0]: t[1] * (10 if t[0][0] == 'd' else 1.)}),
    st.lists(floats(-1, 1), min_size=6, max_size=6).map(
        lambda x: {k: a * (10 if k[0] == 'd' else 1.) for k, a in zip(KEYS, x)}))


def array(rng, n, style, kind):
    arg, mats = random_elem_pos(rng, n, style)
    cls, ea = [(FlatDetector, {'pixsize': .5}), (FlatGrating, {'d': .001, 'order_selector': OrderSelector([1])}),
               (FlatStack, {'elements': [[EnergyFilter, FlatDetector]] * n,
                            'keywords': [[{'filterfunc': lambda e: 0.5 * np.ones_like(e)}, {'pixsize': .1}]] * n})][kind]
    pos4d = make_pos4d(rng.uniform(-50, 50, 3), rand_rot(rng), np.ones(3))
    return Parallel(elem_class=cls, elem_pos=arg, elem_args=ea, pos4d=pos4d.copy()), pos4d, mats


def check(arr, pos4d, unc, mats, eunc, msg):
    ensure(len(arr.elements) == len(mats), msg + ': number of elements')
    for i, e in enumerate(arr.elements):
        want = model(pos4d, unc, mats[i], eunc[i], np.eye(4))
        close(e.pos4d, want, f'{msg}: position of element {i}', rtol=1e-9, atol=1e-8)
        if isinstance(e, FlatStack):
            for l in e.elements:
                close(l.pos4d, want, f'{msg}: position of layer', rtol=1e-9, atol=1e-8)
        ensure(e.id_num == i, 'identifiers unchanged')


opsl = st.lists(st.tuples(st.sampled_from(['global', 'individual', 'wiggle', 'wiggle0']), offsets,
                          st.integers(0, 2)), min_size=1, max_size=6)


@sub('C24', dict(seed=seeds, n=st.integers(1, 6), style=st.sampled_from(EP), kind=st.integers(0, 2), ops=opsl),
     quick=120, thorough=5000)
def history_of_moves(seed, n, style, kind, ops):
    '''Two arrays; operations on the first, second or both.'''
    rng = rng_of(seed)
    arrs = [array(rng, n, style, kind), array(rng, n, style, kind)]
    nominal = [[np.array(e.pos4d) for e in a[0].elements] for a in arrs]
    unc = [np.eye(4), np.eye(4)]
    eunc = [[np.eye(4)] * n, [np.eye(4)] * n]
    for name, off, which in ops:
        sel = [[0], [1], [0, 1]][which]
        tgt = arrs[sel[0]][0] if len(sel) == 1 and rng.uniform() < .5 else [arrs[i][0] for i in sel]
        par = dict(off)
        if name == 'global':
            moveglobal(tgt, **par)
            for i in sel:
                unc[i] = six(off)
        elif name == 'individual':
            moveindividual(tgt, **par)
            for i in sel:
                eunc[i] = [six(off)] * n
        elif name == 'wiggle0':
            wiggle(tgt, 0, 0, 0)
            for i in sel:
                eunc[i] = [np.eye(4)] * n
        else:
            np.random.seed(seed % 2**31)
            wiggle(tgt, **{k: abs(v) for k, v in par.items()})
            for i in sel:
                eu = [np.array(m) for m in arrs[i][0].elem_uncertainty]
                ensure(len(eu) == n, 'one random misalignment per element')
                for m in eu:
                    close(m[:3, :3] @ m[:3, :3].T, np.eye(3), 'misalignment is a rigid motion')
                    close(m[3], [0, 0, 0, 1], 'affine')
                    for k, j in zip(['dx', 'dy', 'dz'], range(3)):
                        if not par.get(k, 0.):
                            ensure(m[j, 3] == 0, f'no shift along {k} requested')
                    if not any(par.get(k, 0) for k in ['rx', 'ry', 'rz']):
                        close(m[:3, :3], np.eye(3), 'no rotation requested')
                    if any(abs(par.get(k, 0)) > 1e-6 for k in KEYS) and n > 1:
                        d = [np.abs(a - b).max() for x, a in enumerate(eu) for b in eu[:x]]
                        ensure(min(d) > 0, 'elements are misaligned independently')
                eunc[i] = eu
                if len(sel) == 2 and any(abs(par.get(k, 0)) > 1e-6 for k in KEYS):
                    a, b = arrs[0][0].elem_uncertainty[0], arrs[1][0].elem_uncertainty[0]
                    if i == 1:
                        ensure(np.abs(np.array(a) - np.array(b)).max() > 0, 'arrays are misaligned independently')
        ensure(par == off, 'arguments are not modified')
        for i in range(2):
            check(arrs[i][0], arrs[i][1], unc[i], arrs[i][2], eunc[i], f'after {name} {off} on {sel}, array {i}')
    # reset
    moveglobal([a[0] for a in arrs], **reset_6d)
    moveindividual([a[0] for a in arrs], **reset_6d)
    for a, nom in zip(arrs, nominal):
        for e, m in zip(a[0].elements, nom):
            close(e.pos4d, m, 'nominal after reset', rtol=1e-12, atol=1e-12)
    # uncertainty matrices of the elements are separate objects
    a = arrs[0][0]
    if n > 1:
        moveindividual(a, dx=1.)
        a.elem_uncertainty[0][0, 3] += 5
        a.generate_elements()
        check(a, arrs[0][1], np.eye(4), arrs[0][2], [T([6, 0, 0])] + [T([1, 0, 0])] * (n - 1),
              'editing a single element')
    ensure(reset_6d == {k: 0. for k in KEYS}, 'reset_6d')


def single(rng, kind, pos4d):
    return [lambda p: FlatDetector(pixsize=.1, pos4d=p),
            lambda p: FlatGrating(d=.001, order_selector=OrderSelector([1]), pos4d=p, groove_angle=.3),
            lambda p: CATGrating(d=.0002, order_selector=OrderSelector([-2]), pos4d=p),
            lambda p: ThinLens(focallength=100., pos4d=p),
            lambda p: FlatStack(elements=[EnergyFilter, FlatGrating, FlatDetector],
                                keywords=[{'filterfunc': lambda e: .7 * np.ones_like(e)},
                                          {'d': .001, 'order_selector': OrderSelector([1])}, {'pixsize': 1.}],
                                pos4d=p),
            lambda p: Baffle(pos4d=p),
            lambda p: EnergyFilter(filterfunc=lambda e: .5 * np.ones_like(e), pos4d=p),
            lambda p: CircularDetector(pixsize=.1, pos4d=p),
            lambda p: FlatStack(elements=[FlatStack, FlatDetector],
                                keywords=[{'elements': [FlatGrating, EnergyFilter],
                                           'keywords': [{'d': .001, 'order_selector': OrderSelector([1])},
                                                        {'filterfunc': lambda e: .7 * np.ones_like(e)}]}, {'pixsize': 1.}],
                                pos4d=p)][kind](pos4d)


@sub('C24', dict(seed=seeds, place=placements(50., .5, 20.), kind=st.integers(0, 8),
                 offs=st.lists(offsets, min_size=1, max_size=4)), quick=150, thorough=8000)
def history_of_element_moves(seed, place, kind, offs):
    '''A moved element acts as one that was built in the new place.'''
    rng = rng_of(seed)
    pos, rot, zoom = place
    if kind == 7:
        zoom = np.array([zoom[0], zoom[0], zoom[2]])
    nominal = make_pos4d(pos, rot, zoom)
    e = single(rng, kind, nominal.copy())
    other = single(rng, kind, nominal.copy())
    for off in offs + [dict(reset_6d)]:
        moveelem(e if rng.uniform() < .5 else [e], **off)
        want = six(off) @ nominal
        close(e.pos4d, want, f'position after {off}', rtol=1e-12, atol=1e-9)
        close(e.geometry.pos4d, want, 'geometry', rtol=1e-12, atol=1e-9)
        same(other.pos4d, nominal, 'other elements stay')
        new = single(rng, kind, want.copy())
        p, d, t = aimed_rays(rng, 10, (want[:3, 3], want[:3, :3] / zoom, zoom), maxang=.8)
        photons = photon_table(rng, p, d)
        s = int(rng.integers(2**31))
        np.random.seed(s)
        a = e(photons.copy())
        np.random.seed(s)
        b = new(photons.copy())
        ensure(set(a.colnames) == set(b.colnames), 'columns')
        # rays very close to the edge might go either way
        for c in ['pos', 'dir', 'probability', 'polarization'] + (['order'] if 'order' in b.colnames else []):
            x, y = np.asarray(a[c], dtype=float), np.asarray(b[c], dtype=float)
            ok = np.isclose(x, y, rtol=1e-7, atol=1e-7, equal_nan=True)
            ensure(ok.all(), f'{c} of rays after moving the element', moved=x, new=y)
    close(e.pos4d, nominal, 'nominal after reset', rtol=1e-12, atol=1e-12)


MOVABLE = sorted(k for k in KINDS if KINDS[k].geom in ('plane', 'cyl'))


@sub('C24', dict(seed=seeds, place=placements(50., .5, 20.), kind=st.sampled_from(MOVABLE),
                 offs=st.lists(offsets, min_size=1, max_size=3)), quick=150, thorough=6000)
def history_of_moves_every_element(seed, place, kind, offs):
    '''The same for all kinds of elements, which are used in every place.'''
    rng = rng_of(seed)
    pos, rot, zoom = place
    if KINDS[kind].geom == 'cyl':
        zoom = np.array([zoom[0], zoom[0], zoom[2]])
    s = int(rng.integers(2**31))
    e = KINDS[kind].build(rng_of(s), (pos, rot, zoom))
    hit = False
    for off in offs + [dict(reset_6d)]:
        moveelem(e, **off)
        m = six(off)
        place2 = (m[:3, :3] @ pos + m[:3, 3], m[:3, :3] @ rot, zoom)
        new = KINDS[kind].build(rng_of(s), place2)
        p, d, t = aimed_rays(rng, 12, place2, maxang=.8)
        photons = photon_table(rng, p, d)
        fill(photons, kind, rng)
        s2 = int(rng.integers(2**31))
        np.random.seed(s2)
        a = e(photons.copy())
        np.random.seed(s2)
        b = new(photons.copy())
        ensure(a.colnames == b.colnames, 'columns', got=a.colnames, expected=b.colnames)
        hit |= not np.array_equal(np.asarray(b['pos']), np.asarray(photons['pos']))
        for c in b.colnames:
            x, y = np.asarray(a[c], dtype=float), np.asarray(b[c], dtype=float)
            ok = np.isclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True)
            ensure(ok.all(), f'{kind}: {c} of rays after moving the element', moved=x, new=y)
    trivial(not hit)


def zcheck(x, sigma, loc, msg):
    '''mean and width of independent draws'''
    n = len(x)
    if sigma == 0:
        return close(x, np.full(n, float(loc)), msg + ' (no scatter)', rtol=0, atol=1e-12)
    z = (np.asarray(x) - loc) / sigma
    m = z.mean() * np.sqrt(n)
    v = ((z**2).mean() - 1) * np.sqrt(n / 2)
    ensure(abs(m) < 7, msg + ': mean', z=m)
    ensure(abs(v) < 8.5 + 100 / n, msg + ': width', z=v)
    ensure(len(np.unique(z)) > .9 * n, msg + ': independent draws')


def euler_of(m):
    return (np.arctan2(m[2, 1], m[2, 2]), -np.arcsin(np.clip(m[2, 0], -1, 1)), np.arctan2(m[1, 0], m[0, 0]))


sigmas = st.lists(st.one_of(st.just(0.), logfloats(1e-3, .1)), min_size=6, max_size=6)


@sub('C24', dict(seed=seeds, s=sigmas, off=st.one_of(st.none(), st.lists(floats(-.2, .2), min_size=6, max_size=6)),
                 via=st.booleans(), n=st.sampled_from([100, 250])), quick=40, thorough=1500)
def random_misalignment_statistics(seed, s, off, via, n):
    np.random.seed(seed % 2**32)
    rng = rng_of(seed)
    kw, loc = {}, np.zeros(6)
    if via:
        arr = Parallel(elem_class=FlatDetector, elem_pos={'position': list(rng.uniform(-10, 10, (n, 3)))},
                       elem_args={'zoom': 2.})
        wiggle(arr, **dict(zip(KEYS, s)))
        mats = []
        # relative to nominal
        for e, m in zip(arr.elements, arr.elem_pos):
            x = np.linalg.inv(m) @ e.pos4d
            x[:3, :3] /= 2.
            mats.append(x)
    else:
        if off is not None:
            kw = {'trans_offset': off[:3], 'rot_offset': off[3:]}
            loc = np.array(off)
        mats = generate_facet_uncertainty(n, s[:3], s[3:], **kw)
    ensure(len(mats) == n, 'number')
    t = np.array([m[:3, 3] for m in mats])
    r = np.array([euler_of(m) for m in mats])
    v = np.hstack([t, r])
    for i in range(6):
        # with translation in elements coordinates
        zcheck(v[:, i], s[i], loc[i], f'misalignment {KEYS[i]}')
    for i in range(6):
        for j in range(i):
            if s[i] and s[j]:
                c = np.mean((v[:, i] - loc[i]) * (v[:, j] - loc[j])) / s[i] / s[j] * np.sqrt(n)
                ensure(abs(c) < 8, 'degrees of freedom are independent', pair=(i, j), z=c)
    trivial(not any(s))


@sub('C24', dict(seed=seeds, mean=logfloats(1e-4, 1e-2), rel=st.one_of(st.just(0.), floats(.001, .05)),
                 n=st.integers(2, 60)), quick=60, thorough=3000)
def grating_period(seed, mean, rel, n):
    rng = rng_of(seed)
    arr = Parallel(elem_class=FlatGrating, elem_pos={'position': list(rng.uniform(-10, 10, (n, 3)))},
                   elem_args={'d': 5e-3, 'order_selector': OrderSelector([1]), 'zoom': 3.})
    sel = [e for i, e in enumerate(arr.elements) if i % 2 == 0]
    np.random.seed(seed % 2**32)
    varyperiod(sel, mean, mean * rel)
    for i, e in enumerate(arr.elements):
        if i % 2:
            ensure(e._d == 5e-3, 'period of other gratings')
    d = np.array([e._d for e in sel])
    if len(sel) >= 20:
        zcheck(d, mean * rel, mean, 'period')
    elif rel == 0:
        close(d, np.full(len(d), mean), 'period', rtol=1e-12, atol=0)
    else:
        ensure(np.all(np.abs(d / mean - 1) < 9 * rel), 'period close to the mean')
        ensure(len(set(d)) == len(d), 'independent periods')
    # the new period is used
    e = sel[0]
    p = photon_table(rng, e.pos4d[:3, 3][None, :] + [[1., 0, 0]], np.array([[-1., 0, 0]]), energy=[.5])
    q = e(p)
    wave = 12.398419843320026 / .5 * 1e-7
    s = np.linalg.norm(q['dir'].data[0, 1:3])
    close(s, wave / e._d, 'diffraction angle follows from period', rtol=1e-6, atol=1e-9)
    with raises(ValueError, 'elements without a grating period'):
        varyperiod(FlatDetector(), mean, 0.)


@sub('C24', dict(seed=seeds, orders=st.lists(st.integers(-5, 5), min_size=1, max_size=4, unique=True)),
     quick=40, thorough=2000)
def attributes_and_selectors(seed, orders):
    rng = rng_of(seed)
    gr = [FlatGrating(d=.01, order_selector=OrderSelector([1]), zoom=5.) for i in range(3)]
    varyorderselector(gr[:2], OrderSelector, orders)
    n = 30
    p = photon_table(rng, np.tile([1., 0, 0], (n, 1)), np.tile([-1., 0, 0], (n, 1)))
    np.random.seed(seed % 2**32)
    for i, g in enumerate(gr):
        o = set(np.asarray(g(p.copy())['order'], dtype=int))
        ensure(o <= set(orders if i < 2 else [1]), 'orders of modified grating', got=o)
    ensure(gr[0].order_selector is not gr[1].order_selector, 'separate selectors')
    with raises(ValueError, 'elements without order selector'):
        varyorderselector([FlatDetector()], OrderSelector, orders)
    # generic attributes
    a, b = rng.uniform(.1, 5, 2)
    rms = [RadialMirrorScatter(inplanescatter=1 * u.arcsec, perpplanescatter=2 * u.arcsec, zoom=50.)
           for i in range(3)]
    varyattribute(rms[:2], inplanescatter=a * u.arcsec)
    varyattribute(rms[2], inplanescatter=b * u.arcmin, perpplanescatter=a * u.deg)
    m = 400
    p = photon_table(rng, np.array([10., 20, 10]) + rng.uniform(-5, 5, (m, 3)), np.tile([-1., 0, 0], (m, 1)))
    for i, (x, y) in enumerate([(a, 2), (a, 2), (60 * b, 3600 * a)]):
        q = rms[i](p.copy())
        f = np.deg2rad(1 / 3600)
        zcheck(q['inplanescatter'], x * f, 0, 'changed attribute')
        zcheck(q['perpplanescatter'], y * f, 0, 'scatter out of the plane')
    det = [FlatDetector(pixsize=1., zoom=50.) for i in range(2)]
    varyattribute(det[0], pixsize=a)
    ensure(det[0].pixsize == a and det[1].pixsize == 1., 'changed attribute')
    # attributes with a default set on the class: only the element given changes
    varyattribute(det[:1], loc_coos_name=['u', 'v'], detpix_name=['pu', 'pv'])
    p = photon_table(rng, np.array([[1., 2, 3]]), np.array([[-1., 0, 0]]))
    for dd, names in [(det[0], {'u', 'v', 'pu', 'pv'}), (det[1], {'det_x', 'det_y', 'detpix_x', 'detpix_y'}),
                      (FlatDetector(pixsize=1., zoom=50.), {'det_x', 'det_y', 'detpix_x', 'detpix_y'})]:
        q = dd(p.copy())
        ensure(set(q.colnames) - set(p.colnames) == names, 'columns written by the element', got=q.colnames, want=names)
    with raises(ValueError, 'attribute that does not exist'):
        varyattribute(rms[0], inplanescater=1 * u.arcsec)
    ensure(not hasattr(rms[0], 'inplanescater'), 'misspelled attribute is not set')
    # decorator
    calls = []

    @oneormoreelements
    def f(e, *args, **kwargs):
        calls.append((e, args, kwargs))
    k = int(rng.integers(1, 5))
    items = list(rng.uniform(size=k))
    cont = [list, tuple, iter][int(rng.integers(3))](items)
    f(cont, 1, x=2)
    ensure(calls == [(i, (1,), {'x': 2}) for i in items], 'every element once and in order', calls=calls)
