'''C27: projection, facet tables and best focus.'''
import numpy as np
from hypothesis import strategies as st
from astropy.table import Table, join

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds, floats, placements, place_kwargs, rotations, photon_table, make_pos4d, rand_rot, rand_unit

from marxs.analysis.coords import ProjectOntoPlane, facet_table
from marxs.analysis import find_best_detector_position
from marxs.analysis.analysis import mean_width_2d, sigma_clipped_std
from marxs.optics import FlatGrating, OrderSelector, FlatDetector, EnergyFilter
from marxs.simulator import Parallel
from marxs.design.rowland import RowlandTorus, GratingArrayStructure


def copy_of(t):
    return {c: np.array(t[c]) for c in t.colnames}


@sub('C27', dict(seed=seeds, place=placements(), mat=st.booleans(), n=st.integers(0, 30), names=st.booleans()), quick=200, thorough=30000)
def projection_on_plane(seed, place, mat, n, names):
    rng = rng_of(seed)
    plane = ProjectOntoPlane(**place_kwargs(place, mat))
    if names:
        plane.loc_coos_name = ['a', 'b']
    cols = ['a', 'b'] if names else ['proj_x', 'proj_y']
    p = rng.uniform(-1000, 1000, (n, 3))
    t = photon_table(rng, p, rand_unit(rng, n) if n else np.zeros((0, 3)))
    snap = copy_of(t)
    out = plane(t)
    pos, rot, zoom = place
    d = p - pos
    close(out[cols[0]], d @ rot[:, 1], 'first plane coordinate', rtol=1e-9, atol=1e-7)
    close(out[cols[1]], d @ rot[:, 2], 'second plane coordinate', rtol=1e-9, atol=1e-7)
    for c in snap:
        same(np.asarray(out[c]), snap[c], f'projection leaves {c} alone')
    ensure(set(out.colnames) == set(snap) | set(cols), 'only the plane coordinates are added')
    # shifting along the normal is irrelevant
    t2 = photon_table(rng, p + rng.uniform(-50, 50, (n, 1)) * rot[:, 0], np.tile([1., 0, 0], (n, 1)))
    out2 = plane(t2)
    for c in cols:
        close(out2[c], out[c], 'projection is parallel to the normal', atol=1e-7)
    trivial(n == 0)


def parallel(rng, **kw):
    m = int(rng.integers(1, 8))
    pos = [make_pos4d(rng.uniform(-500, 500, 3), rand_rot(rng), rng.uniform(1, 30, 3)) for i in range(m)]
    if rng.uniform() < .5:
        args = {'elem_pos': pos}
    else:
        args = {'elem_pos': {'position': [p[:3, 3] for p in pos], 'orientation': [rand_rot(rng) for p in pos]}}
    return Parallel(elem_class=FlatGrating, elem_args={'d': 1e-3, 'order_selector': OrderSelector([0])}, id_col='facet', **args, **kw)


def check_table(tab, xyz, ids, pos, rot):
    d = xyz - pos
    y, z = d @ rot[:, 1], d @ rot[:, 2]
    ensure(len(tab) == len(xyz), 'one row per facet')
    same(np.asarray(tab['facet']), ids, 'identifier of facet')
    for i, c in enumerate('xyz'):
        close(tab['facet_' + c], xyz[:, i], 'position of facet', atol=1e-9)
    close(tab['facet_projx'], y, 'projected position', atol=1e-7)
    close(tab['facet_projy'], z, 'projected position', atol=1e-7)
    r = np.hypot(y, z)
    close(tab['facet_rad'], r, 'radius', atol=1e-7)
    ok = r > 1e-3
    close((tab['facet_rad'] * np.cos(tab['facet_ang']))[ok], y[ok], 'angle', atol=1e-6)
    close((tab['facet_rad'] * np.sin(tab['facet_ang']))[ok], z[ok], 'angle', atol=1e-6)
    ensure((np.abs(tab['facet_ang']) <= np.pi + 1e-12).all(), 'angle in -pi..pi')


@sub('C27', dict(seed=seeds, place=placements(), offset=st.integers(0, 100), own=st.booleans()), quick=100, thorough=8000)
def table_of_facets(seed, place, offset, own):
    rng = rng_of(seed)
    par = parallel(rng, id_num_offset=offset)
    xyz = np.array([e.pos4d[:3, 3] for e in par.elements])
    ids = np.array([e.id_num for e in par.elements])
    same(ids, np.arange(len(ids)) + offset, 'identifiers of facets')
    before = [e.pos4d.copy() for e in par.elements]
    pos, rot, zoom = place if own else (np.zeros(3), np.eye(3), 1.)
    plane = ProjectOntoPlane(**place_kwargs(place, True))
    arg = (plane,) if own else ()
    tab = facet_table(par, *arg)
    check_table(tab, xyz, ids, pos, rot)
    ensure(all(c.startswith('facet') for c in tab.colnames), 'all column names start with facet')
    for e, b in zip(par.elements, before):
        same(e.pos4d, b, 'elements are not moved')
    # the plane can still be used for photons
    ph = photon_table(rng, rng.uniform(-5, 5, (3, 3)), np.tile([1., 0, 0], (3, 1)))
    out = (plane if own else ProjectOntoPlane())(ph)
    ensure('proj_x' in out.colnames and 'facet_projx' not in out.colnames, 'making a table does not change the plane')
    check_table(facet_table(par, *arg), xyz, ids, pos, rot)


@sub('C27', dict(seed=seeds, n=st.integers(1, 60)), quick=40, thorough=1500)
def facets_joined_to_photons(seed, n):
    '''Each photon gets the properties of the facet it went through.'''
    rng = rng_of(seed)
    R = rng.uniform(1000, 5000)
    size = rng.uniform(10, 40)
    gas = GratingArrayStructure(rowland=RowlandTorus(R=R, r=R), d_element=[2 * size + 1, 2 * size + 1],
                                radius=[100., rng.uniform(200, 400)], elem_class=FlatGrating, id_col='facet',
                                elem_args={'zoom': [1, size, size], 'd': 1e-3, 'order_selector': OrderSelector([0])})
    tab = facet_table(gas)
    xyz = np.array([e.pos4d[:3, 3] for e in gas.elements])
    check_table(tab, xyz, np.array([e.id_num for e in gas.elements]), np.zeros(3), np.eye(3))
    j = rng.integers(len(xyz), size=n)
    tgt = xyz[j] + rng.uniform(-.3, .3, (n, 3)) * size * np.array([0, 1, 1])
    d = -tgt
    start = tgt * 1.1
    t = gas(photon_table(rng, start, d))
    full = join(t, tab, keys='facet', join_type='left')
    ensure(len(full) == n, 'one facet for each photon')
    full.sort('mytag')
    same(np.asarray(full['facet']).astype(int), np.asarray(gas.elements[0].id_num + j).astype(int), 'photon went through the facet it was aimed at')
    x = np.column_stack([full['facet_' + c] for c in 'xyz'])
    dist = np.linalg.norm(full['pos'].data[:, :3] - x, axis=1)
    ensure((dist < 1.5 * size).all(), 'photon position is on the facet', dist=dist, size=size)


def bundle(rng, n, rot):
    '''rays in the system of the detector, moving along -x through x=0, with a waist near x=w'''
    w = rng.uniform(-50, 50)
    w2 = w + rng.choice([0., 1]) * rng.uniform(-20, 20)
    s = rng.normal(size=(n, 2)) * rng.uniform(.005, .1)
    off = rng.normal(size=(n, 2)) * 10**rng.uniform(-3, -.5) + rng.uniform(-20, 20, 2) * 10**rng.choice([0., 0, 1, 2.5])
    # y = off + s * (x - w)
    x = 1e4
    p = np.column_stack([np.full(n, x), off[:, 0] + s[:, 0] * (x - w), off[:, 1] + s[:, 1] * (x - w2)])
    d = np.column_stack([-np.ones(n), -s])
    return photon_table(rng, p @ rot.T, d @ rot.T), off, s, (w, w2)


@sub('C27', dict(seed=seeds, n=st.integers(5, 60), rot=rotations(), obj=st.sampled_from(['det_x', 'det_y', '2d', 'own']),
                 bounded=st.booleans()), quick=100, thorough=4000)
def best_focus(seed, n, rot, obj, bounded):
    rng = rng_of(seed)
    t, off, s, ws = bundle(rng, n, rot)
    snap = copy_of(t)
    colnames = list(t.colnames)

    def at(x):
        return np.stack([off[:, i] + s[:, i] * (x - ws[i]) for i in range(2)], axis=1)
    calls = []
    if obj == '2d':
        func, args = mean_width_2d, {}

        def width(x):
            y = at(x)
            return np.mean(np.linalg.norm(y - y.mean(axis=0), axis=1))
    elif obj == 'own':
        def func(p, a, b):
            ensure(a == 3 and b == 'x', 'options of the objective function')
            calls.append(len(p))
            return np.std(p['det_x']) + a * np.std(p['det_y'])
        args = {'a': 3, 'b': 'x'}

        def width(x):
            y = at(x)
            return y[:, 0].std() + 3 * y[:, 1].std()
    else:
        func, args = sigma_clipped_std, {'colname': obj, 'sigma': 1e6}

        def width(x):
            return at(x)[:, 0 if obj == 'det_x' else 1].std()
    kw = {'bounds': (-200, 200), 'method': 'bounded'} if bounded else {}
    if np.array_equal(rot, np.eye(3)) and rng.uniform() < .5:
        out = find_best_detector_position(t, func, args, **kw)
    else:
        out = find_best_detector_position(t, func, args, orientation=rot, **kw)
    for c in colnames:
        same(np.asarray(t[c]), snap[c], f'search does not alter the photons: {c}')
    ensure(list(t.colnames) == colnames, 'search does not alter the photons')
    got = width(out.x)
    close(out.fun, got, 'width reported for the best position', rtol=1e-4, atol=1e-6)
    tries = np.concatenate([rng.uniform(-100, 100, 30), out.x + np.array([-3, -.3, .3, 3]), ws])
    if obj in ('det_x', 'det_y'):
        i = 0 if obj == 'det_x' else 1
        tries = np.append(tries, ws[i] - np.cov(off[:, i], s[:, i], bias=True)[0, 1] / s[:, i].var())
    for x in tries:
        if abs(x) < 200:
            ensure(got <= width(x) * (1 + 1e-4) + 1e-6, 'no other position is better', best=out.x, width=got, other=x,
                   width_other=width(x))
