'''C10: placement of the elements of a Parallel.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, rotations, positions, make_pos4d, rand_rot, rotmat, photon_table, rand_unit

from marxs.simulator import Parallel, ParallelCalculated, Sequence
from marxs.optics import FlatDetector, FlatGrating, OrderSelector, EnergyFilter, CATGrating
from marxs.math.geometry import Geometry


weights = st.one_of(st.just(1.), floats(.5, .99), floats(1.01, 2))


def T(v):
    m = np.eye(4)
    m[:3, 3] = v
    return m


def R(r):
    m = np.eye(4)
    m[:3, :3] = r
    return m


def Z(z):
    return np.diag(list(np.ones(3) * z) + [1.])


def split(m):
    '''translation, rotation, zoom of a matrix without shear'''
    m = np.asarray(m)
    z = np.linalg.norm(m[:3, :3], axis=0)
    return m[:3, 3], m[:3, :3] / z, z


def model(pos4d, unc, epos, eunc, earg):
    '''Documented order of transformations.'''
    te, re_, ze = split(epos)
    ts, rs, zs = split(eunc)
    ta, ra, za = split(earg)
    out = np.array(pos4d, dtype=float)
    for m in [unc, T(ts), T(te), T(ta), R(rs), R(re_), R(ra), Z(zs), Z(ze), Z(za)]:
        out = out @ m
    return out


def rigid(rng, shift=5., ang=.5):
    return T(rng.uniform(-shift, shift, 3)) @ R(rotmat(rng.normal(size=3), rng.uniform(-ang, ang)))


def random_elem_pos(rng, n, style):
    '''(argument for elem_pos, list of matrices)'''
    pos = rng.uniform(-100, 100, (n, 3))
    rot = [rand_rot(rng) for i in range(n)]
    zoom = np.exp(rng.uniform(-1, 2, (n, 3)))
    if style == 'matrices':
        m = [make_pos4d(p, r, z) for p, r, z in zip(pos, rot, zoom)]
        return [x.copy() for x in m], m
    if style == 'pos4d':
        m = [make_pos4d(p, r, z) for p, r, z in zip(pos, rot, zoom)]
        return {'pos4d': [x.copy() for x in m]}, m
    d = {'position': [list(p) for p in pos]}
    r0, z0 = [np.eye(3)] * n, np.ones((n, 3))
    if style in ('rot', 'full'):
        d['orientation'], r0 = rot, rot
    if style in ('zoom', 'full'):
        d['zoom'], z0 = [list(z) for z in zoom], zoom
    if style == 'scalarzoom':
        d['zoom'], z0 = [float(z[0]) for z in zoom], np.repeat(zoom[:, :1], 3, axis=1)
    return d, [make_pos4d(p, r, z) for p, r, z in zip(pos, r0, z0)]


EP = ['matrices', 'pos4d', 'position', 'rot', 'zoom', 'full', 'scalarzoom']


def random_args(rng, style):
    '''position keywords in elem_args'''
    if style == 'none':
        return {}, np.eye(4)
    if style == 'zoom':
        z = rng.uniform(.1, 5)
        return {'zoom': z}, Z(z)
    p, r, z = rng.uniform(-5, 5, 3), rand_rot(rng), rng.uniform(.1, 5, 3)
    if style == 'pos4d':
        return {'pos4d': make_pos4d(p, r, z)}, make_pos4d(p, r, z)
    if style == 'rot':
        return {'orientation': r}, R(r)
    return {'position': p, 'orientation': r, 'zoom': z}, make_pos4d(p, r, z)


def check_elements(par, state, msg, extra):
    n = len(state['epos'])
    ensure(len(par.elements) == n, msg + ': number of elements', got=len(par.elements), expected=n)
    close(par.pos4d, state['pos4d'], msg + ': pos4d of the array', atol=1e-8)
    for i, e in enumerate(par.elements):
        want = model(state['pos4d'], state['unc'], state['epos'][i], state['eunc'][i], state['earg'])
        close(e.pos4d, want, msg + f': placement of element {i}', atol=1e-7, rtol=1e-9)
        ensure(e.id_num == state['offset'] + i, msg + ': identification number', got=e.id_num, i=i)
        ensure(e.id_col == state['id_col'], msg + ': id column', got=e.id_col)
        ensure(type(e) is state['cls'], msg + ': class')
        close(e.pixsize, extra[i], msg + ': per-element argument')


OPS = ['global', 'elem', 'elem_inplace', 'epos', 'center', 'center_t', 'regen', 'reset', 'earg']


@sub('C10', dict(n=st.integers(1, 6), style=st.sampled_from(EP), args=st.sampled_from(['none', 'zoom', 'pos4d', 'rot', 'full']),
                 place=st.sampled_from(['matrix', 'keywords', 'default', 'geometry']), rot=rotations(), pos=positions(500),
                 zoom=st.sampled_from([1., 1., 2.5, .3]), perelem=st.booleans(), offset=st.one_of(st.integers(0, 20), st.integers(100, 10**6)), idcol=st.sampled_from([None, 'ccd']),
                 ops=st.lists(st.sampled_from(OPS), max_size=8), seed=seeds), quick=250, thorough=6000)
def placement_history(n, style, args, place, rot, pos, zoom, perelem, offset, idcol, ops, seed):
    rng = rng_of(seed)
    arg, mats = random_elem_pos(rng, n, style)
    earg, eargm = random_args(rng, args)
    pix = [float(x) for x in rng.uniform(.01, 1, n)] if perelem else float(rng.uniform(.01, 1))
    extra = pix if perelem else [pix] * n
    pos4d = make_pos4d(pos, rot, zoom)
    kw = {'matrix': {'pos4d': pos4d.copy()}, 'keywords': {'position': pos, 'orientation': rot, 'zoom': zoom},
          'default': {}, 'geometry': {'geometry': Geometry({'pos4d': pos4d.copy()})}}[place]
    if place == 'default':
        pos4d = np.eye(4)
    elem_args = {'pixsize': pix, 'ignore_pixel_warning': True, **earg}
    if idcol:
        kw['id_col'] = idcol
    if offset:
        kw['id_num_offset'] = offset
    keys = set(elem_args)
    other = Parallel(elem_class=FlatDetector, elem_pos={'position': [[0, 0, 0], [1, 2, 3]]})
    otherpos = [e.pos4d.copy() for e in other.elements]
    par = Parallel(elem_class=FlatDetector, elem_pos=arg, elem_args=elem_args, **kw)
    ensure(set(elem_args) == keys, 'the dictionary elem_args of the caller is changed')
    s = {'pos4d': pos4d, 'unc': np.eye(4), 'epos': [m.copy() for m in mats], 'eunc': [np.eye(4) for m in mats],
         'earg': eargm, 'offset': offset, 'id_col': idcol or 'element', 'cls': FlatDetector}
    check_elements(par, s, 'new', extra)
    for op in ops:
        if op == 'global':
            m = rigid(rng)
            par.uncertainty, s['unc'] = m.copy(), m
        elif op in ('elem', 'elem_inplace'):
            i = int(rng.integers(n))
            m = rigid(rng)
            s['eunc'][i] = m.copy()
            if op == 'elem':
                par.elem_uncertainty[i] = m
            else:
                par.elem_uncertainty[i][:] = m
        elif op == 'epos':
            i = int(rng.integers(n))
            m = make_pos4d(rng.uniform(-50, 50, 3), rand_rot(rng), np.exp(rng.uniform(-1, 1, 3)))
            par.elem_pos[i], s['epos'][i] = m.copy(), m
        elif op == 'earg':
            m = make_pos4d(rng.uniform(-5, 5, 3), rand_rot(rng), np.exp(rng.uniform(-1, 1, 3)))
            for k in ('position', 'orientation', 'zoom'):
                par.elem_args.pop(k, None)
            par.elem_args['pos4d'], s['earg'] = m.copy(), m
        elif op == 'reset':
            par.uncertainty = np.eye(4)
            par.elem_uncertainty = [np.eye(4) for i in range(n)]
            s['unc'], s['eunc'] = np.eye(4), [np.eye(4) for i in range(n)]
        elif op in ('center', 'center_t'):
            m = rigid(rng) if op == 'center' else T(rng.uniform(-50, 50, 3))
            rot_free = all(np.allclose(split(q)[1], np.eye(3)) and np.allclose(q[:3, 3], 0) for q in s['eunc']) and \
                np.allclose(s['earg'][:3, 3], 0)
            nominal = np.allclose(s['unc'], np.eye(4)) and (op == 'center_t' or rot_free)
            par.generate_elements()
            before = [e.pos4d.copy() for e in par.elements]
            par.move_center(m.copy())
            new = m @ s['pos4d']
            s['epos'] = [np.linalg.inv(new) @ s['pos4d'] @ q for q in s['epos']]
            s['pos4d'] = new
            label('move_center')
            if nominal:
                label('move_center nominal')
                for i, (e, b) in enumerate(zip(par.elements, before)):
                    close(e.pos4d, b, f'move_center moved element {i}', atol=1e-7)
        par.generate_elements()
        check_elements(par, s, op, extra)
    first = [e.pos4d.copy() for e in par.elements]
    par.generate_elements()
    for a, e in zip(first, par.elements):
        same(e.pos4d, a, 'regenerating the elements is repeatable')
    other.generate_elements()
    for a, e in zip(otherpos, other.elements):
        same(e.pos4d, a, 'changes to one array affect another array')
    trivial(n == 1 and not ops and args == 'none')
    label('history', len(ops) > 1)


@sub('C10', dict(n=st.integers(2, 6), seed=seeds, shift=floats(.5, 3), ang=floats(-.6, .6)), quick=60, thorough=1500)
def misalignment_meaning(n, seed, shift, ang):
    '''Global misalignments turn the array around its reference position, element
    misalignments turn the element around its own centre.'''
    rng = rng_of(seed)
    arg, mats = random_elem_pos(rng, n, 'matrices')
    P = make_pos4d(rng.uniform(-100, 100, 3), rand_rot(rng), 1.)
    par = Parallel(elem_class=FlatDetector, elem_pos=arg, pos4d=P, elem_args={'pixsize': 1., 'ignore_pixel_warning': True})
    nominal = [e.pos4d.copy() for e in par.elements]
    axis = rand_unit(rng, 1)[0]
    # rotation only, of the entire array
    par.uncertainty = R(rotmat(axis, ang))
    par.generate_elements()
    for i, e in enumerate(par.elements):
        d0, d1 = nominal[i][:3, 3] - P[:3, 3], e.pos4d[:3, 3] - P[:3, 3]
        close(np.linalg.norm(d1), np.linalg.norm(d0), 'rotating the array changes the distance to its reference', atol=1e-8)
        close(d1, rotmat(P[:3, :3] @ axis, ang) @ d0, 'array turned around its local axis', atol=1e-8)
    par.uncertainty = np.eye(4)
    j = int(rng.integers(n))
    par.elem_uncertainty[j] = R(rotmat(axis, ang))
    par.generate_elements()
    for i, e in enumerate(par.elements):
        if i != j:
            close(e.pos4d, nominal[i], 'another element moved', atol=1e-9)
        else:
            close(e.pos4d[:3, 3], nominal[i][:3, 3], 'rotating an element moves its centre', atol=1e-9)
            close(e.pos4d[:3, :3], rotmat(P[:3, :3] @ axis, ang) @ nominal[i][:3, :3], 'element turned around its centre', atol=1e-9)
    par.elem_uncertainty[j] = T(shift * axis)
    par.generate_elements()
    for i, e in enumerate(par.elements):
        d = e.pos4d - nominal[i]
        close(d[:3, :3], np.zeros((3, 3)), 'a shift turned an element', atol=1e-9)
        close(d[:3, 3], P[:3, :3] @ (shift * axis) * (i == j), 'shift of an element', atol=1e-9)


@sub('C10', dict(n=st.integers(1, 8), seed=seeds, offset=st.one_of(st.integers(0, 30), st.integers(100, 10**6)), nest=st.booleans()), quick=50, thorough=1000)
def ids_of_hit_elements(n, seed, offset, nest):
    '''A photon aimed at an element is labelled with the number of that element and
    processed with its own settings.'''
    rng = rng_of(seed)
    slots = rng.choice(25, size=n, replace=False)
    pos = [[0., 10. * (s % 5), 10. * (s // 5)] for s in slots]
    P = make_pos4d(rng.uniform(-100, 100, 3), rand_rot(rng), 1.)
    pix = [float(x) for x in rng.uniform(.01, .9, n)]
    f = [float(x) for x in rng.uniform(0.1, 1, n)]
    par = Parallel(elem_class=FlatDetector, elem_pos={'position': pos}, pos4d=P, id_col='ccd', id_num_offset=offset,
                   elem_args={'pixsize': pix, 'zoom': 3., 'ignore_pixel_warning': True})
    filt = Parallel(elem_class=EnergyFilter, elem_pos={'position': pos}, pos4d=P, id_col='f',
                    elem_args={'filterfunc': [(lambda e, v=v: np.ones_like(e) * v) for v in f], 'zoom': [3., 3., 3.] if n != 3 else 3.})
    m = 60
    which = rng.integers(0, n + 1, m)
    target = np.array([pos[w] if w < n else [0, -20., -20.] for w in which]) + np.hstack([np.zeros((m, 1)), rng.uniform(-2.5, 2.5, (m, 2))])
    loc = target.copy()
    target = target @ P[:3, :3].T + P[:3, 3]
    d = rand_unit(rng, m)
    nrm = P[:3, 0]
    d[np.abs(d @ nrm) < .3] = nrm
    t = photon_table(rng, target - 5 * d, d, prob=np.ones(m))
    back = t['pos'].copy()
    t = filt(t)
    t['pos'] = back   # both arrays are in the same plane
    t = Sequence(elements=[par])(t)
    hit = which < n
    same(np.asarray(t['ccd']), np.where(hit, which + offset, -1), 'id of the element hit')
    same(np.asarray(t['f']), np.where(hit, which, -1), 'id of the filter hit')
    close(t['probability'], np.where(hit, np.array(f + [1.])[which], 1.), 'per-element filter')
    yz = np.array([[loc[i, 1] - pos[w][1], loc[i, 2] - pos[w][2]] for i, w in enumerate(which) if w < n])
    p = np.array(pix)[which[hit]]
    c = np.stack([np.asarray(t['det_x'])[hit], np.asarray(t['det_y'])[hit]], axis=1)
    if hit.any():
        close(c, yz, 'position on the element', atol=1e-8)
        npix = (np.asarray(t['detpix_x'])[hit] * p - yz[:, 0])
        for w in range(n):
            m_ = which[hit] == w
            if m_.sum() > 1:
                ensure(np.ptp(npix[m_]) < 1e-7, 'pixel size of the element', pix=pix[w])
    trivial(not hit.any())


@sub('C10', dict(n=st.integers(1, 7), normal=st.sampled_from(['point', 'dir', 'call']), par=st.sampled_from(['point', 'dir', 'call']),
                 callpos=st.booleans(), place=st.booleans(), w=weights, seed=seeds), quick=80, thorough=2000)
def calculated_positions(n, normal, par, callpos, place, w, seed):
    rng = rng_of(seed)
    xyz = rng.uniform(-100, 100, (n, 3))
    xyzw = np.hstack([xyz, np.ones((n, 1))])
    spec = {}
    vec = {}
    for name, kind in (('normal', normal), ('parallel', par)):
        v = rng.uniform(-1, 1, 3) * (300 if kind == 'point' else 1)
        if kind == 'point':
            spec[name], vec[name] = np.append(v * w, w), v - xyz
        elif kind == 'dir':
            spec[name], vec[name] = np.append(v, 0), np.tile(v, (n, 1))
        else:
            vv = rng.uniform(-1, 1, (n, 3))
            vec[name] = vv
            spec[name] = lambda *a, vv=vv: np.hstack([vv, np.zeros((n, 1))])
    un = {k: v / np.linalg.norm(v, axis=1)[:, None] for k, v in vec.items()}
    if np.any(np.linalg.norm(np.cross(un['normal'], un['parallel']), axis=1) < .02):
        trivial()
        return
    P = make_pos4d(rng.uniform(-10, 10, 3), rand_rot(rng), 1.) if place else np.eye(4)
    o = ParallelCalculated(pos_spec=(lambda: xyzw) if callpos else xyzw, normal_spec=spec['normal'],
                           parallel_spec=spec['parallel'], elem_class=FlatDetector, pos4d=P, id_num_offset=2,
                           elem_args={'pixsize': .1, 'ignore_pixel_warning': True, 'zoom': [2., 3., 4.] if n != 3 else 2.})
    ensure(len(o.elements) == n, 'number of elements')
    s = []
    for i, e in enumerate(o.elements):
        ensure(e.id_num == i + 2, 'identification number')
        m = np.linalg.inv(P) @ e.pos4d
        close(m[:3, 3], xyz[i], 'centre of element', atol=1e-8)
        t, r, z = split(m)
        close(z, [2, 3, 4] if n != 3 else [2, 2, 2], 'size of element')
        close(r.T @ r, np.eye(3), 'orthogonal', atol=1e-9)
        close(np.linalg.det(r), 1., 'right-handed', atol=1e-9)
        s.append(r[:, 0] @ un['normal'][i])
        close(np.abs(s[-1]), 1, 'normal points along the requested direction', atol=1e-8)
        close(r[:, 2] @ un['parallel'][i], 0, 'y axis coplanar with the parallel direction', atol=1e-7)
    ensure(np.all(np.array(s) > 0) or (normal == 'point' and np.all(np.array(s) < 0)), 'sign of the normal', got=s)


@sub('C10', dict(n=st.integers(2, 5), k=st.integers(1, 4), seed=seeds), quick=20, thorough=200)
def invalid_arrays_refused(n, k, seed):
    rng = rng_of(seed)
    with raises(ValueError, 'position lists of different length have to be refused'):
        Parallel(elem_class=FlatDetector, elem_pos={'position': rng.uniform(-1, 1, (n, 3)), 'zoom': list(rng.uniform(1, 2, n + k))})
    with raises(ValueError, 'negative zoom has to be refused'):
        Parallel(elem_class=FlatDetector, elem_pos={'position': rng.uniform(-1, 1, (n, 3)), 'zoom': list(-rng.uniform(1, 2, n))})
    sh = np.eye(4)
    sh[0, 1] = rng.uniform(.1, 1)
    with raises(ValueError, 'shear in elem_args has to be refused'):
        Parallel(elem_class=FlatDetector, elem_args={'pos4d': sh}, elem_pos={'position': rng.uniform(-1, 1, (n, 3))})
    with raises(ValueError, 'pos4d and position at the same time have to be refused'):
        FlatDetector(pos4d=np.eye(4), position=[1, 2, 3])
    with raises(ValueError, 'singular pos4d has to be refused'):
        FlatDetector(pos4d=np.diag([1., 0, 1, 1]))
    with raises(ValueError, 'zoom needs one or three entries'):
        FlatDetector(zoom=[1., 2.])
    with raises(ValueError, 'unknown keywords have to be refused'):
        FlatDetector(pixzise=1.)


class Recorder:
    '''Element that only remembers how it was made'''
    def __init__(self, **kwargs):
        self.kwargs = kwargs


@sub('C10', dict(n=st.integers(1, 8), seed=seeds, offset=st.integers(-5, 30), idcol=st.sampled_from([None, 'arg', 'elem', 'both'])),
     quick=150, thorough=5000)
def settings_of_each_element(n, seed, offset, idcol):
    '''Lists with one entry per element are shared out, everything else is passed on to every element.'''
    rng = rng_of(seed)
    args, want = {}, {}
    for i in range(int(rng.integers(0, 7))):
        kind = ['list', 'longer', 'shorter', 'tuple', 'array', 'str', 'dict', 'nested', 'number', 'name'][int(rng.integers(10))]
        m = n
        if kind == 'longer':
            m = n + int(rng.integers(1, 4))
        elif kind == 'shorter':
            m = int(rng.integers(0, n))
        v = [float(x) for x in rng.normal(size=m)]
        key = f'key{i}'
        if kind == 'tuple':
            v = tuple(v)
        elif kind == 'array':
            v = np.array(v)
        elif kind == 'str':
            v = 'x' * n
        elif kind == 'dict':
            v = dict(enumerate(v))
        elif kind == 'nested':
            v = [[x] * n for x in v]
        elif kind == 'number':
            v = 4.5
        elif kind == 'name':
            key, v = 'name', [f'e{j}' for j in range(n)]
        args[key] = v
        want[key] = v if kind in ('list', 'nested', 'name') else [v] * n
    kw = {}
    if idcol in ('arg', 'both'):
        kw['id_col'] = 'fromarg'
    if idcol in ('elem', 'both'):
        args['id_col'] = 'fromelem'
    before = dict(args)
    par = Parallel(elem_class=Recorder, elem_pos=[np.eye(4)] * n, elem_args=args, id_num_offset=offset, **kw)
    for again in range(2):
        ensure(len(par.elements) == n, 'number of elements')
        for i, e in enumerate(par.elements):
            k = dict(e.kwargs)
            ensure(k.pop('id_num') == offset + i, 'running number', got=e.kwargs['id_num'])
            ensure(k.pop('id_col') == ('fromelem' if idcol in ('elem', 'both') else 'fromarg' if idcol else 'element'), 'name of the id column')
            close(k.pop('pos4d'), np.eye(4), 'position')
            if 'name' not in args:
                ensure(isinstance(k.pop('name'), str), 'default name')
            ensure(set(k) == set(want) - {'id_col'}, 'settings of the element', got=sorted(k))
            for key in k:
                w = want[key][i]
                ensure(k[key] is w or (type(k[key]) is type(w) and np.array_equal(k[key], w)), f'setting of element {i}', got=k[key], expected=w)
        ensure(args.keys() == before.keys() and all(args[x] is before[x] for x in args), 'settings of the caller are changed')
        par.generate_elements()
