'''C09: polarization vectors and parallel transport.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds, floats, unit_vectors, rotmat, rand_unit, perp_unit, h, rand_rot

from marxs.math.polarization import (polarization_vectors, parallel_transport, paralleltransport_matrix,
                                     Q_reflection)

SPECIAL = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1],
                    [1e-6, 1, 0], [0, 1, -1e-5], [1, 1, 0], [1, 1, 1]], dtype=float)


@sub('C09', dict(seed=seeds, n=st.integers(1, 30), unit=st.sampled_from(['none', 'rad', 'deg', 'arcmin', 'column']),
                 scale=floats(.1, 10)), quick=300, thorough=6000)
def angle_to_vector(seed, n, unit, scale):
    rng = rng_of(seed)
    d = rand_unit(rng, n)
    sp = rng.random(n) < .4
    d[sp] = SPECIAL[rng.integers(len(SPECIAL), size=sp.sum())]
    ny = rng.random(n) < .2         # close to the y-axis
    d[ny] = rng.choice([-1, 1], ny.sum())[:, None] * [0, 1, 0] + rand_unit(rng, ny.sum()) * 10**rng.uniform(-6, -1, (ny.sum(), 1))
    d /= np.linalg.norm(d, axis=1)[:, None]
    ang = rng.uniform(-7, 7, n)
    if unit == 'none':
        a = ang.copy()
    elif unit == 'column':
        cu = [u.deg, u.arcmin, u.rad, u.mrad][int(rng.integers(4))]
        a = Table({'a': (ang * u.rad).to_value(cu)})['a']
        a.unit = cu
    else:
        a = (ang * u.rad).to(unit)
    dh = h(d, 0) * scale
    keep = dh.copy()
    p = polarization_vectors(dh, a)
    same(dh, keep, 'input directions were modified')
    p = np.asarray(p)
    ensure(p.shape == (n, 4), 'one homogeneous vector per photon')
    close(p[:, 3], np.zeros(n), 'polarization is a direction')
    close(np.linalg.norm(p[:, :3], axis=1), np.ones(n), 'unit length')
    close(np.sum(p[:, :3] * d, axis=1), np.zeros(n), 'perpendicular to the ray', atol=1e-7)
    for i in range(n):
        y = np.array([0, 1., 0])
        if abs(d[i, 0]) < 1e-9 and abs(d[i, 2]) < 1e-9:
            y = np.array([1., 0, 0])
        elif abs(d[i, 0]) < 1e-7 and abs(d[i, 2]) < 1e-7:
            continue
        e1 = y - (y @ d[i]) * d[i]
        e1 /= np.linalg.norm(e1)
        # angle grows such that (zero direction, 90 deg, ray) is a right-handed system
        exp = rotmat(d[i], ang[i]) @ e1
        close(p[i, :3], exp, 'direction of polarization', atol=1e-6, dir=d[i], angle=ang[i])
    # angle zero is the direction closest to +y
    p0 = np.asarray(polarization_vectors(h(d, 0), np.zeros(n)))
    for trial in perp_unit(rng, d)[None]:
        m = np.linalg.norm(d[:, [0, 2]], axis=1) > 1e-3
        ensure(np.all(p0[m, 1] >= trial[m, 1] - 1e-9), 'angle zero is not the direction closest to +y')


@sub('C09', dict(seed=seeds, n=st.integers(1, 30), small=floats(-8, 0), scale=st.booleans()), quick=300, thorough=6000)
def transport(seed, n, small, scale):
    rng = rng_of(seed)
    d1 = rand_unit(rng, n)
    axis = perp_unit(rng, d1)
    ang = rng.uniform(-1, 1, n) * 10**small * 3.1
    ang[rng.random(n) < .2] = 0
    big = rng.random(n) < .2
    ang[big] = rng.uniform(2, 3.1, big.sum())
    Rm = np.array([rotmat(a, w) for a, w in zip(axis, ang)])
    d2 = np.einsum('nij,nj->ni', Rm, d1)
    pol = perp_unit(rng, d1)
    s = rng.uniform(.1, 10, (2, n, 1)) if scale else np.ones((2, n, 1))
    out = parallel_transport(h(d1 * s[0], 0), h(d2 * s[1], 0), h(pol, 0))
    ensure(out.shape == (n, 4), 'shape')
    exp = np.einsum('nij,nj->ni', Rm, pol)
    trivial(np.all(np.abs(ang) < 1e-7))
    # tiny bends (below 1e-7 rad) may be treated as no bend
    close(out[:, :3], exp, 'the vector is not turned with the ray', atol=2e-7)
    close(np.linalg.norm(out, axis=1), np.ones(n), 'length', atol=1e-9)
    close(np.sum(out[:, :3] * d2, axis=1), np.zeros(n), 'perpendicular to the new ray', atol=1e-7)
    close(out[:, 3], np.zeros(n), 'w', atol=0)
    # s component unchanged
    close(np.sum(out[:, :3] * axis, axis=1), np.sum(pol * axis, axis=1), 's component', atol=1e-6)
    # undo
    back = parallel_transport(h(d2, 0), h(d1, 0), out)
    close(back[:, :3], pol, 'undoing the bend restores the vector', atol=1e-6)
    # relative angles are preserved
    pol2 = perp_unit(rng, d1)
    out2 = parallel_transport(h(d1, 0), h(d2, 0), h(pol2, 0))
    close(np.sum(out2 * out, axis=1), np.sum(pol * pol2, axis=1), 'relative angle of two polarizations', atol=1e-7)
    # rotates with the coordinate system
    Q = rand_rot(rng)
    q = parallel_transport(h(d1 @ Q.T, 0), h(d2 @ Q.T, 0), h(pol @ Q.T, 0))
    close(q[:, :3], out[:, :3] @ Q.T, 'transport depends on the coordinate system', atol=2e-7)


@sub('C09', dict(seed=seeds, n=st.integers(1, 12)), quick=150, thorough=3000)
def matrix(seed, n):
    '''Ray tracing matrix with and without Jones matrix.'''
    rng = rng_of(seed)
    d1 = rand_unit(rng, n)
    axis = perp_unit(rng, d1)
    ang = rng.uniform(.01, 3.1, n) * rng.choice([-1, 1], n)
    unchanged = rng.random(n) < .3
    ang[unchanged] = 0
    Rm = np.array([rotmat(a, w) for a, w in zip(axis, ang)])
    d2 = np.einsum('nij,nj->ni', Rm, d1)
    d2[unchanged] = d1[unchanged]
    jones = rng.uniform(-1, 1, (2, 2)) if rng.random() < .5 else np.diag(rng.uniform(0, 1, 2))
    trivial(unchanged.all())
    for replace in (True, False):
        M = paralleltransport_matrix(d1, d2, jones=jones, replace_nans=replace)
        ensure(M.shape == (n, 3, 3), 'one matrix per ray')
        for i in range(n):
            if unchanged[i]:
                if replace:
                    close(M[i], np.eye(3), 'unchanged ray')
                else:
                    ensure(np.isnan(M[i]).any(), 'undefined matrix is marked')
                continue
            s = axis[i] * np.sign(ang[i])
            p_in = np.cross(d1[i], s)
            p_out = np.cross(d2[i], s)
            for v in (s, p_in):
                a = jones @ np.array([v @ s, v @ p_in])
                close(M[i] @ v, a[0] * s + a[1] * p_out, 'Jones matrix acts on s and p components', atol=1e-8)
            close(M[i] @ d1[i], d2[i], 'direction is carried along', atol=1e-8)
        pol = perp_unit(rng, d1)
        o = parallel_transport(h(d1, 0), h(d2, 0), h(pol, 0), jones=jones, replace_nans=replace)
        e = np.einsum('nij,nj->ni', M, pol)
        m = ~np.isnan(e).any(axis=1)
        close(o[m, :3], e[m], 'keyword arguments of parallel_transport', atol=1e-12)
        ensure(np.isnan(o[~m, :3]).any(axis=1).all(), 'undefined rays are marked')


@sub('C09', dict(seed=seeds, n=st.integers(1, 12)), quick=100, thorough=2000)
def reflection_matrix(seed, n):
    '''Reflection on a non-polarizing surface is a mirror operation.'''
    rng = rng_of(seed)
    d1 = rand_unit(rng, n)
    nn = rand_unit(rng, n)
    dot = np.sum(d1 * nn, axis=1)
    bad = np.abs(dot) < 0.01
    nn[bad] = d1[bad]
    dot = np.sum(d1 * nn, axis=1)
    d2 = d1 - 2 * dot[:, None] * nn
    Q = Q_reflection(h(d1 - d2, 0))
    ensure(Q.shape == (n, 4, 4), 'one matrix per ray')
    close(np.einsum('nij,nj->ni', Q, h(d1, 0)), h(d2, 0), 'maps old on new direction', atol=1e-9)
    v = rand_unit(rng, n)
    exp = v - 2 * np.sum(v * nn, axis=1)[:, None] * nn
    close(np.einsum('nij,nj->ni', Q, h(v, 0)), h(exp, 0), 'mirror operation', atol=1e-9)
    close(np.einsum('nij,njk->nik', Q, Q), np.tile(np.eye(4), (n, 1, 1)), 'twice is the identity', atol=1e-9)


@sub('C09', dict(seed=seeds, n=st.integers(1, 20), f=floats(10, 1000)), quick=80, thorough=1500)
def through_elements(seed, n, f):
    '''Elements that bend without polarizing use the minimal rotation.'''
    from vt.instr import KINDS, beam, place_ahead
    rng = rng_of(seed)
    np.random.seed(seed)
    hit = 0
    for k in ('perfectlens', 'thinlens', 'grating', 'cat', 'radialscatter', 'gaussscatter'):
        t = beam(rng, n, 'cone')
        e = KINDS[k].build(rng, place_ahead(rng, t))
        b = t.copy()
        t = e(t)
        d1, d2 = np.asarray(b['dir'])[:, :3], np.asarray(t['dir'])[:, :3]
        s = np.cross(d1, d2)
        ns = np.linalg.norm(s, axis=1)
        m = (ns > 1e-5) & (np.asarray(t['probability']) > 0)
        hit += m.sum()
        for i in np.nonzero(m)[0]:
            R = rotmat(s[i], np.arctan2(ns[i], d1[i] @ d2[i]))
            close(np.asarray(t['polarization'])[i, :3], R @ np.asarray(b['polarization'])[i, :3],
                  f'{k}: polarization is not turned with the ray', atol=1e-6)
    trivial(hit == 0)
