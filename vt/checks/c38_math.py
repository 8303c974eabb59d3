'''C38: coordinate and line mathematics.'''
import itertools

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table

from vt.core import sub, ensure, close, same, raises, trivial, label
from vt.gen import rng_of, seeds, rand_unit, rand_rot, rotmat, perp_unit

from marxs.math import pluecker, utils, rotations
from marxs.utils import generate_test_photons, tablerows_to_2d, DataFileFormatException


def shape_of(rng):
    return tuple(int(i) for i in rng.integers(1, 5, size=rng.integers(0, 4)))


def vecs(rng, shape, n=3):
    v = rng.normal(size=shape + (n,)) * 10.**rng.integers(-6, 7)
    z = rng.random(v.shape) < 0.1
    v[z] = 0.
    return v


@sub('C38', {'seed': seeds, 'w': st.sampled_from([0, 1, 0., 1., False, True])}, quick=200, thorough=6000)
def euclidean_homogeneous_round_trip(seed, w):
    rng = rng_of(seed)
    shape = shape_of(rng)
    e = vecs(rng, shape)
    keep = e.copy()
    hh = utils.e2h(e, w)
    ensure(hh.shape == shape + (4,), 'shape of homogeneous coordinates', got=hh.shape)
    same(hh[..., :3], keep, 'e2h: coordinates')
    same(hh[..., 3], np.full(shape, float(w)), 'e2h: w')
    same(utils.h2e(hh), keep, 'h2e(e2h(e)) is not e')
    same(e, keep, 'e2h changed its input')
    # one at a time
    for idx in itertools.islice(itertools.product(*[range(s) for s in shape]), 8):
        same(utils.e2h(e[idx], w), hh[idx], 'e2h one at a time')
        same(utils.h2e(hh[idx]), e[idx], 'h2e one at a time')
    if not w:
        # a direction stays the direction it is when scaled
        return
    # a point is the same point when its homogeneous coordinates are scaled
    lam = rng.uniform(0.1, 5, shape) * rng.choice([-1, 1], size=shape)
    if np.any(np.abs(lam - 1) < 1e-2):
        lam = lam + 7
    scaled = hh * np.asarray(lam)[..., None]
    keep2 = scaled.copy()
    close(utils.h2e(scaled), keep, 'scaled homogeneous coordinates are not the same point',
          rtol=1e-12, atol=0)
    same(scaled, keep2, 'h2e changed its input')


@sub('C38', {'seed': seeds, 'w': st.one_of(st.floats(allow_nan=True), st.integers(-3, 3)), 'n': st.integers(1, 9)},
     quick=100, thorough=2000)
def only_points_or_directions(seed, w, n):
    rng = rng_of(seed)
    e = vecs(rng, (n,))
    if not (w == 0 or w == 1):
        with raises(ValueError, f'e2h accepts w={w}'):
            utils.e2h(e, w)
    else:
        utils.e2h(e, w)
    # mixture of points and directions
    hh = np.hstack([e, np.ones((n, 1))])
    k = int(rng.integers(0, n + 1))
    hh[rng.permutation(n)[:k], 3] = 0.
    if rng.random() < 0.5:
        hh[hh[:, 3] == 1, 3] = rng.uniform(.2, 3)
    if 0 < k < n:
        with raises(ValueError, 'h2e accepts a mixture of points and directions'):
            utils.h2e(hh)
    else:
        utils.h2e(hh)


@sub('C38', {'seed': seeds, 'mode': st.sampled_from(['1-1', 'n-n', '1-n', 'n-1'])}, quick=100, thorough=3000)
def distances(seed, mode):
    rng = rng_of(seed)
    n = int(rng.integers(1, 8))
    a, b = vecs(rng, (n,)), vecs(rng, (n,))
    la, lb = rng.uniform(1.2, 5, (2, n)) * rng.choice([1, -1], size=(2, n))
    if rng.random() < .5:
        la[:] = 1
        lb[:] = 1
    ha = np.hstack([a, np.ones((n, 1))]) * la[:, None]
    hb = np.hstack([b, np.ones((n, 1))]) * lb[:, None]
    if mode[0] == '1':
        ha, a = ha[0], a[0]
    if mode[2] == '1':
        hb, b = hb[0], b[0]
    d = utils.distance_point_point(ha, hb)
    exp = np.sqrt(np.sum((a - b)**2, axis=-1))
    sc = np.max(np.abs(a)) + np.max(np.abs(b))
    close(d, exp, f'distance {mode}', rtol=1e-9, atol=1e-12 * sc)
    close(utils.distance_point_point(hb, ha), exp, f'distance {mode} reversed', rtol=1e-9, atol=1e-12 * sc)


@sub('C38', {'seed': seeds, 'n': st.integers(0, 5)}, quick=150, thorough=3000)
def affine_matrices(seed, n):
    rng = rng_of(seed)
    v, z, m = vecs(rng, ()), np.exp(rng.normal(size=3)), rng.normal(size=(3, 3))
    if rng.random() < .3:
        v = v.tolist()
        z = z.tolist()
    p = rng.normal(size=3)
    hp, hd = np.append(p, 1.), np.append(p, 0.)
    T = utils.translation2aff(v)
    Z = utils.zoom2aff(z)
    S = float(rng.uniform(-3, 3))
    Z1 = utils.zoom2aff(S)
    M = utils.mat2aff(m)
    close(T @ hp, np.append(p + np.asarray(v), 1.), 'translation of a point', rtol=1e-12, atol=0)
    same(T @ hd, hd, 'translation of a direction')
    close(Z @ hp, np.append(p * np.asarray(z), 1.), 'zoom of a point', rtol=1e-12, atol=0)
    close(Z @ hd, np.append(p * np.asarray(z), 0.), 'zoom of a direction', rtol=1e-12, atol=0)
    close(Z1 @ hp, np.append(p * S, 1.), 'scalar zoom of a point', rtol=1e-12, atol=0)
    close(M @ hp, np.append(m @ p, 1.), 'matrix of a point', rtol=1e-9, atol=1e-12)
    close(M @ hd, np.append(m @ p, 0.), 'matrix of a direction', rtol=1e-9, atol=1e-12)
    # the flip of axes is a proper rotation: x -> z, y -> x, z -> y
    f = utils.xyz2zxy
    same(f @ np.array([1., 2, 3, 1]), np.array([2., 3, 1, 1]), 'xyz2zxy')
    if n != 3:
        with raises(ValueError, f'translation by {n} numbers is accepted'):
            utils.translation2aff(np.ones(n))
        with raises(ValueError, f'zoom by {n} numbers is accepted'):
            utils.zoom2aff(np.ones(n))


@sub('C38', {'seed': seeds, 'd': st.sampled_from([3, 4])}, quick=80, thorough=2000)
def normalising(seed, d):
    rng = rng_of(seed)
    n = int(rng.integers(1, 9))
    v = rng.normal(size=(n, d)) * 10.**rng.integers(-8, 9, size=(n, 1))
    if d == 4:
        v[:, 3] = 0
    keep = v.copy()
    x = utils.norm_vector(v)
    close(np.linalg.norm(x, axis=1), np.ones(n), 'norm', rtol=1e-12)
    nv = np.linalg.norm(v, axis=1)[:, None]
    close(x * nv, v, 'direction of normalised vectors', rtol=1e-12, atol=0)
    same(v, keep, 'input was changed')
    for i in range(n):
        close(utils.norm_vector(v[i:i + 1])[0], x[i], 'one at a time', rtol=1e-14, atol=1e-15)


def proper(rot, msg):
    close(rot @ rot.T, np.eye(3), msg + ' is not orthogonal', atol=1e-9)
    close(np.linalg.det(rot), 1., msg + ' is not proper', atol=1e-9)


@sub('C38', {'seed': seeds, 'kind': st.sampled_from(['any', 'axes', 'close', 'anti', 'parallel'])},
     quick=250, thorough=8000)
def rotation_from_two_vectors(seed, kind):
    rng = rng_of(seed)
    a = rand_unit(rng, 1)[0]
    b = rand_unit(rng, 1)[0]
    if kind == 'axes':
        i, j = rng.choice(3, size=2, replace=False)
        a, b = np.eye(3)[i] * rng.choice([-1, 1]), np.eye(3)[j] * rng.choice([-1, 1])
    elif kind in ('close', 'anti'):
        b = (a + 10**rng.uniform(-3, -.5) * perp_unit(rng, a[None])[0]) * (1 if kind == 'close' else -1)
    elif kind == 'parallel':
        b = a * rng.choice([-1, 1])
    b = b / np.linalg.norm(b)
    sa, sb = 10.**rng.uniform(-5, 5, 2)
    if kind == 'parallel':
        with raises(ValueError, 'parallel vectors do not fix a rotation'):
            rotations.ex2vec_fix(a * sa, b * sb)
        return
    if np.linalg.norm(np.cross(a, b)) < 1e-4:
        trivial()
        return
    ka, kb = a * sa, b * sb
    a0, b0 = ka.copy(), kb.copy()
    r = rotations.ex2vec_fix(ka, kb)
    same(ka, a0, 'input 1 was changed')
    same(kb, b0, 'input 2 was changed')
    eps = 1e-12 / np.linalg.norm(np.cross(a, b))
    proper(r, 'rotation')
    close(r @ [1., 0, 0], a, 'the x-axis is not rotated to e1', atol=1e-9)
    close(np.dot(r @ [0, 0, 1.], b), 0., 'y-axis, e1 and efix are not in a plane', atol=1e-9 + eps)
    ensure(np.dot(r @ [0, 1., 0], b) > 0, 'the rotated y-axis is on the other side from efix')
    exp = b - np.dot(a, b) * a
    close(r[:, 1], exp / np.linalg.norm(exp), 'rotated y-axis', atol=1e-9 + 10 * eps)
    label(kind)


@sub('C38', {'seed': seeds, 'n': st.integers(1, 9), 'norm': st.booleans()}, quick=150, thorough=5000)
def rotation_from_axis_and_angle(seed, n, norm):
    rng = rng_of(seed)
    ax = rand_unit(rng, n)
    k = rng.random(n) < 0.2
    ax[k] = np.eye(3)[rng.integers(3, size=k.sum())] * rng.choice([-1, 1], size=(k.sum(), 1))
    ang = rng.choice([0., np.pi, -np.pi, np.pi / 2, 1e-8, 7.], size=n)
    k = rng.random(n) < 0.6
    ang[k] = rng.uniform(-4, 4, k.sum())
    inp = ax if norm else ax * 10.**rng.uniform(-4, 4, (n, 1))
    if not norm and rng.random() < .4:     # almost normalized
        inp = ax * (1 + 10.**rng.uniform(-7, -1) * rng.uniform(-1, 1, (n, 1)))
    keep = inp.copy()
    m = rotations.axangle2mat(inp, ang, is_normalized=norm)
    same(inp, keep, 'axes were changed')
    ensure(m.shape == (n, 3, 3), 'shape', got=m.shape)
    x = rand_unit(rng, n)
    for i in range(n):
        close(m[i], rotmat(ax[i], ang[i]), 'rotation matrix', atol=1e-9)
        proper(m[i], 'rotation')
        close(m[i] @ ax[i], ax[i], 'the axis moves', atol=1e-9)
        # sense: right handed
        p = perp_unit(rng, ax[i][None])[0]
        q = m[i] @ p
        close(np.dot(q, p), np.cos(ang[i]), 'angle of rotation', atol=1e-9)
        close(np.dot(np.cross(p, q), ax[i]), np.sin(ang[i]), 'sense of rotation', atol=1e-9)
        one = rotations.axangle2mat(inp[i:i + 1], ang[i:i + 1], is_normalized=norm)[0]
        close(one, m[i], 'one at a time', atol=1e-12)
    back = rotations.axangle2mat(inp, -ang, is_normalized=norm)
    close(back @ m, np.tile(np.eye(3), (n, 1, 1)), 'rotating back', atol=1e-9)
    with raises(ValueError, 'wrong number of angles is accepted'):
        rotations.axangle2mat(inp, np.ones(n + int(rng.integers(1, 3))))


twopi = 2 * np.pi


@sub('C38', {'k': st.integers(-3, 3), 'seed': seeds, 'edge': st.sampled_from([None, None, None, 'b1', 'b2'])}, quick=400, thorough=12000)
def angle_intervals_are_cyclic(k, seed, edge):
    rng = rng_of(seed)
    a, b1, b2 = rng.uniform(-30, 30), *rng.uniform(-15, 15, 2)
    if rng.random() < 0.3:
        b1 = rng.choice([0., np.pi, -np.pi, twopi, np.pi / 2, 6, -0.])
    if rng.random() < 0.3:
        b2 = rng.choice([0., np.pi, -np.pi, twopi, np.pi / 2, 6, -0.])
    if rng.random() < 0.3:
        a = rng.choice([0., np.pi, -np.pi, twopi, np.pi / 2, 6, -0.])
    if edge:
        ensure(bool(utils.angle_between({'b1': b1, 'b2': b2}[edge], b1, b2)), f'the border {edge} is not included',
               b1=b1, b2=b2)
        n = 12
        aa = rng.uniform(-20, 20, n)
        aa[0] = b1
        got = utils.angle_between(aa, b1, b2)
        ensure(np.shape(got) == (n,), 'shape')
        for i in range(n):
            ensure(bool(got[i]) == bool(utils.angle_between(aa[i], b1, b2)), 'one at a time', a=aa[i], b1=b1, b2=b2)
        return
    # reference: go counter clockwise from border 1
    width = np.mod(b2 - b1, twopi)
    off = np.mod(a - b1, twopi)
    near = min(width, twopi - width, off, twopi - off, abs(off - width)) < 1e-7
    if near:
        trivial()
        return
    exp = off < width
    m = 'angle_between'
    ensure(bool(utils.angle_between(a, b1, b2)) == exp, m, a=a, b1=b1, b2=b2, expected=exp)
    s = k * twopi
    ensure(bool(utils.angle_between(a + s, b1, b2)) == exp, m + ' is not cyclic in the angle', k=k)
    ensure(bool(utils.angle_between(a, b1 + s, b2)) == exp, m + ' is not cyclic in border 1', k=k)
    ensure(bool(utils.angle_between(a, b1, b2 + s)) == exp, m + ' is not cyclic in border 2', k=k)
    ensure(bool(utils.angle_between(a, b2, b1)) != exp, m + ': the complement does not have the rest', a=a, b1=b1, b2=b2)
    label('inside' if exp else 'outside')


@sub('C38', {'b1': st.floats(-15, 15), 'd': st.one_of(st.floats(0, twopi - 1e-6), st.floats(-12, 12),
                                                     st.sampled_from([0., twopi])), 'k': st.integers(-2, 2)},
     quick=300, thorough=6000)
def angle_differences_are_cyclic(b1, d, k):
    got = utils.anglediff([b1, b1 + d])
    ensure(0 <= got <= twopi, 'angle difference is not in 0..2 pi', got=got)
    if abs(d - twopi) < 1e-13:
        # rounding of b1 + d - b1 stays well below 1e-12
        close(got, twopi, 'the full circle', rtol=0, atol=0)
        return
    r = np.mod(d, twopi)
    if abs(d) < 1e-9 or min(r, twopi - r) < 1e-7 or abs(d - twopi) < 1e-7:
        if d == 0:
            ensure(got == 0, 'empty range', got=got)
        trivial(d != 0)
        return
    close(got, r, 'angle difference', rtol=0, atol=1e-9)
    close(utils.anglediff([b1, b1 + d + k * twopi]), r, 'angle difference is not cyclic', rtol=0, atol=1e-9)
    # the two parts of a circle add up
    close(got + utils.anglediff([b1 + d, b1]), twopi, 'the two parts of a circle', rtol=0, atol=1e-9)


def dist_to_line(q, p, d):
    d = d / np.linalg.norm(d, axis=-1, keepdims=True)
    v = q - p
    return np.linalg.norm(v - np.sum(v * d, axis=-1, keepdims=True) * d, axis=-1)


@sub('C38', {'seed': seeds, 'n': st.integers(1, 9), 'scale': st.sampled_from([1e-3, 1., 100., 1e5])},
     quick=200, thorough=6000)
def lines_and_planes_are_incident(seed, n, scale):
    rng = rng_of(seed)
    p1 = rng.normal(size=(n, 3)) * scale
    d = rand_unit(rng, n)
    L = rng.uniform(.2, 3, (n, 1)) * scale
    p2 = p1 + L * d
    a = pluecker.e_pointpoint2line(p1, p2)
    b = pluecker.dir_point2line(d, p1)
    b2 = pluecker.dir_point2line(d, p2)
    ensure(a.shape == b.shape == (n, 6), 'shape of lines')
    same(b[:, :3], d, 'direction of a line')
    close(a[:, :3], p2 - p1, 'direction of a line through two points', rtol=1e-12, atol=0)
    # U . V = 0; the same line from any of its points; proportional coordinates for the same line
    close(np.sum(b[:, :3] * b[:, 3:], axis=1), np.zeros(n), 'U.V', atol=1e-9 * scale)
    close(b, b2, 'the line depends on the point on the line', atol=1e-9 * scale)
    close(a / L, b, 'the two ways to make a line differ', atol=1e-9 * scale)
    for i in range(n):
        same(pluecker.dir_point2line(d[i], p1[i]), b[i], 'one at a time (dir)')
        same(pluecker.e_pointpoint2line(p1[i], p2[i]), a[i], 'one at a time (points)')
    # plane through a point with a normal
    q = rng.normal(size=3) * scale
    nrm = rand_unit(rng, 1)[0]
    ln = 10.**rng.uniform(-3, 3)
    w = rng.choice([1., rng.uniform(.3, 4), -2.])
    plane = pluecker.point_dir2plane(np.append(q * w, w), np.append(nrm * ln, 0.))
    close(np.linalg.norm(plane[:3]), 1., 'normal of the plane is not normalised')
    close(np.cross(plane[:3], nrm), np.zeros(3), 'normal of the plane', atol=1e-9)
    close(plane @ np.append(q, 1), 0., 'point is not in the plane', atol=1e-9 * scale)
    e1 = perp_unit(rng, nrm[None])[0]
    close(plane @ np.append(q + 3 * scale * e1, 1), 0., 'point in the plane', atol=1e-8 * scale)
    close(abs(plane @ np.append(q + 2 * scale * nrm, 1)), 2 * scale, 'distance from the plane', rtol=1e-6)
    # intersection
    cosi = d @ nrm
    ok = np.abs(cosi) > 1e-3
    x = pluecker.intersect_line_plane(b, plane)
    ensure(x.shape == (n, 4), 'shape of the intersection', got=x.shape)
    e = x[ok, :3] / x[ok, 3:]
    tol = 1e-7 * scale / 1e-3
    exp = p1 + ((q - p1) @ nrm / np.where(ok, cosi, 1))[:, None] * d
    close(e, exp[ok], 'intersection of lines and plane', rtol=1e-7, atol=tol)
    ensure(np.all(dist_to_line(e, p1[ok], d[ok]) <= tol + 1e-7 * np.linalg.norm(e, axis=1)), 'intersection is not on the line')
    for i in range(n):
        close(pluecker.intersect_line_plane(b[i], plane), x[i], 'one at a time', rtol=1e-12, atol=1e-12 * scale)
        same(pluecker.intersect_line_plane(b, plane), x, 'repeated')
    # scaling the plane or the line does not change the point
    s = rng.choice([-1, 1]) * rng.uniform(.2, 5)
    x2 = pluecker.intersect_line_plane(b * 2.5, plane * s)
    close(x2[ok, :3] / x2[ok, 3:], e, 'scaled coordinates', rtol=1e-7, atol=tol)
    trivial(not ok.any())


@sub('C38', {'seed': seeds, 'inside': st.booleans()}, quick=80, thorough=2000)
def parallel_lines_meet_at_infinity(seed, inside):
    rng = rng_of(seed)
    # small integers, so that everything is exact
    nrm = np.eye(3)[rng.integers(3)]
    d = rng.integers(-4, 5, 3) * (1. - nrm)
    if not d.any():
        d = np.roll(nrm, 1)
    q = rng.integers(-9, 10, 3).astype(float)
    p = rng.integers(-9, 10, 3).astype(float)
    p = p * (1 - nrm) + (q * nrm if inside else (q + rng.choice([-2, 1, 3])) * nrm)
    plane = pluecker.point_dir2plane(np.append(q, 1.), np.append(nrm, 0.))
    x = pluecker.intersect_line_plane(pluecker.dir_point2line(d, p), plane)
    same(x[3], 0., 'a parallel line meets the plane at infinity')
    if inside:
        close(x, np.zeros(4), 'a line in the plane has no single intersection', atol=0)
    else:
        ensure(np.linalg.norm(x[:3]) > 0, 'a parallel line outside the plane is not in the plane')
        close(np.cross(x[:3], d), np.zeros(3), 'direction of the point at infinity', atol=1e-12)


@sub('C38', {'seed': seeds, 'n': st.integers(1, 6), 'exact': st.booleans()}, quick=100, thorough=2000)
def angles_between_lines_and_normals(seed, n, exact):
    rng = rng_of(seed)
    nrm = rand_unit(rng, 1)[0]
    ang = rng.uniform(0, np.pi, n)
    if exact:
        ang[:] = rng.choice([0, np.pi], size=n)
    e = perp_unit(rng, np.tile(nrm, (n, 1)))
    d = np.cos(ang)[:, None] * nrm + np.sin(ang)[:, None] * e
    if exact:
        d = np.where(ang[:, None] > 1, -nrm, nrm)
    d = d * rng.uniform(.1, 10, (n, 1))
    lines = pluecker.dir_point2line(d, rng.normal(size=(n, 3)) * 10)
    plane = pluecker.point_dir2plane(np.append(rng.normal(size=3), 1), np.append(nrm, 0))
    for i in range(n):
        got = pluecker.angle_line_plane(lines[i], plane)
        close(got, ang[i], 'angle between a line and the normal of a plane', atol=1e-6)
    close(pluecker.angle_line_plane(lines, plane), ang, 'angles between lines and the normal of a plane', atol=1e-6)


@sub('C38', {'n': st.integers(0, 30)}, quick=20, thorough=31)
def test_photons_are_the_documented_ones(n):
    p = generate_test_photons(n)
    ensure(len(p) == n, 'number')
    exp = {'pos': [1., 0, 0, 1], 'dir': [-1., 0, 0, 0], 'polarization': [0., 1, 0, 0], 'energy': 1., 'probability': 1.}
    for k, v in exp.items():
        same(np.asarray(p[k]), np.tile(np.asarray(v), (n, 1)) if np.ndim(v) else np.full(n, v), k)
    ensure(p['energy'].unit == u.keV, 'unit of the energy')
    p2 = generate_test_photons(n)
    if n:
        p['pos'][0] = 7
        close(p2['pos'][0], [1., 0, 0, 1], 'tables share data')


@sub('C38', {'seed': seeds, 'nx': st.integers(1, 6), 'ny': st.integers(1, 6), 'nd': st.integers(0, 3),
             'what': st.sampled_from(['ok', 'ok', 'missing', 'swap', 'swapinner', 'transposed', 'value'])}, quick=200, thorough=4000)
def flat_tables_become_grids(seed, nx, ny, nd, what):
    rng = rng_of(seed)
    x = rng.permutation(50)[:nx] * rng.choice([1., .01, 1e3])
    y = rng.permutation(50)[:ny] * rng.choice([1., .01, 1e3])
    if rng.random() < .7:
        x, y = np.sort(x), np.sort(y)
    X, Y = np.meshgrid(x, y, indexing='ij')
    data = rng.normal(size=(nd, nx, ny))
    t = Table([X.ravel(), Y.ravel()] + [d.ravel() for d in data],
              names=['en', 'ang'] + [f'c{i}' for i in range(nd)])
    t['en'].unit = u.keV
    if what == 'ok':
        gx, gy, gd = tablerows_to_2d(t)
        same(np.asarray(gx), x, 'x of the grid')
        same(np.asarray(gy), y, 'y of the grid')
        ensure(gx.unit == u.keV, 'unit of x')
        ensure(len(gd) == nd, 'number of data columns')
        for i in range(nd):
            same(gd[i], data[i], f'data column {i}')
        return
    if what == 'missing':
        if nx * ny < 4 or min(nx, ny) < 2:
            trivial()
            return
        t.remove_row(int(rng.integers(len(t))))
    elif what == 'swap':
        i, j = rng.integers(len(t), size=2)
        if i == j or nx == 1 or ny == 1:
            trivial()
            return
        for c in ['en', 'ang']:
            t[c][[i, j]] = t[c][[j, i]]
    elif what == 'swapinner':      # one row (or column) of the grid is in a different order
        if nx == 1 or ny == 1:
            trivial()
            return
        k = np.arange(nx * ny).reshape(nx, ny)
        if rng.random() < .5:
            k = k[int(rng.integers(nx))]
            i, j = rng.choice(k, 2, replace=False)
            t['ang'][[i, j]] = t['ang'][[j, i]]
        else:
            k = k[:, int(rng.integers(ny))]
            i, j = rng.choice(k, 2, replace=False)
            t['en'][[i, j]] = t['en'][[j, i]]
    elif what == 'transposed':
        if nx == 1 or ny == 1:
            trivial()
            return
        t = t[np.arange(nx * ny).reshape(nx, ny).T.ravel()]
    elif what == 'value':
        if nx * ny < 4 or min(nx, ny) < 2:
            trivial()
            return
        c = ['en', 'ang'][int(rng.integers(2))]
        t[c][int(rng.integers(len(t)))] = 12345.6
    with raises(DataFileFormatException, f'a table that is no sorted grid ({what}) is accepted'):
        tablerows_to_2d(t)
    label(what)
