'''C21: equations of the Rowland torus. C23: designs.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import (rng_of, seeds, floats, logfloats, rotations, positions,
                    make_pos4d, rand_unit, h, photon_table, perp_unit)

from marxs.design.rowland import (RowlandTorus, design_tilted_torus,
                                  double_rowland_from_channel_distance,
                                  add_offset_double_rowland_channels,
                                  find_radius_of_photon_shell)

ratios = st.one_of(st.just(1.), logfloats(.05, 5.), logfloats(.002, 10.))


def local(torus, xyz):
    '''global Euclidean -> torus coordinates (rigid placement)'''
    m = torus.pos4d
    return (np.asarray(xyz) - m[:3, 3]) @ m[:3, :3]


def tube(R, r, loc):
    '''signed distances from the two sheets of the torus'''
    rho = np.hypot(loc[:, 0], loc[:, 2])
    return np.hypot(rho - R, loc[:, 1]) - r, np.hypot(rho + R, loc[:, 1]) - r


def build(R, ratio, pos, rot, matrix):
    if matrix:
        return RowlandTorus(R, R * ratio, pos4d=make_pos4d(pos * R, rot, np.ones(3)))
    return RowlandTorus(R, R * ratio, position=pos * R, orientation=rot)


def angles(rng, n):
    t = rng.uniform(-np.pi, 2 * np.pi, n)
    p = rng.uniform(-np.pi, 2 * np.pi, n)
    special = np.arange(-2, 5) * np.pi / 2
    i = rng.uniform(size=n) < .25
    t[i] = rng.choice(special, i.sum())
    i = rng.uniform(size=n) < .25
    p[i] = rng.choice(special, i.sum())
    return t, p


SHAPE = dict(R=logfloats(1, 2e4), ratio=ratios, pos=positions(3.), rot=rotations(),
             matrix=st.booleans(), seed=seeds)


@sub('C21', SHAPE, quick=120, thorough=8000)
def points_from_angles_are_on_the_surface(R, ratio, pos, rot, matrix, seed):
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, matrix)
    r = R * ratio
    t, p = angles(rng, 40)
    xyzw = torus.parametric(t, p)
    ensure(xyzw.shape == (40, 4), 'shape')
    same(xyzw[:, 3], np.ones(40), 'homogeneous coordinates of a point')
    # independent construction: circle of radius r around a centre that runs
    # around the symmetry axis (y) at distance R
    er = np.cos(p)[:, None] * rot[:, 0] + np.sin(p)[:, None] * rot[:, 2]
    centre = pos * R + R * er
    want = centre + r * (np.cos(t)[:, None] * er + np.sin(t)[:, None] * rot[:, 1])
    close(xyzw[:, :3], want, 'position on torus', rtol=0, atol=1e-10 * (R + r))
    q = torus.quartic(xyzw[:, :3])
    close(q / (R + r)**4, np.zeros(40), 'points are roots of the quartic', rtol=0, atol=1e-11)
    # grid form
    g = torus.parametric_surface(t[:5], p[:7], {})
    ensure(g.size == 5 * 7 * 4, 'grid size')
    tt, pp = np.meshgrid(t[:5], p[:7])
    flat = torus.parametric(tt.flatten(), pp.flatten())
    a = g.reshape(-1, 4)
    # any order of the grid points is fine as long as it is a grid
    a = a[np.lexsort(np.round(a.T / R, 7))]
    b = flat[np.lexsort(np.round(flat.T / R, 7))]
    d = np.linalg.norm(a[:, None, :3] - b[None, :, :3], axis=2)
    ensure(np.all(d.min(axis=0) < 1e-9 * (R + r)) and np.all(d.min(axis=1) < 1e-9 * (R + r)),
           'grid of surface points')
    label('self-intersecting torus', ratio > 1)


@sub('C21', SHAPE, quick=120, thorough=8000)
def quartic_equals_product_of_sheets(R, ratio, pos, rot, matrix, seed):
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, matrix)
    r = R * ratio
    loc = rng.uniform(-2, 2, (40, 3)) * (R + r)
    xyz = loc @ rot.T + pos * R
    rho2 = loc[:, 0]**2 + loc[:, 2]**2
    rho = np.sqrt(rho2)
    want = ((rho - R)**2 + loc[:, 1]**2 - r**2) * ((rho + R)**2 + loc[:, 1]**2 - r**2)
    scale = (R + r)**4
    close(torus.quartic(xyz) / scale, want / scale, 'quartic', rtol=1e-8, atol=1e-10)
    close(torus.quartic(loc, transform=False) / scale, want / scale, 'quartic in local coordinates',
          rtol=1e-8, atol=1e-10)
    close(torus.quartic(xyz[3]) / scale, want[3] / scale, 'quartic of one point', rtol=1e-8, atol=1e-10)
    # points clearly off the surface have no parametric representation
    off = np.abs(want) / R**4 > 1e-4
    for i in np.flatnonzero(off)[:3]:
        with raises(ValueError, 'angles of a point that is not on the torus'):
            torus.xyzw2parametric(np.append(xyz[i], 1.)[None, :])
    # points slightly off the surface do not have one either, but all points have to be on the torus
    t, p = angles(rng, 6)
    on = np.asarray(torus.parametric(t, p))
    n = np.asarray(torus.normal_parametric(t, p))
    move = on + n * 10**rng.uniform(-5, -1, 6)[:, None] * R
    l3 = (move[:, :3] - pos * R) @ rot
    rho = np.hypot(l3[:, 0], l3[:, 2])
    q = ((rho - R)**2 + l3[:, 1]**2 - r**2) * ((rho + R)**2 + l3[:, 1]**2 - r**2) / R**4
    for i in np.flatnonzero(np.abs(q) > 1e-6):
        x = on.copy()
        x[i] = move[i]
        with raises(ValueError, 'angles of a point that is slightly off the torus'):
            torus.xyzw2parametric(x)


@sub('C21', SHAPE, quick=150, thorough=10000)
def angles_roundtrip(R, ratio, pos, rot, matrix, seed):
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, matrix)
    r = R * ratio
    t, p = angles(rng, 40)
    xyzw = torus.parametric(t, p)
    t1, p1 = torus.xyzw2parametric(xyzw)
    close(torus.parametric(t1, p1), xyzw, 'angles -> point -> angles -> point', rtol=0,
          atol=1e-7 * (R + r))
    # away from self-intersections the angles are unique
    f = R + r * np.cos(t)
    loc = local(torus, xyzw[:, :3])
    d0, d1 = tube(R, r, loc)
    other = np.where(f > 0, np.abs(d1), np.abs(d0))
    uni = (np.abs(f) > 1e-3 * R) & (other > 1e-3 * R)
    for a, b, n in [(t1, t, 'theta'), (p1, p, 'phi')]:
        d = (a - b + np.pi) % (2 * np.pi) - np.pi
        close(d[uni], np.zeros(uni.sum()), f'roundtrip of {n} modulo 2 pi', rtol=0,
              atol=1e-6 * max(1, 1 / ratio))
    # same in local coordinates
    t2, p2 = torus.xyzw2parametric(h(loc, 1), transform=False)
    close(np.cos(t2 - t1)[uni], np.ones(uni.sum()), 'theta in local coordinates', rtol=0, atol=1e-9)
    close(np.cos(p2 - p1)[uni], np.ones(uni.sum()), 'phi in local coordinates', rtol=0, atol=1e-9)
    label('points on the inner sheet', np.any(f < 0))


@sub('C21', dict(R=logfloats(1, 2e4), ratio=st.one_of(st.just(1.), floats(1., 5)), pos=positions(3.),
                 rot=rotations(), seed=seeds), quick=60, thorough=3000)
def self_intersection(R, ratio, pos, rot, seed):
    '''On the symmetry axis phi is not unique.'''
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, True)
    r = R * ratio
    t0 = np.arccos(-1 / ratio)
    p = rng.uniform(-3, 3, 4)
    t = np.array([t0, -t0, .3, t0])
    t[2] = rng.uniform(-1, 1)
    # exactly on the axis
    loc = h(np.array([[0, r * np.sin(t0), 0], [0, -r * np.sin(t0), 0]]), 1)
    xyzw = torus.parametric(t, p)
    for trans, x in [(True, xyzw), (False, loc)]:
        th, ph = torus.xyzw2parametric(x, transform=trans, intersectvalid=True)
        ensure(np.all(np.isfinite(th)) and np.all(np.isfinite(ph)), 'valid value on the axis')
    th, ph = torus.xyzw2parametric(loc, transform=False, intersectvalid=False)
    ensure(np.all(np.isnan(ph)), 'phi is nan on the axis if requested', phi=ph)
    close(np.cos(th), np.full(2, -1 / ratio), 'theta on the axis', atol=1e-6)
    th, ph = torus.xyzw2parametric(xyzw[2:3], intersectvalid=False)
    close(np.cos(ph - p[2]), np.ones(1), 'phi off the axis', atol=1e-9)


@sub('C21', SHAPE, quick=150, thorough=10000)
def normals(R, ratio, pos, rot, matrix, seed):
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, matrix)
    r = R * ratio
    t, p = angles(rng, 40)
    n = torus.normal_parametric(t, p)
    same(n[:, 3], np.zeros(40), 'homogeneous coordinates of a direction')
    er = np.cos(p)[:, None] * rot[:, 0] + np.sin(p)[:, None] * rot[:, 2]
    ep = -np.sin(p)[:, None] * rot[:, 0] + np.cos(p)[:, None] * rot[:, 2]
    et = -np.sin(t)[:, None] * er + np.cos(t)[:, None] * rot[:, 1]
    close(np.linalg.norm(n[:, :3], axis=1), np.ones(40), 'unit length')
    close(np.sum(n[:, :3] * ep, axis=1), np.zeros(40), 'perpendicular to surface (phi)')
    close(np.sum(n[:, :3] * et, axis=1), np.zeros(40), 'perpendicular to surface (theta)')
    xyzw = torus.parametric(t, p)
    centre = pos * R + R * er
    close(np.sum((xyzw[:, :3] - centre) * n[:, :3], axis=1) / r, np.ones(40), 'points outwards',
          atol=1e-7)
    # unique points only
    f = R + r * np.cos(t)
    d0, d1 = tube(R, r, local(torus, xyzw[:, :3]))
    other = np.where(f > 0, np.abs(d1), np.abs(d0))
    uni = (np.abs(f) > 1e-2 * R) & (other > 1e-2 * R)
    trivial(not uni.any())
    if uni.any():
        close(torus.normal(xyzw[uni])[:, :3], n[uni, :3], 'normal from position', rtol=0,
              atol=1e-5 * max(1, 1 / ratio))


@sub('C21', dict(SHAPE, off=floats(-.2, .2), scale=logfloats(.1, 10), trans=st.booleans()),
     quick=150, thorough=10000)
def line_solutions_are_on_torus_and_line(R, ratio, pos, rot, matrix, seed, off, scale, trans):
    '''Start close to a point of the torus and search along a line.'''
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, matrix)
    r = R * ratio
    found = 0
    for k in range(5):
        t, p = rng.uniform(0, 2 * np.pi, (2, 1))
        P = torus.parametric(t, p)
        n = torus.normal_parametric(t, p)[0, :3]
        v = rand_unit(rng, 1)[0]
        while abs(v @ n) < .3:
            v = rand_unit(rng, 1)[0]
        origin = P[0, :3] - off * min(R, r) * v
        if not trans:
            origin, vv = local(torus, origin), v @ rot
        else:
            vv = v
        try:
            out = torus.solve_quartic(np.append(origin, 1.), np.append(vv * scale, 0.), transform=trans)
        except Exception as e:
            if 'not found' in str(e):
                continue
            raise
        found += 1
        out = np.asarray(out)
        ensure(out.shape == (1, 4) or out.shape == (4,), 'shape', shape=out.shape)
        out = out.reshape(4)
        close(out[3], 1., 'homogeneous coordinate of a point')
        loc = local(torus, out[None, :3]) if trans else out[None, :3]
        d0, d1 = tube(R, r, loc)
        # root finding has a finite precision for multiple roots
        q = torus.quartic(loc, transform=False)[0] / (R + r)**4
        ensure(abs(q) < 1e-7, 'solution is on the torus', quartic=q, d=(d0, d1))
        dist = np.linalg.norm(np.cross(out[:3] - origin, vv))
        ensure(dist < 1e-6 * (R + r), 'solution is on the line', dist=dist)
    label('solutions found', found > 0)
    trivial(found == 0)


@sub('C21', dict(R=logfloats(100, 2e4), ratio=st.one_of(st.just(1.), logfloats(.05, 5.)), pos=positions(3.), rot=rotations(),
                 seed=seeds, frac=floats(.0, .3), bracket=st.booleans(), side=st.sampled_from([-1, 1])), quick=100, thorough=5000)
def radius_angle(R, ratio, pos, rot, seed, frac, bracket, side):
    '''Coordinates for radius and angle next to the optical axis.'''
    rng = rng_of(seed)
    torus = build(R, ratio, pos, rot, True)
    r = R * ratio
    rad = frac * min(r, R)
    ang = rng.uniform(0, 2 * np.pi)
    # either side of the torus, the values of a bracket in any order
    start = [side * (R + r), side * (R + r * .99)][::rng.choice([-1, 1])] if bracket else side * (R + r)
    try:
        out = np.asarray(torus.xyz_from_radiusangle(rad, ang, start)).reshape(3)
    except Exception as e:
        # the guess for the step of the search is made for lines in positive direction
        if side < 0 and 'not found' in str(e):
            return trivial(True)
        raise
    loc = local(torus, out)
    close(loc[1:], [rad * np.cos(ang), rad * np.sin(ang)], 'y, z', rtol=0, atol=1e-9 * R)
    # outermost solution next to the starting point
    x = np.sqrt((R + np.sqrt(r**2 - loc[1]**2))**2 - loc[2]**2)
    if side > 0:
        close(loc[0], x, 'x on the outer rim', rtol=0, atol=1e-5 * (R + r))
    else:
        # the search goes to larger x, so it may end at the inner rim
        d = np.sqrt(r**2 - loc[1]**2)
        inner = (R - d)**2 - loc[2]**2
        sol = [-x] if inner < 0 else [-x, -np.sqrt(inner)]
        if ratio < .5:      # it may even cross the hole of the torus
            sol += [-v for v in sol]
        diff = min(abs(loc[0] - v) for v in sol)
        ensure(diff < 1e-5 * (R + r), 'x is a solution on the side of the starting point',
               got=loc[0], solutions=sol)


@sub('C21', dict(seed=seeds, x=floats(.5, 20), n=st.integers(5, 200),
                 perc=st.one_of(st.none(), st.just([5, 50, 90]))), quick=50, thorough=1500)
def radius_of_photon_shell(seed, x, n, perc):
    rng = rng_of(seed)
    phi = rng.uniform(0, 2 * np.pi, n)
    rad = rng.uniform(10, 40, n)
    L = 100.
    pos = np.stack([np.full(n, L), rad * np.cos(phi), rad * np.sin(phi)], axis=1)
    tgt = np.stack([np.zeros(n), rng.normal(size=n), rng.normal(size=n)], axis=1)
    d = tgt - pos
    p = photon_table(rng, pos, d)
    p['mirror_shell'] = rng.integers(0, 3, n)
    p['mirror_shell'][0] = 1
    p['probability'][0] = .4
    cols, dat = list(p.colnames), p['pos'].data.copy()
    kw = {} if perc is None else {'percentile': perc}
    got = find_radius_of_photon_shell(p, 1, x, **kw)
    q = pos + d * ((x - pos[:, 0]) / d[:, 0])[:, None]
    ind = (p['probability'].data > 0) & (p['mirror_shell'].data == 1)
    want = np.percentile(np.hypot(q[ind, 1], q[ind, 2]), [1, 99] if perc is None else perc)
    close(got, want, 'radius percentiles', rtol=1e-6, atol=1e-6)
    ensure(list(p.colnames) == cols, 'input has no new columns')
    same(p['pos'], dat, 'input unchanged')


# ---------------------------------------------------------------------------
# C23

@sub('C23', dict(f=logfloats(10, 2e4), alpha=floats(-.7, .7), beta=floats(-1., 1.), seed=seeds),
     quick=150, thorough=20000)
def tilted_torus(f, alpha, beta, seed):
    R, r, pos4d = design_tilted_torus(f, alpha, beta)
    ensure(np.asarray(pos4d).shape == (4, 4), 'pos4d')
    m = pos4d[:3, :3]
    close(m @ m.T, np.eye(3), 'rotation')
    close(np.linalg.det(m), 1., 'proper rotation')
    tol = dict(rtol=0, atol=1e-9 * f)
    C = np.array([f / 2, f / 2 * np.tan(alpha), 0])     # centre of the Rowland circle
    G = np.array([f, 0, 0])
    F = np.zeros(3)
    close(r, np.linalg.norm(C - G), 'radius is the distance between grating and centre', **tol)
    close(r, np.linalg.norm(C - F), 'focal point on the Rowland circle', **tol)
    # line from G to C makes angle alpha with the optical axis by construction of C
    ctr = pos4d[:3, 3]
    ax = m[:, 1]
    # Rowland circle at phi=0 has its centre at pos4d @ (R, 0, 0)
    close(ctr + m @ np.array([R, 0, 0]), C, 'centre of Rowland circle', **tol)
    # The hinge: second intersection of the circle with the line through G at angle beta
    u = np.array([-np.cos(beta), np.sin(beta), 0])
    s = 2 * (C - G) @ u
    H = G + s * u
    close(np.linalg.norm(H - C), r, 'oracle: hinge on the circle', **tol)
    # Both focal point and hinge are on the axis of symmetry
    for Q, n in [(F, 'focal point'), (H, 'hinge')]:
        d = (Q - ctr) - ((Q - ctr) @ ax) * ax
        close(np.linalg.norm(d), 0., n + ' is on the symmetry axis', **tol)
    if abs(R) < 1e-6 * f:
        return trivial(True)
    torus = RowlandTorus(R, r, pos4d=pos4d)
    for Q, n in [(F, 'focal point'), (G, 'grating'), (H, 'hinge')]:
        close(torus.quartic(Q) / (abs(R) + r)**4, 0., n + ' is on the torus', atol=1e-11)
    # mirror symmetry
    R2, r2, p2 = design_tilted_torus(f, -alpha, -beta)
    close([R2, r2], [R, r], 'mirrored radii')
    close(p2[:3, 3], ctr * [1, -1, 1], 'mirrored torus', **tol)
    S = np.diag([1., -1, 1])
    close(p2[:3, :3], S @ m @ S, 'mirrored orientation')
    # all lengths scale with f
    R3, r3, p3 = design_tilted_torus(2 * f, alpha, beta)
    close([R3, r3], [2 * R, 2 * r], 'radii scale with f')
    close(p3[:3, 3], 2 * ctr, 'position scales with f', **tol)


def on_circle(torus, Q):
    '''distance from Rowland circle at phi=0 in units of r'''
    c = (torus.pos4d @ np.array([torus.R, 0, 0, 1]))[:3]
    return np.linalg.norm(np.asarray(Q)[:3] - c) / torus.r - 1


@sub('C23', dict(d=logfloats(.1, 2e3), R=logfloats(100, 2e4), f=logfloats(1e3, 2e4), seed=seeds),
     quick=100, thorough=10000)
def double_torus(d, R, f, seed):
    rng = rng_of(seed)
    g = double_rowland_from_channel_distance(d, R, f)
    close([g['d_BF'], g['d'], g['f']], [d, d / 2, f], 'stored parameters')
    t, tm, det = g['rowland_central'], g['rowland_central_m'], g['rowland_detector']
    for x in (t, tm, det):
        close([x.R, x.r], [R, .5 * np.hypot(f, d)], 'radii')
        close(x.pos4d[:3, :3] @ x.pos4d[:3, :3].T, np.eye(3), 'rotation')
    # Rowland circle of the channel holds focal points and gratings of both channels
    for y in (0, d):
        for x in (0, f):
            Q = np.array([x, y, 0.])
            close(on_circle(t, Q), 0., 'point on Rowland circle', atol=1e-9, Q=Q)
            close(on_circle(tm, Q * [1, -1, 1]), 0., 'point on mirrored circle', atol=1e-9, Q=Q)
            for tor, S in [(t, [1, 1, 1]), (tm, [1, -1, 1])]:
                close(tor.quartic(Q * S) / (tor.R + tor.r)**4, 0., 'point on torus', atol=1e-10)
            Qd = Q - [0, d / 2, 0]
            close(on_circle(det, Qd), 0., 'point on circle for the detector', atol=1e-9)
    # in the plane z=0 and mirror images
    xyz = rng.uniform(-1, 1, (20, 3)) * (R + t.r) * 2
    q = t.quartic(xyz) / (R + t.r)**4
    close(tm.quartic(xyz * [1, -1, 1]) / (R + t.r)**4, q, 'mirrored torus', rtol=1e-8, atol=1e-10)
    close(t.quartic(xyz * [1, 1, -1]) / (R + t.r)**4, q, 'symmetric in z', rtol=1e-8, atol=1e-10)
    close(det.quartic(xyz - [0, d / 2, 0]) / (R + t.r)**4, q, 'shifted torus for the detector',
          rtol=1e-8, atol=1e-10)
    # the detector torus serves both channels
    # optical axes
    close(g['pos_opt_ax']['1'], [0, -d / 2, 0, 1], 'optical axis')
    close(g['pos_opt_ax']['1m'], [0, d / 2, 0, 1], 'optical axis (mirrored)')
    close(g['shift_det_rowland'] @ t.pos4d, det.pos4d, 'shift matrix')
    close(np.append(g['pos_det_rowland'], 0)[:4], [0, -d / 2, 0, 1], 'detector position')


CH = [str(i) for i in range(1, 6)]


@sub('C23', dict(d=logfloats(.1, 2e3), R=logfloats(100, 2e4), f=logfloats(1e3, 2e4), seed=seeds,
                 default=st.booleans(),
                 channels=st.lists(st.sampled_from(CH + [c + 'm' for c in CH]), min_size=1,
                                   max_size=6, unique=True)), quick=80, thorough=6000)
def channel_offsets(d, R, f, seed, default, channels):
    rng = rng_of(seed)
    g = double_rowland_from_channel_distance(d, R, f)
    before = {k: np.array(g[k].pos4d) for k in ['rowland_central', 'rowland_central_m', 'rowland_detector']}
    if default:
        off = {'1': [0, -2.5, -7.5], '1m': [0, -2.5, -2.5], '2': [0, 2.5, 2.5], '2m': [0, 2.5, 7.5]}
        add_offset_double_rowland_channels(g)
    else:
        off = {c: list(rng.uniform(-20, 20, 3)) for c in channels}
        inp = {c: list(v) for c, v in off.items()}
        add_offset_double_rowland_channels(g, inp)
        ensure(inp == off, 'offsets are not modified')
    ensure(set(g['pos_opt_ax']) == set(off), 'channels', got=sorted(g['pos_opt_ax']))
    xyz = rng.uniform(-1, 1, (10, 3)) * (R + g['rowland_central'].r) * 2
    for c, v in off.items():
        mirrored = 'm' in c
        ax = np.array([0, d / 2 if mirrored else -d / 2, 0]) + v
        close(g['pos_opt_ax'][c], np.append(ax, 1), f'optical axis of channel {c}')
        base = g['rowland_central_m' if mirrored else 'rowland_central']
        tor = g['rowland_' + c]
        scale = (tor.R + tor.r)**4
        close([tor.R, tor.r], [base.R, base.r], 'radii')
        close(tor.quartic(xyz + ax) / scale, base.quartic(xyz) / scale, f'torus of channel {c}',
              rtol=1e-8, atol=1e-10)
        # focal point and on-axis grating of that channel are on its Rowland circle
        close(on_circle(tor, ax), 0., 'focal point', atol=1e-9)
        close(on_circle(tor, ax + [f, 0, 0]), 0., 'on-axis grating', atol=1e-9)
    for k, v in before.items():
        same(g[k].pos4d, v, f'{k} is not moved')
