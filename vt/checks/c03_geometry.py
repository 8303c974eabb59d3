'''C03, C04: ray - surface intersections against an independent oracle.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import (placements, place_kwargs, make_pos4d, rng_of, seeds, h, aimed_rays,
                    rand_unit, floats, rotmat, logfloats)

from marxs.math.geometry import FinitePlane, Cylinder, RectangleHole, CircularHole
from marxs import optics
from marxs.design.rowland import RowlandTorus


def plane_oracle(place, pos, d):
    '''k, point, local y, z, and distance to being borderline (relative).'''
    c, R, z = place
    pl = (pos - c) @ R          # local, not zoomed
    dl = d @ R
    with np.errstate(all='ignore'):
        k = -pl[:, 0] / dl[:, 0]
    pt = pos + k[:, None] * d
    loc = pl[:, 1:] + k[:, None] * dl[:, 1:]
    scale = 1 + np.abs(pos).max() + np.abs(c).max() + z.max()
    # rounding error of the intersection point
    with np.errstate(all='ignore'):
        err = 1e-11 * scale / np.abs(dl[:, 0])
        margin = np.minimum(np.abs(np.abs(loc[:, 0]) - z[1]), np.abs(np.abs(loc[:, 1]) - z[2]))
        clear = (margin > err) & (np.abs(k) > 1e-11 * scale / np.abs(dl[:, 0]))
    hit = (k >= 0) & (np.abs(loc[:, 0]) <= z[1]) & (np.abs(loc[:, 1]) <= z[2])
    return k, pt, loc, hit & np.isfinite(k), clear, scale


def flat_geometries(kind, place, as_matrix):
    kw = place_kwargs(place, as_matrix)
    if kind == 0:
        return FinitePlane(kw)
    if kind == 1:
        return optics.Baffle(**kw).geometry
    if kind == 2:
        return RectangleHole(kw)
    if kind == 3:
        return optics.FlatGrating(d=0.001, order_selector=optics.OrderSelector([0]), **kw).geometry
    return optics.EnergyFilter(filterfunc=lambda e: 0.5, **kw).geometry


@sub('C03', dict(place=placements(), seed=seeds, n=st.integers(1, 60), as_matrix=st.booleans(),
                 kind=st.integers(0, 4), scale=st.sampled_from([1., 1., 0.1, 7.])),
     quick=200, thorough=6000)
def plane_intersection(place, seed, n, as_matrix, kind, scale):
    rng = rng_of(seed)
    pos, d, target = aimed_rays(rng, n, place, dist=(-100., 300.), near=.2)
    g = flat_geometries(kind, place, as_matrix)
    k, pt, loc, hit, clear, sc = plane_oracle(place, pos, d)
    inter, ip, il = g.intersect(h(d, 0) * scale, h(pos, 1))
    ensure(inter.shape == (n,) and inter.dtype == bool, 'one boolean per ray')
    ensure(np.all(inter[clear] == hit[clear]), 'hit or miss decided wrongly',
           got=inter[clear], expected=hit[clear])
    m = inter & clear
    trivial(not m.any())
    label('mixed', m.any() and (~inter).any())
    obl = np.abs(d @ place[1][:, 0])
    tol = 1e-9 * sc / obl.min()
    close(ip[m, :3], pt[m], 'intersection point', atol=tol)
    close(ip[m, 3], np.ones(m.sum()), 'w of point', atol=1e-12)
    close(il[m], loc[m], 'local coordinates', atol=tol)
    ensure(np.all(np.isnan(ip[~inter, :3])), 'no point may be reported for a miss')
    ensure(np.all(np.isnan(il[~inter])), 'no local coordinates may be reported for a miss')
    # point on the ray, in forward direction
    s = np.sum((ip[m, :3] - pos[m]) * d[m], axis=1)
    ensure(np.all(s >= -tol), 'point is behind the photon')
    # rebuild 3d from local
    close(place[0] + il[m, :1] * place[1][:, 1] + il[m, 1:] * place[1][:, 2], ip[m, :3],
          'local coordinates do not locate the point', atol=tol)


@sub('C03', dict(place=placements(), seed=seeds), quick=80, thorough=2000)
def plane_single_ray(place, seed):
    '''One ray at a time gives the same as a batch.'''
    rng = rng_of(seed)
    pos, d, target = aimed_rays(rng, 6, place)
    g = FinitePlane(place_kwargs(place, True))
    inter, ip, il = g.intersect(h(d, 0), h(pos, 1))
    k, pt, loc, hit, clear, sc = plane_oracle(place, pos, d)
    trivial(not inter.any())
    for i in range(6):
        if not clear[i]:
            continue
        a, b, c = g.intersect(h(d, 0)[i], h(pos, 1)[i])
        ensure(bool(a) == bool(inter[i]), 'single ray and batch disagree')
        if inter[i]:
            close(np.ravel(b), ip[i], 'single ray point', atol=1e-9 * sc / 0.05)
            close(np.ravel(c), il[i], 'single ray local', atol=1e-9 * sc / 0.05)
        a, b, c = g.intersect(h(d, 0)[i:i + 1], h(pos, 1)[i:i + 1])
        ensure(bool(a[0]) == bool(inter[i]), 'list of one ray and batch disagree')


@sub('C03', dict(place=placements(), seed=seeds, n=st.integers(5, 60), kind=st.integers(0, 4)), quick=100, thorough=3000)
def plane_grazing(place, seed, n, kind):
    '''Grazing incidence: every ray that is not exactly parallel is treated like any other.'''
    rng = rng_of(seed)
    c, R, z = place
    graz = 10**rng.uniform(-6, -1, n) * rng.choice([-1, 1], n)
    az = rng.uniform(0, 2 * np.pi, n)
    d = (np.sin(graz)[:, None] * R[:, 0] + (np.cos(graz) * np.cos(az))[:, None] * R[:, 1]
         + (np.cos(graz) * np.sin(az))[:, None] * R[:, 2])
    target = c + (rng.uniform(-1.3, 1.3, (n, 2)) * z[1:]) @ R[:, 1:].T
    pos = target - (rng.uniform(-1, 3, n) * z[1:].max())[:, None] * d
    g = flat_geometries(kind, place, bool(rng.integers(2)))
    k, pt, loc, hit, clear, sc = plane_oracle(place, pos, d)
    inter, ip, il = g.intersect(h(d, 0), h(pos, 1))
    ensure(np.all(inter[clear] == hit[clear]), 'hit or miss decided wrongly for grazing rays',
           got=inter[clear], expected=hit[clear], angle=graz[clear])
    m = inter & clear
    trivial(not m.any())
    tol = (1e-10 * sc / np.abs(np.sin(graz)))[m]
    ensure(np.all(np.abs(ip[m, :3] - pt[m]).max(axis=1, initial=0) <= tol), 'intersection point of grazing rays')
    ensure(np.all(np.abs(il[m] - loc[m]).max(axis=1, initial=0) <= tol), 'local coordinates of grazing rays')


@sub('C03', dict(place=placements(), seed=seeds, ang=floats(0, 2 * np.pi), off=floats(-3, 3)),
     quick=60, thorough=1500)
def plane_parallel_and_backward(place, seed, ang, off):
    c, R, z = place
    rng = rng_of(seed)
    # exactly parallel rays only exist in a representable orientation
    I = np.eye(3)
    for orient in (I, np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]]), np.diag([-1., -1, 1])):
        g = FinitePlane({'position': c, 'orientation': orient, 'zoom': z})
        n = orient[:, 0]
        inplane = np.cos(ang) * orient[:, 1] + np.sin(ang) * orient[:, 2]
        inplane = np.where(n != 0, 0., inplane)
        p = c + (off if off != 0 else 1.) * n
        a, b, l = g.intersect(h(inplane[None], 0), h(p[None], 1))
        ensure(not a[0], 'a ray parallel to the plane cannot hit it')
        ensure(np.isnan(l[0]).all(), 'no coordinates for parallel rays')
        # a ray leaving the plane
        p = c + (0.5 + abs(off)) * n
        a, b, l = g.intersect(h(np.stack([n, -n]), 0), h(np.stack([p, p]), 1))
        ensure(not a[0], 'a ray that moves away from the plane cannot hit it')
        ensure(a[1], 'a ray that moves towards the centre hits')
        # a ray that starts on the plane counts as hitting it
        p = c.copy()
        a, b, l = g.intersect(h(np.stack([n, -n]), 0), h(np.stack([p, p]), 1))
        ensure(a.all(), 'a ray starting in the active area hits')
        close(l, np.zeros((2, 2)), 'hit in the centre', atol=1e-9)


@sub('C03', dict(place=placements()), quick=80, thorough=2000)
def plane_vectors(place):
    '''The named vectors of a geometry describe the placement.'''
    c, R, z = place
    for as_matrix in (True, False):
        g = FinitePlane(place_kwargs(place, as_matrix))
        close(g.pos4d, make_pos4d(*place), 'position matrix', atol=1e-9 * (1 + np.abs(c).max()))
        close(g['center'], np.append(c, 1), 'center')
        for i, x in enumerate('xyz'):
            close(g['v_' + x], np.append(R[:, i] * z[i], 0), 'v_' + x, atol=1e-9 * z[i])
            close(g['e_' + x], np.append(R[:, i], 0), 'e_' + x)
        # vectors of a derived geometry move with it
        class Marked(FinitePlane):
            _geometry = {'mark': np.array([.2, -.5, 1.5, 1.]), 'way': np.array([1., 2., -1, 0]), 'number': 3.5}
        m = Marked(place_kwargs(place, as_matrix))
        for k in ('mark', 'way'):
            close(m[k], make_pos4d(*place) @ Marked._geometry[k], k, atol=1e-9 * (1 + np.abs(c).max() + np.max(z)))
        ensure(m['number'] == 3.5, 'other values')
        pl = g['plane']
        for t in ([0, 0], [1, 0], [.3, -.8]):
            p = c + t[0] * z[1] * R[:, 1] + t[1] * z[2] * R[:, 2]
            close(np.dot(pl, np.append(p, 1)), 0., 'point in plane',
                  atol=1e-9 * (1 + np.abs(c).max() + z.max()))
        e1, e2, n = g.get_local_euklid_bases(np.array([[0., 0.], [.1, .2], [3., 4.]]))
        for i in range(3):
            close(e1[i], np.append(R[:, 1], 0), 'local base y')
            close(e2[i], np.append(R[:, 2], 0), 'local base z')
            close(n[i], np.append(R[:, 0], 0), 'local base normal')


@sub('C03', dict(place=placements(), seed=seeds, n=st.integers(1, 40), as_matrix=st.booleans()),
     quick=80, thorough=2000)
def element_records_hit(place, seed, n, as_matrix):
    '''Through the public element interface: pos and local columns.'''
    from vt.gen import photon_table
    rng = rng_of(seed)
    pos, d, target = aimed_rays(rng, n, place)
    t = photon_table(rng, pos, d)
    det = optics.FlatDetector(pixsize=0.1, ignore_pixel_warning=True, **place_kwargs(place, as_matrix))
    k, pt, loc, hit, clear, sc = plane_oracle(place, pos, d)
    out = det(t.copy())
    trivial(not hit.any())
    if not hit.any():
        return
    tol = 1e-9 * sc / np.abs(d @ place[1][:, 0]).min()
    m = hit & clear
    x = ~hit & clear
    close(out['pos'][m], h(pt, 1)[m], 'position of hits', atol=tol)
    close(out['pos'][x], t['pos'][x], 'position of misses', atol=0, rtol=0)
    close(out['det_x'][m], loc[m, 0], 'det_x', atol=tol)
    close(out['det_y'][m], loc[m, 1], 'det_y', atol=tol)
    ensure(np.isnan(out['det_x'][x]).all() and np.isnan(out['det_y'][x]).all(),
           'coordinates recorded for photons that missed')


# ---------------------------------------------------------------- cylinder

@st.composite
def phi_limits(draw):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return None
    if kind == 1:
        a = draw(floats(-np.pi, np.pi - 0.2))
        return [a, draw(floats(a + 0.1, np.pi))]
    if kind == 2:      # through +-pi
        return [draw(floats(0.2, 3.)), draw(floats(np.pi + 0.1, 2 * np.pi))]
    if kind == 3:      # full circle with another start
        a = draw(floats(-np.pi, np.pi))
        return [a, a + 2 * np.pi]
    if kind == 4:      # cyclic: from positive through pi to negative
        return [draw(floats(0.5, 3.)), draw(floats(-3., -0.5))]
    return [0., 2 * np.pi]


def in_phi(phi, lim):
    '''bool, distance to the nearest limit'''
    if lim is None or abs((lim[1] - lim[0]) - 2 * np.pi) < 1e-9:
        return np.ones_like(phi, dtype=bool), np.full_like(phi, 10.)
    width = (lim[1] - lim[0]) % (2 * np.pi)
    rel = (phi - lim[0]) % (2 * np.pi)
    dist = np.minimum(np.minimum(rel, 2 * np.pi - rel), np.abs(rel - width))
    return rel <= width, dist


def cyl_oracle(place, lim, pos, d):
    c, R, z = place
    pl = ((pos - c) @ R) / z
    dl = (d @ R) / z
    n = len(pos)
    A = dl[:, 0]**2 + dl[:, 1]**2
    B = pl[:, 0] * dl[:, 0] + pl[:, 1] * dl[:, 1]
    C = pl[:, 0]**2 + pl[:, 1]**2 - 1
    disc = B**2 - A * C
    res = []
    clear = np.abs(disc) > 1e-7 * (B**2 + np.abs(A * C) + 1e-300)
    best = np.full(n, np.inf)
    bestphi = np.full(n, np.nan)
    bestz = np.full(n, np.nan)
    for s in (-1, 1):
        with np.errstate(all='ignore'):
            k = (-B + s * np.sqrt(disc)) / A
        q = pl + k[:, None] * dl
        phi = np.arctan2(q[:, 1], q[:, 0])
        inphi, dphi = in_phi(phi, lim)
        ok = (disc > 0) & (k >= 0) & (np.abs(q[:, 2]) <= 1) & inphi
        border = (disc > 0) & ((np.abs(k) * np.linalg.norm(dl, axis=1) < 1e-7)
                               | (np.abs(np.abs(q[:, 2]) - 1) < 1e-7 * (1 + np.abs(k) * np.abs(dl[:, 2])))
                               | (dphi < 1e-6))
        clear &= ~border
        better = ok & (k < best)
        best[better] = k[better]
        bestphi[better] = phi[better]
        bestz[better] = q[better, 2]
    hit = np.isfinite(best)
    return hit, best, bestphi, bestz * z[2], clear


def cyl_rays(rng, n, place, lim, spread=1.4):
    c, R, z = place
    phi = rng.uniform(-np.pi, np.pi, n)
    zz = rng.uniform(-spread, spread, n)
    target = c + (np.stack([np.cos(phi), np.sin(phi), zz], axis=1) * z) @ R.T
    d = rand_unit(rng, n)
    L = rng.uniform(-1., 4., n) * z.max()
    near = rng.random(n) < .2       # some start very close to the wall
    L[near] = 10**rng.uniform(-5, 0, near.sum()) * rng.choice([-1, 1], near.sum())
    pos = target - L[:, None] * d
    # and some from inside
    ins = rng.random(n) < 0.4
    r = rng.uniform(0, 0.9, n)
    p2 = c + (np.stack([r * np.cos(phi * 1.7), r * np.sin(phi * 1.7), rng.uniform(-.9, .9, n)], axis=1) * z) @ R.T
    pos[ins] = p2[ins]
    return pos, d


@sub('C04', dict(place=placements(zlo=0.3, zhi=30), lim=phi_limits(), seed=seeds, n=st.integers(1, 60),
                 circ=st.booleans(), as_matrix=st.booleans()), quick=250, thorough=8000)
def cylinder_intersection(place, lim, seed, n, circ, as_matrix):
    if circ:
        z = place[2].copy()
        z[1] = z[0]
        place = (place[0], place[1], z)
    rng = rng_of(seed)
    pos, d = cyl_rays(rng, n, place, lim)
    kw = place_kwargs(place, as_matrix)
    if lim is not None:
        kw['phi_lim'] = lim
    g = Cylinder(kw)
    # other tubes in the same model
    for lim2 in ([-1., 1.], [.5 + rng.random(), 3. + rng.random()]):
        Cylinder({**place_kwargs(place, as_matrix), 'phi_lim': lim2})
    hit, k, phi, zl, clear = cyl_oracle(place, lim, pos, d)
    inter, ip, il = g.intersect(h(d, 0), h(pos, 1))
    bad = clear & (inter != hit)
    ensure(not bad.any(), 'hit or miss decided wrongly', got=inter[bad], expected=hit[bad],
           limits=lim)
    m = inter & clear
    trivial(not m.any())
    label('limits', lim is not None and m.any())
    label('elliptic', not circ and m.any())
    sc = 1 + np.abs(pos).max() + np.abs(place[0]).max() + place[2].max()
    close(ip[m, :3], (pos + k[:, None] * d)[m], 'nearest crossing', atol=1e-5 * sc)
    close(ip[m, 3], np.ones(m.sum()), 'w', atol=1e-9)
    dphi = (il[m, 0] - phi[m] + np.pi) % (2 * np.pi) - np.pi
    close(dphi, np.zeros(m.sum()), 'angle coordinate', atol=1e-4)
    close(il[m, 1], zl[m], 'length coordinate', atol=1e-5 * sc)
    # point in the wall given by the reported coordinates
    c, R, z = place
    rec = c + (np.stack([np.cos(il[m, 0]), np.sin(il[m, 0]), il[m, 1] / z[2]], axis=1) * z) @ R.T
    close(rec, ip[m, :3], 'reported coordinates do not locate the reported point', atol=1e-8 * sc * 10)
    ensure(np.isnan(ip[~inter]).all() and np.isnan(il[~inter]).all(),
           'coordinates reported for rays that miss')
    # the same tube, used elsewhere before
    kw2 = {'position': place[0] + 3., 'zoom': place[2] * 1.3}
    if lim is not None:
        kw2['phi_lim'] = lim
    g2 = Cylinder(kw2)
    g2.intersect(h(d, 0), h(pos, 1))
    g2['R']
    g2.pos4d = np.array(g.pos4d)
    for x, y in zip(g2.intersect(h(d, 0), h(pos, 1)), (inter, ip, il)):
        same(np.asarray(x), np.asarray(y), 'tube that was moved')
    close(g2['R'], g['R'], 'radius of a tube that was resized')


@sub('C04', dict(place=placements(zlo=0.3, zhi=30), lim=phi_limits(), seed=seeds), quick=80, thorough=2000)
def cylinder_surface(place, lim, seed):
    '''The parametric surface is the wall that is traced.'''
    rng = rng_of(seed)
    c, R, z = place
    kw = place_kwargs(place, True)
    if lim is not None:
        kw['phi_lim'] = lim
    g = Cylinder(kw)
    Cylinder({**place_kwargs(place, True), 'phi_lim': [-.3, rng.uniform(0, 3)]})
    sc = 1 + np.abs(c).max() + z.max()
    close(g['R'], z[0], 'R')
    if lim is None or lim[0] < lim[1]:
        s = g.parametric_surface()
        ensure(s.ndim == 3 and s.shape[1:] == (2, 4), 'shape of the surface', shape=s.shape)
        loc = ((s[..., :3] - c) @ R) / z
        close(loc[..., 0]**2 + loc[..., 1]**2, np.ones(loc.shape[:2]), 'surface on the wall', atol=1e-7 * sc)
        close(np.sort(loc[:, :, 2], axis=1), np.tile([-1., 1.], (len(loc), 1)), 'rims', atol=1e-7 * sc)
        ph = np.unwrap(np.arctan2(loc[:, 0, 1], loc[:, 0, 0]))
        lo, hi = (-np.pi, np.pi) if lim is None else lim
        close(ph[-1] - ph[0], hi - lo, 'angular extent of the surface', atol=1e-7)
        close((ph[0] - lo + np.pi) % (2 * np.pi) - np.pi, 0., 'start of the surface', atol=1e-7)
    # explicit parameters (z in absolute units)
    n1, n2 = rng.integers(1, 6, 2)
    phi = rng.uniform(-4, 4, n1)
    zz = rng.uniform(-2, 2, n2) * z[2]
    s = g.parametric_surface(phi, zz)
    exp = np.empty((n1, n2, 3))
    for i in range(n1):
        for j in range(n2):
            exp[i, j] = c + R @ np.array([z[0] * np.cos(phi[i]), z[1] * np.sin(phi[i]), zz[j]])
    close(s[..., :3], exp, 'parametric surface', atol=1e-9 * sc)
    close(s[..., 3], np.ones((n1, n2)), 'w')


@sub('C04', dict(place=placements(zlo=0.3, zhi=30), seed=seeds), quick=60, thorough=1500)
def cylinder_bases(place, seed):
    c, R, z = place
    rng = rng_of(seed)
    g = Cylinder(place_kwargs((c, R, z), True))
    il = np.stack([rng.uniform(-np.pi, np.pi, 7), rng.uniform(-1, 1, 7) * z[2]], axis=1)
    e1, e2, n = g.get_local_euklid_bases(il)
    phi = il[:, 0]
    o = np.zeros(7)
    # the profile is an ellipse: phi is its parameter, the normal is perpendicular to the wall
    t = np.stack([-z[0] * np.sin(phi), z[1] * np.cos(phi), o], axis=1) @ R.T
    nn = np.stack([np.cos(phi) / z[0], np.sin(phi) / z[1], o], axis=1) @ R.T
    label('elliptical' if abs(z[0] / z[1] - 1) > 0.01 else 'circular')
    close(e1[:, :3], t / np.linalg.norm(t, axis=1)[:, None], 'tangent direction', atol=1e-9)
    close(e2[:, :3], np.tile(R[:, 2], (7, 1)), 'axis direction', atol=1e-9)
    close(n[:, :3], nn / np.linalg.norm(nn, axis=1)[:, None], 'normal direction', atol=1e-9)
    for v in (e1, e2, n):
        close(v[:, 3], o, 'w of a direction')


@sub('C04', dict(Rr=st.tuples(floats(0., 50.), floats(5., 200.)), place=placements(), width=logfloats(0.1, 50),
                 rot=floats(-np.pi, np.pi)), quick=60, thorough=1500)
def cylinder_from_rowland(Rr, place, width, rot):
    '''The tube derived from a torus follows the Rowland circle.'''
    R, r = Rr
    pos4d = make_pos4d(place[0], place[1], 1.)
    tor = RowlandTorus(R, r, pos4d=pos4d)
    g = Cylinder.from_rowland(tor, width=width, rotation=rot)
    phi = np.linspace(-3, 3, 17)
    s = g.parametric_surface(phi, np.array([0.]))[:, 0, :]
    q = tor.quartic(s[:, :3])
    sc = (R + r)**3
    close(q / sc, np.zeros(17), 'tube centre line on the Rowland torus', atol=1e-6 * (1 + np.abs(place[0]).max() / r))
    # phi of the tube is measured from the rotated origin
    s0 = g.parametric_surface(np.array([0.]), np.array([0.]))[0, 0, :3]
    exp = place[0] + place[1] @ np.array([R + r * np.cos(rot), r * np.sin(rot), 0.])
    close(s0, exp, 'origin of the tube angle', atol=1e-8 * (1 + np.abs(exp).max()))
    close(np.linalg.norm(g['v_z']), width, 'half width of the tube')


@sub('C04', dict(place=placements(zlo=0.3, zhi=30), lim=phi_limits(), seed=seeds), quick=60, thorough=1500)
def cylinder_two_crossings(place, lim, seed):
    '''Rays through the tube: a limited tube and its complement see every first crossing once.'''
    rng = rng_of(seed)
    pos, d = cyl_rays(rng, 40, place, lim, spread=0.9)
    full = Cylinder(place_kwargs(place, True))
    i0, p0, l0 = full.intersect(h(d, 0), h(pos, 1))
    if lim is None:
        trivial()
        return
    kw = place_kwargs(place, True)
    kw['phi_lim'] = lim
    part = Cylinder(kw)
    Cylinder({**place_kwargs(place, True), 'phi_lim': [-.3, rng.uniform(0, 3)]})
    i1, p1, l1 = part.intersect(h(d, 0), h(pos, 1))
    ok = cyl_oracle(place, None, pos, d)[-1] & cyl_oracle(place, lim, pos, d)[-1]
    ensure(not np.any(i1[ok] & ~i0[ok]), 'a limited tube cannot be hit where the full tube is not')
    inlim, dist = in_phi(l0[:, 0], lim)
    m = ok & i0 & (dist > 1e-6)
    trivial(not m.any())
    # first crossing inside the limits: identical
    mm = m & inlim
    ensure(i1[mm].all(), 'first crossing inside the limits is missed')
    if mm.any():
        close(p1[mm], p0[mm], 'first crossing', atol=1e-9 * (1 + np.abs(pos).max()))
    # first crossing outside the limits: any crossing must be further along the ray
    mo = m & ~inlim & i1
    if mo.any():
        k0 = np.sum((p0[mo, :3] - pos[mo]) * d[mo], axis=1)
        k1 = np.sum((p1[mo, :3] - pos[mo]) * d[mo], axis=1)
        ensure(np.all(k1 > k0), 'second crossing reported before the first')
