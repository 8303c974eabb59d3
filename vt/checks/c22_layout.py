'''C22: layouts of elements on the Rowland torus.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label, raises, known_finding
from vt.gen import rng_of, seeds, floats, logfloats, rotations, positions, make_pos4d
from vt.checks.c21_rowland import local, tube

from marxs.design.rowland import (RowlandTorus, RectangularGrid, CircularMeshGrid,
                                  GratingArrayStructure)
from marxs.optics import FlatDetector


def torus_of(R, ratio, pos, rot):
    return RowlandTorus(R, R * ratio, pos4d=make_pos4d(pos * R, rot, np.ones(3)))


TORUS = dict(R=logfloats(500, 2e4), ratio=st.one_of(st.just(1.), logfloats(.3, 3.)),
             pos=positions(2.), rot=rotations())


def yz_of(torus, arr):
    '''local coordinates of all element centres'''
    xyz = np.array([np.asarray(e)[:3, 3] for e in arr.elem_pos])
    built = np.array([e.pos4d[:3, 3] for e in arr.elements])
    ensure(len(arr.elements) == len(arr.elem_pos), 'one element per position')
    scale = torus.R + torus.r
    close(built, xyz, 'elements are where elem_pos says', rtol=0, atol=1e-9 * scale)
    loc = local(torus, xyz)
    d0, d1 = tube(torus.R, torus.r, loc)
    ensure(np.all(np.minimum(np.abs(d0), np.abs(d1)) < 1e-5 * scale), 'element centres are on the torus',
           worst=np.max(np.minimum(np.abs(d0), np.abs(d1))))
    ensure(len(set(e.id_num for e in arr.elements)) == len(arr.elements), 'unique identifiers')
    return loc, xyz


def check_orientation(torus, arr, loc, xyz, normal, parallel):
    '''normal, parallel: None for the default, a direction or a function.'''
    for i, e in enumerate(arr.elements):
        m = e.pos4d[:3, :3]
        z = np.linalg.norm(m, axis=0)
        m = m / z
        close(m.T @ m, np.eye(3), 'element is not sheared', atol=1e-7)
        if normal is None:
            # into the torus
            rho = np.hypot(loc[i, 0], loc[i, 2])
            er = np.array([loc[i, 0], 0, loc[i, 2]]) / rho
            n = np.array([*(loc[i] - torus.R * er)])
            n = -torus.pos4d[:3, :3] @ n / np.linalg.norm(n)
        else:
            n = normal(xyz[i])
            n = n / np.linalg.norm(n)
        close(m[:, 0], n, 'normal of element', rtol=0, atol=1e-6)
        p = torus.pos4d[:3, 1] if parallel is None else parallel
        p = p - (p @ n) * n
        if np.linalg.norm(p) > 1e-3:
            close(m[:, 1], p / np.linalg.norm(p), 'e_y of element', rtol=0, atol=1e-4)


def spec(style, rng, torus):
    '''keywords, normal(xyz), parallel'''
    m = torus.pos4d
    if style == 0:
        return {}, None, None
    if style == 1:      # fixed direction, close to the local x-axis
        n = m[:3, :3] @ np.array([-1, rng.uniform(-.3, .3), rng.uniform(-.3, .3)])
        p = m[:3, :3] @ np.array([rng.uniform(-.3, .3), 1., rng.uniform(-.3, .3)])
        return ({'normal_spec': np.append(n, 0), 'parallel_spec': np.append(p, 0)},
                lambda x: n, p)
    # pointing at/away from a point
    P = (m @ np.array([rng.uniform(-.2, .2) * torus.r, 0, 0, 1]))
    return {'normal_spec': P}, lambda x: x - P[:3], None


@sub('C22', dict(TORUS, seed=seeds, style=st.integers(0, 2), dy=floats(5, 60), dz=floats(5, 60),
                 ny=floats(0, 16), nz=st.one_of(st.none(), floats(0, 12)), oy=floats(-100, 100),
                 oz=floats(-100, 100), whole=st.booleans()), quick=120, thorough=3000)
def rectangular_grid(R, ratio, pos, rot, seed, style, dy, dz, ny, nz, oy, oz, whole):
    rng = rng_of(seed)
    torus = torus_of(R, ratio, pos, rot)
    if whole:
        ny, nz = round(ny), (None if nz is None else round(nz))
        dy, dz = round(dy), round(dz)
    # stay in the part of the torus that can be reached along the x-axis
    f = min(torus.r, torus.R) / 2000.
    dy, dz, oy, oz = dy * f, dz * f, oy * f, oz * f
    yr = [oy - ny * dy / 2, oy + ny * dy / 2]
    kw, nrm, par = spec(style, rng, torus)
    arg = dict(kw)
    if nz is not None:
        zr = [oz - nz * dz / 2, oz + nz * dz / 2]
        arg['z_range'] = list(zr)
    else:
        zr = [0, 0]
    arr = RectangularGrid(rowland=torus, d_element=[dy, dz], y_range=list(yr),
                          elem_class=FlatDetector,
                          elem_args={'zoom': [1, dy / 2, dz / 2], 'pixsize': .1}, **arg)
    loc, xyz = yz_of(torus, arr)
    ensure(np.all(loc[:, 0] > 0), 'outer side of the torus')
    n = {}
    for i, (lim, d) in enumerate([(yr, dy), (zr, dz)], start=1):
        u = np.sort(loc[:, i])
        u = np.array([x.mean() for x in np.split(u, np.flatnonzero(np.diff(u) > 1e-3 * d) + 1)])
        w = (lim[1] - lim[0]) / d
        want = {max(1, int(np.ceil(w + e))) for e in (-1e-9, 0, 1e-9)}
        ensure(len(u) in want, 'number of rows', axis='xyz'[i], got=len(u), expected=want)
        n[i] = len(u)
        close(np.diff(u), np.full(len(u) - 1, d), 'spacing is the element size', rtol=1e-5, atol=1e-9)
        close(u.mean(), np.mean(lim), 'centred on the range', rtol=0, atol=1e-5 * d + 1e-8)
        ensure(u[0] - d / 2 <= lim[0] + 1e-5 * d and u[-1] + d / 2 >= lim[1] - 1e-5 * d, 'range is covered')
        ensure(u[0] >= lim[0] - 1e-5 * d and u[-1] <= lim[1] + 1e-5 * d, 'centres inside the range')
    ensure(len(loc) == n[1] * n[2], 'complete grid')
    cells = set(map(tuple, np.round(loc[:, 1:] / [dy, dz], 4)))
    ensure(len(cells) == len(loc), 'no position is used twice')
    check_orientation(torus, arr, loc, xyz, nrm, par)
    label('single element', len(loc) == 1)


@sub('C22', dict(TORUS, seed=seeds, style=st.integers(0, 2), d0=floats(10, 60), d1=floats(10, 60),
                 rin=floats(60, 300), rings=floats(.3, 4.), phi0=floats(-4, 4),
                 dphi=st.one_of(st.none(), st.just(2 * np.pi), floats(.3, 6.2), floats(-6., -.3)),
                 second=st.booleans()),
     quick=120, thorough=3000)
def grating_array(R, ratio, pos, rot, seed, style, d0, d1, rin, rings, phi0, dphi, second):
    rng = rng_of(seed)
    torus = torus_of(R, ratio, pos, rot)
    f = min(torus.r, torus.R) / 2000.
    d0, d1, rin = d0 * f, d1 * f, rin * f
    brackets = [[rin, rin + rings * d0]]
    if second:
        s = rin + (np.ceil(rings) + rng.uniform(1, 2)) * d0
        brackets.append([s, s + rng.uniform(.3, 2) * d0])
        if rng.uniform() < .4:
            s = brackets[1][0] + (np.ceil((brackets[1][1] - s) / d0) + rng.uniform(1, 2)) * d0
            brackets.append([s, s + rng.uniform(.3, 1.5) * d0])
    kw, nrm, par = spec(style, rng, torus)
    single = None
    if dphi is None:
        single = phi0
        kw['phi'] = [phi0] if rng.uniform() < .5 else phi0
        lo, width = phi0, 0
    else:
        kw['phi'] = [phi0, phi0 + dphi]
        lo, width = phi0, dphi if dphi >= 0 else dphi % (2 * np.pi)
    # documented numbers
    radii = []
    for b in brackets:
        n = int(np.ceil((b[1] - b[0]) / d0))
        radii.extend(np.mean(b) + (np.arange(n) - (n - 1) / 2) * d0)
    num = []
    for r in radii:
        x = (r - d0 / 2) * width / d1
        num.append({int(np.floor(x + e)) for e in (-1e-9, 0, 1e-9)})
    if single is None and all(min(n) <= 0 for n in num):
        return trivial(True)
    arr = GratingArrayStructure(rowland=torus, d_element=[d0, d1],
                                radius=[x for b in brackets for x in b],
                                elem_class=FlatDetector,
                                elem_args={'zoom': [1, d0 / 2, d1 / 2], 'pixsize': .1}, **kw)
    loc, xyz = yz_of(torus, arr)
    rr = np.hypot(loc[:, 1], loc[:, 2])
    pp = np.arctan2(loc[:, 2], loc[:, 1])
    used = np.zeros(len(rr), dtype=bool)
    for r, n in zip(radii, num):
        ind = np.abs(rr - r) < 1e-5 * d0 + 1e-9 * R
        ensure(not np.any(used & ind), 'rings are distinct')
        used |= ind
        p = pp[ind]
        if single is not None:
            ensure(len(p) == 1, 'exactly one element per radius for a single phi', n=len(p))
            close(np.cos(p[0] - single), 1., 'angle of single element', atol=1e-9)
            continue
        ensure(len(p) in n, 'number of elements on arc', radius=r, got=len(p), expected=n)
        if len(p) == 0:
            continue
        # angle from the start of the segment
        a = np.sort((p - lo + 1e-7) % (2 * np.pi) - 1e-7)
        half = d1 / 2 / (r - d0 / 2)
        tol = 1e-6 + 1e-6 * half
        ensure(a[0] >= half - tol and a[-1] <= width - half + tol,
               'elements do not stretch beyond the segment', a=a, width=width, half=half)
        gap = np.diff(a)
        ensure(np.all(gap >= 2 * half - tol), 'elements do not overlap', gap=gap, size=2 * half)
        # evenly distributed
        free = (width - 2 * half * len(a)) / (len(a) + 1)
        close(a, half + free + np.arange(len(a)) * (2 * half + free), 'evenly spaced', rtol=0,
              atol=1e-5)
    ensure(np.all(used), 'every element is on one of the rings', radii=rr[~used], rings=radii)
    for b in brackets:
        x = np.sort([r for r in radii if b[0] - d0 < r < b[1] + d0])
        ensure(x[0] - d0 / 2 <= b[0] + 1e-6 * d0, 'inner radius is covered')
    check_orientation(torus, arr, loc, xyz, nrm, par)
    label('several rings', len(radii) > 1)
    label('wraps around', dphi is not None and dphi < 0)


@sub('C22', dict(TORUS, seed=seeds, style=st.integers(0, 2), d0=floats(8, 60), d1=floats(8, 60),
                 rin=floats(0, 200), width=floats(20, 200)),
     quick=60, thorough=1500)
def circular_mesh(R, ratio, pos, rot, seed, style, d0, d1, rin, width):
    '''Elements are on a lattice of rows inside a ring.'''
    rng = rng_of(seed)
    torus = torus_of(R, ratio, pos, rot)
    f = min(torus.r, torus.R) / 2000.
    d0, d1, rin, width = d0 * f, d1 * f, rin * f, width * f
    rout = rin + width
    kw, nrm, par = spec(style, rng, torus)
    arr = CircularMeshGrid(rowland=torus, d_element=[d0, d1], radius=[rin, rout],
                           elem_class=FlatDetector,
                           elem_args={'zoom': [1, d0 / 2, d1 / 2], 'pixsize': .1}, **kw)
    loc, xyz = yz_of(torus, arr)
    y, z = loc[:, 1], loc[:, 2]
    tol = 1e-5 * max(d0, d1) + 1e-9 * R
    # never further out than one element size
    ensure(np.all(np.abs(y) <= rout + d0 + tol) and np.all(np.abs(z) <= rout + d1 + tol),
           'inside the outer radius')
    ensure(np.all(np.hypot(y, z) <= rout + np.hypot(d0, d1)), 'inside the outer radius')
    ensure(np.all(np.hypot(y, z) >= rin - np.hypot(d0, d1)), 'outside of the inner radius')
    rows = np.unique(np.round(y / d0, 5))
    close(np.diff(rows), np.ones(len(rows) - 1), 'rows are one element apart', rtol=0, atol=1e-4)
    for r in rows:
        zz = np.sort(z[np.abs(y / d0 - r) < 1e-4])
        gap = np.diff(zz) / d1
        if abs(abs(r * d0) - rin) < 2 * tol:
            continue     # may or may not cross the hole
        crosses = np.abs(r * d0) <= rin
        if crosses:
            # both sides of the hole; that these might overlap next to the hole
            # is listed in known_findings.txt
            close(zz, -zz[::-1], 'both sides of the hole', rtol=0, atol=2 * tol)
            S = zz[-1] - np.arange(len(zz) // 2) * d1
            close(zz, np.sort(np.concatenate([S, -S])), 'elements in a row are one element apart',
                  rtol=0, atol=2 * tol)
        else:
            close(gap, np.ones(len(gap)), 'elements in a row are one element apart', rtol=0, atol=1e-4)
        inner = np.sqrt(max(0, rin**2 - (r * d0)**2))
        outer = np.sqrt(max(0, rout**2 - (r * d0)**2))
        # every part of the row is covered to within one element
        pts = np.linspace(inner, outer, 30)
        for s in (-1, 1):
            d = np.min(np.abs(s * pts[:, None] - zz[None, :]), axis=1)
            ensure(np.all(d <= d1 + tol), 'row is covered to within one element size', y=r * d0, z=zz)
    ensure(rows[0] * d0 <= -rout + d0 + tol and rows[-1] * d0 >= rout - d0 - tol,
           'rows cover the circle to within one element size')
    check_orientation(torus, arr, loc, xyz, nrm, par)


@sub('C22', dict(seed=seeds), quick=1, thorough=1)
def circular_mesh_known_finding(seed):
    '''Listed in known_findings.txt.'''
    torus = RowlandTorus(10000., 10000.)
    arr = CircularMeshGrid(rowland=torus, d_element=[30., 50.], radius=[100., 300.],
                           elem_class=FlatDetector, elem_args={'zoom': [1, 15, 25], 'pixsize': .1})
    yz = np.array([e[1:3, 3] for e in arr.elem_pos])
    asym = yz[:, 1].max() + yz[:, 1].min()
    d = np.abs(yz[:, None, :] - yz[None, :, :])
    overlap = (d[..., 0] < 30 - 1e-3) & (d[..., 1] < 50 - 1e-3)
    np.fill_diagonal(overlap, False)
    if overlap.any() or abs(asym) > 1e-3:
        known_finding('CircularMeshGrid(radius=[100, 300], d_element=[30, 50]) layout is shifted '
                      'by half an element and elements next to the hole overlap')


@sub('C22', dict(TORUS, ang=floats(-1.2, 1.2), yo=floats(-.1, .1), zo=floats(-.1, .1),
                 shift=floats(-.05, .05)), quick=50, thorough=1500)
def optimize_axis(R, ratio, pos, rot, ang, yo, zo, shift):
    '''Elements are moved along an arbitrary axis until they touch the torus.'''
    torus = torus_of(R, ratio, pos, rot)
    s = min(torus.r, torus.R)
    ax = np.array([np.cos(ang / 4), np.sin(ang / 4), 0])
    gax = torus.pos4d[:3, :3] @ ax
    try:
        arr = RectangularGrid(rowland=torus, d_element=[s * .01, s * .01],
                              y_range=[yo * s, yo * s + .019 * s], z_range=[zo * s, zo * s + .015 * s],
                              optimize_axis=np.append(gax, 0), elem_class=FlatDetector,
                              guess_distance=torus.r + torus.R + shift * s)
    except Exception as e:
        # the root finder does not promise to find the torus along steep lines
        if abs(ang) > .4 and 'not found' in str(e):
            return trivial(True)
        raise
    loc, xyz = yz_of(torus, arr)
    ensure(len(loc) == 4, 'number of elements')
    # back along the axis to the plane x=0
    b = loc - ax * (loc[:, :1] / ax[0])
    want = np.array([[yo + .0095 + i * .005, zo + .0075 + j * .005]
                     for i in (-1, 1) for j in (-1, 1)]) * s
    i = np.lexsort(np.round(b[:, 1:].T / s, 6))
    j = np.lexsort(np.round(want.T / s, 6))
    close(b[i, 1:], want[j], 'elements are moved along the axis only', rtol=0, atol=1e-7 * R * (1 + ratio))
    check_orientation(torus, arr, loc, xyz, None, None)
