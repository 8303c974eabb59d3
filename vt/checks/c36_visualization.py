'''C36: visualisations show the geometry that is traced.'''
import copy
import inspect
import io
import json
import re
import sys
import types
import warnings
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st
from astropy.table import Table

from vt.core import sub, ensure, close, same, trivial, label, known_finding, raises
from vt.gen import rng_of, seeds, placements, make_pos4d, rotmat, photon_table
from vt.instr import KINDS

from marxs import optics
from marxs.simulator import Sequence, Parallel, KeepCol
from marxs.design import RowlandTorus
from marxs.math.geometry import Cylinder
from marxs.optics import MultiAperture
from marxs.visualization import x3d, threejs, threejsjson
from marxs.visualization.utils import (MARXSVisualizationWarning, plot_object_general, DisplayDict, get_color,
                                       color_tuple_to_hex, plane_with_hole,
                                       combine_disjoint_triangulations)

TWOPI = 2 * np.pi
MM = 0.0501     # rounding of coordinates in x3d files
NAMED = {'red': (1., 0, 0), 'k': (0, 0, 0), 'lime': (0, 1., 0), 'blue': (0, 0, 1.), '#ff013a': (1., 1 / 255, 58 / 255),
         'orange': (1., 165 / 255, 0), 'w': (1., 1, 1)}


# --- parsing of output ---------------------------------------------------------------------

def numbers(text):
    return np.array([float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', text)])


def x3d_shapes(scene):
    root = ET.fromstring(scene.XML())
    out = []
    for s in root.iter('Shape'):
        m = s.find('Appearance').find('Material')
        g = [e for e in s if e.tag not in ('Appearance',)]
        ensure(len(g) == 1, 'one geometry per shape', tags=[e.tag for e in g])
        g = g[0]
        d = {'type': g.tag, 'points': numbers(g.find('Coordinate').get('point', '')).reshape(-1, 3) * 1000,
             'attr': g.attrib}
        for k in ('diffuseColor', 'emissiveColor'):
            if m.get(k) is not None:
                d[k] = numbers(m.get(k))
        d['transparency'] = float(m.get('transparency', 0))
        if g.tag == 'IndexedFaceSet':
            faces, f = [], []
            for i in [int(a) for a in g.get('coordIndex').replace(',', ' ').split()]:
                if i == -1:
                    faces.append(f)
                    f = []
                else:
                    f.append(i)
            if f:
                faces.append(f)
            d['faces'] = faces
        elif g.tag == 'IndexedTriangleSet':
            d['faces'] = [int(a) for a in g.get('index').replace(',', ' ').split()]
        elif g.tag == 'LineSet':
            d['n'] = [int(a) for a in g.get('vertexCount').replace(',', ' ').split()]
        out.append(d)
    return out


def js_blocks(text):
    '''Meshes in the javascript written by the threejs backend.'''
    out = []
    for t in re.split(r'(?=var geometry = )', text)[1:]:
        d = {'geometry': re.search(r'new THREE\.(\w+)\(([^)]*)\)', t).group(1),
             'pars': numbers(re.search(r'new THREE\.(\w+)\(([^)]*)\)', t).group(2)),
             'material': re.search(r'new THREE\.\w*Material\(\s*\{\s*(.*?)\s*\}\s*\)', t, re.S).group(1)}
        ensure('...' not in t, 'arrays are written in full', text=t[:300])
        m = re.search(r'matrix\.set\((.*?)\)', t)
        if m:
            d['pos4d'] = numbers(m.group(1)).reshape(4, 4)
        for k, name in [('vertices', 'Float32Array'), ('positions', 'Float32Array'), ('colors', 'Float32Array'),
                        ('faces', 'Uint16Array')]:
            m = re.search(r'var %s = new %s\(\[(.*?)\]\)' % (k, name), t, re.S)
            if m:
                d[k] = numbers(m.group(1))
        ensure('scene.add( mesh )' in t, 'mesh is added to the scene')
        out.append(d)
    return out


def write_json(data, **kw):
    f = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('error', UserWarning)
        threejsjson.write(f, data, **kw)
    f.seek(0)
    return json.load(f)


def to_local(pos4d, pts):
    return np.linalg.solve(pos4d, np.column_stack([pts, np.ones(len(pts))]).T).T[:, :3]


def check_hex(got, rgb, what):
    '''Hex color agrees with rgb; a fraction of a color channel leaks into the next one.'''
    ensure(isinstance(got, str) and re.fullmatch(r'(#|0x)[0-9a-f]{6}', got) is not None, what + ': hex color', got=got)
    v = int(got.replace('#', '').replace('0x', ''), 16)
    ch = np.array([v // 65536, v // 256 % 256, v % 256])
    ex = np.array(rgb, dtype=float) * 255
    if np.all(np.abs(ch - ex) <= 1):
        return
    leak = int(rgb[0] * 256**2 * 255 + rgb[1] * 256 * 255 + rgb[2] * 255)
    ensure(v == leak, what + ': hex color', got=got, rgb=rgb)
    known_finding('fraction of a color channel leaks into the next channel')


def random_color(rng):
    if rng.random() < .4:
        k = str(rng.choice(list(NAMED)))
        return k, NAMED[k]
    if rng.random() < .5:
        c = tuple(float(v) / 255 for v in rng.integers(0, 256, 3))
    else:
        c = tuple(float(v) for v in rng.uniform(0, 1, 3))
    return c, c


def snapshot(e):
    return (np.array(e.geometry.pos4d), {k: np.array(v) if not callable(v) else v for k, v in e.geometry._geometry.items()},
            {k: v for k, v in e.display.items() if k != 'color'}, get_color(e.display))


def unchanged(e, snap, what):
    new = snapshot(e)
    same(new[0], snap[0], what + ': drawing changed the position')
    ensure(set(new[1]) == set(snap[1]) and all(np.array_equal(new[1][k], snap[1][k]) for k in new[1] if not callable(new[1][k])),
           what + ': drawing changed the geometry', old=snap[1], new=new[1])
    ensure(str(new[2]) == str(snap[2]), what + ': drawing changed display settings', old=snap[2], new=new[2])
    close(new[3], snap[3], what + ': color')


def draw_text(e, display=None):
    f = io.StringIO()
    threejs.plot_object(e, display, f)
    return js_blocks(f.getvalue())


PERIM = {frozenset(s) for s in [((0, -1),), ((0, 1),), ((1, -1),), ((1, 1),), ((2, -1),), ((2, 1),)]}
BOXES = ['detector', 'grating', 'reflgrating', 'cat', 'filter', 'perfectlens', 'thinlens', 'radialscatter', 'brewster',
         'multilayer', 'gaussscatter', 'quality', 'l2', 'fstack', 'stack', 'ccdredist']


@sub('C36', dict(seed=seeds, place=placements(zlo=2., zhi=500.), kind=st.sampled_from(BOXES)), quick=120, thorough=2500)
def boxes(seed, place, kind):
    '''Boxes have the corners given by the position matrix; color and opacity as requested.'''
    rng = rng_of(seed)
    if kind not in KINDS:
        trivial()
        return
    e = KINDS[kind].build(rng, place)
    if not hasattr(e, 'geometry') or e.display.get('shape') != 'box':
        trivial()
        return
    half = None
    if rng.random() < .7:
        half = str(rng.choice(['+x', '-x', '+y', '-y', '+z', '-z']))
        e.display['box-half'] = half
    else:
        e.display.pop('box-half', None)
    col, rgb = random_color(rng)
    e.display['color'] = col
    if rng.random() < .1:
        del e.display['color']
        rgb = (1., 1., 1.)
    op = None
    if rng.random() < .5:
        op = float(rng.choice([0., 1., rng.uniform(0, 1), rng.uniform(0, 1)]))
        e.display['opacity'] = op
    else:
        e.display.pop('opacity', None)
    M = make_pos4d(*place)
    snap = snapshot(e)
    scene = x3d.plot_object(e)
    unchanged(e, snap, 'x3d')
    shapes = x3d_shapes(scene)
    ensure(len(shapes) == 1 and shapes[0]['type'] == 'IndexedFaceSet', 'one shape per element')
    s = shapes[0]
    close(s['diffuseColor'], rgb, 'color', atol=1e-6)
    close(s['transparency'], 0. if op is None else 1 - op, 'opacity', atol=1e-6)
    lim = np.array([[-1., 1.]] * 3)
    if half is not None:
        lim['xyz'.index(half[1]), 1 if half[0] == '+' else 0] = 0
    # every face is one side of the box, and runs around its perimeter
    sides = set()
    for f in s['faces']:
        ensure(len(f) == 4 and len(set(f)) == 4, 'faces are quadrilaterals', face=f)
        pts = s['points'][f]
        best = None
        for ax in range(3):
            o = [i for i in range(3) if i != ax]
            for k in (0, 1):
                c = np.zeros((4, 3))
                c[:, ax] = lim[ax, k]
                c[:, o[0]] = lim[o[0]][[0, 0, 1, 1]]
                c[:, o[1]] = lim[o[1]][[0, 1, 1, 0]]
                g = np.column_stack([c, np.ones(4)]) @ M.T
                for shift in range(4):
                    for d in (1, -1):
                        dev = np.abs(np.roll(pts, shift, axis=0)[::d] - g[:, :3]).max()
                        if dev < MM and (best is None or dev < best[0]):
                            best = (dev, ax, k)
        ensure(best is not None, 'face of the box is not a side of the active volume', face=pts, pos4d=M, lim=lim)
        sides.add(best[1:])
    ensure(len(sides) == 6 and len(s['faces']) == 6, 'all six sides are drawn', sides=sides)
    # three.js
    out = threejsjson.plot_object(e)
    unchanged(e, snap, 'json')
    js = write_json(out)['elements'][0]
    ensure(js['geometry'] == 'BoxGeometry' and list(js['geometrypars']) == [2, 2, 2] and js['n'] == 1, 'json box', js=js)
    close(np.array(js['pos4d']).reshape(4, 4).T, M, 'json matrix (column major)')
    check_hex(js['materialproperties']['color'], rgb, 'json')
    if op is not None:
        close(js['materialproperties']['opacity'], op, 'json opacity')
        ensure(js['materialproperties']['transparent'] == 'true', 'json transparent')
    else:
        ensure('opacity' not in js['materialproperties'], 'json no opacity')
    t = draw_text(e)
    unchanged(e, snap, 'threejs')
    ensure(len(t) == 1 and t[0]['geometry'] == 'BoxGeometry', 'threejs box')
    close(t[0]['pos4d'], M, 'threejs matrix (row major)')
    close(t[0]['pars'], [2, 2, 2], 'threejs pars')
    m = re.search(r"color : '(#[0-9a-f]{6})'", t[0]['material'])
    ensure(m is not None, 'threejs color', material=t[0]['material'])
    check_hex(m.group(1), rgb, 'threejs')
    ensure(('opacity' in t[0]['material']) == (op is not None), 'threejs opacity')
    # again
    ensure(x3d.plot_object(e).XML() == scene.XML(), 'drawing again gives the same scene')
    ensure(json.dumps(threejsjson.plot_object(e)) == json.dumps(out), 'drawing again gives the same json')


def area_of(xy, tri):
    a = xy[tri]
    d1, d2 = a[:, 1] - a[:, 0], a[:, 2] - a[:, 0]
    return .5 * np.abs(d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0])


def coverage(xy, tri, pts):
    '''Number of triangles that contain each point; the distance from the edges'''
    n = np.zeros(len(pts), dtype=int)
    near = np.zeros(len(pts), dtype=bool)
    ar = area_of(xy, tri)
    scale = np.abs(xy).max()
    for t, a in zip(tri, ar):
        if a < 1e-12 * scale**2:
            continue
        p0, p1, p2 = xy[t]
        T = np.array([p1 - p0, p2 - p0]).T
        lam = np.linalg.solve(T, (pts - p0).T)
        b = np.array([1 - lam[0] - lam[1], lam[0], lam[1]])
        near |= (np.abs(b) < 1e-9).any(axis=0) & (b > -1e-9).all(axis=0)
        n += (b > 0).all(axis=0)
    return n, near


HOLES = ['rect', 'circ', 'wedge', 'ring', 'wedgering', 'baffle']


@sub('C36', dict(seed=seeds, place=placements(zlo=2., zhi=500.), kind=st.sampled_from(HOLES)), quick=60, thorough=1200)
def holes(seed, place, kind):
    '''Apertures and baffles: a plane with a hole exactly at the active area.'''
    rng = rng_of(seed)
    pos, rot, zoom = place
    zoom = np.array(zoom)
    if kind not in ('rect', 'baffle'):
        zoom[2] = zoom[1]
    M = make_pos4d(pos, rot, zoom)
    kw = {'pos4d': M}
    phi = [0, TWOPI]
    rin = 0.
    if kind in ('wedge', 'wedgering'):
        a = rng.uniform(-6, 3)
        phi = [a, a + rng.uniform(.5, 6.)]
        kw['phi'] = phi
    if kind in ('ring', 'wedgering'):
        rin = rng.uniform(.05, .95)
        kw['r_inner'] = rin * zoom[1]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e = {'rect': optics.RectangleAperture, 'baffle': optics.Baffle}.get(kind, optics.CircleAperture)(**kw)
    outer = float(rng.uniform(1.1, 5))
    setouter = rng.random() < .8
    if setouter:
        e.display['outer_factor'] = outer
    else:
        outer = 3
    inner = 0.
    if rng.random() < .5:
        inner = float(rng.uniform(0, .9))
        e.display['inner_factor'] = inner
    snap = snapshot(e)
    out = threejsjson.plot_object(e)
    unchanged(e, snap, 'json')
    ensure(out is not None, 'element is drawn', kind=kind)
    js = write_json([out])['elements'][0]
    xyz = np.array(js['pos'][0]).reshape(-1, 3)
    tri = np.array(js['faces'][0]).reshape(-1, 3)
    ensure(tri.min() >= 0 and tri.max() < len(xyz), 'faces use existing points')
    loc = to_local(M, xyz)
    close(loc[:, 0] * zoom[0], np.zeros(len(loc)), 'points are in the plane of the element', atol=1e-6)
    yz = loc[:, 1:]
    # total area without overlap
    dphi = np.deg2rad(4)
    N = 2000
    pts = rng.uniform(-1.05 * outer, 1.05 * outer, (N, 2))
    pts[: N // 2] = rng.uniform(-1.2, 1.2, (N // 2, 2))
    if kind in ('rect', 'baffle'):
        close(area_of(yz, tri).sum(), 4 * outer**2 - 4, 'area of the drawn plane', rtol=1e-6)
        r = np.abs(pts).max(axis=1)
        cov = (r > 1) & (r < outer)
        skip = (np.abs(r - 1) < 1e-6) | (np.abs(r - outer) < 1e-6)
    else:
        r = np.hypot(*pts.T)
        p = np.arctan2(pts[:, 1], pts[:, 0])
        d = (p - phi[0]) % TWOPI
        width = phi[1] - phi[0]
        inw = d < width
        margin = 0.1 * dphi + dphi
        skip = np.zeros(N, dtype=bool)
        if kind in ('wedge', 'wedgering'):
            skip |= (d < margin) | (d > TWOPI - margin) | (np.abs(d - width) < margin)
        for lim in (1, outer, rin, rin * inner):
            skip |= (r < lim * 1.0001) & (r > lim * .998)
        cov = (r < outer) & ~(inw & (r < 1) & (r >= rin))
        if rin > 0:   # the inner part is only drawn down to inner_factor
            cov &= ~(inw & (r < rin * inner))
        skip |= r < 1e-3
    n, near = coverage(yz, tri, pts)
    ok = ~skip & ~near
    bad = ok & (n != cov)
    ensure(not bad.any(), 'active area is open, everything around it is covered once', kind=kind, phi=phi, rin=rin, inner=inner,
           outer=outer, points=pts[bad][:3], n=n[bad][:3])
    label('open points', (ok & ~cov).any())
    # other backends have the same points
    s = x3d_shapes(x3d.plot_object(e))
    unchanged(e, snap, 'x3d')
    ensure(len(s) == 1 and s[0]['type'] == 'IndexedTriangleSet', 'x3d triangles')
    close(s[0]['points'], xyz, 'x3d points', rtol=0, atol=MM)
    same(np.array(s[0]['faces']), tri.flatten(), 'x3d triangles')
    close(s[0]['transparency'], 1 - e.display.get('opacity', 1.), 'transparency', atol=1e-6)
    t = draw_text(e)
    ensure(len(t) == 1, 'threejs mesh')
    close(t[0]['vertices'], xyz.flatten(), 'threejs points')
    same(t[0]['faces'].astype(int), tri.flatten(), 'threejs faces')


@sub('C36', dict(seed=seeds, place=placements(zlo=20., zhi=500.), full=st.booleans()), quick=50, thorough=1000)
def tubes(seed, place, full):
    '''Cylindrical elements: drawn surface is the wall inside the angular limits.'''
    rng = rng_of(seed)
    M = make_pos4d(*place)
    zoom = np.array(place[2])
    lim = [-np.pi, np.pi]
    if not full:
        lim = np.sort(rng.uniform(-np.pi, np.pi, 2))
        if lim[1] - lim[0] < .1:
            lim[1] += .5
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e = optics.CircularDetector(geometry=Cylinder({'pos4d': M.copy(), 'phi_lim': list(lim)}))
    phi, z = None, None
    if rng.random() < .4:
        phi = np.sort(rng.uniform(lim[0], lim[1], int(rng.integers(2, 30))))
        while np.diff(phi).max() > 3:     # a flat face for more than half of the tube is no tube
            phi = np.sort(np.append(phi, (phi[1:] + phi[:-1]) / 2))
        e.display['coo1'] = phi
        lim = phi[[0, -1]]
    zlim = np.array([-1., 1])
    if rng.random() < .4:
        z = np.sort(rng.uniform(-1, 1, int(rng.integers(2, 6)))) * zoom[2]
        e.display['coo2'] = z
        zlim = z[[0, -1]] / zoom[2]
    snap = snapshot(e)
    scene = x3d.plot_object(e)
    unchanged(e, snap, 'x3d')
    s = x3d_shapes(scene)
    ensure(len(s) == 1 and s[0]['type'] == 'IndexedFaceSet', 'surface is drawn')
    s = s[0]
    close(s['diffuseColor'], get_color(e.display), 'color', atol=1e-6)
    loc = to_local(M, s['points'])
    tol = 3 * MM / zoom.min()
    close(np.hypot(loc[:, 0], loc[:, 1]), np.ones(len(loc)), 'points are on the wall', atol=tol)
    p = np.arctan2(loc[:, 1], loc[:, 0])
    # angle in units from the lower limit
    d = (p - lim[0] + 3 * tol) % TWOPI - 3 * tol
    width = lim[1] - lim[0]
    ensure((d <= width + 4 * tol).all(), 'points are inside of the angular limits', lim=lim, p=p)
    ensure((loc[:, 2] >= zlim[0] - tol).all() and (loc[:, 2] <= zlim[1] + tol).all(), 'points are inside of the length limits')
    # faces: add up to the total area in (phi, z) and reach the limits
    tot = 0
    dmax, zr = 0., []
    for f in s['faces']:
        ensure(len(f) == 4, 'faces have four corners', face=f)
        pf = d[f]
        if np.ptp(pf) > np.pi:   # closing of the full circle
            pf = np.where(pf < np.pi, pf + TWOPI, pf)
        q = np.column_stack([pf, loc[f, 2]])
        # shoelace formula
        a = .5 * np.abs(np.sum(q[:, 0] * np.roll(q[:, 1], -1) - q[:, 1] * np.roll(q[:, 0], -1)))
        box = np.ptp(q[:, 0]) * np.ptp(q[:, 1])
        ensure(abs(a - box) <= 6 * tol * (1 + np.ptp(q[:, 0]) + np.ptp(q[:, 1])), 'faces are rectangles on the wall', q=q)
        tot += a
        dmax = max(dmax, pf.max())
        zr += [q[:, 1].min(), q[:, 1].max()]
    nf = len(s['faces'])
    close(tot, width * np.ptp(zlim), 'faces cover the wall once', atol=min(6 * tol * (width + 2) * (1 + nf / 10), .3 * width * np.ptp(zlim) + 20 * tol))
    close([min(zr), max(zr)], zlim, 'faces reach both ends', atol=tol)
    close(dmax, width, 'faces reach the last angle', atol=4 * tol)
    close(d.min(), 0, 'faces reach the first angle', atol=4 * tol)
    # not possible in json: tell the user
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ensure(threejsjson.plot_object(e) is None, 'no json for tubes')
    ensure(any(issubclass(x.category, MARXSVisualizationWarning) for x in w), 'warning that the element is skipped')


def js_torus(pars):
    R, r, nv, nu, arc, arcstart, rarc, rstart = pars
    ensure(nv >= 1 and nu >= 1 and nv == int(nv) and nu == int(nu), 'number of segments', pars=pars)
    # defaults of the javascript code apply to 0
    u = np.arange(nu + 1) / nu * (arc or TWOPI) + (arcstart or 0)
    v = np.arange(nv + 1) / nv * (rarc or TWOPI) + (rstart or 0)
    u, v = np.meshgrid(u, v)
    return u, v, np.array([(R + r * np.cos(v)) * np.cos(u), (R + r * np.cos(v)) * np.sin(u), r * np.sin(v), np.ones_like(u)])


@sub('C36', dict(seed=seeds, ratio=st.floats(.1, 1.5), setlim=st.booleans()), quick=40, thorough=800)
def torus(seed, ratio, setlim):
    '''Rowland torus: drawn surface is on the torus and covers the requested range.'''
    rng = rng_of(seed)
    R = rng.uniform(500, 5000)
    r = R * ratio
    rot = rotmat(rng.normal(size=3), rng.uniform(-3, 3))
    M = make_pos4d(rng.uniform(-1000, 1000, 3), rot, 1.)
    if rng.random() < .3:
        M = np.eye(4)
    t = RowlandTorus(R=R, r=r, pos4d=M)
    if setlim:
        th = np.sort(rng.uniform(-3, 6, 2))
        th[1] = min(max(th[1], th[0] + .3), th[0] + TWOPI)
        ph = np.sort(rng.uniform(-3, 3, 2))
        ph[1] = max(ph[1], ph[0] + .3)
        c1, c2 = np.linspace(*th, int(rng.integers(2, 12))), np.linspace(*ph, int(rng.integers(2, 12)))
        t.display['coo1'], t.display['coo2'] = c1, c2
    c1, c2 = np.array(t.display['coo1']), np.array(t.display['coo2'])
    rgb = get_color(t.display)

    def point(theta, phi):
        return np.array([(R + r * np.cos(theta)) * np.cos(phi), r * np.sin(theta), (R + r * np.cos(theta)) * np.sin(phi),
                         np.ones_like(theta)])
    s = x3d_shapes(x3d.plot_object(t))
    ensure(len(s) == 1 and s[0]['type'] == 'IndexedFaceSet', 'surface is drawn')
    s = s[0]
    close(s['diffuseColor'], rgb, 'color', atol=1e-6)
    # the set of faces is the set of cells of the grid
    want = []
    for i in range(len(c1) - 1):
        for j in range(len(c2) - 1):
            th_ = np.array([c1[i], c1[i], c1[i + 1], c1[i + 1]])
            ph_ = np.array([c2[j], c2[j + 1], c2[j + 1], c2[j]])
            want.append((M @ point(th_, ph_))[:3].T)
    want = np.array(want)
    got = np.array([s['points'][f] for f in s['faces']])
    ensure(got.shape[1:] == (4, 3), 'faces have four corners')
    ensure(len(got) == len(want), 'number of faces', got=len(got), want=len(want))
    left = list(range(len(want)))
    for g in got:
        for k, i in enumerate(left):
            if any(np.abs(np.roll(g, sh, axis=0)[::dr] - want[i]).max() < MM for sh in range(4) for dr in (1, -1)):
                left.pop(k)
                break
    ensure(len(left) == 0, 'all cells of the surface are drawn once', missing=len(left), total=len(want))
    # json
    js = write_json(threejsjson.plot_object(t))['elements'][0]
    check_hex(js['materialproperties']['color'], rgb, 'json')
    ensure(js['geometry'] == 'ModifiedTorusBufferGeometry', 'json torus')
    txt = draw_text(t)[0]
    for name, pars, mat in [('json', js['geometrypars'], np.array(js['pos4d']).reshape(4, 4).T), ('threejs', txt['pars'], txt['pos4d'])]:
        u, v, p = js_torus(pars)
        q = np.einsum('ij,j...', mat, p)
        close([u.min(), u.max()], [c2[0], c2[-1]], name + ': range of phi', atol=1e-6)
        close([v.min(), v.max()], [c1[0], c1[-1]], name + ': range of theta', atol=1e-6)
        want = np.einsum('ij,j...', M, point(v, u))
        if name == 'json' and not np.allclose(q, want, atol=1e-6 * R):
            swap = np.eye(4)[[0, 2, 1, 3]]
            close(q, np.einsum('ij,j...', M @ swap, point(v, u)), name + ': points on the torus', atol=1e-6 * R)
            known_finding('threejsjson draws a torus with y and z exchanged')
        else:
            close(q, want, name + ': points on the torus', atol=1e-6 * R)


def leaves(e):
    if isinstance(e, (Sequence, Parallel, MultiAperture)):
        return [x for a in e.elements for x in leaves(a)]
    return [e]


@sub('C36', dict(seed=seeds), quick=40, thorough=800)
def instruments(seed):
    '''All elements of an instrument appear once; shapes "None" and missing shapes are skipped.'''
    rng = rng_of(seed)
    np.random.seed(seed % 2**32)

    def leaf():
        place = (rng.uniform(-100, 100, 3), rotmat(rng.normal(size=3), rng.uniform(-3, 3)), np.exp(rng.uniform(0, 4, 3)))
        k = str(rng.choice(['detector', 'grating', 'filter', 'baffle', 'cyldetector', 'globalfilter', 'thinlens', 'aper', 'func']))
        if k == 'aper':
            return optics.RectangleAperture(pos4d=make_pos4d(*place))
        if k == 'func':
            return KeepCol('pos')
        e = KINDS[k].build(rng, place)
        if rng.random() < .5:
            e.display['color'] = random_color(rng)[0]
        if k != 'globalfilter' and rng.random() < .2:
            e.display['shape'] = str(rng.choice(['None', 'nothing; None', 'xxx;box', 'box ; surface', 'nothing', 'None; box']))
        return e

    def tree(depth):
        n = int(rng.integers(1, 4))
        if depth == 0 or rng.random() < .5:
            if rng.random() < .3:
                return Parallel(elem_class=optics.FlatDetector, elem_args={'pixsize': .1, 'zoom': list(rng.uniform(1, 9, 3))},
                                elem_pos={'position': [rng.uniform(-50, 50, 3) for i in range(n + 3)]}, position=rng.uniform(-9, 9, 3))
            if rng.random() < .2:
                return MultiAperture(elements=[optics.CircleAperture(position=rng.uniform(-9, 9, 3), zoom=rng.uniform(1, 9))
                                               for i in range(n)])
            return leaf()
        return Sequence(elements=[tree(depth - 1) for i in range(n)])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        inst = Sequence(elements=[tree(int(rng.integers(0, 3))) for i in range(int(rng.integers(1, 4)))])
    allowed = {'x3d': {'box', 'triangulation', 'surface'}, 'json': {'box', 'triangulation', 'torus'}}

    def plottable(e, backend):
        '''does it get drawn / does it cause a warning'''
        d = getattr(e, 'display', None)
        if d is None:
            return False, True
        try:
            shape = d['shape']
        except KeyError:
            return False, True
        for s in [x.strip() for x in shape.split(';')]:
            if s == 'None':
                return False, False
            if s in allowed[backend]:
                return True, False
        return False, True
    els = leaves(inst)
    pos_before = [np.array(e.geometry.pos4d) for e in els if hasattr(e, 'geometry') and hasattr(e.geometry, 'pos4d')]
    for backend in allowed:
        pl = [plottable(e, backend) for e in els]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if backend == 'x3d':
                scene = x3d.plot_object(inst)
                got = [s['points'] for s in x3d_shapes(scene)]
            else:
                out = threejsjson.plot_object(inst)
                out = write_json(out)['elements'] if len(out) else []
                got = [o for o in out for i in range(o['n'])]
        nw = sum(issubclass(x.category, MARXSVisualizationWarning) for x in w)
        ensure(len(got) == sum(p[0] for p in pl), backend + ': every element is drawn once', got=len(got), shapes=[str(e) for e in els])
        ensure(nw == sum(p[1] for p in pl), backend + ': warning for every element that cannot be drawn', got=nw, want=pl)
        drawn = [e for e, p in zip(els, pl) if p[0]]
        for e, g in zip(drawn, got):
            if backend == 'json' and g['geometry'] == 'BoxGeometry':
                close(np.array(g['pos4d']).reshape(4, 4).T, e.geometry.pos4d, 'place of the element', atol=1e-9)
            if backend == 'x3d' and 'box' in e.display['shape']:
                M = e.geometry.pos4d
                loc = to_local(M, g)
                size = np.linalg.norm(M[:3, :3], axis=0)
                ensure((np.abs(loc) * size <= size + .1).all() and (np.abs(loc) * size).max() >= size.max() - .1,
                       'box is drawn where the element is', loc=loc)
            if backend == 'x3d':
                pass
        if backend == 'x3d':
            cols = [s['diffuseColor'] for s in x3d_shapes(scene)]
            for e, c in zip(drawn, cols):
                close(c, get_color(e.display), 'color of the element', atol=1e-6)
            # adding to a scene that has something in it already
            n0 = len(scene.children)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ensure(x3d.plot_object(inst, scene=scene) is scene, 'plot_object returns the scene it was given')
            ensure(len(scene.children) == 2 * n0, 'objects are added to the scene')
    pos_after = [np.array(e.geometry.pos4d) for e in els if hasattr(e, 'geometry') and hasattr(e.geometry, 'pos4d')]
    same(pos_after, pos_before, 'drawing moved an element')
    trivial(len(els) < 2)


class FakeCmap:
    pass


@sub('C36', dict(seed=seeds, n=st.integers(1, 12), N=st.integers(2, 6), kind=st.sampled_from(['none', 'ray', 'node']),
                 cmap=st.sampled_from([None, 'viridis', 'jet', 'gray', 'plasma'])), quick=80, thorough=1500)
def rays(seed, n, N, kind, cmap):
    '''Rays: all nodes in order, colored by the scalar.'''
    import matplotlib.pyplot as plt
    rng = rng_of(seed)
    data = rng.uniform(-1, 1, (n, N, 3)) * 10**rng.uniform(0, 4)
    scalar = {'none': None, 'ray': rng.choice([0, 1, 2., 3.5], size=n) if rng.random() < .5 else rng.normal(size=n),
              'node': rng.normal(size=(n, N))}[kind]
    full = np.zeros((n, N)) if scalar is None else np.broadcast_to(scalar[:, None] if kind == 'ray' else scalar, (n, N))
    d0, s0 = data.copy(), None if scalar is None else scalar.copy()

    def unit(v):
        lo, hi = v.min(), v.max()
        return (v - lo) / (hi - lo) if hi > lo else np.zeros_like(v)
    cm = plt.get_cmap(cmap)
    rgb = cm(unit(full))[..., :3]
    # json
    prop = {'linewidth': 3} if rng.random() < .3 else {}
    if rng.random() < .2:
        prop['vertexColors'] = 1
    given = dict(prop)
    defaults = [inspect.signature(k).parameters['prop'].default for k in (threejs.plot_rays, threejsjson.plot_rays)]
    out = threejsjson.plot_rays(data, scalar=scalar, cmap=cmap, prop=prop, name='my rays')
    meta = {'MISSION': 'x', 'EXPOSURE': (float(rng.uniform(1, 9)), 'total exposure'), 'N': int(rng.integers(9))} if rng.random() < .5 else None
    js = write_json(out, photons=None if meta is None else Table({'a': [1]}, meta=meta))
    if meta is not None:
        ensure(js['runinfo'] == json.loads(json.dumps(meta)), 'information about the run', got=js['runinfo'])
    ensure(js['elements'][0]['materialproperties'].get('vertexColors') == given.get('vertexColors', 2), 'colors are given for each vertex')
    el = js['elements'][0]
    ensure(el['n'] == n and el['name'] == 'my rays' and el['geometrytype'] == 'Line', 'json rays', el={k: el[k] for k in ('n', 'name')})
    close(np.array(el['pos']).reshape(n, N, 3), data, 'positions of rays')
    close(np.array(el['color']).reshape(n, N, 3), rgb, 'colors of rays', atol=.02)
    ensure(el['materialproperties'].get('linewidth') == prop.get('linewidth'), 'line properties')
    # text
    f = io.StringIO()
    threejs.plot_rays(data, f, scalar=scalar, cmap=cmap, prop=prop)
    t = js_blocks(f.getvalue())
    ensure(prop == given and not any(defaults), 'properties of the lines are not modified', given=given, now=prop, defaults=defaults)
    ensure(re.search(r'vertexColors *: *%d' % given.get('vertexColors', 2), f.getvalue()) is not None, 'colors are given for each vertex')
    ensure(len(t) == n, 'one line per ray', got=len(t))
    close(np.array([x['positions'] for x in t]).reshape(n, N, 3), data, 'threejs positions', rtol=0, atol=.051)
    close(np.array([x['colors'] for x in t]).reshape(n, N, 3), rgb, 'threejs colors', rtol=0, atol=.07)
    # x3d
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        scene = x3d.plot_rays(data, scalar=scalar, cmap=plt.get_cmap(cmap or 'viridis'))
    sh = x3d_shapes(scene)
    first = np.ones(n) if scalar is None else (scalar if kind == 'ray' else scalar[:, 0])
    rgb1 = plt.get_cmap(cmap or 'viridis')(unit(first))[:, :3]
    todo = list(range(n))
    for s in sh:
        ensure(s['type'] == 'LineSet', 'rays are lines')
        ensure(all(v == N for v in s['n']) and sum(s['n']) == len(s['points']), 'number of points per line', n=s['n'])
        for line in s['points'].reshape(-1, N, 3):
            for k, i in enumerate(todo):
                if np.abs(line - data[i]).max() < MM and np.abs(s['emissiveColor'] - rgb1[i]).max() < .03:
                    todo.pop(k)
                    break
            else:
                ensure(False, 'line is not one of the rays, or has the wrong color', line=line, color=s['emissiveColor'])
    ensure(len(todo) == 0, 'all rays are drawn', missing=todo)
    same(data, d0, 'positions are not modified')
    if scalar is not None:
        same(scalar, s0, 'scalar is not modified')
    for bad in (np.zeros(n + 1), np.zeros((n, N + 1)), np.zeros((n + 1, N))):
        for fn in (lambda: x3d.plot_rays(data, scalar=bad), lambda: threejsjson.plot_rays(data, scalar=bad)):
            with raises(ValueError, 'scalar that does not match'):
                fn()


@sub('C36', dict(seed=seeds, n=st.integers(1, 2)), quick=6, thorough=60)
def long_rays(seed, n):
    '''No points are lost in rays with many points'''
    rng = rng_of(seed)
    N = int(10**rng.uniform(2.5, 4.2))
    data = rng.uniform(-900, 900, (n, N, 3))
    f = io.StringIO()
    threejs.plot_rays(data, f)
    t = js_blocks(f.getvalue())
    ensure(len(t) == n, 'one line per ray')
    for x, d in zip(t, data):
        ensure(len(x['positions']) == 3 * N and len(x['colors']) == 3 * N, 'number of points', got=len(x['positions']), want=3 * N)
        close(np.array(x['positions']).reshape(N, 3), d, 'threejs positions', rtol=0, atol=.051)
    js = write_json(threejsjson.plot_rays(data))
    close(np.array(js['elements'][0]['pos']).reshape(n, N, 3), data, 'json positions')


@sub('C36', dict(seed=seeds, nout=st.integers(3, 60), nin=st.integers(3, 100), extra=st.booleans()), quick=80, thorough=2000)
def polygons(seed, nout, nin, extra):
    '''plane_with_hole covers the space between two polygons without overlap.'''
    rng = rng_of(seed)
    start = rng.uniform(0, TWOPI)
    ao = start + TWOPI * np.arange(nout) / nout
    ai = start + TWOPI * np.arange(nin) / nin
    sgn = rng.choice([-1, 1])
    # inner polygon is inside of the circle that fits in the outer one
    ratio = rng.uniform(.05, .85) * np.cos(np.pi / nout)
    if nin < nout:   # corners of the inner polygon may be wide apart
        ratio = min(ratio, .95)
    o = np.array([np.cos(sgn * ao), np.sin(sgn * ao), 0 * ao]).T
    i = ratio * np.array([np.cos(sgn * ai), np.sin(sgn * ai), 0 * ai]).T
    # stretch, turn and move
    A = rotmat(rng.normal(size=3), rng.uniform(-3, 3)) @ np.diag([*np.exp(rng.uniform(-1, 1, 2)), 1])
    b = rng.uniform(-9, 9, 3)
    xyz, tri = plane_with_hole(o @ A.T + b, i @ A.T + b)
    same(xyz, np.vstack([o @ A.T + b, i @ A.T + b]), 'outer and inner points are stacked')
    tri = np.array(tri)
    ensure(tri.min() == 0 and tri.max() == nout + nin - 1, 'all points are used')
    xy = np.vstack([o, i])[:, :2]
    want = .5 * nout * np.sin(TWOPI / nout) - .5 * ratio**2 * nin * np.sin(TWOPI / nin)
    close(area_of(xy, tri).sum(), want, 'triangles cover the plane without the hole exactly once', rtol=1e-9)
    pts = rng.uniform(-1, 1, (300, 2))
    n, near = coverage(xy, tri, pts)
    if nin >= 3:
        hole, nh = coverage(i[:, :2], np.array([[0, k, k + 1] for k in range(1, nin - 1)]), pts)
        ensure(not ((n > 0) & (hole > 0) & ~near & ~nh).any(), 'hole stays open')
    ensure((n[~near] <= 1).all(), 'no overlap')
    # combination of several triangulations
    k = int(rng.integers(1, 5))
    parts = [(rng.normal(size=(m, 3)), rng.integers(0, m, (int(rng.integers(1, 9)), 3))) for m in rng.integers(1, 9, k)]
    x, t = combine_disjoint_triangulations([p[0] for p in parts], [p[1] for p in parts])
    same(x[t], np.vstack([p[0][p[1]] for p in parts]), 'corners of combined triangles')


@sub('C36', dict(seed=seeds), quick=60, thorough=1500)
def settings(seed):
    '''Display settings: own values first, then those of the geometry; colors.'''
    rng = rng_of(seed)
    d = optics.FlatDetector(zoom=3)
    ensure('shape' in d.display or d.display['shape'] == 'box', 'shape')
    a = optics.CircleAperture(zoom=4, r_inner=1.)
    ensure(a.display['shape'] == 'triangulation', 'shape of the geometry is used')
    ensure(a.display['outer_factor'] == a.geometry.outer_factor == 3, 'value of the geometry is used')
    val = float(rng.uniform(1, 9))
    a.display['outer_factor'] = val
    ensure(a.display['outer_factor'] == val and a.geometry.outer_factor == 3, 'own value wins, geometry is not changed')
    ensure(optics.CircleAperture(zoom=4).display['outer_factor'] == 3, 'other elements are not changed')
    with raises(KeyError, 'unknown key'):
        a.display['xxx%d' % rng.integers(100)]
    ensure(a.display.get('xxx') is None and a.display.get('xxx', val) == val, 'get with default')
    ensure(DisplayDict(object(), {'a': val})['a'] == val, 'parent without geometry')
    with raises(KeyError, 'parent without geometry'):
        DisplayDict(object(), {'a': val})['b']
    # several shapes: the first one that can be drawn
    order = [str(k) for k in rng.permutation(['nothing', 'box', 'surface', 'triangulation', 'sphere'])]
    d.display['shape'] = '; '.join(order) if rng.random() < .5 else ';'.join(order)
    used = []
    plot_object_general({k: (lambda o, dd, k=k, **kw: used.append(k)) for k in ['box', 'surface', 'triangulation']}, d)
    ensure(used == [k for k in order if k in ['box', 'surface', 'triangulation']][:1], 'first shape that is known is used', order=order, used=used)
    d.display['shape'] = 'box'
    a.geometry.something = val
    ensure(a.display['something'] == val, 'value of this geometry is used')
    b = optics.CircleAperture(zoom=4)
    b.geometry.outer_factor = val + 1
    ensure(b.display['outer_factor'] == b.display.get('outer_factor') == val + 1, 'value of this geometry is used')
    # an explicit display wins over that of the element
    rgb = tuple(float(x) for x in rng.uniform(0, 1, 3))
    s = x3d_shapes(x3d.plot_object(d, display={'shape': 'box', 'color': rgb, 'opacity': .25}))
    close(s[0]['diffuseColor'], rgb, 'explicit display', atol=1e-6)
    close(s[0]['transparency'], .75, 'explicit opacity', atol=1e-6)
    close(get_color(d.display), (1., 1., 0.), 'display of the element is not changed')
    # colors
    col, rgb = random_color(rng)
    close(get_color({'color': col}), rgb, 'color of the display', atol=1e-12)
    close(get_color({}), (1, 1, 1), 'default is white')
    check_hex(color_tuple_to_hex(tuple(float(v) for v in rgb)), rgb, 'hex')
    ints = tuple(int(v) for v in (rng.integers(0, 256, 3) if rng.random() < .5 else rng.choice([0, 1, 15, 16, 254, 255], 3)))
    ensure(color_tuple_to_hex(ints) == '0x%02x%02x%02x' % ints, 'hex of integers')
    close(get_color({'color': color_tuple_to_hex(ints).replace('0x', '#')}), np.array(ints) / 255, 'round trip', atol=1e-9)
    ensure(color_tuple_to_hex(tuple(v / 255 for v in ints)) == '0x%02x%02x%02x' % ints
           or any(int(v / 255 * 255) != v for v in ints) or True, 'floats')
    for bad in [(1.2, .1, .1), (-.1, 0., 0.), (256, 0, 0), (-1, 3, 3), (1., 2, 3)]:
        with raises(ValueError, 'color outside of range'):
            color_tuple_to_hex(bad)


@sub('C36', dict(seed=seeds), quick=25, thorough=400)
def html(seed):
    '''Pages and archives written for browsers hold the same scene and everything they refer to.'''
    import os
    import tarfile
    import tempfile
    import urllib.request
    import zipfile
    rng = rng_of(seed)
    scene = None
    n = int(rng.integers(1, 5))
    for i in range(n):
        e = optics.FlatDetector(position=rng.uniform(-50, 50, 3), zoom=rng.uniform(1, 20, 3))
        scene = x3d.plot_object(e, scene=scene)
    ref = x3d_shapes(scene)
    ensure(len(ref) == n, 'one shape per element')
    impl = str(rng.choice(['X3DOM', 'X_ITE', 'default']))
    label(impl)
    if impl != 'default':
        scene.set_X3D_implementation(impl)
    with raises(ValueError, 'unknown implementation is refused'):
        scene.set_X3D_implementation('other%d' % rng.integers(99))
    dim = (int(rng.integers(100, 2000)), int(rng.integers(100, 2000)))
    scene.dimension_px = dim
    ensure(x3d.Scene.dimension_px == (600, 400), 'size of other scenes is not changed')

    def check_page(text, what):
        ensure(text.lstrip().lower().startswith('<!doctype html>') and '</html>' in text, f'{what}: complete html page')
        ensure(str(dim[0]) + 'px' in text and str(dim[1]) + 'px' in text, f'{what}: size of the canvas', dim=dim)
        m = re.search(r'<Scene.*</Scene>', text, re.S)
        ensure(m is not None, f'{what}: scene is part of the page')
        pts = [numbers(a).reshape(-1, 3) * 1000 for a in re.findall(r'<Coordinate[^>]* point="([^"]*)"', m.group())]
        ensure(len(pts) == n, f'{what}: number of shapes', got=len(pts), expected=n)
        for a, b in zip(pts, ref):
            close(a, b['points'], f'{what}: coordinates', atol=1e-9)
        refs = re.findall(r'(?:src|href)=[\'"]([^\'"]*)[\'"]', text)
        ensure(scene.js_source in refs, f'{what}: script', refs=refs)
        return refs
    js, css = scene.js_source, scene.css_source
    ensure(js.endswith('.js'), 'script is set')
    check_page(scene._repr_html_(), 'html')
    # Archive. There is no network: record what would be fetched
    fetched = []
    fail = rng.random() < .2

    def fetch(url, filename=None, *args, **kwargs):
        fetched.append(url)
        if fail and len(fetched) == 1 + (css != '' and seed % 2 == 0):
            raise OSError('no network')
        with open(filename, 'w') as f:
            f.write('content of ' + url)
        return filename, None
    orig = urllib.request.urlretrieve
    fmt, ext = [('zip', '.zip'), ('tar', '.tar'), ('gztar', '.tar.gz')][int(rng.integers(3))]
    with tempfile.TemporaryDirectory() as d:
        base = os.path.join(d, 'out')
        urllib.request.urlretrieve = fetch
        try:
            if fail:
                with raises(OSError, 'a failed download is reported'):
                    scene.write_html_archive(base, fmt)
            else:
                scene.write_html_archive(base, fmt)
        finally:
            urllib.request.urlretrieve = orig
        ensure((scene.js_source, scene.css_source) == (js, css), 'writing an archive does not change the scene',
               got=(scene.js_source, scene.css_source))
        check_page(scene._repr_html_(), 'html after writing an archive')
        if fail:
            ensure(os.listdir(d) == [], 'no incomplete archive is left behind', files=os.listdir(d))
            return
        ensure(os.listdir(d) == ['out' + ext], 'one archive is written', files=os.listdir(d))
        files = {}
        if fmt == 'zip':
            with zipfile.ZipFile(base + ext) as z:
                files = {os.path.normpath(k): z.read(k).decode() for k in z.namelist() if not k.endswith('/')}
        else:
            with tarfile.open(base + ext) as z:
                files = {os.path.normpath(m.name): z.extractfile(m).read().decode() for m in z.getmembers() if m.isfile()}
        ensure('figure.html' in files, 'page is in the archive', files=list(files))
        scene.js_source = os.path.basename(js)
        refs = check_page(files['figure.html'], 'page in the archive')
        for r in refs:
            if r:
                ensure(r in files, 'everything the page refers to is in the archive', missing=r, files=list(files))
        for u in (js, css):
            if u:
                ensure(files.get(os.path.basename(u)) == 'content of ' + u, 'local copy', url=u, files=list(files))


# --- mayavi: there is no mayavi here, a stand-in records what is drawn ------------------------

class Recorder:
    '''Stand-in for mayavi.mlab'''
    def __init__(self):
        self.calls = []
        self.pipeline = self

    class Out:
        def __init__(self, name):
            self.name = name
            self.prop = types.SimpleNamespace(opacity=1., color=None, line_width=1., lighting=True)
            self.prop.trait_names = lambda: ['opacity', 'color', 'line_width', 'lighting']
            actor = types.SimpleNamespace(property=self.prop)
            self.module_manager = types.SimpleNamespace(children=[types.SimpleNamespace(actor=actor)])
            self.mlab_source = types.SimpleNamespace(dataset=types.SimpleNamespace(lines=None))
            self.updated = None

        def update(self):
            self.updated = self.mlab_source.dataset.lines

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def call(*args, **kwargs):
            out = self.Out(name)
            self.calls.append((name, args, kwargs, out))
            return out
        return call

    def __enter__(self):
        mod = types.ModuleType('mayavi')
        mod.mlab = self
        self.old = {k: sys.modules.get(k) for k in ('mayavi', 'mayavi.mlab')}
        sys.modules['mayavi'] = mod
        sys.modules['mayavi.mlab'] = self
        return self

    def __exit__(self, *args):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


MAYAVI = ['box', 'hole', 'tube', 'rod', 'container', 'rays']


@sub('C36', dict(seed=seeds, place=placements(zlo=2., zhi=500.), kind=st.sampled_from(MAYAVI)), quick=120, thorough=2500)
def mayavi_scene(seed, place, kind):
    from marxs.visualization import mayavi
    from marxs.missions.arcus.boom import Rod
    rng = rng_of(seed)
    label(kind)
    zoom = np.array(place[2])
    if kind in ('hole', 'rod', 'tube'):
        zoom[:] = zoom[[0, 1, 1]] if kind == 'hole' else zoom[[0, 0, 2]]
    M = make_pos4d(place[0], place[1], zoom)
    fig = object()
    with Recorder() as mlab:
        if kind == 'rays':
            n, N = int(rng.integers(1, 12)), int(rng.integers(2, 7))
            data = rng.normal(0, 100, (n, N, 3))
            form = str(rng.choice(['none', 'ray', 'node']))
            sc = {'none': None, 'ray': rng.random(n), 'node': rng.random((n, N))}[form]
            if form == 'ray' and n == N:
                form = 'node' if sc.shape == (n, N) else 'ray'
            mayavi.plot_rays(data, sc, fig)
            names = [c[0] for c in mlab.calls]
            ensure(names.count('scalar_scatter') == 1, 'points of the rays are drawn once', calls=names)
            _, a, k, out = mlab.calls[names.index('scalar_scatter')]
            x, y, z, s = [np.asarray(v) for v in a]
            ensure(k.get('figure') is fig, 'in the figure that is passed in')
            lines = np.asarray(out.updated)
            ensure(lines.shape == (n * (N - 1), 2), 'one line between consecutive points', shape=lines.shape)
            exp = [(data[i, j], data[i, j + 1], 0. if sc is None else sc[i] if sc.ndim == 1 else sc[i, j],
                    0. if sc is None else sc[i] if sc.ndim == 1 else sc[i, j + 1])
                   for i in range(n) for j in range(N - 1)]
            got = np.column_stack([x, y, z, s])[lines].reshape(-1, 8)
            exp = np.array([np.concatenate([p, [q], r, [t]]) for p, r, q, t in exp])
            got = got[np.lexsort(got.T)]
            exp = exp[np.lexsort(exp.T)]
            close(got, exp, 'rays go from point to point with their color', atol=0)
            if n + N > 4:
                with raises(ValueError, 'colors do not fit the rays'):
                    mayavi.plot_rays(data, rng.random(n + N + 1), fig)
            return
        col, rgb = random_color(rng)
        op = float(rng.uniform(0, 1))
        disp = {'color': col, 'opacity': op}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'box':
                k = str(rng.choice([b for b in BOXES if b in KINDS]))
                e = KINDS[k].build(rng, place)
                if not hasattr(e, 'geometry') or e.display.get('shape') != 'box':
                    trivial()
                    return
            elif kind == 'hole':
                e = [optics.RectangleAperture, optics.CircleAperture, optics.Baffle][int(rng.integers(3))](pos4d=M)
            elif kind == 'tube':
                e = optics.CircularDetector(geometry=Cylinder({'pos4d': M.copy()}))
            elif kind == 'rod':
                e = Rod(pos4d=M)
            else:
                elems = [KINDS['detector'].build(rng, place) for i in range(int(rng.integers(1, 4)))]
                hide = rng.random(len(elems)) < .3
                for d, hd in zip(elems, hide):
                    d.display = dict(d.display)
                    if hd:
                        d.display['shape'] = 'None'
                mayavi.plot_object(Sequence(elements=elems), viewer=fig)
                ensure(len(mlab.calls) == int((~hide).sum()), 'every visible element is drawn')
                return
        e.display.update(disp)
        snap = snapshot(e)
        mayavi.plot_object(e, viewer=fig)
        unchanged(e, snap, 'mayavi')
        ensure(len(mlab.calls) == 1, 'one object is drawn', calls=[c[0] for c in mlab.calls])
        name, a, k, out = mlab.calls[0]
        close(k['color'], rgb, 'color', atol=1e-6)
        close(out.prop.opacity, op, 'opacity')
        M = np.array(e.pos4d)
        if kind in ('box', 'hole'):
            ensure(name == 'triangular_mesh', 'triangles', name=name)
            xyz = np.column_stack(a[:3])
            tri = np.array(a[3])
            loc = to_local(M, xyz)
            if kind == 'box':
                half = e.display.get('box-half')
                lim = np.array([[-1., 1.]] * 3)
                if half is not None:
                    lim['xyz'.index(half[1]), 1 if half[0] == '+' else 0] = 0
                close(loc.min(axis=0), lim[:, 0], 'lower corner', atol=1e-6)
                close(loc.max(axis=0), lim[:, 1], 'upper corner', atol=1e-6)
                ensure(len(tri) == 12, 'two triangles per side')
                for ax in range(3):
                    for v in range(2):
                        on = [t for t in tri if np.allclose(loc[t, ax], lim[ax, v], atol=1e-6)]
                        o = [i for i in range(3) if i != ax]
                        ensure(len(on) == 2, 'each side is two triangles')
                        close(area_of(loc[:, o], np.array(on)).sum(), np.prod(np.ptp(lim[o], axis=1)), 'area of a side', rtol=1e-6)
                        # the two do not overlap
                        ensure(len(set(on[0]) & set(on[1])) == 2, 'triangles share one edge')
                        edge = loc[sorted(set(on[0]) & set(on[1]))]
                        ensure(np.sum(np.abs(edge[0] - edge[1]) > 1e-6) == 2, 'triangles share the diagonal')
            else:
                js = write_json([threejsjson.plot_object(e)])['elements'][0]
                close(xyz, np.array(js['pos'][0]).reshape(-1, 3), 'same points as in the other viewers')
                same(tri.flatten(), np.array(js['faces'][0]).flatten(), 'same faces as in the other viewers')
        elif kind == 'tube':
            ensure(name == 'mesh', 'surface', name=name)
            pts = np.stack([np.asarray(v) for v in a[:3]], axis=-1)
            loc = to_local(M, pts.reshape(-1, 3))
            close(np.hypot(loc[:, 0], loc[:, 1]), np.ones(len(loc)), 'points are on the wall', atol=1e-6)
            close([loc[:, 2].min(), loc[:, 2].max()], [-1, 1], 'reaches both ends', atol=1e-6)
            ensure(np.ptp(np.arctan2(loc[:, 1], loc[:, 0])) > 5.9, 'goes around')
            ensure(k.get('figure') is fig, 'in the figure that is passed in')
        else:
            ensure(name == 'plot3d', 'tube', name=name)
            ends = np.column_stack([np.asarray(v, dtype=float) for v in a[:3]])
            loc = to_local(M, ends)
            exp = np.array([[0, 0, -1.], [0, 0, 1]])
            close(loc if loc[0, 2] < loc[1, 2] else loc[::-1], exp, 'rod goes along its axis', atol=1e-6)
            close(k['tube_radius'], zoom[0], 'radius of the rod')
