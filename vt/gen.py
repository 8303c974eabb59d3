'''Shared generators.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table

seeds = st.integers(0, 2**32 - 1)


def rng_of(seed):
    return np.random.default_rng(seed)


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def logfloats(lo, hi):
    return st.floats(np.log(lo), np.log(hi), allow_nan=False).map(lambda x: float(np.exp(x)))


@st.composite
def unit_vectors(draw):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        i = draw(st.integers(0, 2))
        v = np.zeros(3)
        v[i] = draw(st.sampled_from([1., -1.]))
        return v
    z = draw(floats(-1, 1))
    phi = draw(floats(-np.pi, np.pi))
    s = np.sqrt(max(0., 1 - z * z))
    v = np.array([s * np.cos(phi), s * np.sin(phi), z])
    return v / np.linalg.norm(v)


def rotmat(axis, ang):
    '''Rodrigues formula, independent of the package under test.'''
    a = np.asarray(axis, dtype=float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * (K @ K)


@st.composite
def rotations(draw):
    '''Proper rotation matrix (3, 3)'''
    kind = draw(st.integers(0, 4))
    if kind == 0:
        return np.eye(3)
    if kind == 1:   # a signed permutation with det +1
        p = draw(st.permutations([0, 1, 2]))
        m = np.zeros((3, 3))
        for i, j in enumerate(p):
            m[i, j] = draw(st.sampled_from([1., -1.]))
        if np.linalg.det(m) < 0:
            m[:, 0] *= -1
        return m
    return rotmat(draw(unit_vectors()), draw(floats(-np.pi, np.pi)))


def positions(scale=100.):
    return st.lists(floats(-scale, scale), min_size=3, max_size=3).map(np.array)


def zooms(lo=0.05, hi=50.):
    return st.lists(logfloats(lo, hi), min_size=3, max_size=3).map(np.array)


def make_pos4d(pos, rot, zoom):
    m = np.eye(4)
    m[:3, :3] = np.asarray(rot) @ np.diag(np.ones(3) * zoom)
    m[:3, 3] = pos
    return m


@st.composite
def placements(draw, scale=100., zlo=0.05, zhi=50., same_yz=False):
    '''(position, rotation, zoom(3))'''
    pos = draw(positions(scale))
    rot = draw(rotations())
    zoom = draw(zooms(zlo, zhi))
    if same_yz:
        zoom = np.array([zoom[0], zoom[1], zoom[1]])
    return pos, rot, zoom


def place_kwargs(place, as_matrix):
    pos, rot, zoom = place
    if as_matrix:
        return {'pos4d': make_pos4d(pos, rot, zoom)}
    return {'position': pos, 'orientation': rot, 'zoom': zoom}


def rand_unit(rng, n):
    v = rng.normal(size=(n, 3))
    return v / np.linalg.norm(v, axis=1)[:, None]


def rand_rot(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def perp_unit(rng, d):
    '''random unit vectors perpendicular to the (n, 3) unit vectors d'''
    a = rand_unit(rng, len(d))
    p = a - np.sum(a * d, axis=1)[:, None] * d
    nrm = np.linalg.norm(p, axis=1)
    while np.any(nrm < 1e-3):
        a = rand_unit(rng, len(d))
        p = a - np.sum(a * d, axis=1)[:, None] * d
        nrm = np.linalg.norm(p, axis=1)
    return p / nrm[:, None]


def h(v, w):
    return np.hstack([v, np.full((len(v), 1), float(w))])


def photon_table(rng, pos, dir, energy=None, prob=None, extra=True):
    '''Photon table with the columns a simulation produces.

    pos, dir are (n, 3) arrays; dir is normalised here.
    '''
    n = len(pos)
    dir = dir / np.linalg.norm(dir, axis=1)[:, None]
    if energy is None:
        energy = rng.uniform(0.2, 8., n)
    if prob is None:
        prob = rng.choice([1., 0.5, 0.25, 0., 0.731, 2e-4, 3e-9], size=n)
    t = Table({'pos': h(pos, 1), 'dir': h(dir, 0),
               'energy': np.array(energy, dtype=float),
               'polarization': h(perp_unit(rng, dir), 0),
               'probability': np.array(prob, dtype=float)})
    t['energy'].unit = u.keV
    if extra:
        t['time'] = np.sort(rng.uniform(0, 1000., n))
        t['mytag'] = np.arange(n)
    t.meta['EXPOSURE'] = (1000., 'total exposure time [s]')
    return t


def aimed_rays(rng, n, place, spread=1.3, dist=(1., 300.), maxang=None, near=0.):
    '''Rays that start around an element and are aimed at points in its y,z plane.

    Target points cover ``spread`` times the half sizes of the element, so some
    rays hit and others miss. Returns pos (n, 3), dir (n, 3), target (n, 3)
    '''
    p, rot, zoom = place
    t = rng.uniform(-spread, spread, size=(n, 2)) * zoom[1:]
    target = p + t[:, :1] * rot[:, 1] + t[:, 1:] * rot[:, 2]
    if maxang is None:
        d = rand_unit(rng, n)
        # avoid extreme grazing incidence
        bad = np.abs(d @ rot[:, 0]) < 0.05
        while bad.any():
            d[bad] = rand_unit(rng, bad.sum())
            bad = np.abs(d @ rot[:, 0]) < 0.05
    else:
        a = np.arccos(rng.uniform(np.cos(maxang), 1, n))
        phi = rng.uniform(0, 2 * np.pi, n)
        d = (-np.cos(a)[:, None] * rot[:, 0] + (np.sin(a) * np.cos(phi))[:, None] * rot[:, 1]
             + (np.sin(a) * np.sin(phi))[:, None] * rot[:, 2])
    L = rng.uniform(*dist, size=n)
    if near:     # some start very close to the surface
        m = rng.random(n) < near
        L[m] = 10**rng.uniform(-7, 0, m.sum()) * (rng.choice([-1, 1], m.sum()) if dist[0] < 0 else 1)
    return target - L[:, None] * d, d, target


def no_trend(x, msg):
    '''Random values of the photons in a list do not depend on the place in the list.'''
    from scipy.stats import ks_2samp, rankdata
    from .core import ensure
    x = np.asarray(x, dtype=float)
    n = len(x)
    if n < 300 or len(np.unique(x)) < n / 2:
        return
    r = rankdata(x)
    i = np.arange(n)
    ensure(ks_2samp(x[:n // 2], x[n // 2:]).pvalue > 1e-11, msg + ': changes along the list')
    ensure(ks_2samp(x[::2], x[1::2]).pvalue > 1e-11, msg + ': alternates along the list')
    ensure(abs(np.corrcoef(r, i)[0, 1]) < 8 / np.sqrt(n), msg + ': correlated with place in the list')
    ensure(abs(np.corrcoef(r[1:], r[:-1])[0, 1]) < 8 / np.sqrt(n), msg + ': correlated with the previous photon')


def no_link(x, y, msg):
    '''Two independent random values of the photons in a list: no relation for one photon or its neighbours.'''
    from scipy.stats import rankdata
    from .core import ensure
    x, y = (np.asarray(a, dtype=float) for a in (x, y))
    n = len(x)
    if n < 300 or min(len(np.unique(x)), len(np.unique(y))) < n / 2:
        return
    x, y = ((rankdata(a) - .5) / n - .5 for a in (x, y))
    for a in (x, np.abs(x)):
        for b in (y, np.abs(y)):
            for s in (0, 1, -1):
                r = np.corrcoef(a, np.roll(b, s))[0, 1]
                ensure(abs(r) < 8 / np.sqrt(n), msg + ': the two are correlated', r=r, shift=s)
