'''C05, C06: relations between pairs of simulations.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds, rotations, positions, make_pos4d, rand_rot
from vt.instr import KINDS, STYLES, beam, place_ahead
from vt.checks.c01_table import ALLKINDS, NONEEDS, fill

from marxs.simulator import Sequence, Parallel
from marxs import optics
from marxs.optics.base import photonlocalcoords
from marxs.source import LabPointSourceCone
import astropy.units as u

GEOM = [k for k in ALLKINDS if KINDS[k].geom]
DETERMINISTIC = [k for k in ALLKINDS if not KINDS[k].random]
VECTORS = ('pos', 'dir', 'polarization')


def moved(t, R, T):
    o = t.copy()
    for c in VECTORS:
        v = np.array(t[c])
        v[:, :3] = v[:, :3] @ R.T
        if c == 'pos':
            v[:, :3] += T
        o[c] = v
    return o


def borderline(k, place, t, params_seed, eps=1e-6):
    '''Photons so close to an edge that rounding decides if they hit.'''
    from vt.checks.c01_table import hits
    hit, clear, pt = hits(k, None, place, rng_of(params_seed), t)
    # enlarge: compare with slightly smaller and larger elements
    edge = ~clear
    for f in (1 - eps, 1 + eps):
        h2, c2, _ = hits(k, None, (place[0], place[1], place[2] * f), rng_of(params_seed), t)
        edge |= (h2 != hit)
    return edge


def compare_moved(a, b, R, T, ok, sc, name, noncov, hitmask=None):
    '''a: original, b: moved'''
    ensure(a.colnames == b.colnames, f'{name}: columns differ after moving', got=b.colnames, expected=a.colnames)
    A = moved(a, R, T)
    live = ok & (np.asarray(a['probability']) > 0)
    for c in a.colnames:
        x, y = np.asarray(A[c]), np.asarray(b[c])
        if c == 'pos':
            close(y[ok], x[ok], f'{name}: position does not move with the system', atol=1e-7 * sc)
        elif c in ('dir', 'polarization'):
            m = live if c == 'polarization' else ok
            if noncov > 1:
                continue
            close(y[m], x[m], f'{name}: {c} does not rotate with the system', atol=1e-6 + noncov)
        elif x.dtype.kind == 'f':
            n1, n2 = np.isnan(x[ok]), np.isnan(y[ok])
            same(n2, n1, f'{name}: column {c}: set for other photons after moving')
            close(y[ok][~n2], x[ok][~n1], f'{name}: column {c} changes when the system is moved',
                  rtol=1e-5, atol=1e-6 * sc)
        else:
            same(y[ok], x[ok], f'{name}: column {c} changes when the system is moved')


@sub('C05', dict(k=st.sampled_from(GEOM), seed=seeds, n=st.integers(1, 30), style=st.sampled_from(STYLES),
                 R=rotations(), T=positions(1000.)), quick=500, thorough=10000)
def element_covariance(k, seed, n, style, R, T):
    rng = rng_of(seed)
    t = beam(rng, n, style)
    fill(t, k, rng)
    place = place_ahead(rng, t)
    ps = int(rng.integers(2**31))
    edge = borderline(k, place, t, ps)
    place2 = (R @ place[0] + T, R @ place[1], place[2])
    e1 = KINDS[k].build(rng_of(ps), place)
    e2 = KINDS[k].build(rng_of(ps), place2)
    t2 = moved(t, R, T)
    if edge.any():
        # keep random streams aligned
        t, t2 = t[~edge], t2[~edge]
    trivial(len(t) == 0)
    sc = 1 + np.abs(np.asarray(t['pos'])).max() + np.abs(place[0]).max() + np.abs(T).max() + place[2].max() \
        if len(t) else 1.
    np.random.seed(seed)
    before = t.copy()
    a = e1(t)
    np.random.seed(seed)
    b = e2(t2)
    trivial(np.array_equal(a['pos'], before['pos']))
    label(k)
    ok = np.ones(len(a), dtype=bool)
    # marginal orders (evanescent or not) and photons on a sign change of the order convention
    if 'grat' in k or k in ('cat', 'cats', 'flatstack', 'catstack', 'parallelstack', 'l1'):
        ok &= ~marginal(before, a, b, R)
    compare_moved(a, b, R, T, ok, sc, k, KINDS[k].noncov)
    if KINDS[k].noncov > 1:
        # same deflection angle
        c1 = np.einsum('ij,ij->i', np.asarray(before['dir']), np.asarray(a['dir']))
        c2 = np.einsum('ij,ij->i', np.asarray(moved(before, R, T)['dir']), np.asarray(b['dir']))
        close(c2, c1, f'{k}: deflection angle changes when the system is moved', atol=1e-7)


def marginal(before, a, b, R):
    '''Rays at (almost) normal incidence of which the sign of the order is undefined, or which leave
    (almost) along the surface.'''
    da = np.asarray(a['dir'])[:, :3] @ R.T
    db = np.asarray(b['dir'])[:, :3]
    d0 = np.asarray(before['dir'])[:, :3] @ R.T
    # differences explained by flipping between propagating and evanescent are only
    # accepted if one of the two is unchanged and lost
    pa, pb = np.asarray(a['probability']), np.asarray(b['probability'])
    flip = (pa == 0) != (pb == 0)
    return flip


@sub('C05', dict(kinds=st.lists(st.sampled_from([k for k in GEOM if KINDS[k].noncov < 1e-6 and k in NONEEDS]),
                                min_size=2, max_size=5),
                 seed=seeds, n=st.integers(1, 12), style=st.sampled_from(['cone', 'all']),
                 R=rotations(), T=positions(1000.)), quick=120, thorough=3000)
def instrument_covariance(kinds, seed, n, style, R, T):
    '''Chains; photons whose path passes near an edge are dropped after the fact.'''
    rng = rng_of(seed)
    t = beam(rng, n, style)
    t2 = moved(t, R, T)
    sc = 1 + np.abs(np.asarray(t['pos'])).max() + np.abs(T).max()
    hit = False
    for i, k in enumerate(kinds):
        place = place_ahead(rng, t)
        ps = int(rng.integers(2**31))
        edge = borderline(k, place, t, ps)
        t, t2 = t[~edge], t2[~edge]
        before = t.copy()
        e1 = KINDS[k].build(rng_of(ps), place)
        e2 = KINDS[k].build(rng_of(ps), (R @ place[0] + T, R @ place[1], place[2]))
        np.random.seed((seed + i) % 2**32)
        t = e1(t)
        np.random.seed((seed + i) % 2**32)
        t2 = e2(t2)
        sc = max(sc, 1 + np.abs(np.asarray(t['pos'])).max(initial=0) + np.abs(place[0]).max() + place[2].max())
        hit |= not np.array_equal(before['pos'], t['pos'])
        ok = ~marginal(before, t, t2, R)
        t, t2 = t[ok], t2[ok]
    trivial(not hit)
    compare_moved(t, t2, R, T, np.ones(len(t), dtype=bool), sc * len(kinds), '-'.join(kinds), 1e-5)


# ---------------------------------------------------------------------- C06

def rows_equal(a, ia, b, ib, name, sc):
    cols = [c for c in a.colnames if c in b.colnames]
    for c in set(a.colnames) ^ set(b.colnames):
        # a column is only added when something was hit
        v = np.asarray((a if c in a.colnames else b)[c])[ia if c in a.colnames else ib]
        ensure(np.all(np.isnan(v)) if v.dtype.kind == 'f' else np.all(v < 0),
               f'{name}: column {c} exists only in one of the two lists', got=v)
    for c in cols:
        x, y = np.asarray(a[c])[ia], np.asarray(b[c])[ib]
        if x.dtype.kind == 'f':
            same(np.isnan(y), np.isnan(x), f'{name}: {c} depends on the other photons')
            m = ~np.isnan(x)
            # components of unit vectors do not scale with the size of the system
            atol = 1e-10 if c in ('dir', 'polarization') else 1e-9 * sc
            close(y[m], x[m], f'{name}: {c} depends on the other photons', rtol=1e-9, atol=atol)
        else:
            same(y, x, f'{name}: {c} depends on the other photons')


@sub('C06', dict(kinds=st.lists(st.sampled_from([k for k in DETERMINISTIC if k in NONEEDS or k == 'quality']),
                                min_size=1, max_size=4),
                 seed=seeds, n=st.integers(2, 25), style=st.sampled_from(STYLES),
                 how=st.sampled_from(['permute', 'subset', 'single', 'pieces', 'double'])),
     quick=450, thorough=8000)
def photons_are_independent(kinds, seed, n, style, how):
    rng = rng_of(seed)
    t = beam(rng, n, style)
    if 'quality' in kinds:
        t['order'] = rng.integers(-3, 4, n).astype(float)
        if any(KINDS[k].deflects for k in kinds):
            kinds = [k for k in kinds if k != 'quality'] or ['detector']
    elems = []
    probe = t.copy()
    for k in kinds:
        e = KINDS[k].build(rng, place_ahead(rng, probe))
        elems.append(e)
        probe = e(probe)
    seq = Sequence(elements=elems)
    full = seq(t.copy())
    sc = 1 + np.nanmax(np.abs(np.asarray(full['pos'])))
    trivial(np.array_equal(full['pos'], t['pos']))
    label(how)
    name = '-'.join(kinds)
    if how == 'permute':
        p = rng.permutation(n)
        rows_equal(full, p, seq(t[p]), np.arange(n), name, sc)
    elif how == 'subset':
        p = np.nonzero(rng.random(n) < 0.5)[0]
        rows_equal(full, p, seq(t[p]), np.arange(len(p)), name, sc)
    elif how == 'single':
        i = int(rng.integers(n))
        rows_equal(full, [i], seq(t[i:i + 1]), [0], name, sc)
    elif how == 'double':
        p = np.concatenate([np.arange(n), np.arange(n)])
        rows_equal(full, p, seq(t[p]), np.arange(2 * n), name, sc)
    else:
        cut = int(rng.integers(1, n))
        rows_equal(full, np.arange(cut), seq(t[:cut]), np.arange(cut), name, sc)
        rows_equal(full, np.arange(cut, n), seq(t[cut:]), np.arange(n - cut), name, sc)


@sub('C06', dict(kinds=st.lists(st.sampled_from([k for k in DETERMINISTIC if k in NONEEDS]),
                                min_size=1, max_size=3),
                 seed=seeds, style=st.sampled_from(STYLES)), quick=60, thorough=1500)
def long_lists(kinds, seed, style):
    '''The length of the list makes no difference either.'''
    rng = rng_of(seed)
    n = int(10**rng.uniform(2.3, 4.2))
    t = beam(rng, n, style)
    elems = []
    probe = t[:50].copy()
    for k in kinds:
        e = KINDS[k].build(rng, place_ahead(rng, probe))
        elems.append(e)
        probe = e(probe)
    seq = Sequence(elements=elems)
    full = seq(t.copy())
    sc = 1 + np.nanmax(np.abs(np.asarray(full['pos'])))
    trivial(np.array_equal(full['pos'], t['pos']))
    name = '-'.join(kinds)
    m = int(rng.integers(1, 40))
    # some rows alone, and everything in two pieces
    p = np.concatenate([rng.permutation(n)[:m], [0, n - 1]])
    rows_equal(full, p, seq(t[p]), np.arange(len(p)), name, sc)
    cut = int(rng.integers(1, n))
    rows_equal(full, np.arange(cut), seq(t[:cut]), np.arange(cut), name, sc)
    rows_equal(full, np.arange(cut, n), seq(t[cut:]), np.arange(n - cut), name, sc)


@sub('C06', dict(kinds=st.lists(st.sampled_from(NONEEDS), min_size=1, max_size=4), seed=seeds,
                 n=st.integers(1, 25), style=st.sampled_from(STYLES), twice=st.booleans()), quick=200, thorough=4000)
def repeatable(kinds, seed, n, style, twice):
    '''Same random state and equal input: identical output; elements carry no state between runs.'''
    rng = rng_of(seed)
    t = beam(rng, n, style)
    probe = t.copy()
    builders = []
    elems = []
    for k in kinds:
        place = place_ahead(rng, probe)
        ps = int(rng.integers(2**31))
        e = KINDS[k].build(rng_of(ps), place)
        builders.append((k, ps, place))
        elems.append(e)
        probe = e(probe)
    if twice:       # freshly built instrument
        elems2 = [KINDS[k].build(rng_of(ps), place) for k, ps, place in builders]
    else:           # the same one, used before on something else
        elems2 = elems
        for e in elems2:
            e(beam(rng, 5, 'all'))if not isinstance(e, Parallel) else None
    np.random.seed(seed)
    ref = t.copy()
    a = Sequence(elements=elems)(t)
    np.random.seed(seed)
    b = Sequence(elements=elems2)(ref.copy())
    trivial(np.array_equal(a['pos'], ref['pos']))
    ensure(a.colnames == b.colnames, 'columns differ between identical runs')
    for c in a.colnames:
        same(np.asarray(b[c]), np.asarray(a[c]), f'{c} differs between identical runs', kinds=kinds)


@sub('C06', dict(seed=seeds, n=st.integers(1, 40), k=st.sampled_from(NONEEDS)), quick=100, thorough=1500)
def copies_are_separate(seed, n, k):
    '''Processing a copy leaves the original list untouched.'''
    rng = rng_of(seed)
    t = beam(rng, n, 'cone')
    e = KINDS[k].build(rng, place_ahead(rng, t))
    keep = {c: np.array(t[c]) for c in t.colnames}
    names = list(t.colnames)
    meta = dict(t.meta)
    out = e(t.copy())
    trivial(np.array_equal(out['pos'], keep['pos']))
    ensure(t.colnames == names and dict(t.meta) == meta, f'{k}: original list changed')
    for c in names:
        same(np.asarray(t[c]), keep[c], f'{k}: original column {c} changed')


# ------------------------------------------- elements written by users

class LocalShift(optics.OpticalElement):
    '''Works in local coordinates only.'''
    outcol = 'where'

    def __init__(self, **kwargs):
        self.shift = kwargs.pop('shift')
        self.turn = kwargs.pop('turn')
        super().__init__(**kwargs)

    @photonlocalcoords
    def process_photons(self, photons, *args, **kwargs):
        photons['where'] = np.array(photons['pos'])
        photons['whereto'] = np.array(photons['dir'])
        photons['pos'] = photons['pos'] + self.shift
        photons['dir'] = photons['dir'] @ self.turn.T
        return photons

    def __call__(self, photons):
        return self.process_photons(photons)


@sub('C05', dict(seed=seeds, n=st.integers(0, 12), R=rotations(), T=positions(1000.)), quick=60, thorough=1500)
def local_elements(seed, n, R, T):
    '''Elements that work on coordinates in their own system, as offered by photonlocalcoords.'''
    rng = rng_of(seed)
    t = beam(rng, n, 'all')
    place = (rng.uniform(-50, 50, 3), rand_rot(rng), np.ones(3) * np.exp(rng.uniform(-1, 1)))
    shift = np.append(rng.uniform(-5, 5, 3), 0)
    turn = np.eye(4)
    turn[:3, :3] = rand_rot(rng)
    trivial(n == 0)
    a, b = (LocalShift(pos4d=make_pos4d(*p), shift=shift, turn=turn)
            for p in (place, (R @ place[0] + T, R @ place[1], place[2])))
    t2 = moved(t, R, T)
    sc = 1 + np.abs(np.asarray(t['pos'])).max(initial=0) + np.abs(T).max() + 100
    o, o2 = a(t.copy()), b(t2.copy())
    for c in ('where', 'whereto'):
        close(o2[c], o[c], f'{c}: local coordinates change when the system is moved', atol=1e-9 * sc)
    m = moved(o, R, T)
    for c in VECTORS:
        close(o2[c], m[c], f'{c} does not move with the system', atol=1e-9 * sc)
    # local coordinates are those of the pos4d of the element
    M = make_pos4d(*place)
    for c, w, op in (('pos', 'where', lambda v: v + shift), ('dir', 'whereto', lambda v: v @ turn.T)):
        close(np.asarray(o[w]) @ M.T, t[c], f'{c} seen by the element', atol=1e-9 * sc)
        close(o[c], op(np.asarray(o[w])) @ M.T, f'{c} set by the element', atol=1e-9 * sc)
    for c in t.colnames:
        if c not in VECTORS[:2]:
            same(o[c], t[c], f'{c} is not touched')
    # an element that is moved after it was used
    a.geometry.pos4d = np.array(b.pos4d)
    o3 = a(t2.copy())
    for c in o2.colnames:
        close(np.asarray(o3[c], dtype=float), np.asarray(o2[c], dtype=float), f'{c}: element moved after use', atol=1e-9 * sc)
