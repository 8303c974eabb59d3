'''C01, C02: invariants of photon lists in random instruments.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds, make_pos4d, rotmat
from vt.instr import KINDS, STYLES, beam, place_ahead, parallel_positions
from vt.checks.c03_geometry import plane_oracle, cyl_oracle

from marxs.simulator import Sequence, KeepCol

ALLKINDS = sorted(KINDS)
NONEEDS = [k for k in ALLKINDS if not KINDS[k].needs]


def fill(t, k, rng):
    '''Columns that a kind of element documents as its input (diffraction order).'''
    for c in KINDS[k].needs:
        if c not in t.colnames:
            t[c] = rng.integers(-5, 6, len(t)).astype(float)
        bad = ~np.isfinite(np.asarray(t[c]))
        t[c][bad] = rng.integers(-5, 6, bad.sum())


def invariants(t, before, name):
    n = len(before)
    ensure(len(t) == n, f'{name}: number of photons changed', got=len(t), expected=n)
    for c in ('time', 'energy', 'mytag'):
        same(np.asarray(t[c]), np.asarray(before[c]), f'{name}: column {c} was changed')
    for k, v in before.meta.items():
        ensure(k in t.meta and t.meta[k] == v, f'{name}: header record {k} was lost')
    pos, d = np.asarray(t['pos']), np.asarray(t['dir'])
    pol, prob = np.asarray(t['polarization']), np.asarray(t['probability'])
    ensure(pos.shape == (n, 4) and d.shape == (n, 4) and pol.shape == (n, 4), f'{name}: shapes')
    ensure(np.all(np.isfinite(pos)), f'{name}: position is not finite')
    close(pos[:, 3], np.ones(n), f'{name}: w of position', atol=1e-9)
    ensure(np.all(np.isfinite(d)), f'{name}: direction is not finite')
    close(d[:, 3], np.zeros(n), f'{name}: w of direction', atol=1e-9)
    close(np.linalg.norm(d[:, :3], axis=1), np.ones(n), f'{name}: direction is not a unit vector', atol=1e-8)
    ensure(np.all(np.isfinite(prob)), f'{name}: probability is not a number')
    ensure(np.all((prob >= 0) & (prob <= 1)), f'{name}: probability outside 0..1', got=prob)
    ensure(np.all(prob <= np.asarray(before['probability']) + 1e-12), f'{name}: probability increased')
    live = prob > 0
    ensure(np.all(np.isfinite(pol[live])), f'{name}: polarization is not finite for a detectable photon')
    close(np.linalg.norm(pol[live][:, :3], axis=1), np.ones(live.sum()),
          f'{name}: polarization is not a unit vector', atol=1e-6)
    close(pol[live][:, 3], np.zeros(live.sum()), f'{name}: w of polarization', atol=1e-9)
    close(np.einsum('ij,ij->i', pol[live], d[live]), np.zeros(live.sum()),
          f'{name}: polarization not perpendicular to the ray', atol=1e-6)


def snapshot(t):
    return {c: np.array(t[c]) for c in t.colnames}


@sub('C01', dict(kinds=st.lists(st.sampled_from(ALLKINDS), min_size=1, max_size=7), seed=seeds,
                 n=st.integers(0, 40), style=st.sampled_from(STYLES)), quick=350, thorough=8000)
def random_instrument(kinds, seed, n, style):
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, style)
    invariants(t, t, 'input')
    touched = 0
    for k in kinds:
        place = place_ahead(rng, t)
        e = KINDS[k].build(rng, place)
        fill(t, k, rng)
        before = t.copy()
        pos0 = np.array(t['pos'])
        t = e(t)
        invariants(t, before, k)
        touched += int(np.any(pos0 != np.asarray(t['pos'])))
    trivial(touched == 0)
    label('several elements hit', touched > 1)


@sub('C01', dict(kinds=st.lists(st.sampled_from(NONEEDS), min_size=1, max_size=5), seed=seeds,
                 n=st.integers(1, 30), style=st.sampled_from(STYLES)), quick=80, thorough=2000)
def sequence_equals_steps(kinds, seed, n, style):
    '''A Sequence gives what running its elements one by one gives.'''
    rng = rng_of(seed)
    t = beam(rng, n, style)
    elems = []
    probe = t.copy()
    np.random.seed(seed)
    for k in kinds:
        e = KINDS[k].build(rng, place_ahead(rng, probe))
        elems.append(e)
        probe = e(probe)
    np.random.seed(seed)
    one = t.copy()
    for e in elems:
        one = e(one)
    np.random.seed(seed)
    keep = KeepCol('pos')
    seq = Sequence(elements=elems, postprocess_steps=[keep])
    two = seq(t.copy())
    trivial(np.array_equal(one['pos'], t['pos']))
    ensure(one.colnames == two.colnames, 'columns differ', got=two.colnames, expected=one.colnames)
    for c in one.colnames:
        same(np.asarray(two[c]), np.asarray(one[c]), f'column {c} of sequence and single steps')
    ensure(len(keep.data) == len(elems), 'one record per element')
    same(keep.data[-1], np.asarray(one['pos']), 'last recorded position')


def hits(k, e, place, seed_rng, before):
    '''Oracle: (may be hit, certain that it is missed) for every photon'''
    pos = np.asarray(before['pos'])[:, :3]
    d = np.asarray(before['dir'])[:, :3]
    g = KINDS[k].geom
    if g == 'plane':
        _, pt, loc, hit, clear, sc = plane_oracle(place, pos, d)
        return hit, clear, pt
    if g == 'cyl':
        hit, kk, phi, zl, clear = cyl_oracle(place, None, pos, d)
        return hit, clear, pos + kk[:, None] * d
    p, R, z = place
    hit = np.zeros(len(pos), dtype=bool)
    clear = np.ones(len(pos), dtype=bool)
    for el in parallel_positions(seed_rng, place):
        gl = (p + R @ el[0], R @ el[1], el[2])
        _, pt, loc, h_, c_, sc = plane_oracle(gl, pos, d)
        hit |= h_
        clear &= c_
    return hit, clear, None


@sub('C02', dict(k=st.sampled_from([k for k in ALLKINDS if KINDS[k].geom]), seed=seeds,
                 pre=st.lists(st.sampled_from(ALLKINDS), max_size=2),
                 n=st.integers(1, 60), style=st.sampled_from(STYLES)), quick=500, thorough=10000)
def missing_photons_unchanged(k, seed, pre, n, style):
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, style)
    for q in list(pre) + [k]:
        fill(t, q, rng)
        place = place_ahead(rng, t)
        s2 = int(rng.integers(2**31))
        before = t.copy()
        e = KINDS[q].build(rng_of(s2), place)
        t = e(t)
    hit, clear, pt = hits(k, e, place, rng_of(s2), before)
    miss = clear & ~hit
    sure = clear & hit
    trivial(not miss.any() or not sure.any())
    label('mixed', miss.any() and sure.any())
    for c in before.colnames:
        if KINDS[k].blocks and c == 'probability':
            same(np.asarray(t[c])[miss], np.zeros(miss.sum()), 'blocked photons have probability 0')
            continue
        same(np.asarray(t[c])[miss], np.asarray(before[c])[miss],
             f'{k}: column {c} changed for photons that miss')
    for c in t.colnames:
        if c in before.colnames:
            continue
        v = np.asarray(t[c])
        if v.dtype.kind == 'f':
            ensure(np.all(np.isnan(v[miss])), f'{k}: {c} is set for photons that miss', got=v[miss])
        else:
            ensure(np.all(v[miss] < 0), f'{k}: {c} is set for photons that miss', got=v[miss])
    if sure.any():
        if KINDS[k].geom != 'multi':
            sc = 1 + np.abs(np.asarray(before['pos'])).max() + np.abs(place[0]).max() + place[2].max()
            close(np.asarray(t['pos'])[sure][:, :3], pt[sure],
                  f'{k}: a photon that hits is moved to where it hits', atol=1e-5 * sc)
        idc = getattr(e, 'id_col', None)
        if idc is not None:
            v = np.asarray(t[idc])
            if KINDS[k].geom == 'multi':
                ensure(np.all(v[sure] >= 0), f'{k}: hit photons are marked')
            else:
                ensure(np.all(v[sure] == e.id_num), f'{k}: hit photons are marked with the id of the element',
                       got=v[sure], expected=e.id_num)
        if KINDS[k].blocks:
            same(np.asarray(t['probability'])[sure], np.asarray(before['probability'])[sure],
                 'photons that pass the opening keep their probability')


@sub('C02', dict(k=st.sampled_from([k for k in ALLKINDS if KINDS[k].geom]), seed=seeds,
                 n=st.integers(0, 10)), quick=120, thorough=2000)
def nothing_hit(k, seed, n):
    '''An element behind all rays.'''
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, 'parallel')
    if n:
        d = np.asarray(t['dir'])[0, :3]
        p = np.asarray(t['pos'])[:, :3].mean(axis=0)
    else:
        d, p = np.array([1., 0, 0]), np.zeros(3)
    _, rot, zoom = place_ahead(rng, t)
    place = (p - d * 500, rot, np.ones(3) * 5)
    fill(t, k, rng)
    before = t.copy()
    e = KINDS[k].build(rng, place)
    out = e(t)
    for c in before.colnames:
        if c == 'probability' and KINDS[k].blocks:
            same(np.asarray(out[c]), np.zeros(n), 'all photons are blocked')
        else:
            same(np.asarray(out[c]), np.asarray(before[c]), f'{k}: column {c} changed')
    for c in out.colnames:
        if c not in before.colnames:
            v = np.asarray(out[c])
            ensure(np.all(np.isnan(v)) if v.dtype.kind == 'f' else np.all(v < 0), f'{k}: {c} set')
