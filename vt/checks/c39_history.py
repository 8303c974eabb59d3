'''C39: recorded photon histories are faithful copies of each step.'''
import numpy as np
from hypothesis import strategies as st
from astropy.table import Table

from vt.core import sub, ensure, close, same, raises, trivial, label
from vt.gen import rng_of, seeds, photon_table, rand_unit, h
from vt.instr import KINDS, STYLES, beam, place_ahead

from marxs import optics
from marxs.simulator import KeepCol, Sequence, Parallel, Propagator, propagate

COLS = ['pos', 'dir', 'energy', 'probability', 'polarization', 'mytag']


class Spy:
    '''Records what the table looks like when it is called.'''
    def __init__(self, cols):
        self.cols = cols
        self.seen = []

    def __call__(self, photons):
        self.seen.append({c: np.array(photons[c], copy=True) for c in self.cols})


class Scramble:
    '''A later step that overwrites columns in place.'''
    def __init__(self, seed):
        self.seed = seed

    def __call__(self, photons):
        rng = rng_of(self.seed)
        for c in ['energy', 'probability']:
            photons[c][:] = rng.uniform(0, 1, len(photons))
        photons['pos'][:, :3] += rng.normal(size=3)
        photons['dir'].data[:, :3] = rand_unit(rng, len(photons))
        return photons


class Fresh:
    '''A step that returns a new table.'''
    def __call__(self, photons):
        out = photons.copy()
        photons['pos'][:] = np.nan
        photons['energy'][:] = -1
        return out


@sub('C39', {'seed': seeds, 'n': st.integers(0, 20), 'steps': st.integers(0, 6), 'when': st.sampled_from(['pre', 'post', 'both']),
             'nested': st.booleans()}, quick=150, thorough=4000)
def history_holds_one_copy_per_step(seed, n, steps, when, nested):
    rng = rng_of(seed)
    np.random.seed(seed)
    t = beam(rng, n, STYLES[int(rng.integers(len(STYLES)))])
    # The reference runs first, with a spy in place of the recorders
    def elements(rng):
        out = []
        tt = t.copy()
        for i in range(steps):
            k = rng.integers(6)
            if k == 0:
                out.append(Scramble(int(rng.integers(1000))))
            elif k == 1:
                out.append(Propagator(distance=rng.uniform(-30, 30)))
            elif k == 2:
                out.append(Fresh())
            else:
                name = ['detector', 'filter', 'perfectlens', 'grating', 'baffle', 'parallelgrating'][int(rng.integers(6))]
                out.append(KINDS[name].build(rng, place_ahead(rng, tt)))
            if rng.random() < .8:
                tt = out[-1](tt.copy())
        return out
    elems = elements(rng_of(seed + 1))
    pre, post = Spy(COLS), Spy(COLS)
    kpre = [KeepCol(c) for c in COLS]
    kpost = [KeepCol(c) for c in COLS]
    kw = {}
    if when != 'post':
        kw['preprocess_steps'] = [pre] + kpre
    if when != 'pre':
        kw['postprocess_steps'] = kpost + [post]
    inst = Sequence(elements=elems, **kw)
    if nested:
        inst = Sequence(elements=[inst, Scramble(5)])
    inst(t.copy())
    for spy, keep, on in [(pre, kpre, when != 'post'), (post, kpost, when != 'pre')]:
        for c, k in zip(COLS, keep):
            if not on:
                ensure(len(k.data) == 0, 'a recorder that was not used has data')
                continue
            ensure(len(k.data) == steps, f'{c}: number of recorded steps', got=len(k.data), expected=steps)
            for i in range(steps):
                same(np.asarray(k.data[i]), spy.seen[i][c], f'{c} recorded at step {i} is not what the photons had then')
            if steps:
                same(np.asarray(k), np.stack([s[c] for s in spy.seen]), f'{c} as one array')
                # changing what comes out does not reach back
    trivial(steps < 2 or n == 0)
    label(when)


@sub('C39', {'seed': seeds, 'n': st.integers(1, 6), 'col': st.sampled_from(['position', 'Pos', 'polangle', 'x'])},
     quick=20, thorough=200)
def unknown_columns_are_refused(seed, n, col):
    rng = rng_of(seed)
    t = photon_table(rng, rng.normal(size=(n, 3)), rand_unit(rng, n))
    k = KeepCol(col)
    with raises(KeyError, f'recording column {col} that does not exist'):
        k(t)
    ensure(len(k.data) == 0, 'something was recorded')


@sub('C39', {'seed': seeds, 'n': st.integers(1, 12), 'steps': st.integers(1, 9), 'atol': st.sampled_from([None, 0.001, 0.1, 5.]),
             'w': st.booleans()}, quick=300, thorough=10000)
def formatted_positions_drop_only_repeats(seed, n, steps, atol, w):
    rng = rng_of(seed)
    k = KeepCol('pos')
    cur = rng.normal(size=(n, 3)) * 30
    hist = []
    a = 0.1 if atol is None else atol
    drift = .4 * a * rng.choice([-1, 1], cur.shape) * (rng.random() < .3)   # many steps below the tolerance
    for i in range(steps):
        m = rng.integers(5)
        if np.any(drift) and i and m > 0:
            cur = cur + drift
            m = 0
        if m == 0 and i:      # identical
            pass
        elif m == 1 and i:    # one photon moves
            cur = cur.copy()
            j = rng.integers(n)
            cur[j, rng.integers(3)] += rng.choice([-1, 1]) * a * rng.choice([1e-3, 100.])
        elif m == 2 and i:    # everything moves a bit: less than the tolerance
            cur = cur + rng.uniform(-.2, .2, cur.shape) * a
        elif m == 3 and i >= 2:   # back to an earlier position
            cur = hist[int(rng.integers(i - 1))].copy()
        else:
            cur = cur + rng.normal(size=cur.shape) * 100 * a
        if rng.random() < 0.1:
            cur = cur.copy()
            cur[rng.integers(n)] = np.nan
        hist.append(cur)
        lam = rng.uniform(1.2, 3, n) if w else np.ones(n)
        k(Table({'pos': h(cur, 1) * lam[:, None]}))
    full = np.stack(hist, axis=1)
    got = k.format_positions()
    ensure(got.shape == (n, steps, 3), 'shape of all positions', got=got.shape)
    close(np.nan_to_num(got, nan=-1e30), np.nan_to_num(full, nan=-1e30), 'positions', rtol=1e-12, atol=1e-12)
    ensure(len(k.data) == steps, 'formatting changed the history')
    if atol is None:
        return
    # distance between two steps; np.allclose has a relative part, too
    def rel(x, y):
        nx, ny = np.isnan(x), np.isnan(y)
        if np.any(nx != ny):
            return 'different'
        dd = np.abs(x - y)[~nx]
        lim = atol + 1e-5 * np.abs(y[~nx])
        if np.any(dd > 1.01 * lim):
            return 'different'
        # also when x and y swap roles
        if np.all(dd < .99 * (atol + 1e-5 * np.minimum(np.abs(x), np.abs(y))[~nx])):
            return 'same'
        return 'unclear'
    keep = [0]
    for i in range(1, steps):
        r = rel(full[:, keep[-1]], full[:, i])
        if r == 'unclear':
            trivial()
            return
        if r == 'different':
            keep.append(i)
    got = k.format_positions(atol=atol)
    ensure(got.shape == (n, len(keep), 3), 'number of positions that are left', got=got.shape, expected=len(keep))
    close(np.nan_to_num(got, nan=-1e30), np.nan_to_num(full[:, keep], nan=-1e30), 'positions that are left', rtol=1e-12, atol=1e-12)
    ensure(len(k.data) == steps, 'formatting changed the history')
    label(f'{steps - len(keep)} dropped')


@sub('C39', {'n': st.integers(1, 5), 'cols': st.sampled_from(['scalar', 'three', 'none', 'five'])}, quick=20, thorough=40)
def only_homogeneous_columns_are_formatted(n, cols):
    k = KeepCol('x')
    if cols != 'none':
        d = {'scalar': np.arange(n) * 1., 'three': np.ones((n, 3)), 'five': np.ones((n, 5))}[cols]
        k(Table({'x': d}))
        k(Table({'x': d}))
    with raises(ValueError, f'format_positions of {cols}'):
        k.format_positions()


@sub('C39', {'seed': seeds, 'n': st.integers(0, 20), 'd': st.one_of(st.floats(-1e4, 1e4), st.sampled_from([0., 1, -1, 1e-9])),
             'how': st.sampled_from(['element', 'function']), 'style': st.sampled_from(STYLES)}, quick=250, thorough=8000)
def moving_photons_changes_only_the_position(seed, n, d, how, style):
    rng = rng_of(seed)
    t = beam(rng, n, style)
    t['extra'] = rng.integers(0, 9, n)
    t.meta['X'] = 3
    ref = t.copy()
    step = (lambda p, x: Propagator(distance=x)(p)) if how == 'element' else propagate
    out = step(t, d)
    ensure(out.colnames == ref.colnames and out.meta == ref.meta, 'columns or meta data change')
    for c in ref.colnames:
        if c != 'pos':
            same(out[c], ref[c], f'{c} changes when photons move')
            ensure(out[c].unit == ref[c].unit and out[c].dtype == ref[c].dtype, f'unit or type of {c}')
    p0, p1, dr = (np.asarray(x, dtype=float) for x in (ref['pos'], out['pos'], ref['dir']))
    same(p1[:, 3], p0[:, 3], 'positions are still points')
    sc = 1e-9 * (1 + abs(d) + (np.max(np.abs(p0)) if n else 0))
    close(p1, p0 + d * dr, 'position after the move', rtol=1e-12, atol=sc)
    close(np.linalg.norm(p1 - p0, axis=1), np.full(n, abs(d)), 'distance moved', rtol=1e-9, atol=sc)
    # two steps are one step, and back
    e = rng.uniform(-100, 100)
    two = step(step(ref.copy(), d), e)
    one = step(ref.copy(), d + e)
    close(two['pos'], one['pos'], 'two moves are not one', rtol=1e-12, atol=2 * sc)
    back = step(out, -d)
    close(back['pos'], p0, 'moving back does not restore the position', rtol=1e-12, atol=sc)
    trivial(n == 0 or d == 0)
    label(how)


@sub('C39', {'seed': seeds, 'n': st.integers(1, 15)}, quick=60, thorough=2000)
def moving_along_the_ray_does_not_change_later_hits(seed, n):
    rng = rng_of(seed)
    t = beam(rng, n, 'cone')
    place = place_ahead(rng, t, face=True)
    det = KINDS['detector'].build(rng, place)
    a = det(t.copy())
    x = rng.uniform(.1, 4)
    b = det(propagate(propagate(t.copy(), x), -x))
    if 'detpix_x' not in a.colnames or 'detpix_x' not in b.colnames:
        trivial()
        return
    hit = np.isfinite(a['detpix_x']) & np.isfinite(b['detpix_x'])
    # grazing rays amplify rounding
    close(np.asarray(b['detpix_x'])[hit], np.asarray(a['detpix_x'])[hit], 'pixel after moving forth and back', rtol=1e-4, atol=1e-3)
    trivial(not hit.any())
