'''C11: order of execution, steps, and searching in containers.'''
import numpy as np
from hypothesis import strategies as st
from astropy.table import Table

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, photon_table, rand_unit
from vt.instr import KINDS, STYLES, beam, place_ahead
from vt.checks.c01_table import NONEEDS

from marxs.simulator import Sequence, Parallel, KeepCol, Propagator, propagate, BaseContainer
from marxs.simulator.simulator import SimulationSetupError
from marxs import optics
from marxs.missions.mitsnl.catgrating import NonParallelCATGrating, CATL1L2Stack
from marxs.optics import (FlatDetector, FlatGrating, CATGrating, EnergyFilter, GlobalEnergyFilter, FlatStack,
                          OrderSelector, Baffle)
from marxs.optics.base import FlatOpticalElement, OpticalElement
from marxs.base import SimulationSequenceElement


weights = st.one_of(st.just(1.), floats(.5, .99), floats(1.01, 2))


class Leaf:
    '''Record of the call; returns the table it got or a copy'''
    def __init__(self, name, log, copy):
        self.name, self.log, self.copy = name, log, copy

    def __call__(self, photons):
        self.log.append(self.name)
        # must have seen every element before
        photons['count'] += 1
        photons.meta['trace'] = photons.meta['trace'] + [self.name]
        if self.copy:
            out = photons.copy()
            photons['count'] = -1000
            photons.meta['trace'] = ['stale']
            return out
        return photons


class Step:
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __call__(self, photons):
        self.log.append((self.name, int(photons['count'][0])))
        return 'ignored'


trees = st.recursive(st.booleans(), lambda c: st.tuples(st.lists(c, max_size=4), st.integers(0, 3), st.integers(0, 3)),
                     max_leaves=15)


def build(tree, log, counter):
    if isinstance(tree, bool):
        counter[0] += 1
        return Leaf(f'e{counter[0]}', log, tree)
    kids = [build(t, log, counter) for t in tree[0]]
    counter[0] += 1
    me = counter[0]
    pre = [Step(f's{me}-pre{i}', log) for i in range(tree[1])]
    post = [Step(f's{me}-post{i}', log) for i in range(tree[2])]
    kw = {}
    if pre:
        kw['preprocess_steps'] = pre
    if post:
        kw['postprocess_steps'] = post
    s = Sequence(elements=kids, **kw)
    s.model = (kids, pre, post)
    return s


def expect(node, count, out):
    if isinstance(node, Leaf):
        out.append(node.name)
        return count + 1
    kids, pre, post = node.model
    for k in kids:
        for p in pre:
            out.append((p.name, count))
        count = expect(k, count, out)
        for p in post:
            out.append((p.name, count))
    return count


@sub('C11', dict(tree=trees, twice=st.booleans()), quick=300, thorough=8000)
def call_log(tree, twice):
    if isinstance(tree, bool):
        tree = ([tree], 1, 1)
    log = []
    s = build(tree, log, [0])
    for rep in range(1 + twice):
        del log[:]
        t = Table({'count': [0]})
        t.meta['trace'] = []
        out = s(t)
        want = []
        n = expect(s, 0, want)
        ensure(log == want, 'order of calls', got=log, expected=want)
        ensure(out['count'][0] == n, 'the result is the table returned by the last element', got=out['count'][0], n=n)
        ensure(out.meta['trace'] == [w for w in want if isinstance(w, str)], 'elements in order')
    trivial(n < 2)
    label('steps', any(isinstance(w, tuple) for w in want))


@sub('C11', dict(kinds=st.lists(st.sampled_from(NONEEDS), min_size=1, max_size=5), n=st.integers(1, 40),
                 style=st.sampled_from(STYLES), split=st.integers(0, 5), seed=seeds), quick=60, thorough=1500)
def sequence_is_composition(kinds, n, style, split, seed):
    '''Sequence (nested in any way) gives the same result as calling the elements by hand.'''
    rng = rng_of(seed)
    t = beam(rng, n, style)
    elems = []
    cur = t.copy()
    keep = KeepCol('pos')
    np.random.seed(seed % 2**32)
    for k in kinds:
        e = KINDS[k].build(rng, place_ahead(rng, cur))
        elems.append(e)
        cur = e(cur)
    # independent repetition by hand
    a = t.copy()
    np.random.seed(12)
    pos = []
    for e in elems:
        a = e(a)
        pos.append(np.array(a['pos']))
    np.random.seed(12)
    split = min(split, len(elems))
    seq = Sequence(elements=[Sequence(elements=elems[:split], postprocess_steps=[keep])] +
                   [Sequence(elements=elems[split:], postprocess_steps=[keep])])
    b = seq(t.copy())
    ensure(a.colnames == b.colnames, 'columns')
    for c in a.colnames:
        same(np.asarray(b[c]), np.asarray(a[c]), f'column {c} differs between Sequence and calling elements one by one')
    ensure(len(keep.data) == len(elems), 'KeepCol records once per element', got=len(keep.data))
    for x, y in zip(keep.data, pos):
        same(np.asarray(x), y, 'KeepCol records the value after each element')
    p = keep.format_positions()
    ensure(p.shape == (n, len(elems), 3), 'shape of formatted positions')
    close(p, np.stack(pos, axis=1)[:, :, :3], 'formatted positions', atol=0)


@sub('C11', dict(n=st.integers(1, 5), data=st.lists(st.integers(0, 3), min_size=1, max_size=12), atol=floats(1e-6, 1e-2), w=weights,
                 seed=seeds), quick=80, thorough=1500)
def keepcol_format(n, data, atol, w, seed):
    '''repeated positions are dropped, all others are kept'''
    rng = rng_of(seed)
    # allclose has a relative tolerance of 1e-5 in addition to atol
    base = np.round(rng.uniform(-5, 5, (4, n, 3))) + np.arange(4)[:, None, None] * 20
    k = KeepCol('pos')
    t = Table({'pos': np.ones((n, 4))})
    want = []
    for i in data:
        p = base[i] + rng.uniform(-.4, .4, (n, 3)) * atol
        t['pos'] = np.hstack([p, np.ones((n, 1))]) * w
        k(t)
        if not want or want[-1] != i:
            want.append(i)
    t['pos'] = 0.    # recorded values are copies
    f = k.format_positions(atol=atol)
    ensure(f.shape == (n, len(want), 3), 'number of distinct positions', got=f.shape, expected=len(want))
    close(f, np.swapaxes(base[want], 0, 1), 'distinct positions in order', atol=atol)
    ensure(np.asarray(k).shape == (len(data), n, 4), 'KeepCol as array')
    with raises(KeyError, 'missing column has to be reported'):
        KeepCol('nope')(t)


class MySeq(Sequence):
    pass


class MyDet(FlatDetector):
    pass


LEAVES = {
    'det': lambda: FlatDetector(pixsize=.1, ignore_pixel_warning=True),
    'mydet': lambda: MyDet(pixsize=.1, ignore_pixel_warning=True),
    'grat': lambda: FlatGrating(d=1e-3, order_selector=OrderSelector([0])),
    'cat': lambda: CATGrating(d=1e-3, order_selector=OrderSelector([0])),
    'npcat': lambda: NonParallelCATGrating(d=1e-3, order_selector=OrderSelector([0])),
    'filt': lambda: EnergyFilter(filterfunc=lambda e: 1. + 0 * e),
    'gfilt': lambda: GlobalEnergyFilter(filterfunc=lambda e: 1. + 0 * e),
    'func': lambda: (lambda photons: photons),
    'baffle': lambda: Baffle(),
    'prop': lambda: Propagator(distance=1.),
    'par_det': lambda: Parallel(elem_class=FlatDetector, elem_pos={'position': [[0, 0, 0], [0, 3, 0]]},
                                elem_args={'ignore_pixel_warning': True}),
    'par_stack': lambda: Parallel(elem_class=CATL1L2Stack, elem_pos={'position': [[0, 0, 0], [0, 3, 0]]},
                                  elem_args={'d': 2e-4, 'order_selector': OrderSelector([0])}),
    'stack': lambda: FlatStack(elements=[EnergyFilter, FlatDetector],
                               keywords=[{'filterfunc': lambda e: 1.}, {'ignore_pixel_warning': True}]),
    'empty': lambda: Sequence(elements=[]),
}
CLASSES = [Sequence, MySeq, FlatDetector, MyDet, FlatGrating, CATGrating, NonParallelCATGrating, EnergyFilter, GlobalEnergyFilter, Baffle, Propagator,
           Sequence, MySeq, Parallel, FlatStack, CATL1L2Stack, BaseContainer, OpticalElement, FlatOpticalElement,
           SimulationSequenceElement, optics.ThinLens]

inst = st.recursive(st.sampled_from(sorted(LEAVES)), lambda c: st.tuples(st.lists(c, max_size=4), st.booleans()), max_leaves=12)


def make(tree):
    if isinstance(tree, str):
        return LEAVES[tree]()
    return (MySeq if tree[1] else Sequence)(elements=[make(t) for t in tree[0]])


def walk(node, match, stop):
    out = []
    if match(node):
        out.append(node)
        if stop:
            return out
    if isinstance(node, BaseContainer):
        for k in node.elements:
            out += walk(k, match, stop)
    return out


@sub('C11', dict(tree=inst, cls=st.sampled_from(CLASSES), subclass=st.booleans(), stop=st.booleans(), default=st.booleans(), deep=st.just(0) | seeds),
     quick=600, thorough=10000)
def search(tree, cls, subclass, stop, default, deep):
    if isinstance(tree, str):
        tree = ([tree], False)
    if deep:
        # containers of two kinds around each other several levels deep
        rng = rng_of(deep)
        for i in range(3):
            sib = [str(x) for x in rng.choice(sorted(LEAVES), rng.integers(0, 3))]
            tree = (sib + [tree], bool(rng.integers(2)))
        tree = (tree[0], cls is Sequence) if rng.random() < .8 else tree
    o = make(tree)

    def match(x):
        return isinstance(x, cls) if subclass else type(x) is cls
    kw = {}
    if not (default and not subclass):
        kw['subclass_ok'] = subclass
    kw2 = dict(kw)
    if not (default and not stop):
        kw2['stop_at_first'] = stop
    got = o.elements_of_class(cls, **kw2)
    want = walk(o, match, stop)
    ensure(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'elements_of_class', cls=cls, got=got, expected=want)
    first = o.first_of_class_top_level(cls, **kw)
    idx = [i for i, e in enumerate(o.elements) if len(walk(e, match, True)) > 0]
    ensure(first == (idx[0] if idx else None) and (first is None) == (not idx), 'first_of_class_top_level', got=first, expected=idx)
    # search does not change the instrument
    got2 = o.elements_of_class(cls, **kw2)
    ensure(len(got2) == len(got), 'search is repeatable')
    trivial(not want)
    label('several', len(want) > 1)
    label('nested match', any(isinstance(w, BaseContainer) for w in want))


@sub('C11', dict(d=floats(-1e3, 1e3), d2=floats(-1e3, 1e3), n=st.integers(1, 30), seed=seeds), quick=50, thorough=1000)
def propagation(d, d2, n, seed):
    rng = rng_of(seed)
    t = beam(rng, n, 'all')
    ref = t.copy()
    a = Propagator(distance=d)(t.copy())
    b = propagate(t.copy(), d)
    want = np.array(ref['pos'])
    want[:, :3] += d * np.asarray(ref['dir'])[:, :3]
    for x in (a, b):
        close(x['pos'], want, 'moved along the ray', atol=1e-9)
        for c in ref.colnames:
            if c != 'pos':
                same(np.asarray(x[c]), np.asarray(ref[c]), f'column {c} changed by propagation')
    b = propagate(b, d2)
    b = propagate(b, -d2 - d)
    close(b['pos'], ref['pos'], 'moving back', atol=1e-8)


@sub('C11', dict(bad=st.sampled_from([1, 'abc', None, [1], {}]), n=st.integers(0, 4), where=st.sampled_from(
    ['elements', 'preprocess_steps', 'postprocess_steps']), i=st.integers(0, 4)), quick=30, thorough=200)
def non_callable_refused(bad, n, where, i):
    good = [LEAVES['det']() for k in range(n)]
    args = {'elements': [LEAVES['det']()], 'preprocess_steps': [], 'postprocess_steps': []}
    good.insert(min(i, n), bad)
    args[where] = good
    with raises(SimulationSetupError, 'an entry that is not callable has to be refused'):
        Sequence(**args)


@sub('C11', dict(n=st.integers(1, 30), f=st.lists(floats(0.01, 1), min_size=1, max_size=4), det=st.booleans(), seed=seeds), quick=50, thorough=1000)
def stack_runs_each_layer_once(n, f, det, seed):
    rng = rng_of(seed)
    t = beam(rng, n, 'cone')
    place = place_ahead(rng, t)
    from vt.gen import make_pos4d
    P = make_pos4d(*place)
    elems = [EnergyFilter] * len(f) + [FlatDetector] * det
    kws = [{'filterfunc': (lambda e, v=v: v * np.ones_like(e))} for v in f] + [{'ignore_pixel_warning': True, 'pixsize': .1}] * det
    s = FlatStack(elements=elems, keywords=kws, pos4d=P, id_col='st', id_num=5)
    before = np.asarray(t['probability']).copy()
    t = s(t)
    hit = np.asarray(t['st']) == 5 if 'st' in t.colnames else np.zeros(n, dtype=bool)
    close(np.asarray(t['probability']), np.where(hit, before * np.prod(f), before), 'each layer acts once', rtol=1e-12, atol=1e-15)
    ref = FlatDetector(pos4d=P, ignore_pixel_warning=True, id_col='st', id_num=5)
    trivial(not hit.any())
    ensure(len(s.elements) == len(elems), 'layers')
    for e, c in zip(s.elements, elems):
        ensure(type(e) is c, 'order of layers')
        close(e.pos4d, P, 'layer position')
    if det and hit.any():
        same(np.isfinite(t['detpix_x']), hit, 'detector layer sees the photons that hit')
