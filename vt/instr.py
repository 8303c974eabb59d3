'''Random optical elements for generated instruments.

``KINDS`` maps a name to a builder ``f(rng, place) -> element``. All settings
other than the placement are drawn from ``rng``, so that calling a builder
twice with equally seeded generators and different placements gives the same
element in two places.
'''
import numpy as np
import astropy.units as u
from astropy.table import QTable
from astropy.utils.data import get_pkg_data_filename

from marxs import optics
from marxs.simulator import Parallel, Propagator, Sequence
from marxs.math.geometry import Cylinder
from marxs.optics.multiLayerMirror import MultiLayerMirror
from marxs.optics.detector import CCDRedistNormal
from marxs.missions.mitsnl import catgrating as snl

from .gen import make_pos4d, rand_unit, perp_unit, rotmat, h, photon_table

ML = dict(reflFile=get_pkg_data_filename('data/testFile_mirror.txt', package='marxs.optics'),
          testedPolarization=get_pkg_data_filename('data/ALSpolarization2.txt', package='marxs.optics'))


class Kind:
    def __init__(self, build, random=False, geom='plane', blocks=False, noncov=0.,
                 needs=(), deflects=True):
        self.build = build
        self.random = random      # result depends on the random stream
        self.geom = geom          # 'plane', 'cyl', None
        self.blocks = blocks      # removes photons that miss
        self.noncov = noncov      # angle [rad] by which directions may differ between rotated runs
        self.needs = needs        # columns that have to exist
        self.deflects = deflects


KINDS = {}


def kind(name, **kw):
    def deco(f):
        KINDS[name] = Kind(f, **kw)
        return f
    return deco


def kwp(place):
    return {'pos4d': make_pos4d(*place)}


def smooth(rng):
    a, b, c = rng.uniform(0, 1), rng.uniform(0.1, 5), rng.uniform(0, 6)

    def filterfunc(e):
        return a + (1 - a) * 0.5 * (1 + np.sin(b * np.asarray(e) + c))
    return filterfunc


def ident(rng):
    '''Identifiers of any size, or none at all.'''
    k = rng.integers(6)
    if k == 0:
        return {}
    return {'id_num': int([0, rng.integers(50), rng.integers(50), rng.integers(200, 400), rng.integers(2**33)][k - 1])}


def grating_kwargs(rng, single):
    orders = np.array([int(rng.integers(-4, 5))]) if single else np.sort(
        rng.choice(np.arange(-5, 6), size=rng.integers(2, 7), replace=False))
    p = None
    if rng.random() < 0.6:
        p = rng.dirichlet(np.ones(len(orders))) * rng.uniform(0.2, 0.999)
    d = float(np.exp(rng.uniform(np.log(2e-6), np.log(1e-2))))
    if rng.random() < 0.4:
        slope = rng.uniform(-.3, .3, 2)
        d0 = d

        def d(intercoos, d0=d0):
            return d0 * (1 + 0.5 * np.tanh(intercoos @ slope))
    return {'order_selector': optics.OrderSelector(orders, p=p), 'd': d,
            'groove_angle': rng.uniform(-4, 4) if rng.random() < .7 else 0.}


@kind('detector', deflects=False)
def _det(rng, place):
    return optics.FlatDetector(pixsize=rng.uniform(0.001, 2), ignore_pixel_warning=True,
                               id_col='ccd', **ident(rng), **kwp(place))


@kind('grating')
def _gr1(rng, place):
    return optics.FlatGrating(id_col='facet', **ident(rng),
                              **grating_kwargs(rng, True), **kwp(place))


@kind('gratings', random=True)
def _gr2(rng, place):
    return optics.FlatGrating(**grating_kwargs(rng, False), **kwp(place))


@kind('reflgrating')
def _gr3(rng, place):
    return optics.FlatGrating(transmission=False, **grating_kwargs(rng, True), **kwp(place))


@kind('cat')
def _cat(rng, place):
    return optics.CATGrating(**grating_kwargs(rng, True), **kwp(place))


@kind('cats', random=True)
def _cats(rng, place):
    return snl.NonParallelCATGrating(d_blaze_mm=rng.uniform(-1e-3, 1e-3), blaze_center=rng.uniform(-.1, .1),
                                     **grating_kwargs(rng, False), **kwp(place))


@kind('filter', deflects=False)
def _filt(rng, place):
    return optics.EnergyFilter(filterfunc=smooth(rng), id_col='filt', id_num=3, **kwp(place))


@kind('globalfilter', geom=None, deflects=False)
def _gfilt(rng, place):
    return optics.GlobalEnergyFilter(filterfunc=smooth(rng))


@kind('baffle', blocks=True, deflects=False)
def _baffle(rng, place):
    return optics.Baffle(**kwp(place))


@kind('perfectlens')
def _plens(rng, place):
    kw = {}
    if rng.random() < 0.5:
        kw['d_center_optical_axis'] = rng.uniform(-50, 50)
    if rng.random() < 0.5:
        a = rng.uniform(0, 3)

        def refl(energy, angle, grid=False):
            return np.exp(-a * np.abs(angle) * np.asarray(energy))
        kw['reflectivity_interpolator'] = refl
    return optics.PerfectLens(focal_length_or(rng), **kw, **kwp(place)) if False else \
        optics.PerfectLens(focallength=rng.uniform(200, 2000), **kw, **kwp(place))


@kind('thinlens')
def _tlens(rng, place):
    return optics.ThinLens(focallength=rng.uniform(200, 2000), **kwp(place))


@kind('radialscatter', random=True)
def _rms(rng, place):
    return optics.RadialMirrorScatter(inplanescatter=rng.uniform(0, 1) * u.deg,
                                      perpplanescatter=rng.choice([0, 1.]) * rng.uniform(0, 30) * u.arcmin,
                                      **kwp(place))


@kind('radialscatter0')
def _rms0(rng, place):
    return optics.RadialMirrorScatter(inplanescatter=0 * u.deg, **kwp(place))


@kind('gaussscatter', random=True, noncov=10.)
def _rgs(rng, place):
    if rng.random() < 0.5:
        return optics.RandomGaussianScatter(scatter=rng.uniform(0.1, 60) * u.arcmin, **kwp(place))
    w = rng.uniform(0.001, 0.02)

    def scatter(photons, intersect, interpos, intercoos):
        return np.random.normal(size=intersect.sum()) * w / np.asarray(photons['energy'][intersect]) * u.rad
    return optics.RandomGaussianScatter(scatter=scatter, **kwp(place))


@kind('brewster')
def _brew(rng, place):
    return optics.FlatBrewsterMirror(**kwp(place))


@kind('multilayer')
def _ml(rng, place):
    return MultiLayerMirror(**ML, **kwp(place))


@kind('cyldetector', geom='cyl', deflects=False)
def _cyl(rng, place):
    pos, rot, zoom = place
    kw = kwp((pos, rot, zoom))
    return optics.CircularDetector(pixsize=rng.uniform(0.01, 1), id_col='tube', id_num=4,
                                   geometry=Cylinder(kw))


@kind('ccdredist', random=True, deflects=False)
def _redist(rng, place):
    tab = QTable({'energy': [0.1, 10] * u.keV, 'FWHM': rng.uniform(10, 200, 2) * u.eV})
    return CCDRedistNormal(tab_width=tab, **kwp(place))


@kind('quality', needs=('order',), deflects=False)
def _qual(rng, place):
    return snl.QualityFactor(**kwp(place))


@kind('l1', random=True)
def _l1(rng, place):
    return snl.L1(order_selector=snl.l1_order_selector, groove_angle=rng.uniform(-2, 2), **kwp(place))


@kind('l2abs', deflects=False)
def _l2(rng, place):
    return snl.L2Abs(**kwp(place))


@kind('catstack', random=True, noncov=1e-3)
def _stack(rng, place):
    k = grating_kwargs(rng, False)
    if callable(k['d']):
        k['d'] = 0.0002
    return snl.CATL1L2Stack(id_col='facet', **ident(rng), **k, **kwp(place))


@kind('flatstack', deflects=True)
def _fstack(rng, place):
    return optics.FlatStack(elements=[optics.EnergyFilter, optics.FlatGrating, optics.FlatDetector],
                            keywords=[{'filterfunc': smooth(rng)}, grating_kwargs(rng, True),
                                      {'pixsize': 0.1, 'ignore_pixel_warning': True}],
                            id_col='stack', id_num=7, **kwp(place))


@kind('propagator', geom=None, deflects=False)
def _prop(rng, place):
    return Propagator(distance=rng.uniform(-20, 20))


def parallel_positions(rng, place):
    '''Element placements (in global coordinates) of the 'parallel' kinds.'''
    pos, rot, zoom = place
    m = int(rng.integers(1, 3))
    out = []
    size = zoom[1:] / (2 * m + 1)
    for i in range(-m, m + 1):
        for j in range(-m, m + 1):
            off = np.array([0, i * 2 * size[0], j * 2 * size[1]])
            tilt = rotmat(rng.normal(size=3), rng.uniform(-.2, .2))
            out.append((off, tilt, np.array([1., size[0] * .8, size[1] * .8])))
    return out


def _parallel(rng, place, cls, args):
    pos, rot, zoom = place
    loc = parallel_positions(rng, place)
    return Parallel(elem_class=cls, elem_args=args, position=pos, orientation=rot,
                    elem_pos=[make_pos4d(*p) for p in loc], id_col='par_id')


@kind('parallelgrating', geom='multi')
def _pg(rng, place):
    return _parallel(rng, place, optics.FlatGrating, grating_kwargs(np.random.default_rng(5), True))


@kind('paralleldetector', geom='multi', deflects=False)
def _pd(rng, place):
    return _parallel(rng, place, optics.FlatDetector, {'pixsize': .01, 'ignore_pixel_warning': True})


@kind('parallelstack', geom='multi', random=True, noncov=1e-3)
def _ps(rng, place):
    return _parallel(rng, place, snl.CATL1L2Stack,
                     {'order_selector': optics.OrderSelector([-2, -1, 0, 1])})


def beam(rng, n, style):
    '''Random photon list.'''
    c = rng.uniform(-300, 300, 3)
    axis = rand_unit(rng, 1)[0]
    if style == 'all':
        d = rand_unit(rng, n)
        p = c + rng.uniform(-50, 50, (n, 3))
    else:
        e1 = perp_unit(rng, axis[None])[0]
        e2 = np.cross(axis, e1)
        r = rng.uniform(0, 20, n)
        a = rng.uniform(0, 2 * np.pi, n)
        p = c + r[:, None] * (np.cos(a)[:, None] * e1 + np.sin(a)[:, None] * e2)
        if style == 'parallel':
            d = np.tile(axis, (n, 1))
        elif style == 'xaxis':
            d = np.tile(np.array([-1., 0, 0]), (n, 1))
            p = c + np.stack([np.zeros(n), r * np.cos(a), r * np.sin(a)], axis=1)
        elif style == 'axes':      # along one of the axes
            i = rng.integers(0, 3)
            ax = np.zeros(3)
            ax[i] = rng.choice([-1., 1.])
            d = np.tile(ax, (n, 1))
            off = np.stack([np.zeros(n), r * np.cos(a), r * np.sin(a)], axis=1)
            p = c + np.roll(off, i, axis=1)
        else:
            # anything from a wide cone to the image of a tiny source
            spread = rng.uniform(-4, -.5) if rng.random() < .65 else rng.uniform(-9, -4)
            d = axis + rng.normal(size=(n, 3)) * 10**spread
    t = photon_table(rng, p, d)
    return t


STYLES = ['parallel', 'cone', 'all', 'xaxis', 'axes']


def place_ahead(rng, photons, face=False):
    '''A placement such that some of the photons cross the element.'''
    ok = np.nonzero(np.all(np.isfinite(photons['dir']), axis=1))[0]
    dirs = np.asarray(photons['dir'])[:, :3]
    poss = np.asarray(photons['pos'])[:, :3]
    if len(ok) == 0:
        d, p = np.array([1., 0, 0]), np.zeros(3)
    else:
        live = ok[np.asarray(photons['probability'])[ok] > 0]
        i = rng.choice(live if len(live) else ok)
        d, p = dirs[i], poss[i]
    L = rng.uniform(5, 200)
    spread = 5. + np.median(np.abs(poss - p)) if len(poss) else 5.
    size = np.exp(rng.uniform(np.log(0.3), np.log(6), 3)) * spread
    n = d * rng.choice([-1, 1]) if face else d * rng.choice([-1, 1]) + rng.uniform(0, 1) * rand_unit(rng, 1)[0]
    n = n / np.linalg.norm(n)
    a = perp_unit(rng, n[None])[0]
    rot = np.stack([n, a, np.cross(n, a)], axis=1)
    off = (rng.uniform(-.9, .9, 2) * size[1:]) @ np.stack([rot[:, 1], rot[:, 2]])
    return p + L * d + off, rot, size
