'''C43: the interface to the MARX mirror code.

The C library is not available here. A stand-in with the same interface (the structures are those of the cdef.txt
that marxs ships) takes its place: it behaves as the C code is documented to, i.e. it draws where each photon hits the
mirror, sets position, direction, shell number and flags of each photon, changes neither order nor number of entries,
and reflects each photon with the reflectivity at its energy, looked up through the sorted list of energies.
'''
import os

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table

import marxs.optics
import marxs.optics.marx as mm
from marxs.optics.marx import MarxMirror, MarxError
from marxs.math.polarization import parallel_transport

from vt.core import sub, ensure, close, same, raises, trivial, label
from vt.gen import rng_of, seeds, floats, placements, make_pos4d, rand_unit, perp_unit, h

try:
    from cffi import FFI
except ImportError:                                    # pragma: no cover
    FFI = None

OPTICS = os.path.dirname(marxs.optics.__file__)
PARFILE = os.path.join(OPTICS, 'hrma.par')
_ffi = []


def get_ffi():
    if not _ffi:
        ffi = FFI()
        with open(os.path.join(OPTICS, 'cdef.txt')) as f:
            # "extern double x = 1" is meant for the API mode; the value comes with the stand-in
            ffi.cdef(f.read().replace('Marx_Mirror_Geometric_Area = 1', 'Marx_Mirror_Geometric_Area'))
        _ffi.append(ffi)
    return _ffi[0]


class Lib:
    '''Stand-in for the library'''
    PHOTON_UNDETECTED = 0x01
    PHOTON_UNREFLECTED = 0x02
    PHOTON_UNDIFFRACTED = 0x04
    PHOTON_MISSED_DETECTOR = 0x08
    PHOTON_MIRROR_VBLOCKED = 0x10
    PHOTON_DRAKE_BLOCKED = 0x20
    PHOTON_GRATING_VBLOCKED = 0x40
    BAD_PHOTON_MASK = 0xFF
    PHOTON_DRAKE_REFLECTED = 0x100
    PHOTON_ACIS_STREAKED = 0x200

    def __init__(self, rng, area=1., ret=0, init=0):
        self.rng, self.ret, self.init = rng, ret, init
        self.Marx_Mirror_Geometric_Area = area
        self.opened = []
        self.got = None
        self.sent = None

    def pf_open_parameter_file(self, name, mode):
        self.opened.append((bytes(name).decode(), bytes(mode).decode()))
        return 'handle'

    def pf_close_parameter_file(self, handle):
        return 0

    def marx_mirror_init(self, handle):
        ensure(handle == 'handle', 'initialised with the parameter file that was opened')
        return self.init

    def marx_mirror_reflect(self, p, verbose):
        if self.ret != 0:
            return self.ret
        rng = self.rng
        n = p.n_photons
        ensure(p.num_sorted == n and p.max_n_photons >= n, 'all photons are passed as valid')
        at = p.attributes
        self.got = dict(energy=np.array([at[i].energy for i in range(n)]),
                        time=np.array([at[i].arrival_time for i in range(n)]),
                        tag=np.array([at[i].tag for i in range(n)]),
                        dir=np.array([[at[i].p.x, at[i].p.y, at[i].p.z] for i in range(n)]),
                        pos=np.array([[at[i].x.x, at[i].x.y, at[i].x.z] for i in range(n)]),
                        index=np.array([p.sorted_index[i] for i in range(n)]),
                        sorted=np.array([p.sorted_energies[i] for i in range(n)]),
                        t1=p.total_time, t0=p.start_time, verbose=verbose)
        s = dict(pos=np.zeros((n, 3)), dir=np.zeros((n, 3)), flags=np.zeros(n, dtype=int), shell=np.zeros(n, dtype=int))
        for i in range(n):
            a = at[i]
            r, phi = rng.uniform(300, 600), rng.uniform(0, 2 * np.pi)
            s['pos'][i] = 10000., r * np.sin(phi), r * np.cos(phi)
            d = -s['pos'][i] + rng.normal(0, 1, 3)
            s['dir'][i] = d / np.linalg.norm(d)
            s['shell'][i] = rng.integers(0, 4)
            f = 0
            if rng.random() < .2:
                f |= self.PHOTON_UNREFLECTED
            if rng.random() < .2:
                f |= self.PHOTON_MIRROR_VBLOCKED
            if rng.random() < .3:       # has nothing to do with the mirror surface or its supports
                f |= self.PHOTON_DRAKE_REFLECTED
            s['flags'][i] = f
            a.x.x, a.x.y, a.x.z = s['pos'][i]
            a.p.x, a.p.y, a.p.z = s['dir'][i]
            a.flags |= f
            a.mirror_shell = int(s['shell'][i])
        self.sent = s
        return 0


class Installed:
    def __init__(self, lib):
        self.new = {'marx': lib, 'ffi': get_ffi(), 'HAS_MARX': True}

    def __enter__(self):
        self.old = {k: getattr(mm, k, self) for k in self.new}
        for k, v in self.new.items():
            setattr(mm, k, v)

    def __exit__(self, *args):
        for k, v in self.old.items():
            if v is self:
                delattr(mm, k)
            else:
                setattr(mm, k, v)


def lists(rng, n, tags):
    d = rand_unit(rng, n)
    p = Table({'dir': h(d, 0), 'energy': rng.choice([.5, 1., 2., 7.3], n) + rng.choice([0, 1], n) * rng.random(n),
               'time': rng.permutation(n) * 1.3 + 5.,
               'polarization': h(perp_unit(rng, d), 0), 'probability': rng.choice([1., .5, .03], n)})
    p['origin'] = np.arange(n) * 10
    p['name'] = np.array(['ph{}'.format(i) for i in range(n)])
    if tags == 'order':
        p['tag'] = np.arange(n)
    elif tags == 'random':
        p['tag'] = rng.permutation(3 * n)[:n]
    p.meta['EXPOSURE'] = (12., 'total')
    return p


@sub('C43', dict(seed=seeds, n=st.integers(1, 40), tags=st.sampled_from(['none', 'order', 'random']),
                 place=placements(zlo=1., zhi=1.), moved=st.sampled_from(['no', 'shift', 'any']),
                 verbose=st.integers(0, 2)), quick=120, thorough=2500)
def through_the_mirror(seed, n, tags, place, moved, verbose):
    if FFI is None:
        trivial('no cffi')
        return
    rng = rng_of(seed)
    lib = Lib(rng)
    pos, rot, zoom = place[0], place[1], place[2]
    if moved == 'no':
        pos, rot = np.zeros(3), np.eye(3)
    elif moved == 'shift':
        rot = np.eye(3)
    label('{} tags, moved: {}'.format(tags, moved))
    p = lists(rng, n, tags)
    if rng.random() < .3:
        p['pos'] = h(rng.uniform(-10, 10, (n, 3)), 1)
    inp = p.copy()
    with Installed(lib):
        m = MarxMirror(parfile=PARFILE, position=pos, orientation=rot)
        out = m(p, verbose=verbose) if verbose else m(p)
    ensure(lib.opened == [(PARFILE, 'r')], 'the parameter file is opened for reading')
    got, sent = lib.got, lib.sent
    ensure(got['verbose'] == verbose, 'verbosity is passed on')
    # what the C code gets
    same(got['energy'], inp['energy'].data, 'energy')
    same(got['time'], inp['time'].data, 'time')
    close(got['dir'], inp['dir'][:, :3] @ rot, 'direction in the coordinates of the mirror')
    if 'pos' in inp.colnames:
        close(got['pos'], (inp['pos'][:, :3] - pos) @ rot, 'position in the coordinates of the mirror')
    ensure(sorted(got['index']) == list(range(n)), 'every photon is in the sorted list')
    same(got['sorted'], inp['energy'].data[got['index']], 'sorted energies belong to the sorted index')
    ensure(np.all(np.diff(got['sorted']) >= 0), 'sorted by energy')
    ensure(got['t0'] == inp['time'].min() and got['t1'] == inp['time'].max(), 'times of the list')
    ensure(len(set(got['tag'])) == n, 'tags are unique')
    if tags != 'none':
        same(got['tag'], inp['tag'].data, 'tag')
    # what comes out
    ensure(len(out) == n, 'one row per photon', n=n, out=len(out))
    o = np.argsort(out['origin'])
    ensure(list(out['origin'][o]) == list(inp['origin']), 'each photon once')
    for c in ['name', 'energy', 'time']:
        same(np.asarray(out[c])[o], inp[c].data, 'column ' + c)
    same(out['tag'].data[o].astype(int), got['tag'].astype(int), 'tag')
    close(out['pos'].data[o], h(sent['pos'] @ rot.T + pos, 1), 'position on the mirror', atol=1e-6)
    close(out['dir'].data[o], h(sent['dir'] @ rot.T, 0), 'direction behind the mirror', atol=1e-9)
    unr = (sent['flags'] & Lib.PHOTON_UNREFLECTED) > 0
    vbl = (sent['flags'] & Lib.PHOTON_MIRROR_VBLOCKED) > 0
    same(out['unreflected'].data[o], unr, 'unreflected')
    same(out['mirror_vblocked'].data[o], vbl, 'mirror_vblocked')
    same(out['mirror_shell'].data[o], sent['shell'], 'shell')
    close(out['probability'].data[o], np.where(unr | vbl, 0., inp['probability']),
          'the C code is a Monte-Carlo: photons are lost or keep their probability')
    par = parallel_transport(inp['dir'].data, out['dir'].data[o], inp['polarization'].data)
    close(out['polarization'].data[o], par, 'polarization is carried along the ray', atol=1e-7)
    ensure(out.meta['EXPOSURE'][0] == 12., 'meta data stays')
    if 'dir_beforemirror' in out.colnames:
        close(out['dir_beforemirror'].data[o], inp['dir'].data, 'direction before the mirror', atol=1e-9)
    if 'pos_beforemirror' in out.colnames and 'pos' in inp.colnames:
        close(out['pos_beforemirror'].data[o], inp['pos'].data, 'position before the mirror', atol=1e-7)


@sub('C43', dict(seed=seeds, area=floats(1., 2000.), ret=st.sampled_from([0, 1, -1, 5]), init=st.sampled_from([0, 0, 2, -1, -5]),
                 case=st.sampled_from(['lib', 'nolib', 'nofile'])), quick=60, thorough=600)
def errors_of_the_c_code(seed, area, ret, init, case):
    if FFI is None:
        trivial('no cffi')
        return
    rng = rng_of(seed)
    lib = Lib(rng, area=area, ret=ret, init=init)
    label(case)
    if case == 'nolib':
        if not mm.HAS_MARX:
            with raises(MarxError, 'without the library'):
                MarxMirror(PARFILE)
        return
    with Installed(lib):
        if case == 'nofile':
            with raises(OSError, 'no such parameter file'):
                MarxMirror(PARFILE + 'not')
            ensure(lib.opened == [], 'a file that does not exist is not opened')
            return
        if init < 0:
            with raises(MarxError, 'mirror cannot be initialised'):
                MarxMirror(PARFILE)
            return
        m = MarxMirror(parfile=PARFILE, position=[0, 0, 0])
        close(m.area.to(u.cm**2).value, area, 'geometric area')
        p = lists(rng, 4, 'none')
        if ret != 0:
            with raises(MarxError, 'the mirror code fails'):
                m(p)
        else:
            m(p)
