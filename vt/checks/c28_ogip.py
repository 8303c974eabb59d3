'''C28: response files.'''
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.io import fits
from astropy.table import Table, QTable

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, logfloats

from marxs.reduction import ogip
from marxs.reduction.ogip import RMF, ARF, OGIPFormatError

HC = 12.398419843320026
HEAD = {'TELESCOP': 'scope', 'INSTRUME': 'inst', 'FILTER': 'none'}


def random_matrix(rng, rows, chans):
    '''Full matrix with any pattern of values that are and are not stored'''
    dens = rng.choice([0., .1, .5, .9, 1.], size=rows)
    full = 10**rng.uniform(-5, 0, (rows, chans))
    mask = rng.uniform(size=(rows, chans)) < dens[:, None]
    if rng.uniform() < .5:   # one continuous group in each row
        for r in range(rows):
            a, b = np.sort(rng.integers(0, chans + 1, 2))
            mask[r] = False
            mask[r, a:b] = True
    small = rng.choice([0., 1e-8, -1.], size=(rows, chans), p=[.8, .15, .05])
    return np.where(mask, full, small), mask


def ref_groups(row, thr, first):
    '''reference: list of (start, values)'''
    out = []
    prev = False
    for i, v in enumerate(row):
        if v > thr:
            if not prev:
                out.append((i + first, []))
            out[-1][1].append(v)
            prev = True
        else:
            prev = False
    return out


@sub('C28', dict(seed=seeds, chans=st.integers(1, 60), first=st.sampled_from([0, 1, 5]), thr=st.sampled_from([None, 1e-6, 1e-3, .3])),
     quick=200, thorough=40000)
def compression_of_a_row(seed, chans, first, thr):
    rng = rng_of(seed)
    full, mask = random_matrix(rng, 1, chans)
    row = full[0]
    kw = {} if thr is None else {'threshold': thr}
    n, f, c, m = RMF.arr_to_rmf_matrix_row(row, first, **kw)
    want = ref_groups(row, 1e-6 if thr is None else thr, first)
    ensure(n == len(want) == len(f) == len(c), 'number of groups', got=n, want=len(want))
    ensure([int(x) for x in f] == [w[0] for w in want], 'first channel of groups')
    ensure([int(x) for x in c] == [len(w[1]) for w in want], 'number of channels in groups')
    same(np.asarray(m), np.concatenate([w[1] for w in want] + [[]]), 'values')
    trivial(n == 0)


def make_rmf(rng, full, edges, first, thr, ch_edges, cls=Table):
    rows, chans = full.shape
    matrix = cls(names=['ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'],
                 data=[np.zeros(rows, dtype=d) for d in [np.float32, np.float32, np.int16, object, object, object]])
    matrix['ENERG_LO'] = edges[:-1] * u.keV
    matrix['ENERG_HI'] = edges[1:] * u.keV
    for r in range(rows):
        out = RMF.arr_to_rmf_matrix_row(full[r], first, threshold=thr)
        for i, c in enumerate(['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX']):
            matrix[c][r] = out[i]
    eb = RMF.ebounds_from_edges(ch_edges)
    eb['CHANNEL'].data[:] += first
    for t in (matrix, eb):
        t.meta.update(HEAD)
    if rng.uniform() < .3:       # left over from the header of another file
        matrix.meta['DETCHANS'] = len(eb) + int(rng.integers(1, 9))
        eb.meta['DETCHANS'] = matrix.meta['DETCHANS']
    return RMF(matrix, eb, CHANTYPE=str(rng.choice(['PI', 'PHA'])), HDUCLAS3='REDIST')


def check_rmf(rmf, full, thr, edges, ch_kev, e, r, acc, msg):
    '''everything that can be looked up at energy e (in keV, in row r)'''
    want = np.where(full[r] > thr, full[r], 0)
    for q in (e * u.keV, (HC / e) * u.AA, (e * 1000) * u.eV):
        lo, hi, m = rmf.full_rmf(q)
        close(u.Quantity(lo, u.keV).value, ch_kev[:-1], msg + ': lower channel bounds', rtol=1e-6)
        close(u.Quantity(hi, u.keV).value, ch_kev[1:], msg + ': upper channel bounds', rtol=1e-6)
        close(m, want, msg + ': full matrix row', rtol=acc, atol=1e-12)
    nz = want > 0
    lo, hi, m = rmf.rmf(e * u.keV)
    close(u.Quantity(lo, u.keV).value, ch_kev[:-1][nz], msg + ': bounds of non-zero channels', rtol=1e-6)
    close(u.Quantity(hi, u.keV).value, ch_kev[1:][nz], msg + ': bounds of non-zero channels', rtol=1e-6)
    close(m, want[nz], msg + ': non-zero elements', rtol=acc, atol=1e-12)
    if nz.any():
        lo, hi, m = rmf.rmf_angstrom(e * u.keV)
        close(u.Quantity(lo).to_value(u.AA), HC / ch_kev[1:][nz], msg + ': lower wavelength', rtol=1e-6)
        close(u.Quantity(hi).to_value(u.AA), HC / ch_kev[:-1][nz], msg + ': upper wavelength', rtol=1e-6)
        close(m, want[nz], msg + ': elements by wavelength', rtol=acc, atol=1e-12)
    row = rmf.row(e * u.keV)
    close(u.Quantity(row['ENERG_LO'], u.keV).value, edges[r], msg + ': row contains energy', rtol=1e-6)
    close(u.Quantity(row['ENERG_HI'], u.keV).value, edges[r + 1], msg + ': row contains energy', rtol=1e-6)


def check_all(rmf, rng, full, thr, edges, ch_kev, acc, msg):
    for r in rng.permutation(len(full))[:6]:
        f = rng.uniform(.05, .95)
        check_rmf(rmf, full, thr, edges, ch_kev, edges[r] * (1 - f) + edges[r + 1] * f, r, acc, msg)
        # the lower bound is part of a row, the upper bound part of the next row
        e = float(u.Quantity(rmf.matrix['ENERG_LO'])[r].to_value(u.keV))
        close(u.Quantity(rmf.row(e * u.keV)['ENERG_LO'], u.keV).value, e, msg + ': row of an energy on a boundary', rtol=1e-12)
    close(u.Quantity(rmf.en_mid, u.keV).value, .5 * (ch_kev[1:] + ch_kev[:-1]), msg + ': mid-points of channels', rtol=1e-6)
    ensure(len(rmf.ebounds) == len(ch_kev) - 1, msg + ': number of channels')


@sub('C28', dict(seed=seeds, rows=st.integers(1, 40), chans=st.integers(1, 60), first=st.sampled_from([0, 1, 1, 7, 40000]),
                 thr=st.sampled_from([1e-6, 1e-4]), square=st.booleans(), unit=st.sampled_from(['keV', 'eV', 'AA', 'nm']),
                 rev=st.booleans()), quick=100, thorough=4000)
def redistribution_file_round_trip(seed, rows, chans, first, thr, square, unit, rev):
    rng = rng_of(seed)
    if square:
        chans = rows
    full, mask = random_matrix(rng, rows, chans)
    if not (full > thr).any():
        full[0, 0] = .5
    edges = rng.uniform(.2, 1) + np.cumsum(rng.uniform(.01, .3, rows + 1))
    ch_kev = rng.uniform(.2, 1) + np.cumsum(rng.uniform(.01, .3, chans + 1))
    ch = (ch_kev * u.keV).to(u.Unit(unit), equivalencies=u.spectral())
    if rev:
        ch = ch[::-1]
    rmf = make_rmf(rng, full, edges, first, thr, ch)
    same(np.asarray(rmf.ebounds['CHANNEL']), np.arange(chans) + first, 'channel numbers')
    tl = 'TLMIN%i' % (rmf.matrix.colnames.index('F_CHAN') + 1)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.rmf')
        if tl not in rmf.matrix.meta:
            with raises(OGIPFormatError, 'TLMIN is mandatory'):
                rmf.write(f)
        if rng.uniform() < .5:
            rmf.matrix.meta[tl] = first
            rmf.ebounds.meta['TLMIN%i' % (rmf.ebounds.colnames.index('CHANNEL') + 1)] = first
            check_all(rmf, rng, full, thr, edges, ch_kev, 1e-14, 'in memory')
            rmf.write(f)
        else:
            rmf.write(f, TLMIN=first)
        check_all(rmf, rng, full, thr, edges, ch_kev, 1e-6, 'after writing')
        new = RMF.read(f)
        check_all(new, rng, full, thr, edges, ch_kev, 1e-6, 'after reading')
        with raises(OSError, 'existing files are not overwritten'):
            rmf.write(f)
        new.write(f, overwrite=True)
        again = RMF.read(f)
        check_all(again, rng, full, thr, edges, ch_kev, 1e-6, 'after second round trip')
        # raw file, without any class of the package
        with fits.open(f) as hl:
            hm, he = hl['MATRIX'], hl['EBOUNDS']
            for h in (hm.header, he.header):
                for k, v in HEAD.items():
                    ensure(h[k] == v, f'keyword {k}')
                ensure(h['CHANTYPE'] in ('PI', 'PHA') and h['DETCHANS'] == chans, 'CHANTYPE and DETCHANS', got=h['DETCHANS'], want=chans)
                ensure(h['HDUCLASS'] == 'OGIP' and h['HDUCLAS1'] == 'RESPONSE' and h['HDUCLAS3'] == 'REDIST', 'class keywords')
            ensure(hm.header['HDUCLAS2'] == 'RSP_MATRIX' and he.header['HDUCLAS2'] == 'EBOUNDS', 'class keywords')
            k = hm.columns.names.index('F_CHAN') + 1
            ensure(hm.header[f'TLMIN{k}'] == first, 'first channel keyword')
            k = he.columns.names.index('CHANNEL') + 1
            ensure(he.header[f'TLMIN{k}'] == first, 'first channel keyword')
            dat = hm.data
            ensure(len(dat) == rows, 'number of rows in file')
            exp = np.zeros((rows, chans))
            for r in range(rows):
                fc, nc = np.atleast_1d(dat['F_CHAN'][r]), np.atleast_1d(dat['N_CHAN'][r])
                vals = np.atleast_1d(dat['MATRIX'][r])
                pos = 0
                for g in range(dat['N_GRP'][r]):
                    a = int(fc[g]) - first
                    exp[r, a:a + int(nc[g])] = vals[pos:pos + int(nc[g])]
                    pos += int(nc[g])
            close(exp, np.where(full > thr, full, 0), 'matrix in file', rtol=1e-6, atol=1e-12)
            same(he.data['CHANNEL'].astype(int), np.arange(chans) + first, 'channel numbers in file')
            close(he.data['E_MIN'], ch_kev[:-1], 'channel bounds in file', rtol=1e-6)
            close(he.data['E_MAX'], ch_kev[1:], 'channel bounds in file', rtol=1e-6)
            close(dat['ENERG_LO'], edges[:-1], 'energies in file', rtol=1e-6)
            close(dat['ENERG_HI'], edges[1:], 'energies in file', rtol=1e-6)
    groups = max(len(ref_groups(r, thr, 0)) for r in full)
    label('several groups in a row', groups > 1)
    label('empty rows', any(not (r > thr).any() for r in full))


@sub('C28', dict(seed=seeds, chans=st.integers(32760, 70000), first=st.sampled_from([0, 1, 3])), quick=5, thorough=40)
def response_with_very_many_channels(seed, chans, first):
    '''more channels (in all, or in one group) than fit in a short integer'''
    rng = rng_of(seed)
    full = np.zeros((3, chans))
    a = int(rng.integers(0, 5))
    full[0, a:] = .5
    late = rng.random() < .5
    if late:
        full[1, -int(rng.integers(1, 4)):] = .25
    else:       # all groups start early
        full[1, 3:int(rng.integers(4, 9))] = .25
    full[2, a:a + 2] = .125
    full[2, chans // 2 if late else 1000: chans - int(rng.integers(0, 3))] = .0625
    full = full[rng.permutation(3)]
    edges = np.array([.3, .5, .8, 1.1])
    ch_kev = np.linspace(.2, 5., chans + 1)
    rmf = make_rmf(rng, full, edges, first, 1e-6, ch_kev * u.keV)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.rmf')
        rmf.write(f, TLMIN=first)
        new = RMF.read(f)
    for r in range(3):
        for x in (rmf, new):
            lo, hi, m = x.full_rmf((edges[r] + .1) * u.keV)
            close(m, full[r], 'row of a matrix with very many channels', rtol=1e-6, atol=1e-12)
            same(np.asarray(x.ebounds['CHANNEL']), np.arange(chans) + first, 'channel numbers')
    label('group longer than 32767', chans - a > 32767)


@sub('C28', dict(seed=seeds, n=st.integers(1, 60), unit=st.sampled_from(['keV', 'eV', 'AA', 'nm', 'um', 'Hz']), rev=st.booleans()),
     quick=150, thorough=20000)
def channel_bounds(seed, n, unit, rev):
    rng = rng_of(seed)
    kev = .1 + np.cumsum(rng.uniform(.01, 1, n + 1))
    e = (kev * u.keV).to(u.Unit(unit), equivalencies=u.spectral())
    if rev:
        e = e[::-1]
    before = e.copy()
    eb = RMF.ebounds_from_edges(e)
    same(e.value, before.value, 'input')
    same(np.asarray(eb['CHANNEL']), np.arange(n), 'channel numbers')
    lo, hi = u.Quantity(eb['E_MIN']), u.Quantity(eb['E_MAX'])
    ensure(lo.unit == u.keV and hi.unit == u.keV, 'unit')
    close(lo.value, kev[:-1], 'lower bounds', rtol=1e-9)
    close(hi.value, kev[1:], 'upper bounds', rtol=1e-9)
    same(lo.value[1:], hi.value[:-1], 'channels touch')
    ensure((hi.value > lo.value).all(), 'lower bound is below upper bound')


def make_arf(rng, n, const):
    e = .2 + np.cumsum(rng.uniform(.01, .3, n + 1))
    area = np.full(n, rng.choice([0., 3.25])) if const else rng.uniform(0, 1000, n)
    arf = ARF()
    arf['ENERG_LO'] = e[:-1] * u.keV
    arf['ENERG_HI'] = e[1:] * u.keV
    arf['SPECRESP'] = area * u.cm**2
    extra = {'VARY': rng.uniform(0, 1, n), 'FIXED': np.full(n, rng.uniform())}
    for k, v in extra.items():
        arf[k] = v
    return arf, e, area, extra


@sub('C28', dict(seed=seeds, n=st.integers(1, 60), const=st.booleans(), missing=st.sampled_from([None, None, 'TELESCOP', 'INSTRUME', 'FILTER'])),
     quick=120, thorough=8000)
def effective_area_file_round_trip(seed, n, const, missing):
    rng = rng_of(seed)
    arf, e, area, extra = make_arf(rng, n, const)
    scale = rng.choice([None, 'number', 'array'])
    if scale == 'number':
        f = rng.choice([0., .5, 2])
        arf['SPECRESP'] = arf['SPECRESP'] * f
        area = area * f
    elif scale == 'array':
        f = rng.uniform(0, 2, n)
        arf['SPECRESP'] = f * arf['SPECRESP']
        area = area * f
    arf.meta.update({k: v for k, v in HEAD.items() if k != missing})
    arf.meta['ORDER'] = int(rng.integers(-5, 6))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.arf')
        if missing:
            with raises(OGIPFormatError, f'missing keyword {missing} is refused'):
                arf.write(f)
            trivial()
            return
        arf.write(f)
        with fits.open(f) as hl:
            h, dat = hl[1].header, hl[1].data
            for k, v in {**HEAD, 'EXTNAME': 'SPECRESP', 'HDUCLASS': 'OGIP', 'HDUCLAS1': 'RESPONSE', 'HDUCLAS2': 'SPECRESP',
                         'ORDER': arf.meta['ORDER']}.items():
                ensure(h[k] == v, f'keyword {k}', got=h.get(k))
            close(dat['SPECRESP'], area, 'area in file', rtol=1e-12)
            close(dat['ENERG_LO'], e[:-1], 'energy in file', rtol=1e-12)
            close(dat['ENERG_HI'], e[1:], 'energy in file', rtol=1e-12)
        new = ARF.read(f)
        with raises(OSError, 'existing files are not overwritten'):
            arf.write(f)
        new.write(f, overwrite=True)
        again = ARF.read(f)
    for t, msg in [(new, 'after reading'), (again, 'after second round trip')]:
        ensure(len(t) == n and isinstance(t, ARF), msg + ': number of energies')
        close(u.Quantity(t['ENERG_LO']).to_value(u.keV), e[:-1], msg + ': energies', rtol=1e-12)
        close(u.Quantity(t['ENERG_HI']).to_value(u.keV), e[1:], msg + ': energies', rtol=1e-12)
        close(u.Quantity(t['SPECRESP']).to_value(u.cm**2), area, msg + ': areas', rtol=1e-12)
        for k, v in extra.items():
            if n > 1 or k == 'VARY':
                close(np.broadcast_to(np.asarray(t[k]), (n,)), v, msg + f': {k}', rtol=1e-12)
        for k, v in HEAD.items():
            ensure(t.meta[k] == v, msg + f': keyword {k}')
    label('constant area', len(set(area)) == 1)


@sub('C28', dict(seed=seeds, n=st.integers(2, 8), what=st.sampled_from(['missing', 'dtype', 'ndim', 'keyword'])), quick=60, thorough=2000)
def malformed_files_are_refused(seed, n, what):
    rng = rng_of(seed)
    e = .2 + np.cumsum(rng.uniform(.01, .3, n + 1))
    cols = {'ENERG_LO': e[:-1], 'ENERG_HI': e[1:], 'SPECRESP': rng.uniform(1, 9, n)}
    k = str(rng.choice(list(cols)))
    if what == 'missing':
        del cols[k]
    elif what in ('ndim', 'dtype'):
        cols[k] = rng.uniform(1, 9, (n, 2))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.arf')
        if what != 'keyword':
            Table(cols).write(f, format='fits')
            with raises(OGIPFormatError, 'malformed ARF'):
                ARF.read(f)
        full, mask = random_matrix(rng, n, n)
        full[0, 0] = 1
        rmf = make_rmf(rng, full, e, 1, 1e-6, e * u.keV)
        rmf.write(f + '.rmf', TLMIN=1)
        with fits.open(f + '.rmf') as hl:
            i = int(rng.integers(1, 3))
            if what == 'keyword':
                del hl[i].header[str(rng.choice(['TELESCOP', 'INSTRUME', 'FILTER', 'CHANTYPE', 'DETCHANS']))]
            else:
                hl[i].columns.del_col(str(rng.choice(['ENERG_LO', 'F_CHAN', 'N_GRP', 'MATRIX'] if hl[i].name == 'MATRIX' else ['CHANNEL', 'E_MIN', 'E_MAX'])))
            hl.writeto(f + '2')
        with raises(OGIPFormatError, 'malformed RMF'):
            RMF.read(f + '2')
        # the same for objects in memory: not accepted and never written
        i = int(rng.integers(2))
        key = str(rng.choice(['TELESCOP', 'INSTRUME', 'FILTER', 'CHANTYPE']))
        tabs = [rmf.matrix.copy(), rmf.ebounds.copy()]
        RMF(*[t.copy() for t in tabs])
        if what == 'keyword':
            del tabs[i].meta[key]
            if key == 'CHANTYPE':
                ok = RMF(*[t.copy() for t in tabs], CHANTYPE='PI')
                ensure(ok.matrix.meta['CHANTYPE'] == ok.ebounds.meta['CHANTYPE'] == 'PI', 'CHANTYPE is set')
        elif what == 'missing':
            tabs[i].remove_column(str(rng.choice(['ENERG_LO', 'F_CHAN', 'N_GRP', 'MATRIX'] if i == 0 else ['CHANNEL', 'E_MIN', 'E_MAX'])))
        elif what == 'ndim':
            c = str(rng.choice(['ENERG_LO', 'N_GRP'] if i == 0 else ['CHANNEL', 'E_MIN']))
            tabs[i][c] = np.vstack([tabs[i][c], tabs[i][c]]).T
        else:
            return
        with raises(OGIPFormatError, f'table that lacks something is refused ({what})'):
            RMF(*tabs)
        if what == 'keyword':
            t = (rmf.matrix, rmf.ebounds)[i]
            key = str(rng.choice(['TELESCOP', 'INSTRUME', 'FILTER', 'CHANTYPE', 'DETCHANS']))
            old = t.meta.pop(key)
            with raises(OGIPFormatError, 'incomplete table is not written'):
                rmf.write(f + '.rmf3', TLMIN=1)
            ensure(not os.path.exists(f + '.rmf3'), 'no incomplete file')
            t.meta[key] = old
            rmf.write(f + '.rmf3', TLMIN=1)


@sub('C28', dict(o=st.integers(-12, 12), t=st.integers(-12, 12), kind=st.sampled_from(['int', 'np', 'str']), both=st.booleans(),
                 ft=st.sampled_from(['arf', 'rmf', 'fits'])), quick=60, thorough=2000)
def file_names(o, t, kind, both, ft):
    '''Names are unique for every combination of orders.'''
    def conv(x):
        return {'int': int(x), 'np': np.int64(x), 'str': f'{x:+}'}[kind]
    if both:
        got = ogip.filename_from_meta(ft, CCDORDER=conv(o), TRUEORD=conv(t), ORDER=conv(t))
        ensure(got == f'_ccdord_{o:+}_true_{t:+}.{ft}', 'file name', got=got)
    else:
        got = ogip.filename_from_meta(ft, ORDER=conv(o), SOMETHING=4)
        ensure(got == f'_{o:+}.{ft}', 'file name', got=got)
