'''C31: tables that store constant columns as header keywords.'''
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds

from marxs.reduction.ogip import ColOrKeyTable, ARF

NAMES = ['A', 'Mixed', 'lower_c', 'D']
KINDS = ['int', 'float', 'str', 'bool', 'quantity']


def value(rng, kind, n=None):
    '''a value, or n values that differ, of some kind'''
    def one():
        if kind == 'int':
            return int(rng.integers(-5, 6))
        if kind == 'float':
            return float(rng.choice([0., 1.5, -2.25, 1e300, 1e-12, 7.]))
        if kind == 'str':
            return str(rng.choice(['abc', 'x', 'longer']))
        if kind == 'bool':
            return bool(rng.integers(2))
        return float(rng.integers(0, 5))
    if n is None:
        v = one()
        return v * u.keV if kind == 'quantity' else v
    v = [one() for i in range(n)]
    while all(a == v[0] for a in v):
        v[int(rng.integers(n))] = one()
    return v


def listlike(rng, v, kind):
    if kind == 'quantity':
        return v * u.keV
    f = [list, np.array, tuple][int(rng.integers(3))]
    return f(v)


def plain(x, kind):
    if kind == 'quantity':
        return (u.Quantity(x).to_value(u.keV)).tolist()
    return np.asarray(x).tolist()


class Model:
    def __init__(self, n):
        self.n = n
        self.val = {'INDEX': list(range(n))}
        self.kind = {'INDEX': 'int'}
        self.key = set()       # stored as keyword


def check(t, m, msg):
    n = m.n
    ensure(len(t) == n, msg + ': length', got=len(t))
    ensure(set(t.colnames) == set(m.val) - m.key, msg + ': list of columns', got=t.colnames, want=sorted(set(m.val) - m.key))
    for k, v in m.val.items():
        got = t[k]
        if k in m.key:
            ensure(k in t.meta, msg + f': constant column {k} is a keyword')
            ensure(np.ndim(got) == 0, msg + f': constant column {k}')
            ensure(plain(got, m.kind[k]) == v[0], msg + f': value of constant column {k}', got=got, want=v[0])
        else:
            ensure(k not in t.meta, msg + f': column {k} is not also a keyword', meta=dict(t.meta))
            ensure(plain(got, m.kind[k]) == v, msg + f': values of column {k}', got=got, want=v)
    for i in range(n):
        row = t[i]
        ensure(len(row) == len(t.colnames), 'length of row')
        for k in t.colnames:
            ensure(plain(row[k], m.kind[k]) == m.val[k][i], msg + f': row {i}, column {k}', got=row[k], want=m.val[k][i])
    for k in ('KEYWORD', 'OTHER'):
        ensure(t.meta[k] == {'KEYWORD': 'something', 'OTHER': 5}[k] and t[k] == t.meta[k], msg + ': other keywords')


ops = st.lists(st.tuples(st.sampled_from(['scalar', 'const', 'vary', 'vary', 'element', 'element', 'mask', 'remove', 'copy', 'slice', 'sort', 'keyword']),
                         st.sampled_from(NAMES), st.sampled_from(KINDS), seeds), min_size=1, max_size=20)


def run(n, steps, each=True):
    t = ColOrKeyTable({'INDEX': np.arange(n)})
    t.meta.update({'KEYWORD': 'something', 'OTHER': 5})
    m = Model(n)
    both = set()
    seen = set()
    for op, name, kind, seed in steps:
        rng = rng_of(seed)
        msg = f'{op} {name}'
        if op in ('scalar', 'const', 'keyword'):
            v = value(rng, kind)
            if op == 'scalar':
                t[name] = v
            elif op == 'keyword':
                if name in m.val and name not in m.key:
                    continue        # would be ambiguous
                t.meta[name] = v
            else:
                x = plain(v, kind)
                t[name] = listlike(rng, [x] * n, kind)
            m.val[name] = [plain(v, kind)] * n
            m.kind[name] = kind
            m.key.add(name)
            seen.add((name, 'c'))
        elif op == 'vary':
            v = value(rng, kind, n)
            t[name] = listlike(rng, v, kind)
            m.val[name] = list(v)
            m.kind[name] = kind
            m.key.discard(name)
            seen.add((name, 'v'))
        elif op in ('element', 'mask'):
            if name not in m.val or name in m.key:
                continue
            kind = m.kind[name]
            if kind == 'quantity':
                continue
            i = int(rng.integers(n))
            v = m.val[name][int(rng.integers(n))] if rng.uniform() < .7 else value(rng, kind)
            if kind == 'str':
                v = v[:max(len(x) for x in m.val[name])]
                if len(v) > t[name].dtype.itemsize // 4:
                    continue
            new = list(m.val[name])
            if op == 'element':
                t[name][i] = v
                new[i] = v
            else:
                msk = rng.integers(0, 2, n).astype(bool)
                if not msk.any():
                    continue
                t[name][msk] = v
                new = [v if b else a for a, b in zip(new, msk)]
            m.val[name] = new
            if all(a == new[0] for a in new):
                m.key.add(name)
                seen.add((name, 'c'))
        elif op == 'remove':
            if name in m.val and name not in m.key:
                t.remove_column(name)
                del m.val[name], m.kind[name]
        elif op == 'copy':
            old = t
            t = t.copy()
            if rng.uniform() < .5:     # changing the old table does not matter
                for k in list(m.val):
                    old[k] = 'changed'
        elif op == 'slice':
            k = sorted(rng.choice(m.n, size=int(rng.integers(2, m.n + 1)), replace=False).tolist())
            cols = [c for c in m.val if c not in m.key]
            if any(all(m.val[c][i] == m.val[c][k[0]] for i in k) for c in cols):
                continue       # a column would become constant
            t = t[k]
            m.n = n = len(k)
            m.val = {c: [v[i] for i in k] for c, v in m.val.items()}
        elif op == 'sort':
            t.sort('INDEX', reverse=True)
            o = np.argsort(m.val['INDEX'])[::-1]
            m.val = {c: [v[i] for i in o] for c, v in m.val.items()}
        if each:
            check(t, m, msg)
    check(t, m, 'at the end')
    for k in m.val:
        if (k, 'c') in seen and (k, 'v') in seen:
            both.add(k)
    return t, m, both


@sub('C31', dict(n=st.integers(2, 6), steps=ops), quick=300, thorough=40000)
def history_of_assignments(n, steps):
    t, m, both = run(n, steps)
    trivial(not m.key and len(m.val) == 1)
    label('column was constant and varying', bool(both))


@sub('C31', dict(seed=seeds, n=st.integers(2, 6), kind=st.sampled_from(KINDS), back=st.booleans()), quick=60, thorough=1000)
def only_column(seed, n, kind, back):
    '''The only column of a table becomes constant (and, maybe, a column again).'''
    rng = rng_of(seed)
    t = ColOrKeyTable({'A': listlike(rng, value(rng, kind, n), kind)})
    for v in [value(rng, kind), value(rng, kind)]:
        x = plain(v, kind)
        t['A'] = v if rng.random() < .5 else listlike(rng, [x] * n, kind)
        ensure(t.colnames == [], 'a constant column is not a column any longer', got=t.colnames)
        ensure(plain(t['A'], kind) == x and np.ndim(t['A']) == 0, 'value of the constant', got=t['A'], want=x)
    if back:
        v = value(rng, kind, n)
        t['A'] = listlike(rng, v, kind)
        ensure(t.colnames == ['A'] and 'A' not in t.meta, 'column is a column again')
        ensure(plain(t['A'], kind) == list(v), 'values of the column')


@sub('C31', dict(n=st.integers(2, 6), steps=ops), quick=60, thorough=3000)
def history_survives_file(n, steps):
    '''keywords and columns written to a file describe the same table'''
    steps = [(o, a, 'float' if k == 'quantity' and o in ('scalar', 'const', 'keyword') else k, s) for o, a, k, s in steps]
    steps = [(o, a.upper(), k, s) for o, a, k, s in steps]     # as usual in files
    t, m, both = run(n, steps, each=False)
    arf = ARF(t)
    e = np.linspace(1, 2, m.n + 1)
    arf['ENERG_LO'] = e[:-1] * u.keV
    arf['ENERG_HI'] = e[1:] * u.keV
    arf['SPECRESP'] = np.arange(m.n) * u.cm**2
    for k in ['TELESCOP', 'INSTRUME', 'FILTER']:
        arf[k] = 'some'
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.arf')
        arf.write(f)
        new = ARF.read(f)
    ensure(len(new) == m.n, 'length')
    for k, v in m.val.items():
        x = new[k]
        if k in m.key:
            ensure(np.ndim(x) == 0, f'{k} is a keyword')
            v = v[0]
        x = plain(x, m.kind[k])
        if isinstance(x, list):     # strings in files are bytes
            x = [a.decode() if isinstance(a, bytes) else a for a in x]
        if m.kind[k] in ('float', 'quantity'):
            close(x, v, f'{k} after reading', rtol=1e-14, atol=0)
        else:
            ensure(x == v, f'{k} after reading', got=x, want=v)
    trivial(not m.key and len(m.val) == 1)


@sub('C31', dict(n=st.integers(2, 5), kind=st.sampled_from(KINDS), seed=seeds), quick=60, thorough=3000)
def columns_outside_of_tables(n, kind, seed):
    '''Columns taken out of the table and sub-tables are independent data.'''
    rng = rng_of(seed)
    t = ColOrKeyTable({'INDEX': np.arange(n)})
    v = value(rng, kind, n)
    t['A'] = listlike(rng, v, kind)
    c = t['A'].copy()
    c[:] = c[0]
    ensure(plain(t['A'], kind) == v, 'changing a copied column does not change the table')
    ensure('A' in t.colnames and 'A' not in t.meta, 'changing a copied column does not change the table')
    ensure(plain(c, kind) == [v[0]] * n, 'copied column')
    s = t[:n - 1]
    ensure(plain(s['A'], kind) == v[:n - 1], 'part of a table')
    e = ColOrKeyTable({'INDEX': np.array([], dtype=int)})
    e['A'] = np.array([], dtype=float)
    ensure(len(e) == 0, 'empty table')
