"""Subscripting array-like quantities selects exactly the requested elements."""
import numpy

from harness import arrays, ugen
from harness.props import p05
from goats.core import observing, physical, variable

RULE = ('a distinct (kind of array, data source, shape, subscript) whose result was compared element by '
        'element with numpy, including shape, unit and dimensions, or that was refused')
ASSUMPTIONS = (
    'A variable keeps one axis per dimension: integers select an axis of length one, and several '
    'index lists select their outer product. A plain physical array follows numpy for integers and slices.',
)
MUST_SEE = ('oracle:variable', 'oracle:physical', 'oracle:refuse', 'oracle:kept', 'oracle:nested', 'oracle:meta')

SYMBOLS = ['m', 's', 'g', 'J', 'K', 'au', 'eV']


def an_index(rng, n, lists=True):
    """One axis subscript and the positions it selects: (subscript, positions, kind)"""
    r = rng.random()
    if r < 0.22:
        k = rng.randrange(-n, n)
        return k, [range(n)[k]], 'int'
    if r < 0.3:
        k = rng.randrange(-n, n)
        return numpy.int64(k), [range(n)[k]], 'npint'
    if r < 0.62 or not lists:
        s = slice(rng.choice([None, None, 0, 1, -1, -2, n, rng.randint(-n - 1, n + 1)]),
                  rng.choice([None, None, 0, 1, -1, n, n + 3, rng.randint(-n - 1, n + 1)]),
                  rng.choice([None, None, None, 1, 2, -1, -2, 3]))
        return s, list(range(n))[s], 'slice'
    pos = [rng.randrange(-n, n) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
    want = [range(n)[k] for k in pos]
    form = rng.choice(['list', 'list', 'array', 'range', 'bool', 'tuple', 'boolarray'])
    if form == 'array':
        return numpy.array(pos), want, 'array'
    if form == 'range':
        a = rng.randrange(n)
        b = rng.randint(a + 1, n)
        r = range(a, b, rng.choice([1, 1, 2]))
        return r, list(r), 'range'
    if form in ('bool', 'boolarray'):
        mask = [rng.random() < 0.6 for _ in range(n)]
        if not any(mask):
            mask[rng.randrange(n)] = True
        want = [k for k, m in enumerate(mask) if m]
        return (mask if form == 'bool' else numpy.array(mask)), want, 'bool'
    return list(pos), want, 'list'


def subscript(rng, sh, lists=True):
    """(subscript, positions per axis, kinds)"""
    n = len(sh)
    m = rng.randint(1, n)
    ell = rng.random() < 0.25
    idx, pos, kinds = [], [], []
    if ell:
        left = rng.randint(0, n)
        right = rng.randint(0, n - left)
    else:
        left, right = m, 0
    for k in range(left):
        i, p, d = an_index(rng, sh[k], lists)
        idx.append(i), pos.append(p), kinds.append(d)
    if ell:
        idx.append(Ellipsis)
        kinds.append('...')
    for k in range(left, n - right):
        pos.append(list(range(sh[k])))
    for k in range(n - right, n):
        i, p, d = an_index(rng, sh[k], lists)
        idx.append(i), pos.append(p), kinds.append(d)
    if len(idx) == 1 and rng.random() < 0.6:
        return idx[0], pos, kinds
    return tuple(idx), pos, kinds


def build(rng, cls):
    sh = arrays.shape(rng, rng.choice([1, 1, 2, 2, 3, 4]), 1, 6)
    x = arrays.values(rng, sh)
    dims = tuple(rng.sample(arrays.DIMS, len(sh)))
    ts = ugen.terms(rng, SYMBOLS, rng.choice([1, 2]))
    text = ugen.fmt(rng, ts)
    kind, raw, close = arrays.source(rng, x, dims, text)
    q = cls(raw, unit=text) if cls is physical.Array else cls(raw, dimensions=dims, unit=text)
    if rng.random() < 0.4:
        us = ugen.same_quantity(rng, ts)
        q = q[ugen.fmt(rng, us)]
        x = x * (p05.size(ts)[0] / p05.size(us)[0])
        ts = us
    if rng.random() < 0.4:
        numpy.array(q)      # now cached in memory
    return q, x, dims, ts, kind, close


def meta(mon, r, dims, ts, what):
    if dims is not None:
        mon.equal(tuple(r.dimensions), dims, 'meta', what, 'dimensions')
    g = ugen.parse(r.unit)
    mon.expect(g is not None and p05.same(p05.size(g), p05.size(ts)), 'meta', what, f'| unit {r.unit}')


def variables(mon, rng, i):
    cls = rng.choice([variable.Quantity, variable.Quantity, observing.Quantity])
    q, x, dims, ts, kind, close = build(rng, cls)
    try:
        text = str(q.unit)
        for _ in range(4):
            s, pos, kinds = subscript(rng, x.shape)
            what = f'{cls.__module__} {kind} {x.shape} [{s!r}]'
            mon.saw(cls.__module__, kind, x.shape, repr(s))
            mon.event('index:' + '+'.join(sorted(set(kinds))))
            want = x[numpy.ix_(*pos)]
            r = q[s]
            mon.expect(type(r) is cls, 'variable', what, f'type {type(r)}')
            mon.close(numpy.array(r), want, 'variable', what, rtol=1e-11)
            mon.equal(tuple(r.shape), want.shape, 'variable', what, 'shape')
            mon.equal(r.ndim, want.ndim, 'variable', what, 'ndim')
            meta(mon, r, dims, ts, what)
            # a subset of the subset
            if want.size:
                s2, pos2, _ = subscript(rng, want.shape)
                mon.close(numpy.array(r[s2]), want[numpy.ix_(*pos2)], 'nested', what, f'[{s2!r}]', rtol=1e-11)
            mon.close(numpy.array(q), x, 'kept', what, rtol=1e-11)
            mon.equal(str(q.unit), text, 'kept', what)
            mon.sample(what)
        for s in (slice(None), Ellipsis, (Ellipsis, slice(None))):
            mon.close(numpy.array(q[s]), x, 'variable', f'{kind} {x.shape} [{s}]', rtol=1e-11)
        bad(mon, rng, q, x, f'{cls.__module__} {kind} {x.shape}')
    finally:
        if close:
            close()


def bad(mon, rng, q, x, what):
    k = rng.randrange(x.ndim)
    n = x.shape[k]
    lead = (slice(None),) * k
    for b in (n, -n - 1, n + 3):
        mon.refuses(lambda: q[lead + (b,)], 'refuse', what, f'{b} on axis {k}', errors=IndexError)
        mon.refuses(lambda: q[lead + ([0, b],)], 'refuse', what, f'[0, {b}] on axis {k}', errors=IndexError)
    mon.refuses(lambda: q[(0,) * (x.ndim + 1)], 'refuse', what, 'too many indices', errors=(IndexError, ValueError))
    mon.close(numpy.array(q), x, 'kept', what, 'after refusals', rtol=1e-11)


def physicals(mon, rng, i):
    q, x, dims, ts, kind, close = build(rng, physical.Array)
    try:
        for _ in range(4):
            lists = rng.random() < 0.5
            s, pos, kinds = subscript(rng, x.shape, lists)
            if lists:
                # outer selection needs a list or slice on every axis
                full = tuple(v for v in (s if isinstance(s, tuple) else (s,)))
                used = set(kinds)
                if not used & {'list', 'array', 'range', 'bool'} or used & {'int', 'npint'}:
                    continue
                if len([k for k in kinds if k != '...']) < x.ndim and '...' not in kinds:
                    continue
                if x.ndim == 1 and len(full) == 1 and len(numpy.atleast_1d(full[0])) == 1:
                    continue
                want = x[numpy.ix_(*pos)]
            else:
                if 'npint' in kinds:
                    continue
                want = x[s]
            what = f'physical {kind} {x.shape} [{s!r}]'
            mon.saw('physical', kind, x.shape, repr(s))
            mon.event('index:' + '+'.join(sorted(set(kinds))))
            r = q[s]
            if numpy.ndim(want) == 0:
                mon.expect(isinstance(r, physical.Scalar), 'physical', what, f'type {type(r)}')
                mon.close(float(r), want, 'physical', what, rtol=1e-11)
            else:
                mon.expect(isinstance(r, physical.Array), 'physical', what, f'type {type(r)}')
                mon.close(numpy.array(r), want, 'physical', what, rtol=1e-11)
                mon.equal(tuple(r.shape), want.shape, 'physical', what, 'shape')
            meta(mon, r, None, ts, what)
            mon.close(numpy.array(q), x, 'kept', what, rtol=1e-11)
        k = rng.randrange(x.ndim)
        n = x.shape[k]
        for b in (n, -n - 1):
            mon.refuses(lambda: q[(slice(None),) * k + (b,)], 'refuse', f'physical {kind} {x.shape} [{b}] on axis {k}',
                        errors=IndexError)
        mon.refuses(lambda: q[(0,) * (x.ndim + 1)], 'refuse', 'too many indices', errors=(IndexError, ValueError))
    finally:
        if close:
            close()


SUBS = {
    'variables': (variables, 2500, 60000),
    'physicals': (physicals, 1500, 30000),
}
