"""Changing the unit of array-like data rescales every value exactly once."""
import os

import netCDF4
import numpy

from harness import arrays, ugen
from harness.props import p05
from goats.core import datafile, measurable, metric, observing, physical, variable

RULE = ('a distinct (kind of array, kind of data source, history of unit changes, subscripts, '
        'copies and reads, unit) whose every value was compared with the model')
ASSUMPTIONS = (
    'Values are compared to 1e-11 relative; arrays in scratch netCDF files stand for data on disk.',
    'A raw array handed to a quantity is not modified by the caller afterwards.',
)
MUST_SEE = ('oracle:value', 'oracle:unit', 'oracle:bystander', 'oracle:raw', 'oracle:isolated', 'oracle:dataset',
            'oracle:refused-kept', 'oracle:equal', 'oracle:routes')

SYMBOLS = ['m', 'au', 'g', 's', 'h', 'd', 'A', 'K', 'mol', 'J', 'erg', 'eV', 'N', 'dyn', 'Pa', 'W', 'C', 'V', 'T', 'P']


def ratio(a, b):
    """Factor from unit a to unit b."""
    return p05.size(a)[0] / p05.size(b)[0]


def now(q):
    return numpy.array(q, dtype=float)


def canonical(system, ts):
    from harness.props import p06
    out = []
    for p, s, _, e in ts:
        from harness import siref
        for t in ugen.parse(p06.CANON[siref.UNITS[s][1]][0 if system == 'mks' else 1]):
            out.append(t[:3] + (t[3] * e,))
    return out


SAFE = ['m', 'au', 'g', 's', 'h', 'd', 'J', 'erg', 'eV', 'N', 'dyn', 'W']


def judge(mon, q, x, ts, what, key='value'):
    mon.close(now(q), x, key, what, rtol=1e-11)
    g = ugen.parse(q.unit)
    mon.expect(g is not None and p05.same(p05.size(g), p05.size(ts)), 'unit', what, f'| {q.unit}, want {ts}')


def routes(mon, rng, q, y, ts, what):
    """Every way to read the values of a quantity shows the same values."""
    if y.ndim == 1:
        m = measurable.measure(q)
        mon.close(numpy.array(m.data, dtype=float), y, 'routes', what, 'measured', rtol=1e-11)
        g = ugen.parse(m.unit)
        mon.expect(g is not None and p05.same(p05.size(g), p05.size(ts)), 'routes', what, f'measured in {m.unit}')
        v = physical.Vector(m)
        mon.close(v.data, y, 'routes', what, 'vector', rtol=1e-11)
        mon.expect(v.unit == q.unit, 'routes', what, f'vector in {v.unit}')
    k = tuple(rng.randrange(n) for n in y.shape)
    mon.close(float(numpy.array(q[k]).flat[0]) if isinstance(q, variable.Quantity) else float(q[k]), y[k],
              'routes', what, f'[{k}]', rtol=1e-11)
    mon.close(float(numpy.max(numpy.array(q, dtype='f8'))), y.max(), 'routes', what, 'max', rtol=1e-11)
    if isinstance(q, variable.Quantity):
        x = float(now(q).flat[rng.randrange(y.size)])
        mon.expect(x in q and bool(q.array_contains(x)), 'routes', what, f'{x} in it')
        z = x * 1.25
        if not numpy.any(numpy.isclose(now(q), z, atol=0, rtol=1e-4)):
            mon.expect(z not in q and not q.array_contains(z), 'routes', what, f'{z} in it')
        # a number the source holds in another unit is not one of the values
        o = observing.Quantity(q)
        judge(mon, o, y, ts, f'{what} as observing quantity', 'routes')
        judge(mon, o[str(q.unit)], y, ts, f'{what} as observing quantity in its unit', 'routes')
        mon.close(float(numpy.mean(q)), y.mean(), 'routes', what, 'mean', rtol=1e-9, atol=1e-9 * float(abs(y).max()))


def histories(mon, rng, i):
    sh = arrays.shape(rng)
    x = arrays.values(rng, sh)
    if rng.random() < 0.15:
        x = numpy.round(x).astype(rng.choice(['i4', 'i8']))
    dims = tuple(rng.sample(arrays.DIMS, len(sh)))
    ts = ugen.terms(rng, SAFE, rng.choice([1, 1, 2]))
    text = ugen.fmt(rng, ts)
    kind, raw, close = arrays.source(rng, x, dims, text)
    family = rng.choice(['physical', 'variable', 'variable'])
    keep = numpy.array(raw[...] if kind == 'file' else raw)
    if family == 'physical':
        q = physical.Array(raw, unit=text)
    else:
        q = variable.Quantity(raw, dimensions=dims, unit=text)
    pool = [(q, x.astype(float), ts)]
    steps = [f'{family}({kind}{sh}, {text!r})']
    judge_first = rng.random() < 0.5
    if judge_first:
        judge(mon, q, x, ts, str(steps))
        steps.append('read')
    try:
        for _ in range(rng.choice([2, 3, 4, 6])):
            n = rng.randrange(len(pool))
            q, y, t = pool[n]
            op = rng.choice(['unit', 'unit', 'unit', 'system', 'back', 'copy', 'index', 'read', 'len', 'refuse', 'item', 'mul', 'recopy'])
            if op == 'unit':
                new = ugen.same_quantity(rng, t)
                u = ugen.fmt(rng, new)
                arg = rng.choice([u, u, metric.Unit(u)])
                r, z = q[arg], y * ratio(t, new)
                steps.append(f'{n}[{u!r}]')
            elif op == 'system':
                system = rng.choice(['mks', 'cgs', 'MKS'])
                new = canonical(system.lower(), t)
                r, z = q[system], y * ratio(t, new)
                steps.append(f'{n}[{system!r}]')
            elif op == 'back':
                new = ts
                r, z = q[text], y * ratio(t, ts)
                steps.append(f'{n}[{text!r}] back')
            elif op in ('copy', 'recopy'):
                r, z, new = type(q)(q), y, t
                steps.append(f'copy {n}')
            elif op == 'index':
                idx = tuple(slice(rng.choice([None, 0, 1]), rng.choice([None, None, m, m - 1 if m > 1 else m]))
                            for m in y.shape[:rng.randint(1, y.ndim)])
                if 0 in y[idx].shape:
                    continue
                r, z, new = q[idx], y[idx], t
                steps.append(f'{n}[{idx}]')
            elif op == 'item':
                k = rng.randrange(y.shape[0])
                if family == 'variable':
                    r, z, new = q[k], y[k:k + 1], t
                elif y.ndim > 1:
                    r, z, new = q[k], y[k], t
                else:
                    s = q[k]
                    judge(mon, s, y[k], t, f'{steps} item {k}')
                    continue
                steps.append(f'{n}[{k}]')
            elif op == 'mul':
                k = rng.choice([2.0, -3, 0.5])
                r, z, new = rng.choice([lambda: q * k, lambda: k * q])(), y * k, t
                steps.append(f'{n} * {k}')
            elif op == 'refuse':
                other = rng.choice(['T s', 'K^5', 'mol^3 m', 'cd A'])
                mon.refuses(lambda: q[other], 'refused-kept', f'{steps} to {other}',
                            errors=(ValueError, metric.UnitConversionError))
                judge(mon, q, y, t, f'{steps} after a refusal', 'refused-kept')
                continue
            elif op == 'len':
                mon.equal(len(q), len(y), 'value', str(steps), 'len')
                mon.equal(tuple(q.shape), y.shape, 'value', str(steps), 'shape')
                mon.equal(q.ndim, y.ndim, 'value', str(steps), 'ndim')
                continue
            else:
                a = now(q)
                mon.close(a, y, 'value', f'{steps} read {n}', rtol=1e-11)
                # what was read belongs to the reader
                b = numpy.asarray(q)
                if b.flags.writeable:
                    b *= -7
                mon.close(now(q), y, 'isolated', f'{steps} read {n}, then modified the result', rtol=1e-11)
                steps.append(f'read {n}')
                continue
            if rng.random() < 0.6:
                judge(mon, r, z, new, str(steps))
            if r is not q:
                pool.append((r, z, new))
        for n, (q, y, t) in enumerate(pool):
            judge(mon, q, y, t, f'{steps}: object {n}', 'bystander')
            mon.equal(tuple(q.shape), y.shape, 'bystander', f'{steps}: shape of {n}')
            routes(mon, rng, q, y, t, f'{steps}: object {n}')
        a, b = rng.choice(pool), rng.choice(pool)
        if a[1].shape == b[1].shape:
            eq = bool(a[0] == b[0])
            if eq:
                mon.expect(numpy.array_equal(now(a[0]), now(b[0])) and p05.same(p05.size(a[2]), p05.size(b[2]), 1e-6),
                           'equal', str(steps))
            else:
                mon.expect(not (numpy.array_equal(now(a[0]), now(b[0])) and str(a[0].unit) == str(b[0].unit)
                                and type(a[0]) is type(b[0])), 'equal', str(steps))
        if not p05.same(p05.size(a[2]), p05.size(b[2]), 1e-6):
            # the same numbers in another unit are another quantity
            kw = {'dimensions': a[0].dimensions} if family == 'variable' else {}
            twin = type(a[0])(now(a[0]), unit=str(b[0].unit), **kw)
            mon.expect(not a[0] == twin and not twin == a[0], 'equal', str(steps), f'same numbers in {a[0].unit} and {twin.unit}')
        mon.expect(numpy.array_equal(numpy.array(raw[...] if kind == 'file' else raw), keep), 'raw', str(steps))
        mon.saw(family, kind, tuple(s.split('[')[0] for s in steps[1:]), text)
        mon.sample(' '.join(steps))
    finally:
        if close:
            close()


def commuting(mon, rng, i):
    """Changing the unit commutes with subscripting, copying and scaling."""
    sh = arrays.shape(rng, rng.choice([1, 2, 3]), 2, 6)
    x = arrays.values(rng, sh)
    dims = tuple(rng.sample(arrays.DIMS, len(sh)))
    ts = ugen.terms(rng, SYMBOLS, rng.choice([1, 2]))
    us = ugen.same_quantity(rng, ts)
    text, other = ugen.fmt(rng, ts), ugen.fmt(rng, us)
    kind, raw, close = arrays.source(rng, x, dims, text)
    try:
        def fresh():
            if cls is physical.Array:
                return cls(raw, unit=text)
            return cls(raw, dimensions=dims, unit=text)
        cls = rng.choice([physical.Array, variable.Quantity])
        idx = tuple(rng.choice([slice(None), slice(0, 1), slice(1, None), slice(None, None, 2)]) for _ in sh)
        lst = tuple(sorted(rng.sample(range(n), rng.randint(2, n))) for n in sh)
        want = x * ratio(ts, us)
        k = rng.choice([2.0, 5.0])
        lx = want[numpy.ix_(*lst)]
        what = f'{cls.__module__} {kind} {sh} {text} -> {other}'
        mon.saw(what, str(idx))
        for name, got, w in (
            ('change then slice', lambda: fresh()[other][idx], want[idx]),
            ('slice then change', lambda: fresh()[idx][other], want[idx]),
            ('change then list', lambda: fresh()[other][lst], lx),
            ('list then change', lambda: fresh()[lst][other], lx),
            ('change then scale', lambda: fresh()[other] * k, want * k),
            ('scale then change', lambda: (fresh() * k)[other], want * k),
            ('copy then change', lambda: cls(fresh())[other], want),
            ('change then copy', lambda: cls(fresh()[other]), want),
            ('twice', lambda: fresh()[other][other], want),
            ('square', lambda: fresh()[other] ** 2, want ** 2),
            ('there and back', lambda: fresh()[other][text][other], want),
        ):
            r = got()
            mon.close(now(r), w, 'value', what, name, rtol=1e-11)
        v = fresh()
        now(v)      # load first
        mon.close(now(v[other]), want, 'value', what, 'loaded then changed', rtol=1e-11)
        mon.close(now(v), x, 'bystander', what, 'the original', rtol=1e-13)
    finally:
        if close:
            close()


def dataset(mon, rng, i):
    """Variables of a dataset in a metric system are the data on disk in that system's units."""
    names = ['time', 'vr', 'rho', 'energy', 'foo', 'bar', 'Bphi']
    rng.shuffle(names)
    table, units = {}, {}
    sizes = {d: rng.randint(1, 5) for d in arrays.DIMS}
    for name in names[:rng.randint(1, 5)]:
        dims = tuple(rng.sample(arrays.DIMS, rng.choice([1, 2, 3])))
        ts = ugen.terms(rng, SAFE, rng.choice([1, 1, 2]))
        units[name] = ts
        table[name] = (dims, arrays.values(rng, tuple(sizes[d] for d in dims)), ugen.fmt(rng, ts))
    attr = rng.choice(['units', 'unit'])
    path = arrays.ncfile(table, attr=attr)
    raw = open(path, 'rb').read()
    data = datafile.Interface(path)
    system = rng.choice([None, 'mks', 'cgs', 'MKS'])
    mon.saw(tuple(sorted(table)), system, attr)
    sets = [variable.Interface(data, system=s) for s in (system, rng.choice([None, 'mks', 'cgs']))]
    for v in rng.sample(sets, 2):
        sysname = v.system.name if v.system else None
        order = list(table)
        rng.shuffle(order)
        for name in order:
            dims, x, text = table[name]
            ts = units[name]
            new = canonical(sysname, ts) if sysname else ts
            what = f'{name} = {text} ({attr}) in {sysname}'
            for _ in range(2):
                q = v[name]
                judge(mon, q, x * ratio(ts, new), new, what, 'dataset')
                mon.equal(tuple(q.dimensions), dims, 'dataset', what)
            r = q[text]
            judge(mon, r, x, ts, what + ' and back', 'dataset')
            judge(mon, v[name], x * ratio(ts, new), new, what + ' again', 'dataset')
            rv = data.variables[name]
            mon.expect(numpy.array_equal(rv.data[...], x) and rv.unit == text and tuple(rv.dimensions) == dims,
                       'dataset', what, 'raw variable')
            mon.equal(data.units[name], text, 'dataset', what, 'raw unit')
        for d, n in sizes.items():
            if any(d in t[0] for t in table.values()):
                mon.equal(data.axes[d].size, n, 'dataset', d)
        mon.refuses(lambda: v['nothing'], 'dataset', 'unknown variable', errors=KeyError)
    mon.expect(datafile.Interface(path) is data, 'dataset', 'one view per file')
    mon.expect(open(path, 'rb').read() == raw, 'raw', 'file modified')
    os.remove(path)


SUBS = {
    'histories': (histories, 3000, 80000),
    'commuting': (commuting, 900, 20000),
    'dataset': (dataset, 400, 8000),
}
