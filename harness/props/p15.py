"""Numerical helpers: bounds, nearest values, interpolation, coordinates, numbers and index arrays."""
import bisect
import math

import numpy

from goats.core import axis, index, interpolation, metric, numerical

RULE = ('a distinct array, target and axis (or point, text or index array) whose bounds, nearest value, interpolated value, '
        'coordinates or conversion were compared with a direct computation in plain Python')
ASSUMPTIONS = (
    'Bounds and interpolation are for references that increase along the interpolated axis, as EPREM coordinates do.',
    'Among several values at the same distance, the first one is the nearest.',
    'Where no value satisfies a bound, the last (lower) or first (upper) value is used.',
    'Coordinates below the floating-point epsilon may be rounded to zero.',
)
MUST_SEE = ('oracle:bounds', 'oracle:nearest', 'oracle:nearest-lower', 'oracle:nearest-upper', 'oracle:nearest-fallback',
            'oracle:interp-1d', 'oracle:interp-2d', 'oracle:interp-grid', 'oracle:interp-outside', 'oracle:rtp', 'oracle:xyz', 'oracle:roundtrip',
            'oracle:coord-refused', 'oracle:cast', 'oracle:cast-refused', 'oracle:index', 'oracle:index-unit', 'oracle:index-refused',
            'oracle:axis', 'oracle:axis-refused',
            'oracle:untouched')


def rising(rng, n):
    scale = rng.choice([1.0, 1e-6, 1e8, 3.0])
    x = rng.choice([0.0, -5.0, 1.0, 0.25]) * scale
    out = []
    for _ in range(n):
        out.append(x)
        x += rng.choice([1.0, 0.5, 2.0, 10.0, 1e-3]) * scale
    return out


def target(rng, row):
    """A value inside, at, or outside the range of `row`."""
    span = (row[-1] - row[0]) or abs(row[0]) or 1.0
    k = rng.random()
    if k < 0.25:
        return rng.choice(row)
    if k < 0.75 and len(row) > 1:
        j = rng.randrange(len(row) - 1)
        return row[j] + rng.choice([0.5, 0.1, 0.9, 0.37]) * (row[j + 1] - row[j])
    return rng.choice([row[0] - 0.3 * span, row[-1] + 0.3 * span, row[0] - 10 * span])


def bounds(mon, rng, i):
    nd = rng.choice([1, 1, 2, 2, 3])
    shape = [rng.randint(1, 4) for _ in range(nd)]
    axis = rng.randrange(nd)
    shape[axis] = n = rng.randint(1, 7)
    a = numpy.empty(shape)
    b = numpy.moveaxis(a, axis, -1)
    for idx in numpy.ndindex(*b.shape[:-1]):
        b[idx] = rising(rng, n)
    first = [float(v) for v in b[(0,) * (nd - 1)]]
    t = target(rng, first)
    given = rng.choice([axis, axis - nd]) if axis < nd - 1 or rng.random() < 0.5 else None
    arg = a.tolist() if rng.random() < 0.3 else a
    kept = a.copy()
    got = numerical.get_bounding_indices(arg, t, **({} if given is None else {'axis': given}))
    want_shape = list(shape)
    want_shape[axis] = 2
    mon.require(list(got.shape) == want_shape, 'bounds', 'shape', got.shape, want_shape)
    g = numpy.moveaxis(got, axis, -1)
    mon.saw("bounds", tuple(shape), axis, tuple(first), t)
    for idx in numpy.ndindex(*b.shape[:-1]):
        row = [float(v) for v in b[idx]]
        lo = max(bisect.bisect_right(row, t) - 1, 0)
        hi = min(bisect.bisect_left(row, t), n - 1)
        mon.equal((int(g[idx][0]), int(g[idx][1])), (lo, hi), 'bounds', row, t)
    mon.expect(numpy.array_equal(a, kept), 'untouched', 'bounds')


def nearest(mon, rng, i):
    nd = rng.choice([1, 1, 1, 2, 3])
    shape = tuple(rng.randint(1, 5) for _ in range(nd))
    size = int(numpy.prod(shape))
    kind = rng.choice(['rising', 'falling', 'any', 'ints'])
    if kind == 'ints':
        flat = [rng.randint(-4, 4) for _ in range(size)]
    else:
        flat = rising(rng, size)
        if kind == 'falling':
            flat.reverse()
        if kind == 'any':
            flat = [rng.choice(flat) for _ in flat]
            rng.shuffle(flat)
    row = sorted(set(flat))
    t = target(rng, [float(v) for v in row])
    if kind == 'ints' and rng.random() < 0.5:
        t = rng.randint(-6, 6)
    a = numpy.array(flat).reshape(shape)
    arg = a.tolist() if rng.random() < 0.4 else a
    for bound in (None, 'lower', 'upper'):
        ok = [k for k, v in enumerate(flat) if bound is None or (v >= t if bound == 'lower' else v <= t)]
        key = 'nearest' if bound is None else 'nearest-' + bound
        if ok:
            want = min(ok, key=lambda k: (abs(flat[k] - t), k))
        else:
            want, key = (size - 1 if bound == 'lower' else 0), 'nearest-fallback'
        got = numerical.find_nearest(arg, t, bound=bound) if bound or rng.random() < 0.5 else numerical.find_nearest(arg, t)
        mon.equal(got.value, flat[want], key, flat, t, bound)
        if nd == 1:
            mon.equal(int(got.index), want, key, 'index', flat, t, bound)
        else:
            mon.equal(tuple(int(k) for k in got.index), tuple(int(k) for k in numpy.unravel_index(want, shape)), key, 'index', flat, shape, t, bound)
        mon.saw('nearest', tuple(flat), shape, t, bound)
    mon.sample(f'{flat} {t}')


def linear(row, ys, t):
    """Linear interpolation of the list of arrays `ys` at `t`."""
    if t <= row[0]:
        return ys[0]
    if t >= row[-1]:
        return ys[-1]
    j = bisect.bisect_right(row, t) - 1
    if row[j] == t:
        return ys[j]
    w = (t - row[j]) / (row[j + 1] - row[j])
    return ys[j] + w * (ys[j + 1] - ys[j])


def interp(mon, rng, i):
    two = i % 2 == 1
    n = rng.randint(2, 7)
    rest = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 2)))
    nt = rng.randint(1, 4)
    if two:
        rows = [rising(rng, n)]
        step = min(q - p for p, q in zip(rows[0], rows[0][1:]))
        for _ in range(nt - 1):
            rows.append([v + rng.choice([0.0, 0.3, 0.7, -0.2]) * step for v in rows[0]])
        ref = numpy.array(rows)
        arr = numpy.array([rng.uniform(-1, 1) for _ in range(nt * n * int(numpy.prod(rest)))]).reshape((nt, n) + rest)
        lo, hi = max(r[0] for r in rows), min(r[-1] for r in rows)
    else:
        rows = [rising(rng, n)]
        ref = numpy.array(rows[0])
        arr = numpy.array([rng.uniform(-1, 1) for _ in range(n * int(numpy.prod(rest)))]).reshape((n,) + rest)
        lo, hi = rows[0][0], rows[0][-1]
    targets = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.2:
            targets.append(rng.choice([v for r in rows for v in r if lo <= v <= hi] or [lo]))
        else:
            targets.append(min(lo + rng.random() * (hi - lo), hi))
    axis = rng.choice([None, 1 if two else 0])
    if axis is not None and rng.random() < 0.3:
        low, high = min(r[0] for r in rows), max(r[-1] for r in rows)
        span = high - low
        targets.append(rng.choice([low - 0.5 * span, high + 0.5 * span]))
    kept = ref.copy(), arr.copy(), list(targets)
    got = interpolation.apply(arr, ref, targets, axis=axis)
    mon.saw('interp', two, tuple(map(tuple, rows)), tuple(targets), axis)
    mon.sample(f'rows {rows} targets {targets}')
    shape = ((nt, len(targets)) if two else (len(targets),)) + rest
    mon.require(numpy.shape(got) == shape, 'interp-2d' if two else 'interp-1d', 'shape', numpy.shape(got), shape)
    for k, t in enumerate(targets):
        key = 'interp-2d' if two else 'interp-1d'
        if any(t in r for r in rows):
            key = 'interp-grid'
        if not lo <= t <= hi:
            key = 'interp-outside'
        if two:
            for m, r in enumerate(rows):
                mon.close(got[m][k], linear(r, arr[m], t), key, r, t, axis, rtol=1e-7, atol=1e-9)
        else:
            mon.close(got[k], linear(rows[0], arr, t), key, rows[0], t, axis, rtol=1e-7, atol=1e-9)
    mon.expect(numpy.array_equal(ref, kept[0]) and numpy.array_equal(arr, kept[1]) and targets == kept[2], 'untouched', 'interpolation')


def coords(mon, rng, i):
    n = rng.choice([None, 1, 3, 5])
    pool = [0.0, 1.0, -1.0, 0.5, -2.5, 1e6, -1e6, 1e-3, 3.7]
    pts = [[rng.choice(pool) if rng.random() < 0.6 else rng.uniform(-10, 10) for _ in range(3)] for _ in range(n or 1)]
    cols = [[p[k] for p in pts] for k in range(3)]
    mon.saw('coords', tuple(map(tuple, pts)), n)
    wrap = rng.choice([numpy.array, numpy.array, list]) if n else (lambda c: c[0])
    args = [wrap(c) for c in cols]
    if n and wrap is numpy.array and rng.random() < 0.3:
        shape = (n, 1)
        args = [a.reshape(shape) for a in args]
    kept = [numpy.array(a) for a in args]
    call = lambda f, a: f(*a) if rng.random() < 0.5 else f(tuple(a) if rng.random() < 0.5 else a)
    got = call(numerical.xyz2rtp, args)
    for g, a in zip(got, args):
        mon.require(numpy.shape(g) == numpy.shape(a), 'rtp', 'shape', numpy.shape(g), numpy.shape(a))
    r, t, p = (numpy.ravel(g) for g in got)
    for k, (x, y, z) in enumerate(pts):
        R = math.sqrt(x * x + y * y + z * z)
        mon.close(r[k], R, 'rtp', 'r', pts[k], rtol=1e-12)
        if R:
            mon.close(t[k], math.acos(z / R), 'rtp', 'theta', pts[k], rtol=1e-6, atol=2e-7)
            mon.expect(0 <= t[k] <= math.pi, 'rtp', 'theta', t[k])
        if x or y:
            mon.close(p[k], math.atan2(y, x) % (2 * math.pi), 'rtp', 'phi', pts[k], rtol=1e-9, atol=1e-12)
        mon.expect(0 <= p[k] < 2 * math.pi + 1e-15, 'rtp', 'phi range', pts[k], p[k])
    back = call(numerical.rtp2xyz, list(got))
    for b, c in zip(back, cols):
        for k, v in enumerate(c):
            mon.close(numpy.ravel(b)[k], v, 'roundtrip', pts[k], rtol=1e-9, atol=1e-12 * max(1.0, abs(r[k])))
    mon.expect(all(numpy.array_equal(a, b) for a, b in zip(args, kept)), 'untouched', 'coordinates')
    # the other way around
    R = [rng.choice([1.0, 2.5, 1e5, 0.1]) for _ in pts]
    T = [rng.choice([0.0, math.pi / 2, math.pi / 3, 3.0, 0.1, 2.0]) for _ in pts]
    Pp = [rng.choice([0.0, math.pi / 2, math.pi, 1.0, 4.0, 6.2, 3 * math.pi / 2]) for _ in pts]
    wrap = numpy.array if n else (lambda c: c[0])
    got = call(numerical.rtp2xyz, [wrap(c) for c in (R, T, Pp)])
    for k, (a, b, c) in enumerate(zip(R, T, Pp)):
        want = (a * math.sin(b) * math.cos(c), a * math.sin(b) * math.sin(c), a * math.cos(b))
        for g, w in zip(got, want):
            mon.close(numpy.ravel(g)[k], w, 'xyz', a, b, c, rtol=1e-12, atol=1e-15 * max(a, 1))
    f = rng.choice([numerical.xyz2rtp, numerical.rtp2xyz])
    mon.refuses(lambda: f(), 'coord-refused', errors=numerical.MissingArgsError)
    mon.refuses(lambda: f(*([1.0] * rng.choice([2, 4, 5]))), 'coord-refused', errors=numerical.ArgsNumberError)


def casts(mon, rng, i):
    k = rng.random()
    if k < 0.3:
        v = rng.choice([0, 1, -7, 2.5, 1e-300, 1j, True, numpy.float64(2), numpy.int32(3)])
        got = numerical.cast(v)
        mon.expect(got is v, 'cast', repr(v), repr(got))
    elif k < 0.75:
        v = rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20), float(rng.randint(-5, 5)),
                        complex(rng.randint(-3, 3), rng.randint(1, 3)), 10 ** 25])
        text = repr(v) if rng.random() < 0.6 else f' {v!r} '
        if isinstance(v, complex):
            text = repr(v)
        got = numerical.cast(text, **rng.choice([{}, {'strict': True}, {'strict': False}]))
        mon.expect(type(got) is type(v) and got == v, 'cast', text, repr(got))
        mon.saw('cast', text)
    else:
        bad = rng.choice(['', 'x', '1.2.3', '1e', '--1', '1 2', 'cm', '1,2', '[1]'])
        mon.refuses(lambda: numerical.cast(bad), 'cast-refused', bad, errors=TypeError)
        got = numerical.cast(bad, strict=False)
        mon.expect(got is None or got == bad, 'cast-refused', 'not strict', bad, repr(got))


def indices(mon, rng, i):
    n = rng.randint(1, 8)
    points = [rng.randint(0, 30) for _ in range(n)]
    with_unit = rng.random() < 0.6
    if with_unit:
        unit, other, factor = rng.choice([('s', 'day', 1 / 86400), ('day', 's', 86400.0), ('MeV', 'J', 1.602176634e-13), ('km', 'cm', 1e5),
                                          ('m', 'km', 1e-3), ('h', 'minute', 60.0), ('J', 'erg', 1e7)])
    values = [rng.uniform(-5, 5) for _ in range(n)] if with_unit or rng.random() < 0.5 else [f'X{k}' for k in range(n)]
    form = rng.choice([list, tuple, numpy.array])
    given = form(values)
    d = index.Data(rng.choice([list, tuple])(points), values=given) if with_unit or rng.random() < 0.8 else index.Data(points)
    vals = list(values) if len(d.values) and d.values is given else points
    q = index.Array(d, unit=unit) if with_unit else index.Array(d)
    mon.saw('indices', tuple(points), tuple(vals), with_unit and unit)
    check = lambda a, v: (mon.equal((len(a), [int(k) for k in a]), (n, points), 'index', points),
                          mon.equal([x for x in a.values], v, 'index', 'values', points),
                          mon.equal([a[k] for k in range(-n, n)], points + points, 'index', points),
                          mon.equal(list(numpy.array(a)), v, 'index', 'array'))
    check(q, vals)
    check(index.Array(q), vals)
    mon.refuses(lambda: q[n], 'index-refused', errors=IndexError)
    mon.refuses(lambda: index.Data([*points, 1.5]), 'index-refused', errors=ValueError)
    str(q), repr(q), str(d)
    if not with_unit:
        mon.expect(q.unit is None, 'index-unit', q.unit)
        mon.refuses(lambda: q['m'], 'index-refused', 'unit of values without one', errors=TypeError)
        return
    mon.equal(q.unit, unit, 'index-unit')
    arg = rng.choice([str, metric.Unit])(other)
    c = q[arg]
    mon.equal(c.unit, other, 'index-unit', unit, other)
    mon.equal([int(k) for k in c], points, 'index-unit', 'points', unit, other)
    mon.close(numpy.array(c), numpy.array(values) * factor, 'index-unit', unit, other, rtol=1e-4 if 'MeV' in (unit, other) else 1e-9)
    mon.close(numpy.array(c[unit]), numpy.array(values), 'index-unit', 'back', unit, other, rtol=1e-12)
    for system in ('mks', 'cgs', 'MKS'):
        base = {'s': 's', 'day': 's', 'h': 's', 'MeV': 'J erg', 'J': 'J erg', 'km': 'm cm', 'm': 'm cm'}[unit].split()
        mon.equal(q[system].unit, base[0] if system.lower() == 'mks' else base[-1], 'index-unit', 'system', system, unit)
    mon.equal((q.unit, [x for x in q.values]), (unit, values), 'index-unit', 'the original changed', unit, other)
    wrong = rng.choice(['nT', 'kg', 'A', 'K'])
    mon.refuses(lambda: q[wrong], 'index-refused', unit, wrong, errors=ValueError)


def axes(mon, rng, i):
    """Axes turn what the user asks for into index points."""
    n = rng.randint(1, 9)
    plain = axis.Quantity(axis.indexer(n))
    mon.equal(list(plain.index()), list(range(n)), 'axis', n)
    mon.equal(list(plain.reference), list(range(n)), 'axis', 'reference', n)
    bound = lambda: rng.choice([None, None, rng.randint(-n, n)])
    s = slice(bound(), bound(), rng.choice([None, 1, 2, 3]))
    want = list(range(n))[s]
    if want:
        mon.equal(list(plain.index(s)), want, 'axis', n, s)
    lo = rng.randrange(n)
    r = range(lo, rng.randint(lo + 1, n), rng.choice([1, 1, 2]))
    mon.equal(list(plain.index(r)), list(r), 'axis', n, r)
    picks = [rng.randrange(n) for _ in range(rng.randint(1, 4))]
    form = rng.choice([int, numpy.int64, numpy.int32, str])
    got = plain.index(*[form(k) for k in picks])
    mon.equal((list(got), list(got.values), got.unit), (picks, picks, None), 'axis', n, picks, form)
    outside = rng.choice([n, n + 1, -1, -n, 10 * n])
    mon.refuses(lambda: plain.index(*picks, outside), 'axis-refused', n, outside, errors=ValueError)
    mon.refuses(lambda: plain.index([0]), 'axis-refused', n, 'a list', errors=(axis.IndexTypeError, TypeError))
    mon.refuses(lambda: plain['m'], 'axis-refused', 'unit of an axis without one', errors=TypeError)
    mon.expect(axis.Quantity(plain) is plain, 'axis', 'the same axis')
    # an axis of measured values: the indexer is told the unit
    unit, other, factor, mks = rng.choice([('s', 'day', 1 / 86400, 's'), ('day', 's', 86400.0, 's'), ('km', 'cm', 1e5, 'm'),
                                           ('J', 'erg', 1e7, 'J')])
    values = numpy.cumsum([rng.uniform(0.1, 3) for _ in range(n)])
    told = []

    def method(targets, u, **kwargs):
        told.append((list(targets), metric.Unit(u), kwargs))
        scale = factor if u == other else 1.0
        return index.Data(list(targets), values=values[list(targets)] * scale)
    a = axis.Quantity(axis.Indexer(method, n), unit=unit)
    mon.equal(a.unit, unit, 'axis', 'unit')
    b = a[rng.choice([str, metric.Unit])(other)]
    mon.equal((a.unit, b.unit), (unit, other), 'axis', 'unit')
    for q, u, scale in rng.sample([(a, unit, 1.0), (b, other, factor), (b[unit], unit, 1.0)], 3):
        told.clear()
        got = q.index()
        mon.equal((list(got), got.unit), (list(range(n)), u), 'axis', 'all', u)
        mon.close(numpy.array(got.values), values * scale, 'axis', 'all', u)
        got = q.index(*picks, flag=5)
        mon.equal((list(got), got.unit, told[-1]), (picks, u, (picks, u, {'flag': 5})), 'axis', picks, u)
        mon.close(numpy.array(q.reference), values * scale, 'axis', 'reference', u)
        mon.equal(q.reference.unit, u, 'axis', 'reference', u)
    given = a.index(*picks, unit=other)
    mon.equal(given.unit, other, 'axis', 'unit asked for')
    mon.close(numpy.array(given.values), values[picks] * factor, 'axis', 'unit asked for', other)
    mon.equal(a[rng.choice(['mks', 'MKS'])].unit, mks, 'axis', 'system', unit)
    mon.refuses(lambda: a[rng.choice(['nT', 'kg', 'A', 'K'])], 'axis-refused', unit, errors=ValueError)
    mon.equal(a.unit, unit, 'axis', 'unit kept')
    mon.saw('axes', n, tuple(picks), str(s), unit)


SUBS = {
    'axes': (axes, 300, 4000),
    'bounds': (bounds, 800, 10000),
    'nearest': (nearest, 1000, 12000),
    'interp': (interp, 600, 8000),
    'coords': (coords, 600, 8000),
    'casts': (casts, 400, 3000),
    'indices': (indices, 400, 6000),
}
