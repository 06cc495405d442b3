"""Arithmetic of variables matches arrays by dimension name."""
import operator
from fractions import Fraction

import numpy

from harness import arrays, ugen
from harness.props import p05
from goats.core import metric, observing, physical, variable

RULE = ('a distinct (operation, dimensions and shapes of operands, data source) whose values, unit and '
        'dimensions were compared with a model that aligns arrays by dimension name')
ASSUMPTIONS = (
    'The order of merged dimensions is that of first appearance.',
    'numpy functions that the package does not adapt (sum, max, transpose, ...) return plain arrays '
    'and are judged on values only.',
)
MUST_SEE = ('oracle:product', 'oracle:quotient', 'oracle:sum', 'oracle:number', 'oracle:power', 'oracle:refuse',
            'oracle:kept', 'oracle:mean', 'oracle:squeeze', 'oracle:compare', 'oracle:chain', 'oracle:equal',
            'oracle:contains', 'oracle:plain', 'oracle:elements')

SYMBOLS = ['m', 's', 'g', 'J', 'T', 'K', 'au', 'A', 'eV', 'h']


class Model:
    def __init__(self, x, dims, ts):
        self.x, self.dims, self.ts = x, tuple(dims), ts


def aligned(f, a, b):
    """Apply f to two models, matching axes by name."""
    dims = list(a.dims) + [d for d in b.dims if d not in a.dims]

    def spread(m):
        order = [m.dims.index(d) for d in dims if d in m.dims]
        y = numpy.transpose(m.x, order)
        shape = []
        k = 0
        for d in dims:
            if d in m.dims:
                shape.append(y.shape[k])
                k += 1
            else:
                shape.append(1)
        return y.reshape(shape)
    return f(spread(a), spread(b)), tuple(dims)


def make(rng, x, dims, ts, cls=variable.Quantity, kinds=('list', 'array', 'array', 'file')):
    text = ugen.fmt(rng, ts) if ts else '1'
    # sometimes stored in another unit and converted, so that a scale is pending
    if ts and rng.random() < 0.35:
        us = ugen.same_quantity(rng, ts)
        f = p05.size(ts)[0] / p05.size(us)[0]
        stored, unit = x * f, ugen.fmt(rng, us)
    else:
        stored, unit = x, text
    kind, raw, close = arrays.source(rng, stored, dims, unit, kinds)
    q = cls(raw, dimensions=dims, unit=unit)
    if unit != text:
        q = q[text]
    if rng.random() < 0.3:
        numpy.array(q)
    return q, Model(x, dims, ts), close


def snap(q):
    return numpy.array(q).tolist(), tuple(q.dimensions), str(q.unit)


def judge(mon, q, m, key, *what, rtol=1e-10):
    what = ' '.join(what)
    mon.close(numpy.array(q), m.x, key, what, rtol=rtol)
    mon.equal(tuple(q.dimensions), m.dims, key, what, 'dimensions')
    mon.equal(tuple(q.shape), m.x.shape, key, what, 'shape')
    g = ugen.parse(q.unit)
    mon.expect(g is not None and p05.same(p05.size(g), p05.size(m.ts), 1e-6), key, what, f'| unit {q.unit}, want {m.ts}')
    mon.equal(dict(q.shape_dict), dict(zip(m.dims, m.x.shape)), key, what, 'shape_dict')


CLASSES = [variable.Quantity, variable.Quantity, observing.Quantity]


def pair(rng, mixed=False):
    cls = rng.choice(CLASSES)
    sizes = {d: rng.randint(1, 4) for d in arrays.DIMS}
    if rng.random() < 0.3:      # equal sizes: only names can tell axes apart
        n = rng.randint(2, 3)
        sizes = {d: n for d in sizes}
    out = []
    for _ in range(2):
        dims = tuple(rng.sample(arrays.DIMS[:5], rng.choice([1, 1, 2, 2, 3])))
        if out and rng.random() < 0.3:
            dims = list(out[0][1].dims)
            rng.shuffle(dims)
        sh = [sizes[d] for d in dims]
        if rng.random() < 0.15:
            sh[rng.randrange(len(sh))] = 1
        out.append(make(rng, arrays.values(rng, tuple(sh), True), tuple(dims), ugen.terms(rng, SYMBOLS, rng.choice([1, 1, 2])), rng.choice(CLASSES) if mixed else cls))
    return out


def done(*items):
    for it in items:
        if it[2]:
            it[2]()


def products(mon, rng, i):
    P, Q = pair(rng)
    (a, A, _), (b, B, _) = P, Q
    try:
        sa, sb = snap(a), snap(b)
        what = f'{A.dims}{A.x.shape} {a.unit} with {B.dims}{B.x.shape} {b.unit}'
        mon.saw(A.dims, B.dims, A.x.shape, B.x.shape)
        x, dims = aligned(operator.mul, A, B)
        judge(mon, a * b, Model(x, dims, A.ts + B.ts), 'product', what)
        x, dims = aligned(operator.truediv, A, B)
        judge(mon, a / b, Model(x, dims, A.ts + p05.scaled(B.ts, -1)), 'quotient', what)
        x, dims = aligned(operator.mul, B, A)
        judge(mon, b * a, Model(x, dims, A.ts + B.ts), 'product', what + ' swapped')
        judge(mon, a * a, Model(A.x ** 2, A.dims, p05.scaled(A.ts, 2)), 'product', what + ' self')
        judge(mon, a / a, Model(A.x / A.x, A.dims, []), 'quotient', what + ' self')
        # in place
        x, dims = aligned(operator.mul, A, B)
        if dims == A.dims and x.shape == A.x.shape:
            c = a
            c *= b
            judge(mon, c, Model(x, dims, A.ts + B.ts), 'product', what + ' in place')
        mon.expect(snap(a) == sa and snap(b) == sb, 'kept', what)
        mon.sample(what)
    finally:
        done(P, Q)


def mixed(mon, rng, i):
    """Variables with and without parameters combine by name, or not at all."""
    P, Q = pair(rng, True)
    (a, A, _), (b, B, _) = P, Q
    try:
        what = f'{type(a).__module__} {A.dims}{A.x.shape} with {type(b).__module__} {B.dims}{B.x.shape}'
        mon.saw(what)
        for f, sign in ((operator.mul, 1), (operator.truediv, -1)):
            try:
                q = f(a, b)
            except TypeError:
                mon.expect(type(a) is not type(b), 'refuse', what)
                continue
            x, dims = aligned(f, A, B)
            judge(mon, q, Model(x, dims, A.ts + p05.scaled(B.ts, sign)), 'product', what)
    finally:
        done(P, Q)


def sums(mon, rng, i):
    P, Q = pair(rng)
    (a, A, _), (b0, B0, _) = P, Q
    R = make(rng, arrays.values(rng, A.x.shape), A.dims, ugen.respell(rng, A.ts), type(a))
    b, B, _ = R
    try:
        sa, sb = snap(a), snap(b)
        what = f'{A.dims}{A.x.shape} {a.unit}'
        mon.saw(A.dims, A.x.shape, str(a.unit))
        judge(mon, a + b, Model(A.x + B.x, A.dims, A.ts), 'sum', what)
        judge(mon, a - b, Model(A.x - B.x, A.dims, A.ts), 'sum', what)
        judge(mon, -a, Model(-A.x, A.dims, A.ts), 'sum', what)
        judge(mon, +b, Model(B.x, A.dims, A.ts), 'sum', what)
        judge(mon, abs(b), Model(abs(B.x), A.dims, A.ts), 'sum', what)
        c = a
        c += b
        judge(mon, c, Model(A.x + B.x, A.dims, A.ts), 'sum', what + ' in place')
        for f in (operator.lt, operator.le, operator.gt, operator.ge):
            mon.expect(numpy.array_equal(numpy.array(f(a, b)), f(A.x, B.x)), 'compare', what, f.__name__)
            t = float(B.x.flat[0])
            mon.expect(numpy.array_equal(numpy.array(f(b, t)), f(numpy.array(b), t)), 'compare', what, f.__name__, 'number')
        same = type(a)(A.x.copy(), dimensions=A.dims, unit=str(a.unit))
        if numpy.array_equal(numpy.array(a), A.x):
            mon.expect(same == a and a == same, 'equal', what)
        mon.expect(a == a and type(a)(a) == a, 'equal', what, 'self')
        mon.expect(not a == b or numpy.array_equal(A.x, B.x), 'equal', what, 'different values')
        renamed = ('radius',) + A.dims[1:]
        for dims in (A.dims[1:] + A.dims[:1], renamed):
            if dims == A.dims:
                continue
            other = variable.Quantity(A.x.copy(), dimensions=dims, unit=str(a.unit))
            mon.expect(not a == other, 'equal', what, f'dimensions {dims}')
            for f in (operator.add, operator.sub, operator.lt, operator.le, operator.gt, operator.ge):
                mon.refuses(lambda: f(a, other), 'refuse', what, f'{f.__name__} with dimensions {dims}')
                mon.refuses(lambda: f(other, a), 'refuse', what, f'{f.__name__} with dimensions {dims}')
        u = metric.Unit('K^7')
        other = variable.Quantity(A.x.copy(), dimensions=A.dims, unit='K^7')
        mon.expect(not a == other, 'equal', what, 'other unit')
        for name, f in (('+', operator.add), ('-', operator.sub), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)):
            mon.refuses(lambda: f(a, other), 'refuse', what, f'{name} across units')
        if set(B0.dims) != set(A.dims):
            o = variable.Quantity(numpy.ones(B0.x.shape), dimensions=B0.dims, unit=str(a.unit))
            for f in (operator.add, operator.lt, operator.ge):
                mon.refuses(lambda: f(a, o), 'refuse', what, f'{f.__name__} across dimensions {B0.dims}')
        mon.expect(snap(a) == sa and snap(b) == sb, 'kept', what)
    finally:
        done(P, Q, R)


def undimensioned(rng, x, ts):
    """A physical array, sometimes with a change of unit pending: (array, closer)."""
    text = ugen.fmt(rng, ts) if ts else '1'
    stored, unit = x, text
    if ts and rng.random() < 0.4:
        us = ugen.same_quantity(rng, ts)
        stored, unit = x * (p05.size(ts)[0] / p05.size(us)[0]), ugen.fmt(rng, us)
    kind, raw, close = arrays.source(rng, stored, arrays.DIMS[:x.ndim], unit, ('list', 'array', 'array', 'file'))
    q = physical.Array(raw, unit=unit)
    return (q if unit == text else q[text]), close


def elementwise(mon, rng, i):
    """Physical arrays combine element by element, with the same rules for units."""
    shape = tuple(rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2, 3])))
    ts = ugen.terms(rng, SYMBOLS, rng.choice([1, 1, 2]))
    us = ugen.terms(rng, SYMBOLS, rng.choice([1, 1, 2]))
    X, Y, Z = (arrays.values(rng, shape, True) for _ in range(3))
    (a, f), (b, g), (c, h) = undimensioned(rng, X, ts), undimensioned(rng, Y, ugen.respell(rng, ts)), undimensioned(rng, Z, us)

    def snap(q):
        return numpy.array(q).tolist(), str(q.unit)

    def judge(q, x, ts, key, *what):
        mon.expect(isinstance(q, physical.Array), key, *what, f'type {type(q)}')
        mon.close(numpy.array(q), x, key, *what, rtol=1e-10)
        mon.equal(tuple(q.shape), x.shape, key, *what, 'shape')
        u = ugen.parse(q.unit)
        mon.expect(u is not None and p05.same(p05.size(u), p05.size(ts), 1e-6), key, *what, f'| unit {q.unit}, want {ts}')
    try:
        before = snap(a), snap(b), snap(c)
        what = f'array{shape} {a.unit}, {b.unit}, {c.unit}'
        mon.saw(shape, str(a.unit), str(c.unit))
        judge(a + b, X + Y, ts, 'elements', what, '+')
        judge(b - a, Y - X, ts, 'elements', what, '-')
        judge(-a, -X, ts, 'elements', what, 'negative')
        judge(abs(-a), abs(X), ts, 'elements', what, 'abs')
        judge(a * c, X * Z, ts + us, 'elements', what, '*')
        judge(c / a, Z / X, us + p05.scaled(ts, -1), 'elements', what, '/')
        k = rng.choice([2, -3, 0.5, 7.0])
        judge(a * k, X * k, ts, 'elements', what, '*', k)
        judge(k * a, X * k, ts, 'elements', what, k, '*')
        judge(a / k, X / k, ts, 'elements', what, '/', k)
        for p in (2, -1, 0.5):
            if ugen.magnitude(p05.scaled(ts, Fraction(p))) < 150:
                judge(a ** p, X ** float(p), p05.scaled(ts, Fraction(p)), 'elements', what, '**', p)
        t = float(numpy.array(b).flat[0])
        other = physical.Array(X.copy(), unit='K^7')
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            mon.expect(numpy.array_equal(numpy.array(op(a, b)), op(numpy.array(a), numpy.array(b))), 'compare', what, op.__name__)
            mon.expect(numpy.array_equal(numpy.array(op(b, t)), op(numpy.array(b), t)), 'compare', what, op.__name__, t)
            mon.refuses(lambda: op(a, other), 'refuse', what, op.__name__, 'across units')
        for op in (operator.add, operator.sub):
            mon.refuses(lambda: op(a, other), 'refuse', what, op.__name__, 'across units')
            mon.refuses(lambda: op(a, k), 'refuse', what, op.__name__, 'number')
        mon.refuses(lambda: k / a, 'refuse', what, 'number /')
        mon.refuses(lambda: a ** b, 'refuse', what, 'a ** b')
        mon.expect(a == a and a == physical.Array(a), 'equal', what, 'self')
        mon.expect(a == physical.Array(numpy.array(a), unit=str(a.unit)), 'equal', what, 'same values')
        mon.expect(not a == other and not other == a, 'equal', what, 'other unit')
        Y2 = numpy.array(a)
        Y2.flat[rng.randrange(Y2.size)] *= 1.5
        mon.expect(not a == physical.Array(Y2, unit=str(a.unit)), 'equal', what, 'one value differs')
        mon.expect((snap(a), snap(b), snap(c)) == before, 'kept', what)
    finally:
        for close in (f, g, h):
            if close:
                close()


def numbers(mon, rng, i):
    P, Q = pair(rng)
    (a, A, _) = P
    try:
        sa = snap(a)
        k = rng.choice([2, -3, 0.5, 7.0, numpy.float64(1.5)])
        what = f'{A.dims}{A.x.shape} {a.unit} with {k!r}'
        mon.saw(A.dims, A.x.shape, str(a.unit), float(k))
        judge(mon, a * k, Model(A.x * k, A.dims, A.ts), 'number', what)
        judge(mon, float(k) * a, Model(A.x * k, A.dims, A.ts), 'number', what)
        judge(mon, a / k, Model(A.x / k, A.dims, A.ts), 'number', what)
        for p in (2, 3, -1, 0.5, 1, -1.5):
            ts = p05.scaled(A.ts, Fraction(p))
            if ugen.magnitude(ts) < 150:
                judge(mon, a ** p, Model(A.x ** float(p), A.dims, ts), 'power', what, f'** {p}')
        mon.refuses(lambda: a + k, 'refuse', what, '+ number')
        mon.refuses(lambda: k / a, 'refuse', what, 'number /')
        mon.refuses(lambda: a ** a, 'refuse', what, 'a ** a')
        t = float(numpy.array(a).flat[rng.randrange(A.x.size)])
        mon.expect(t in a and a.array_contains(t), 'contains', what, t)
        for f in (1 + 1e-13, 1 - 1e-13):
            lo, hi = numpy.min(numpy.array(a)), numpy.max(numpy.array(a))
            if lo < t * f < hi:
                mon.expect(bool(a.array_contains(t * f)), 'contains', what, f'{t} * {f}')
        far = float(numpy.max(numpy.array(a))) * 1.1
        mon.expect(far not in a and not a.array_contains(far), 'contains', what, far)
        near = t * 1.001
        hit = bool(numpy.any(numpy.isclose(near, numpy.array(a), atol=0.0, rtol=1e-5)))
        mon.expect(bool(a.array_contains(near)) is hit or hit, 'contains', what, near)
        # values of functions without special treatment
        x = numpy.array(a)
        mon.close(numpy.sum(a), x.sum(), 'plain', what, 'sum')
        mon.close(numpy.max(a), x.max(), 'plain', what, 'max')
        mon.close(numpy.array(numpy.transpose(a)), x.T, 'plain', what, 'transpose')
        mon.close(numpy.array(numpy.sum(a, axis=0)), x.sum(axis=0), 'plain', what, 'sum axis')
        mon.expect(snap(a) == sa, 'kept', what)
    finally:
        done(P, Q)


def mismatched(mon, rng, i):
    """Different sizes of one dimension never combine."""
    dims = tuple(rng.sample(arrays.DIMS, rng.choice([1, 2, 3])))
    sh = tuple(rng.randint(2, 4) for _ in dims)
    j = rng.randrange(len(dims))
    n = rng.choice([m for m in (2, 3, 4, 5, 6) if m != sh[j]])
    extra = [d for d in arrays.DIMS if d not in dims]
    bd = [dims[j]] + rng.sample(extra, rng.choice([0, 1]))
    rng.shuffle(bd)
    bs = tuple(n if d == dims[j] else rng.randint(1, 3) for d in bd)
    a, A, ca = make(rng, arrays.values(rng, sh, True), dims, ugen.terms(rng, SYMBOLS, 1))
    b, B, cb = make(rng, arrays.values(rng, bs, True), tuple(bd), ugen.terms(rng, SYMBOLS, 1))
    try:
        what = f'{dims}{sh} with {bd}{bs}'
        mon.saw(what)
        for name, f in (('*', operator.mul), ('/', operator.truediv)):
            mon.refuses(lambda: f(a, b), 'refuse', what, name)
            mon.refuses(lambda: f(b, a), 'refuse', what, name, 'swapped')
        mon.refuses(lambda: variable.Quantity(A.x, dimensions=dims + ('extra',), unit='m'), 'refuse', what, 'too many dimensions', errors=ValueError)
        if len(dims) > 1:
            mon.refuses(lambda: variable.Quantity(A.x, dimensions=dims[:-1], unit='m'), 'refuse', what, 'too few dimensions', errors=ValueError)
    finally:
        for c in (ca, cb):
            if c:
                c()


def reductions(mon, rng, i):
    dims = tuple(rng.sample(arrays.DIMS, rng.choice([1, 2, 3, 4])))
    sh = tuple(rng.choice([1, 1, 2, 3]) for _ in dims)
    a, A, close = make(rng, arrays.values(rng, sh), dims, ugen.terms(rng, SYMBOLS, rng.choice([1, 2])))
    try:
        what = f'{dims}{sh}'
        n = len(dims)
        axes = rng.sample(range(n), rng.randint(1, n))
        form = rng.choice(['int', 'neg', 'tuple', 'negtuple'])
        if form == 'int':
            axis = axes[0]
            axes = axes[:1]
        elif form == 'neg':
            axis = axes[0] - n
            axes = axes[:1]
        elif form == 'tuple':
            axis = tuple(axes)
        else:
            axis = tuple(k - n for k in axes)
        mon.saw(dims, sh, str(axis))
        left = [k for k in range(n) if k not in axes]
        if left:
            m = numpy.mean(a, axis=axis)
            judge(mon, m, Model(A.x.mean(axis=axis), [dims[k] for k in left], A.ts), 'mean', what, str(axis))
        mon.close(numpy.mean(a), A.x.mean(), 'mean', what, 'overall', rtol=1e-10, atol=1e-10 * float(abs(A.x).max()))
        kd = numpy.mean(a, axis=axis, keepdims=True)
        judge(mon, kd, Model(A.x.mean(axis=axis, keepdims=True), dims, A.ts), 'mean', what, f'{axis} keepdims')
        keep = [k for k in range(n) if sh[k] != 1]
        if keep:
            judge(mon, numpy.squeeze(a), Model(A.x.squeeze(), [dims[k] for k in keep], A.ts), 'squeeze', what)
        ones = [k for k in range(n) if sh[k] == 1]
        if ones and n > 1:
            k = rng.choice(ones)
            ax = rng.choice([k, k - n, (k,)])
            judge(mon, numpy.squeeze(a, axis=ax), Model(A.x.squeeze(axis=ax), [d for j, d in enumerate(dims) if j != k], A.ts),
                  'squeeze', what, str(ax))
        if any(s > 1 for s in sh):
            k = rng.choice([j for j in range(n) if sh[j] > 1])
            mon.refuses(lambda: numpy.squeeze(a, axis=k), 'refuse', what, f'squeeze axis {k}', errors=ValueError)
        mon.refuses(lambda: numpy.mean(a, axis=n), 'refuse', what, f'mean over axis {n}')
    finally:
        if close:
            close()


def chain(mon, rng, i):
    """Programs of several operations follow the model."""
    sizes = {d: rng.randint(1, 3) for d in arrays.DIMS[:4]}
    if rng.random() < 0.4:
        sizes = {d: 2 for d in sizes}
    pool, closers, steps = [], [], []
    for _ in range(3):
        dims = tuple(rng.sample(arrays.DIMS[:4], rng.choice([1, 2, 2, 3])))
        q, m, c = make(rng, arrays.values(rng, tuple(sizes[d] for d in dims), True), dims, ugen.terms(rng, SYMBOLS, 1))
        pool.append((q, m))
        closers.append(c)
    try:
        for _ in range(rng.choice([3, 4, 6])):
            x, y = rng.randrange(len(pool)), rng.randrange(len(pool))
            (a, A), (b, B) = pool[x], pool[y]
            op = rng.choice(['mul', 'div', 'num', 'pow', 'unit', 'index', 'add'])
            steps.append((op, x, y))
            if op in ('mul', 'div'):
                f = operator.mul if op == 'mul' else operator.truediv
                X, dims = aligned(f, A, B)
                if X.size > 5000:
                    continue
                q, M = f(a, b), Model(X, dims, A.ts + p05.scaled(B.ts, 1 if op == 'mul' else -1))
            elif op == 'num':
                q, M = 3.0 * a, Model(A.x * 3.0, A.dims, A.ts)
            elif op == 'pow':
                q, M = a ** 2, Model(A.x ** 2, A.dims, p05.scaled(A.ts, 2))
            elif op == 'add':
                q, M = a + a, Model(A.x + A.x, A.dims, A.ts)
            elif op == 'unit':
                ts = ugen.parse(a.unit)
                if not ts:
                    continue
                us = [(ugen.prefix(rng, 0), s, None, e) for p, s, _, e in ts]
                us = [(p, s, ugen.spell(rng, p, s, True), e) for p, s, _, e in us]
                if any(k is None for _, _, k, _ in us) or ugen.magnitude(us) > 100:
                    continue
                f = p05.size(ts)[0] / p05.size(us)[0]
                q, M = a[ugen.fmt(rng, us)], Model(A.x * f, A.dims, us)
            else:
                k = rng.randrange(a.shape[0])
                q, M = a[k], Model(A.x[k:k + 1], A.dims, A.ts)
            if ugen.magnitude(M.ts) > 120 or numpy.any(abs(M.x) > 1e150) or numpy.any(abs(M.x) < 1e-150):
                break
            judge(mon, q, M, 'chain', str(steps), rtol=1e-9)
            pool[rng.randrange(len(pool))] = (q, M)
        for q, M in pool:
            judge(mon, q, M, 'chain', f'{steps} bystander', rtol=1e-9)
        mon.saw(tuple(steps), str(sizes))
    finally:
        for c in closers:
            if c:
                c()


SUBS = {
    'products': (products, 900, 25000),
    'mixed': (mixed, 200, 4000),
    'sums': (sums, 700, 18000),
    'elementwise': (elementwise, 500, 12000),
    'numbers': (numbers, 600, 15000),
    'mismatched': (mismatched, 300, 6000),
    'reductions': (reductions, 700, 18000),
    'chain': (chain, 900, 25000),
}
