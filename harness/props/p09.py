"""Arithmetic and comparison of scalars and vectors keep values and units in step."""
import math
import operator
from fractions import Fraction

import numpy

from harness import ugen
from harness.props import p05
from goats.core import constant, measurable, metric, physical

RULE = ('a distinct (operation, operand kinds, units) whose result was compared with the model '
        'in value, unit and type, or that was refused')
ASSUMPTIONS = (
    'Result units are read from their printed form by an independent reader.',
    'A plain array on the left of an operator takes precedence (numpy) and is not judged.',
)
MUST_SEE = ('oracle:value', 'oracle:unit', 'oracle:refuse', 'oracle:operands-kept', 'oracle:compare',
            'oracle:inplace', 'oracle:equal', 'oracle:copy', 'oracle:cast', 'oracle:item', 'oracle:assumption', 'oracle:history')

SYMBOLS = ['m', 'au', 'g', 's', 'h', 'd', 'A', 'K', 'mol', 'J', 'erg', 'eV', 'N', 'dyn', 'Pa', 'W', 'C',
           'V', 'T', 'Wb', 'P', 'cd']


class Model:
    """kind, values, unit terms"""

    def __init__(self, kind, x, ts, name=''):
        self.kind, self.x, self.ts = kind, x, ts

    def __repr__(self):
        return f'{self.kind}({self.x}, {[(p + s, str(e)) for p, s, _, e in self.ts]})'


def units(rng, n=None):
    return ugen.terms(rng, SYMBOLS, n or rng.choice([1, 1, 2, 2, 3]))


def values(rng, n=None):
    def one():
        r = rng.random()
        if r < 0.08:
            return float(rng.choice([1, 2, 3]))
        return rng.choice([1, -1]) * (rng.uniform(0.1, 9) if r < 0.7 else 10 ** rng.uniform(-8, 8))
    return one() if n is None else [one() for _ in range(n)]


def make(rng, kind, x, ts):
    text = ugen.fmt(rng, ts) if ts else '1'
    u = rng.choice([text, text, metric.Unit(text)])
    if kind == 'scalar':
        return physical.Scalar(x, unit=u)
    if kind == 'mscalar':
        return measurable.Scalar(x, unit=u)
    form = rng.choice([list, tuple, numpy.array])
    return physical.Vector(form(x), unit=u)


def draw(rng, kind=None, n=3, ts=None):
    kind = kind or rng.choice(['scalar', 'scalar', 'vector', 'mscalar'])
    x = values(rng, n) if kind == 'vector' else values(rng)
    ts = units(rng) if ts is None else ts
    return make(rng, kind, x, ts), Model(kind, numpy.array(x) if kind == 'vector' else x, ts)


def judge(mon, q, m, what, key='value'):
    x = numpy.array(q.data, dtype=float)
    mon.close(x, m.x, key, what, rtol=1e-12)
    want = 'vector' if isinstance(q, physical.Vector) else 'scalar'
    mon.expect((m.kind == 'vector') == (want == 'vector'), key, what, f'kind {type(q)}')
    g = ugen.parse(q.unit)
    mon.expect(g is not None and p05.same(p05.size(g), p05.size(m.ts)), 'unit' if key == 'value' else key,
               what, f'| unit {q.unit}, want {m.ts}')


def snap(q):
    return type(q), numpy.array(q.data, dtype=float).tolist(), str(q.unit)


def merged(a, b, sign=1):
    return list(a) + p05.scaled(b, sign)


def plain(ts):
    """The unit's own magnitude, for skipping results out of range."""
    return ugen.magnitude(ts) < 150


def arithmetic(mon, rng, i):
    (a, A) = draw(rng)
    op = rng.choice(['add', 'sub', 'mul', 'div', 'kmul', 'mulk', 'divk', 'pow', 'neg', 'pos', 'abs'])
    if op in ('add', 'sub'):
        kind = A.kind if A.kind != 'vector' else rng.choice(['vector', 'vector', 'scalar'])
        b, B = draw(rng, kind, ts=ugen.respell(rng, A.ts))
    else:
        kind = 'vector' if A.kind == 'vector' and rng.random() < 0.6 else rng.choice(['scalar', 'mscalar'])
        b, B = draw(rng, kind)
    k = rng.choice([2, -3, 0.5, 7.25, -1, 1, 3.0, numpy.float64(2.5), numpy.int64(4)])
    inplace = rng.random() < 0.35
    sa, sb = snap(a), snap(b)
    what = f'{op} {a!r} {b!r} {k!r}' + (' in place' if inplace else '')
    mon.saw(op, A.kind, B.kind, str(a.unit), str(b.unit), inplace)
    mon.event('op:' + op)
    ops = {
        'add': (operator.add, operator.iadd, b), 'sub': (operator.sub, operator.isub, b),
        'mul': (operator.mul, operator.imul, b), 'div': (operator.truediv, operator.itruediv, b),
        'mulk': (operator.mul, operator.imul, k), 'divk': (operator.truediv, operator.itruediv, k),
    }
    want = None
    if op == 'add':
        want = Model(A.kind, A.x + B.x, A.ts)
    elif op == 'sub':
        want = Model(A.kind, A.x - B.x, A.ts)
    elif op == 'mul':
        want = Model(A.kind, A.x * B.x, merged(A.ts, B.ts))
    elif op == 'div':
        want = Model(A.kind, A.x / B.x, merged(A.ts, B.ts, -1))
    elif op in ('mulk', 'kmul'):
        want = Model(A.kind, A.x * float(k), A.ts)
    elif op == 'divk':
        want = Model(A.kind, A.x / float(k), A.ts)
    if op in ops:
        if not plain(want.ts):
            return
        f, g, other = ops[op]
        if inplace:
            target = type(a)(a)
            keep = target
            result = g(target, other)
            judge(mon, result, want, what, 'inplace')
            # The name that was updated and any other reference to the same
            # object agree, or the original is left alone: never a mixture.
            st = snap(keep)
            mon.expect(st == snap(result) or st == sa, 'inplace', what, f'| the object became {st}')
        else:
            result = f(a, other)
            judge(mon, result, want, what)
    elif op == 'kmul':
        result = k * a if not isinstance(k, numpy.generic) else float(k) * a
        judge(mon, result, want, what)
    elif op == 'pow':
        p = rng.choice([2, 3, -1, -2, 1, 0.5, 1.5, 2.0, -0.5])
        if A.kind == 'vector':
            if numpy.any(A.x < 0) and p != int(p):
                a, A = draw(rng, 'vector', ts=A.ts)
                a, A = abs(a), Model('vector', abs(A.x), A.ts)
                sa = snap(a)
        elif A.x < 0 and p != int(p):
            a, A = abs(a), Model(A.kind, abs(A.x), A.ts)
            sa = snap(a)
        ts = p05.scaled(A.ts, Fraction(p))
        if not plain(ts):
            return
        what += f' ** {p}'
        want = Model(A.kind, A.x ** float(p), ts)
        if inplace:
            result = type(a)(a)
            result **= p
        else:
            result = a ** p
        judge(mon, result, want, what)
    else:
        f = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}[op]
        judge(mon, f(a), Model(A.kind, f(A.x), A.ts), what)
    mon.expect(snap(a) == sa and snap(b) == sb, 'operands-kept', what, f'| {sa} became {snap(a)}; {sb} became {snap(b)}')
    mon.sample(what)


def refusals(mon, rng, i):
    """Sums and orderings across units, and ill-defined operations, are refused."""
    a, A = draw(rng)
    kind = A.kind if rng.random() < 0.7 else rng.choice(['scalar', 'vector'] if A.kind == 'vector' else ['scalar', 'mscalar'])
    for _ in range(50):
        if rng.random() < 0.5:
            ts = units(rng)
        else:       # same dimension, other size
            ts = [(ugen.prefix(rng, 0.2), s, None, e) for p, s, _, e in A.ts]
            ts = [(p, s, ugen.spell(rng, p, s, True), e) for p, s, _, e in ts]
            if any(k is None for _, _, k, _ in ts):
                continue
        if not p05.same(p05.size(ts), p05.size(A.ts)):
            break
    else:
        return
    b, B = draw(rng, kind, ts=ts)
    k = rng.choice([2, 0.5, -1, 3.0])
    name, func = rng.choice([
        ('a + b', lambda: a + b), ('b + a', lambda: b + a), ('a - b', lambda: a - b),
        ('a + k', lambda: a + k), ('k + a', lambda: k + a), ('a - k', lambda: a - k), ('k - a', lambda: k - a),
        ('a += b', lambda: operator.iadd(a, b)), ('a -= b', lambda: operator.isub(a, b)),
        ('a += k', lambda: operator.iadd(a, k)),
        ('a < b', lambda: a < b), ('a <= b', lambda: a <= b), ('a > b', lambda: a > b), ('a >= b', lambda: a >= b),
        ('k / a', lambda: k / a), ('a ** b', lambda: a ** b), ('k ** a', lambda: k ** a),
        ('a ** [1, 2]', lambda: a ** [1, 2]),
        ('a **= b', lambda: operator.ipow(a, b)),
    ])
    if name in ('b + a',) and B.kind != 'vector' and A.kind == 'vector':
        return
    sa, sb = snap(a), snap(b)
    mon.saw(name, A.kind, B.kind, str(a.unit), str(b.unit))
    what = f'{name} with a = {a!r}, b = {b!r}, k = {k}'
    mon.refuses(func, 'refuse', what)
    mon.expect(snap(a) == sa and snap(b) == sb, 'operands-kept', what, f'| {sa} became {snap(a)}')
    if (A.kind == 'vector') == (B.kind == 'vector'):
        mon.expect(not numpy.any(a == b) and a != b, 'equal', what, '== across units')
    # the same numbers in another unit are another quantity
    twin = make(rng, A.kind, list(A.x) if A.kind == 'vector' else A.x, B.ts)
    mon.expect(not a == twin and a != twin and not twin == a, 'equal', f'{a!r} == {twin!r}', 'same numbers, other unit')


def comparing(mon, rng, i):
    """Comparisons in one unit are those of the values."""
    a, A = draw(rng, rng.choice(['scalar', 'vector', 'mscalar']))
    b, B = draw(rng, A.kind, ts=ugen.respell(rng, A.ts))
    if rng.random() < 0.3:
        b, B = make(rng, A.kind, A.x if A.kind != 'vector' else list(A.x), B.ts), Model(A.kind, A.x, B.ts)
    what = f'{a!r} and {b!r}'
    mon.saw(A.kind, str(a.unit), float(numpy.sum(A.x)))
    for f in (operator.lt, operator.le, operator.gt, operator.ge):
        got = f(a, b)
        mon.expect(numpy.array_equal(numpy.array(got), f(A.x, B.x)), 'compare', f.__name__, what, f'| got {got}')
    same = bool(numpy.all(A.x == B.x))
    mon.expect(bool(a == b) is same and bool(a != b) is not same, 'equal', what, f'| == {a == b}, != {a != b}')
    mon.expect(a == a and not a != a, 'equal', what, 'self')
    if A.kind == 'scalar':
        k = rng.choice([A.x, A.x + 1, A.x - 1])
        mon.expect(bool(a == k) is (A.x == k) and (k == a) is (A.x == k), 'equal', what, f'number {k}')
        mon.equal(float(a), A.x, 'cast', what)
        mon.equal(int(a), int(A.x), 'cast', what)
        for f in (round, math.floor, math.ceil, math.trunc):
            r = f(a)
            mon.expect(float(r) == f(A.x) and r.unit == a.unit, 'cast', what, f'{f.__name__} gave {r!r}')
        mon.refuses(lambda: iter(a), 'cast', what, errors=TypeError)
    elif A.kind == 'vector':
        mon.equal([float(x) for x in a], list(A.x), 'cast', what)
        mon.equal(len(a), len(A.x), 'cast', what)
        mon.expect(numpy.array_equal(numpy.array(a), A.x), 'cast', what)


def copying(mon, rng, i):
    """Copies are equal and independent; unit changes make new objects."""
    a, A = draw(rng, rng.choice(['scalar', 'vector']))
    sa = snap(a)
    b = type(a)(a)
    what = repr(a)
    mon.saw(A.kind, what)
    judge(mon, b, A, what, 'copy')
    mon.expect(b is not a, 'copy', what, 'same object')
    # change to another unit and back
    ts = ugen.same_quantity(rng, A.ts)
    ratio = p05.size(A.ts)[0] / p05.size(ts)[0]
    c = b[ugen.fmt(rng, ts)]
    judge(mon, c, Model(A.kind, A.x * ratio, ts), f'{what} in {ts}', 'copy')
    d = type(c)(c)
    judge(mon, d, Model(A.kind, A.x * ratio, ts), f'copy of {what} in {ts}', 'copy')
    k = rng.choice([2.0, 3.0])
    d *= k
    judge(mon, d, Model(A.kind, A.x * ratio * k, ts), f'{k} * copy of {what} in {ts}', 'copy')
    judge(mon, c, Model(A.kind, A.x * ratio, ts), f'original of a modified copy of {what} in {ts}', 'copy')
    mon.expect(snap(a) == sa and snap(b) == sa, 'copy', what, f'| became {snap(a)} / {snap(b)}')
    if A.kind == 'scalar':
        v = physical.Vector(a)
        judge(mon, v, Model('vector', numpy.array([A.x]), A.ts), f'vector from {what}', 'copy')
    else:
        n = len(A.x)
        j = rng.randrange(-n, n)
        judge(mon, a[j], Model('scalar', A.x[j], A.ts), f'{what}[{j}]', 'item')
        s = slice(rng.choice([None, 0, 1, -2]), rng.choice([None, 2, -1]), rng.choice([None, 1, 2, -1]))
        items = a[s]
        want = A.x[s]
        mon.equal(len(items), len(want), 'item', what, str(s))
        for q, x in zip(items, want):
            judge(mon, q, Model('scalar', x, A.ts), f'{what}[{s}]', 'item')
        for j in (n, -n - 1):
            mon.refuses(lambda: a[j], 'item', what, f'[{j}]', errors=IndexError)


def history(mon, rng, i):
    """A program of arithmetic on a pool of quantities follows the model."""
    base = [units(rng, 1) for _ in range(2)]
    pool = []
    for _ in range(4):
        pool.append(draw(rng, rng.choice(['scalar', 'vector']), n=2, ts=rng.choice(base)))
    steps = []
    for _ in range(rng.choice([3, 5, 8])):
        x = rng.randrange(len(pool))
        y = rng.randrange(len(pool))
        (a, A), (b, B) = pool[x], pool[y]
        op = rng.choice(['add', 'sub', 'mul', 'div', 'mulk', 'iadd', 'imul', 'idiv', 'unit', 'pow'])
        if A.kind == 'scalar' and B.kind == 'vector':
            continue
        steps.append((op, x, y))
        if op in ('add', 'sub', 'iadd'):
            consistent = p05.same(p05.size(A.ts), p05.size(B.ts))
            f = {'add': operator.add, 'sub': operator.sub, 'iadd': operator.iadd}[op]
            if not consistent:
                mon.refuses(lambda: f(a, b), 'refuse', f'{steps} {a!r} {b!r}')
                continue
            M = Model(A.kind, A.x - B.x if op == 'sub' else A.x + B.x, A.ts)
            q = f(a, b)
        elif op in ('mul', 'imul'):
            M = Model(A.kind, A.x * B.x, merged(A.ts, B.ts))
            q = a * b if op == 'mul' else operator.imul(a, b)
        elif op in ('div', 'idiv'):
            if numpy.any(B.x == 0):
                continue
            M = Model(A.kind, A.x / B.x, merged(A.ts, B.ts, -1))
            q = a / b if op == 'div' else operator.itruediv(a, b)
        elif op == 'mulk':
            k = rng.choice([2.0, -1, 3])
            M = Model(A.kind, A.x * k, A.ts)
            q = rng.choice([lambda: a * k, lambda: k * a])()
        elif op == 'pow':
            M = Model(A.kind, A.x ** 2, p05.scaled(A.ts, 2))
            q = a ** 2
        else:
            q, M = a, A
            u = ugen.parse(str(a.unit))
            t = [(rng.choice(['', 'k', 'c']) if s in ('m', 's', 'J', 'N', 'Pa', 'W') else p, s, None, e) for p, s, _, e in u]
            t = [(p, s, ugen.spell(rng, p, s, True), e) for p, s, _, e in t]
            if not t or any(k is None for _, _, k, _ in t) or not plain(t):
                continue
            ratio = p05.size(M.ts)[0] / p05.size(t)[0]
            q = a[ugen.fmt(rng, t)]
            M = Model(A.kind, A.x * ratio, t)
        red = ugen.parse(str(q.unit))
        if red is None or not plain(red) or not plain(M.ts) or numpy.any(abs(numpy.array(M.x)) > 1e100):
            break
        what = f'{steps}: {q!r}'
        g = p05.size(red)
        mon.close(numpy.array(q.data, dtype=float), M.x, 'history', what, rtol=1e-9, atol=0)
        mon.expect(p05.same(g, p05.size(M.ts)), 'history', what, f'| want {M.ts}')
        M = Model(M.kind, M.x, red)
        # an in-place operation updates the object itself
        if op in ('iadd', 'imul', 'idiv'):
            pool[x] = (q, M)
        else:
            pool[rng.randrange(len(pool))] = (q, M)
        if len({id(o) for o, _ in pool}) < len(pool):
            break       # two names for one object: not modelled
        for o, O in pool:
            mon.close(numpy.array(o.data, dtype=float), O.x, 'history', f'{steps}: bystander {o!r}', rtol=1e-9)
            r = ugen.parse(str(o.unit))
            mon.expect(r is not None and p05.same(p05.size(r), p05.size(O.ts)), 'history', f'{steps}: bystander {o!r}', str(O.ts))
    mon.saw(tuple(steps), str(base))


def assumption(mon, rng, i):
    """Assumptions are named vectors; options are named plain values."""
    n = rng.choice([1, 1, 2, 3])
    x, ts = values(rng, n), units(rng, 1)
    names = tuple(rng.sample(['a', 'b', 'c d', 'E0'], rng.randint(1, 3)))
    text = ugen.fmt(rng, ts)
    given = x[0] if n == 1 and rng.random() < 0.5 else rng.choice([list, tuple, numpy.array])(x)
    if rng.random() < 0.5:
        a = constant.Assumption(given, unit=text, name=names)
    else:
        other = {'value': 'text', 'unit': None}
        table = rng.choice([{names: {'value': given, 'unit': text}, 'z': other},
                            {names[0]: {'value': given, 'unit': text, 'aliases': names[1:]}, 'z': other}])
        a = constant.Interface(table)[rng.choice(names)]
    us = ugen.same_quantity(rng, ts)
    B = ugen.fmt(rng, us)
    f = p05.size(ts)[0] / p05.size(us)[0]
    what = f'assumption {x} {text} {names}'
    mon.saw('assumption', n, text, B)
    for q, factor, t in ((a, 1.0, ts), (a[B], f, us), (a, 1.0, ts)):
        want = numpy.array(x) * factor
        judge(mon, q, Model('vector', want, t), what, 'assumption')
        mon.expect(all(k in q.name for k in names) and isinstance(q, constant.Assumption), 'assumption', what, q.name)
        j = rng.randrange(-n, n)
        for item, k in [(q[j], j)] + list(zip(q[:], range(n))):
            mon.expect(isinstance(item, physical.Scalar) and item.unit == q.unit and all(k_ in item.name for k_ in names), 'assumption', what, item)
            mon.close(float(item), want[k], 'assumption', what, k)
        if n == 1:
            mon.close(float(q), want[0], 'assumption', what, 'float')
            if abs(want[0]) < 1e15:
                mon.equal(int(q), int(float(q)), 'assumption', what, 'int')
        else:
            mon.refuses(lambda: float(q), 'assumption', what, errors=TypeError)
            mon.refuses(lambda: int(q), 'assumption', what, errors=TypeError)
    v, w = rng.choice([(5, 6), ('x', 'y'), (None, 0), (2.5, 2)])
    o = constant.Option(v, name=names) if rng.random() < 0.5 else constant.Interface({names: {'value': v, 'unit': None}})[names[-1]]
    mon.expect(o == v and not o == w and o == constant.Option(v) and not o == constant.Option(w) and o.value is v, 'assumption', 'option', v, o)
    mon.expect(all(k in o.name for k in names), 'assumption', 'option', o.name)


SUBS = {
    'assumption': (assumption, 400, 8000),
    'arithmetic': (arithmetic, 3500, 100000),
    'refusals': (refusals, 2000, 50000),
    'comparing': (comparing, 1200, 30000),
    'copying': (copying, 1200, 30000),
    'history': (history, 1500, 40000),
}
