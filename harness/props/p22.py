"""Metadata attributes: names, units and dimensions of results, and the rules for which operands are allowed."""
import itertools
import math
import operator
from fractions import Fraction

import numpy

from goats.core import metadata, metric, physical, variable

RULE = ('a distinct operation on names, units, dimensions, typed operands or quantities whose metadata were compared with '
        'the documented combination of the metadata of its operands')
ASSUMPTIONS = (
    'Numbers that equal one are written 1, not 1.0 or True, where names are combined with numbers.',
    'The order of aliases within a name is not judged.',
    'Rules added to an operation have the number of types of the operation.',
)
MUST_SEE = ('oracle:name', 'oracle:name-number', 'oracle:name-same', 'oracle:name-empty', 'oracle:name-reverse', 'oracle:name-unary', 'oracle:name-refused',
            'oracle:name-equal', 'oracle:name-add', 'oracle:unit-additive', 'oracle:unit-scale', 'oracle:unit-dimension', 'oracle:unit-number', 'oracle:unit-product',
            'oracle:dimensions-merge', 'oracle:dimensions-same', 'oracle:dimensions-refused', 'oracle:dimensions-equal', 'oracle:rules', 'oracle:rules-refused',
            'oracle:operands', 'oracle:factory', 'oracle:quantity-name', 'oracle:quantity-unit', 'oracle:alias', 'oracle:variable', 'oracle:untouched')

POOL = ['a', 'A', 'b', 'B', 'Vr', 'v_r', 'mean free path', 'rho', 'n2/n1', '|B|', 'x', 'abs(a)', '-a']
SYMBOL = {'+': ' + ', '-': ' - ', '*': ' * ', '/': ' / ', '^': '^'}
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '^': pow}
UNARY = {'+': operator.pos, '-': operator.neg, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}


def built(rng, names):
    names = list(names)
    return rng.choice([lambda: metadata.Name(*names), lambda: metadata.Name(names), lambda: metadata.Name(tuple(names)),
                       lambda: metadata.Name(metadata.Name(*names)), lambda: metadata.Name(set(names))])()


def combine(s, x, y):
    return {f'{i}{s}{j}' for i in x for j in y}


def joined(op, x, y):
    """The names of a result; an unnamed operand makes it unnamed."""
    if x == {''} or y == {''}:
        return {''}
    if x == y:
        return set(x) if op in '+-' else {f'{i}{SYMBOL[op]}{i}' for i in x}
    return combine(SYMBOL[op], x, y)


def text(k):
    """How a number appears in a name."""
    try:
        return str(Fraction(k))
    except ValueError:
        return k


def names(mon, rng, i):
    x = set(rng.sample(POOL, rng.randint(1, 3))) if rng.random() < 0.9 else {''}
    y = x if rng.random() < 0.15 else set(rng.sample(POOL, rng.randint(1, 3))) if rng.random() < 0.9 else {''}
    a, b = built(rng, x), built(rng, y)
    check = lambda got, want, key, *what: mon.expect(
        isinstance(got, metadata.Name) and set(got) == want and len(got) == len(want), key, *what, '| got', repr(got), '| want', sorted(want))
    check(a, x, 'name', 'built')
    mon.expect(all(k in a for k in x) and 'no such name' not in a and bool(a) == (x != {''}), 'name', sorted(x))
    for op in '+-*/^':
        mon.saw('names', op, tuple(sorted(x)), tuple(sorted(y)))
        key = 'name-same' if x == y else 'name-empty' if {''} in (x, y) else 'name'
        check(OPS[op](a, b), joined(op, x, y), key, op, sorted(x), sorted(y))
    if x != {''}:
        for op in '*/^':
            k = rng.choice([2, 3, -1, '2', '1/2', 0.5, 0.25, -2, '3/4', 10, 'pi', rng.randint(2, 10**6), rng.uniform(-2, 2), 2.0 ** -rng.randint(3, 40),
                            f'{rng.randint(-99, 99)}/{rng.randint(101, 9999)}', 1e-5])
            s = SYMBOL[op]
            check(OPS[op](a, k), {f'{n}{s}{text(k)}' for n in x}, 'name-number', op, sorted(x), k)
            check(OPS[op](k, a), {f'{text(k)}{s}{n}' for n in x}, 'name-reverse', op, k, sorted(x))
            one = rng.choice([1, '1'])
            check(OPS[op](a, one), x, 'name-number', op, sorted(x), one)
            if op == '*':
                check(OPS[op](one, a), x, 'name-reverse', op, one, sorted(x))
                check(OPS[op](a, 0), {''}, 'name-empty', op, sorted(x), 0)
            z = rng.sample(POOL, rng.randint(1, 2))
            if set(z) != x:
                check(OPS[op](a, z), combine(s, x, z), 'name', op, sorted(x), z)
                check(OPS[op](z, a), combine(s, z, x), 'name-reverse', op, z, sorted(x))
        for op in '+-':
            bad = rng.choice([2, '2', 1.5, ['a'], 'a'])
            mon.refuses(lambda: OPS[op](a, bad), 'name-refused', op, sorted(x), bad, errors=TypeError)
            mon.refuses(lambda: OPS[op](bad, a), 'name-refused', op, bad, sorted(x), errors=TypeError)
        for k, f in UNARY.items():
            check(f(a), {f'{k}{n}' if k in '+-' else f'{k}({n})' for n in x}, 'name-unary', k, sorted(x))
    check(a, x, 'untouched', sorted(x))
    check(b, y, 'untouched', sorted(y))
    # equality
    c = built(rng, x)
    mon.expect(a == c and hash(a) == hash(c) and not a != c, 'name-equal', sorted(x))
    mon.expect((a == b) == (x == y) and (a != b) == (x != y), 'name-equal', sorted(x), sorted(y))
    mon.expect(a == list(x), 'name-equal', sorted(x))
    if len(x) == 1:
        mon.expect(a == next(iter(x)), 'name-equal', sorted(x))
    mon.expect(not a == 5 and a != 5 and not a == 'no such name', 'name-equal', sorted(x))
    extra = rng.sample(POOL, rng.randint(1, 2))
    given = extra[0] if len(extra) == 1 and rng.random() < 0.7 else extra
    check(c.add(given), x | set(extra), 'name-add', sorted(x), given)
    mon.refuses(metadata.Name, 'name-refused', 'no alias', errors=TypeError)
    str(a), repr(a)


# (unit, dimension, scale); powers of the scale tell equal units from scaled ones
UNITS = [('m', 'L', 1.0), ('cm', 'L', 1e-2), ('km', 'L', 1e3), ('s', 'T', 1.0), ('ms', 'T', 1e-3), ('h', 'T', 3600.0), ('kg', 'M', 1.0), ('g', 'M', 1e-3),
         ('J', 'E', 1.0), ('erg', 'E', 1e-7), ('N m', 'E', 1.0), ('kg m^2 / s^2', 'E', 1.0), ('N', 'F', 1.0), ('m / s', 'V', 1.0), ('km / s', 'V', 1e3),
         ('1', '1', 1.0), ('K', 'K', 1.0), ('m^2', 'A', 1.0), ('cm^2', 'A', 1e-4), ('km / ms', 'V', 1e6), ('W s', 'E', 1.0), ('T', 'B', 1.0), ('nT', 'B', 1e-9)]


def units(mon, rng, i):
    (u, d, f), (v, e, g) = rng.choice(UNITS), rng.choice(UNITS)
    if rng.random() < 0.3:
        v, e, g = rng.choice([w for w in UNITS if w[1] == d])
    a, b = metadata.Unit(u), metadata.Unit(v)
    mon.saw('units', u, v)
    for f_op in (operator.add, operator.sub):
        if d == e and f == g:
            for other in (b, v, metric.Unit(v)):
                r = f_op(a, other)
                mon.expect(isinstance(r, metadata.Unit) and r == u and r == v, 'unit-additive', u, v, repr(r))
        elif d == e:
            mon.refuses(lambda: f_op(a, b), 'unit-scale', u, v, errors=metadata.UnitError)
            mon.refuses(lambda: f_op(a, v), 'unit-scale', u, v, errors=metadata.UnitError)
        else:
            mon.refuses(lambda: f_op(a, b), 'unit-dimension', u, v, errors=metadata.DimensionMismatch)
            mon.refuses(lambda: f_op(a, v), 'unit-dimension', u, v, errors=metadata.UnitError)
        mon.refuses(lambda: f_op(a, rng.choice([1, 2.5])), 'unit-dimension', u, 'number', errors=TypeError)
    k = rng.choice([2, 0.5, -1, 3, numpy.float64(2)])
    for r in (a * k, a / k):
        mon.expect(isinstance(r, metadata.Unit) and r == u, 'unit-number', u, k, repr(r))
    if not isinstance(k, numpy.generic):
        mon.expect(k * a == u, 'unit-number', u, k)
    other = rng.choice([b, v, metric.Unit(v)])
    # products and quotients agree with those of the numbers they stand for
    for r, want in ((a * other, f * g), (a / other, f / g), (a ** 2, f * f), (a ** -1, 1 / f)):
        mon.expect(isinstance(r, metadata.Unit), 'unit-product', u, v, type(r))
    mon.expect(a * other == metadata.Unit(f'({u}) * ({v})') if '1' not in (u, v) else True, 'unit-product', u, v, '*', a * other)
    mon.expect(a / other == metadata.Unit(f'({u}) / ({v})') if '1' not in (u, v) else True, 'unit-product', u, v, '/', a / other)
    mon.expect((a / other) * b == a and (a * other) / b == a, 'unit-product', 'inverse', u, v)
    mon.expect(v / a == b / a if v != '1' else True, 'unit-product', 'reverse', v, u)
    mon.expect(v * a == b * a if v != '1' else True, 'unit-product', 'reverse', v, u)
    n = rng.choice([2, 3, -1, 0.5, -2])
    mon.expect((a ** n) ** (1 / n) == a, 'unit-product', 'power', u, n)
    mon.expect((a == b) == (d == e and f == g) and (a != b) != (a == b), 'unit-additive', 'equality', u, v)
    c = metadata.Unit(u)
    c *= other
    mon.expect(c == a * b, 'unit-product', 'in place', u, v)
    mon.expect(a == u and b == v, 'untouched', u, v)


def dims(mon, rng, i):
    pool = ['time', 'shell', 'species', 'energy', 'mu', 'x', 'y', 'X', 'Time', 'minimum energy']
    pick = lambda: rng.sample(pool, rng.randint(0, 4))
    x, y, z = pick(), pick(), pick()
    if rng.random() < 0.25:
        y = rng.sample(x, len(x))
    make = lambda n: rng.choice([lambda: metadata.Dimensions(*n), lambda: metadata.Dimensions(list(n)), lambda: metadata.Dimensions(tuple(n)),
                                 lambda: metadata.Dimensions([tuple(n)]), lambda: metadata.Dimensions(metadata.Dimensions(*n)) if n else metadata.Dimensions()])()
    a, b, c = make(x), make(y), make(z)
    mon.saw('dims', tuple(x), tuple(y), tuple(z))
    is_ = lambda d, n, key, *what: mon.expect(isinstance(d, metadata.Dimensions) and list(d) == list(n) and len(d) == len(n), key, *what, '| got', str(d), '| want', n)
    merged = lambda *s: list(dict.fromkeys(itertools.chain(*s)))
    is_(a, x, 'dimensions-merge', 'built')
    is_(a * b, merged(x, y), 'dimensions-merge', x, y)
    is_(a / b, merged(x, y), 'dimensions-merge', x, y)
    is_(a.merge(b, c), merged(x, y, z), 'dimensions-merge', x, y, z)
    is_(a.merge(b, 1.5, c), merged(x, y, z), 'dimensions-merge', x, y, z)
    is_(a * 2, x, 'dimensions-merge', x, 2)
    is_(2 * a, x, 'dimensions-merge', x, 2)
    is_(a / 2, x, 'dimensions-merge', x, 2)
    is_(a ** 2, x, 'dimensions-same', x)
    is_(a ** 0.5, x, 'dimensions-same', x)
    for f in (abs, operator.pos, operator.neg):
        is_(f(a), x, 'dimensions-same', x)
    for f in (operator.add, operator.sub):
        if x == y:
            is_(f(a, b), x, 'dimensions-same', x)
        else:
            mon.refuses(lambda: f(a, b), 'dimensions-refused', x, y, errors=TypeError)
    mon.refuses(lambda: a ** b, 'dimensions-refused', x, y, errors=TypeError)
    mon.expect((a == b) == (x == y) and (a != b) == (x != y), 'dimensions-equal', x, y)
    mon.expect(x != y or hash(a) == hash(b), 'dimensions-equal', 'hash', x)
    mon.expect(a == x and a == tuple(x), 'dimensions-equal', x)
    for other in (y, x[:-1], x[1:], x + ['no such'], y + x[:1]):
        if set(other) != set(x) and len(set(other)) == len(other):
            mon.expect(not a == other and a != tuple(other) and not a == metadata.Dimensions(*other), 'dimensions-equal', x, 'is not', other)
    mon.expect((a == 'x') is (x == ['x']) and a != 1 and a is not None, 'dimensions-equal', x, 'is a name')
    if len(x) == 1:
        mon.expect(a == x[0], 'dimensions-equal', x)
    mon.expect(all(n in a for n in x) and 'no such' not in a, 'dimensions-equal', x)
    if x:
        k = rng.randrange(-len(x), len(x))
        mon.equal(a[k], x[k], 'dimensions-equal', x, k)
        mon.equal(a.index(x[0]), 0, 'dimensions-equal', x)
    mon.refuses(lambda: metadata.Dimensions(*x, rng.choice([1, 2.5, None, ('a',)]), 'q'), 'dimensions-refused', x, errors=TypeError)
    is_(a, x, 'untouched', x)


# ------------------------------------------------------------ operand types
class Base:
    pass


class Sub(Base):
    pass


class Deep(Sub):
    pass


class Other:
    pass


TYPES = [Base, Sub, Deep, Other, int, float, str, bool]


def rules(mon, rng, i):
    n = rng.choice([1, 2, 2, 2, 3])
    own = rng.choice([Base, Sub])
    op = metadata.Operation(own, 'unit', name='add')
    mon.expect(not op.implemented, 'rules', 'new')
    yes, no = set(), set()
    log = []
    for _ in range(rng.randint(0, 5)):
        spec = tuple(rng.choice(TYPES) for _ in range(n))
        sym = rng.random() < 0.3
        if rng.random() < 0.65:
            if rng.random() < 0.3:
                more = tuple(rng.choice(TYPES) for _ in range(n))
                op.support(spec, more, symmetric=sym)
                specs = [spec, more]
            else:
                op.support(*spec, symmetric=sym) if not sym or rng.random() < 0.9 else op.support(spec, symmetric=sym)
                specs = [spec]
            for s in specs:
                yes.add(s)
                if sym:
                    yes.add(s[::-1])
            log.append(('support', specs, sym))
        else:
            op.suppress(*spec, symmetric=sym)
            no.add(spec)
            if sym:
                no.add(spec[::-1])
            log.append(('suppress', spec, sym))
    show = [(k, [t.__name__ for t in s] if isinstance(s, tuple) else [[t.__name__ for t in q] for q in s], y) for k, s, y in log]
    mon.saw('rules', str(show))
    mon.sample(str(show))
    mon.equal(op.implemented, bool(yes), 'rules', show)
    meets = lambda types, specs: any(all(issubclass(p, q) for p, q in zip(types, s)) for s in specs)
    asked = list(itertools.product(TYPES, repeat=n)) if n < 3 else [tuple(rng.choice(TYPES) for _ in range(3)) for _ in range(64)]
    for types in asked:
        want = False if meets(types, no) else meets(types, yes) or own in types
        mon.equal(op.supports(*types), want, 'rules', show, [t.__name__ for t in types], own.__name__)
    if yes:
        wrong = tuple(rng.choice(TYPES) for _ in range(n + 1))
        mon.expect(op.supports(*wrong) is False, 'rules', 'other number', show)
        mon.refuses(lambda: op.support(*wrong), 'rules-refused', show, errors=metadata.NTypesError)
    mon.refuses(lambda: op.support(), 'rules-refused', errors=ValueError)
    mon.refuses(lambda: op.update(), 'rules-refused', errors=ValueError)
    # another operation with the same rules, and with one more
    twin = metadata.Operation(own, 'unit', name='add')
    for t in sorted(yes, key=str):
        twin.support(*t)
    for t in sorted(no, key=str):
        twin.suppress(*t)
    mon.expect(op == twin and twin == op, 'rules', 'not equal to one with the same rules', show)
    mon.expect(not op == metadata.Operation(Other, 'unit', name='add') and not op == 'add', 'rules', 'equal to a foreign one', show)
    extra = tuple(rng.choice(TYPES) for _ in range(n))
    if rng.random() < 0.5:
        twin.suppress(*extra)
        known = extra in no
    else:
        twin.support(*extra)
        known = extra in yes
    mon.equal(op == twin, known, 'rules', 'equal after another rule', show, [t.__name__ for t in extra])
    c = op.copy()
    mon.expect(c.parameters == op.parameters and c.name == op.name, 'rules', 'copy')
    c.support(*(Other,) * n)
    mon.expect((Other,) * n in c.supported and ((Other,) * n in op.supported) == ((Other,) * n in yes), 'rules', 'a copy is independent', show)


class Thing:
    def __init__(self, **attrs):
        self.__dict__.update(attrs)

    def __repr__(self):
        return f'Thing({self.__dict__})'


def operands(mon, rng, i):
    things = [Thing(**{k: rng.choice([1, 2, 3]) for k in rng.sample(['p', 'q', 'r'], rng.randint(0, 3))}) if rng.random() < 0.8 else rng.choice([5, 2.5, 'text'])
              for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        # mostly alike, with every attribute
        things = [Thing(**{k: 1 if rng.random() < 0.8 else 2 for k in 'pqr'}) for _ in range(rng.randint(2, 4))]
    ops = metadata.Operands(*things)
    has = lambda t, k: k in getattr(t, '__dict__', {})
    mon.saw('operands', str(things))
    mon.equal((len(ops), list(ops), [ops[k] for k in range(len(things))]), (len(things), things, things), 'operands', things)
    mon.equal(ops.types, tuple(type(t) for t in things), 'operands', things)
    mon.expect(ops.reference is things[0], 'operands', 'reference', things)
    mon.equal(list(ops[1:]), things[1:], 'operands', 'slice', things)
    for k in 'pqr':
        mon.equal(ops.allhave(k), all(has(t, k) for t in things), 'operands', k, things)
        mon.equal(ops.find(k), [t for t in things if has(t, k)], 'operands', k, things)
        mon.equal(ops.getany(k), next((getattr(t, k) for t in things if has(t, k)), None), 'operands', k, things)
        mon.equal(ops.getall(k, mode='force'), [getattr(t, k) if has(t, k) else t for t in things], 'operands', k, things)
        if all(has(t, k) for t in things):
            mon.equal(ops.getall(k, mode='strict'), [getattr(t, k) for t in things], 'operands', k, things)
            mon.equal(ops.agree(k, strict=True), len({getattr(t, k) for t in things}) == 1, 'operands', 'agree', k, things)
        else:
            mon.refuses(lambda: ops.getall(k, mode='strict'), 'operands', k, things, errors=AttributeError)
        found = [getattr(t, k) for t in things if has(t, k)]
        if found:
            mon.equal(ops.agree(k), len(things) == 1 or len(set(found)) == 1, 'operands', 'agree', k, things)
        mon.equal(metadata.consistent(k, *things), len(set(found)) <= 1, 'operands', 'consistent', k, things)
    # several attributes at once
    ks = rng.sample('pqr', rng.randint(2, 3))
    full = [t for t in things if all(has(t, k) for k in ks)]
    mon.equal(ops.find(*ks), full, 'operands', ks, things)
    mon.equal(ops.allhave(*ks), len(full) == len(things), 'operands', ks, things)
    want = len(things) == 1 or all(len({getattr(t, k) for t in full}) == 1 for k in ks)
    if full:
        mon.equal(ops.agree(*ks), want, 'operands', 'agree', ks, things)
    if len(full) == len(things):
        mon.equal(ops.agree(*ks, strict=True), want, 'operands', 'agree', ks, things)
    elif len(things) > 1 and not any(has(t, ks[0]) for t in things):
        mon.refuses(lambda: ops.agree(*ks, strict=True), 'operands', 'agree', ks, things, errors=AttributeError)
    # the same operands, and others
    mon.expect(ops == metadata.Operands(*things) and not ops == metadata.Operands(*things, 7), 'operands', 'equal', things)
    other = list(things)
    other[rng.randrange(len(other))] = Thing(z=1)
    if not any(x == y for x, y in itertools.combinations(things, 2)):
        mon.expect(not ops == metadata.Operands(*other), 'operands', 'equal to', other, things)


def factory(mon, rng, i):
    params = rng.sample(['unit', 'name', 'dimensions'], rng.randint(1, 3))

    class Q:
        def __init__(self, unit, name, dimensions):
            self.unit, self.name, self.dimensions = metadata.Unit(unit), metadata.Name(name), metadata.Dimensions(dimensions)
    f = metadata.OperatorFactory(Q, *params)
    mon.equal(f.parameters, tuple(params), 'factory', params)
    mk = lambda: (rng.choice(['m', 's', 'kg', 'cm']), rng.choice(['a', 'b']), rng.choice([('x',), ('y',), ('x', 'y')]))
    (u, n, d), (v, m, e) = mk(), mk()
    if rng.random() < 0.4:
        v, e = u, d
    p, q = Q(u, n, d), Q(v, m, e)
    if rng.random() < 0.5 and len(params) < 3:
        new = next(k for k in ('unit', 'name', 'dimensions') if k not in params)
        mon.expect(f.register(new) is f, 'factory')
        params = params + [new]
        mon.equal(f.parameters, tuple(params), 'factory', 'registered', params)
    same = all(getattr(p, k) == getattr(q, k) for k in params)
    mon.equal(f.consistent(p, q), same, 'factory', 'consistent', (u, n, d), (v, m, e), params)
    mon.equal(f.consistent(p, 5), True, 'factory', 'consistent with a number')
    if not same:
        mon.refuses(lambda: f.check(p, q), 'factory', errors=ValueError)
    mon.saw('factory', tuple(params), (u, n, d), (v, m, e))
    aliases = {'mul': ['mul', 'multiply'], 'truediv': ['truediv', 'true_divide', 'true divide'], 'add': ['add'], 'sub': ['sub', 'subtract'], 'pow': ['pow', 'power'],
               'neg': ['neg', 'negative'], 'abs': ['abs', 'absolute']}
    get = lambda k: f[rng.choice(aliases[k])]
    for k, name in aliases.items():
        mon.expect(all(f[a] is f[name[0]] for a in name) and all(a in f for a in name), 'factory', 'aliases', name)
    mon.refuses(lambda: f['no such operation'], 'factory', errors=KeyError)
    names = {'mul': '*', 'truediv': '/', 'add': '+', 'sub': '-'}
    for k, op in names.items():
        additive = op in '+-'
        if additive and ('unit' in params and u != v or 'dimensions' in params and d != e):
            mon.refuses(lambda: get(k).evaluate(p, q), 'factory', k, (u, n, d), (v, m, e), params)
            continue
        r = get(k).evaluate(p, q)
        mon.equal(set(r), set(params), 'factory', k, 'attributes')
        if 'unit' in params:
            mon.expect(r['unit'] == OPS[op](metadata.Unit(u), metadata.Unit(v)), 'factory', k, u, v, r)
        if 'name' in params:
            mon.equal(set(r['name']), joined(op, {n}, {m}), 'factory', k, n, m)
        if 'dimensions' in params:
            mon.equal(list(r['dimensions']), list(dict.fromkeys(d + e)), 'factory', k, d, e)
    r = get('pow').evaluate(p, 2)
    if 'unit' in params:
        mon.expect(r['unit'] == metadata.Unit(u) ** 2, 'factory', 'pow', u, r)
    if 'name' in params:
        mon.equal(set(r['name']), {f'{n}^2'}, 'factory', 'pow', n)
    for k in ('neg', 'abs'):
        r = get(k).evaluate(p)
        if 'unit' in params:
            mon.expect(r['unit'] == u, 'factory', k, u, r)
        if 'dimensions' in params:
            mon.equal(list(r['dimensions']), list(d), 'factory', k, d)
    for k in ('lt', 'less_equal', 'int', 'float', 'ge'):
        mon.expect(f[k].evaluate(p, q) is None, 'factory', k, 'has no metadata')
    g = f['mul']
    g.suppress(Q, str, symmetric=True)
    mon.refuses(lambda: g.evaluate(p, 'text'), 'factory', 'suppressed', errors=metadata.OperandTypeError)
    mon.refuses(lambda: g.evaluate('text', p), 'factory', 'suppressed', errors=metadata.OperandTypeError)
    mon.refuses(lambda: f['add'].evaluate(1, 2), 'factory', 'foreign operands', errors=metadata.OperandTypeError)


# --------------------------------------------------------------- quantities
def quantities(mon, rng, i):
    kind = rng.choice([physical.Scalar, physical.Vector, physical.Array])
    num = lambda: rng.choice([1.5, 2.0, -3.25, 0.5])
    def make(unit, names):
        data = num() if kind is physical.Scalar else [num() for _ in range(3)]
        return kind(data, unit=unit, name=sorted(names)) if names != {''} else kind(data, unit=unit)
    x = set(rng.sample(POOL, rng.randint(1, 3)))
    y = x if rng.random() < 0.2 else set(rng.sample(POOL, rng.randint(1, 3))) if rng.random() < 0.8 else {''}
    u = rng.choice(['m', 's', 'J', 'km / s', 'nT', '1'])
    v = u if rng.random() < 0.4 else rng.choice(['m', 's', 'kg', 'J', '1'])
    a, b = make(u, x), make(v, y)
    t = kind.__name__
    what = (t, u, sorted(x), v, sorted(y))
    mon.saw('quantities', t, u, v, tuple(sorted(x)), tuple(sorted(y)))
    mon.sample(str(what))
    U, V = metadata.Unit(u), metadata.Unit(v)

    def check(r, unit, names, op):
        if names is not None:
            mon.equal(set(r.name), names, 'quantity-name', *what, op)
        mon.expect(r.unit == unit, 'quantity-unit', *what, op, r.unit, unit)
    check(a, U, x, 'new')
    check(b, V, y, 'new')
    check(a * b, U * V, joined('*', x, y), '*')
    check(a / b, U / V, joined('/', x, y), '/')
    if u == v:
        check(a + b, U, joined('+', x, y), '+')
        check(a - b, U, joined('-', x, y), '-')
    k = rng.choice([2, 3, 0.5, -2])
    check(a * k, U, {f'{n} * {text(k)}' for n in x}, f'* {k}')
    check(k * a, U, {f'{text(k)} * {n}' for n in x}, f'{k} *')
    check(a / k, U, {f'{n} / {text(k)}' for n in x}, f'/ {k}')
    check(a * 1, U, x, '* 1')
    p = rng.choice([2, 3, -1])
    check(a ** p, U ** p, {f'{n}^{p}' for n in x}, f'** {p}')
    check(-a, U, {f'-{n}' for n in x}, 'neg')
    check(abs(a), U, {f'abs({n})' for n in x}, 'abs')
    check(+a, U, {f'+{n}' for n in x}, 'pos')
    if kind is physical.Scalar:
        check(round(a), U, {f'round({n})' for n in x}, 'round')
        check(math.floor(a), U, {f'floor({n})' for n in x}, 'floor')
        check(math.ceil(a), U, {f'ceil({n})' for n in x}, 'ceil')
        check(math.trunc(a), U, {f'trunc({n})' for n in x}, 'trunc')
    check(a[u], U, x, 'same unit')
    if u == 'm':
        check(a['cm'], metadata.Unit('cm'), x, 'other unit')
    check(a, U, x, 'operand afterwards')
    check(b, V, y, 'operand afterwards')
    # aliases
    extra = rng.sample(POOL, rng.randint(1, 2))
    if rng.random() < 0.5:
        mon.expect(b.alias(*extra, reset=True) is b, 'alias', *what)
        mon.equal(set(b.name), set(extra), 'alias', *what, 'reset', extra)
    else:
        mon.expect(a.alias(*extra) is a, 'alias', *what)
        mon.equal(set(a.name), x | set(extra), 'alias', *what, extra)
    mon.expect(a.unit == U and b.unit == V, 'alias', 'unit', *what)
    n = a.name
    n.add('intruder')
    mon.expect('intruder' not in a.name, 'untouched', 'name', *what)


def variables(mon, rng, i):
    sizes = {'x': 2, 'y': 3, 'z': 4}
    pick = lambda: rng.sample(sorted(sizes), rng.randint(1, 3))
    d, e = pick(), pick()
    if rng.random() < 0.3:
        e = list(d)
    u = rng.choice(['m', 's', 'J', 'nT'])
    v = u if rng.random() < 0.5 else rng.choice(['m', 's', 'kg'])
    make = lambda dd, uu: variable.Quantity(numpy.ones([sizes[k] for k in dd]) * 2.0, dimensions=dd, unit=uu)
    a, b = make(d, u), make(e, v)
    U, V = metadata.Unit(u), metadata.Unit(v)
    mon.saw('variables', tuple(d), tuple(e), u, v)
    def check(r, unit, dd, op):
        mon.expect(r.unit == unit and list(r.dimensions) == list(dd) and numpy.shape(numpy.array(r)) == tuple(sizes[k] for k in dd),
                   'variable', d, e, u, v, op, r.unit, list(r.dimensions))
    both = list(dict.fromkeys(d + e))
    check(a * b, U * V, both, '*')
    check(a / b, U / V, both, '/')
    for f in (operator.add, operator.sub):
        if u == v and d == e:
            check(f(a, b), U, d, 'additive')
        else:
            mon.refuses(lambda: f(a, b), 'variable', d, e, u, v, 'additive')
    k = rng.choice([2, 0.5])
    check(a * k, U, d, '* number')
    check(k * a, U, d, 'number *')
    check(a / k, U, d, '/ number')
    check(a ** 2, U ** 2, d, '** 2')
    check(-a, U, d, 'neg')
    check(abs(a), U, d, 'abs')
    check(a, U, d, 'afterwards')


SUBS = {
    'names': (names, 600, 8000),
    'units': (units, 400, 4000),
    'dims': (dims, 600, 8000),
    'rules': (rules, 400, 5000),
    'operands': (operands, 400, 5000),
    'factory': (factory, 300, 4000),
    'quantities': (quantities, 500, 6000),
    'variables': (variables, 300, 4000),
}
