"""Measuring an object yields each of its values, in its unit, or a refusal."""
import math
import numbers
import numpy

from harness import ugen
from goats.core import measurable, metadata, metric, operational, physical, variable

RULE = ('a distinct (form of input, number of values, unit, wrapping) that was measured and '
        'compared with the model, or refused')
ASSUMPTIONS = (
    'Units of the members of one measurable are compared by the package as written; the '
    'workload writes equal units alike, except in canonical objects.',
)
MUST_SEE = ('oracle:values', 'oracle:unit', 'oracle:distribute', 'oracle:items', 'oracle:refuse',
            'oracle:ismeasurable', 'oracle:scalar', 'oracle:vector', 'oracle:unchanged')

TYPES = (int, float, float, numpy.float64, numpy.int64)


def number(rng):
    t = rng.choice(TYPES)
    if rng.random() < 0.1:
        return t(0)
    x = rng.choice([rng.uniform(-9, 9), rng.uniform(-1e6, 1e6), 10 ** rng.uniform(-20, 20)])
    if t in (int, numpy.int64):
        return t(rng.randint(-50, 50))
    return t(x)


def unit(rng):
    r = rng.random()
    if r < 0.12:
        return '1'
    while True:
        u = ugen.fmt(rng, ugen.terms(rng, ugen.SI, rng.choice([1, 1, 2, 3])), rng.choice(['space', 'slash']))
        if '(' not in u or r < 0.7:
            return u


def trivial(u):
    return metric.Unit(u) == metric.Unit('1')


def canonical(text):
    return str(metric.Unit(text))


def container(rng, xs):
    kind = rng.choice(['list', 'tuple', 'array', 'list'])
    if kind == 'list':
        return list(xs)
    if kind == 'tuple':
        return tuple(xs)
    return numpy.array([float(x) for x in xs])


def formal(rng, xs, u):
    """An object that measures itself."""
    xs = [float(x) for x in xs]
    kinds = ['vector', 'array', 'variable', 'measurement']
    if len(xs) == 1:
        kinds += ['scalar', 'scalar']
    k = rng.choice(kinds)
    made = {
        'scalar': lambda v: physical.Scalar(xs[0], unit=v),
        'vector': lambda v: physical.Vector(xs, unit=v),
        'array': lambda v: physical.Array(numpy.array(xs), unit=v),
        'variable': lambda v: variable.Quantity(numpy.array(xs), dimensions=('x',), unit=v),
        'measurement': lambda v: measurable.Measurement(tuple(xs), v),
    }[k]
    ts = ugen.parse(u)
    if k != 'measurement' and ts and rng.random() < 0.4:
        # converted from another unit: the values are those it shows now
        obj = made(ugen.fmt(rng, ugen.same_quantity(rng, ts)))[u]
        ys = [float(obj)] if k == 'scalar' else numpy.array(obj, dtype=float).tolist()
        if all(math.isfinite(y) for y in ys) and str(obj.unit) == canonical(u):
            return k, obj, ys
    return k, made(u), xs


def build(rng):
    """(form name, object, values, unit text)"""
    n = rng.choice([1, 1, 2, 2, 3, 5, 8])
    xs = [number(rng) for _ in range(n)]
    u = unit(rng)
    uu = rng.choice([u, u, metadata.Unit(u), metric.Unit(u)])
    kind = rng.choice(['number', 'flat', 'flat-unit', 'flat-unit', 'iter-unit', 'iter-unit', 'range-unit',
                       'nested', 'nested', 'nested-iter', 'formal', 'formals', 'nested-bare', 'none-unit'])
    if kind == 'number':
        return kind, xs[0], xs[:1], '1'
    if kind == 'flat':
        return kind, container(rng, xs), xs, '1'
    if kind == 'flat-unit':
        return kind, rng.choice([list, tuple])([*xs, uu]), xs, u
    if kind == 'iter-unit':
        return kind, rng.choice([list, tuple])([container(rng, xs), uu]), xs, u
    if kind == 'range-unit':
        r = range(rng.randint(-5, 5), rng.randint(6, 40), rng.randint(1, 6))
        return kind, (r, uu), list(r), u
    if kind == 'nested':
        items = [rng.choice([list, tuple])([x, u]) for x in xs]
        return kind, rng.choice([list, tuple])(items), xs, u
    if kind == 'nested-iter':
        groups, out = [], []
        for x in xs:
            ys = [number(rng) for _ in range(rng.choice([1, 2, 3]))]
            groups.append(rng.choice([
                lambda: ([*ys], u), lambda: [tuple(ys), u], lambda: (*ys, u)])())
            out.extend(ys)
        return kind, groups, out, u
    if kind == 'nested-bare':
        groups = [container(rng, [x, number(rng)]) for x in xs]
        out = [y for g in groups for y in g]
        return kind, list(groups), out, '1'
    if kind == 'none-unit':
        return kind, (*xs, '1'), xs, '1'
    if kind == 'formal':
        k, obj, ys = formal(rng, xs, u)
        return f'{kind}:{k}', obj, ys, u
    objs, out = [], []
    # a unit that equals '1' may be written as '1'
    c = canonical(u) if not trivial(u) else '1'
    for x in xs:
        ys = [x] if rng.random() < 0.6 else [x, number(rng)]
        k, obj, zs = formal(rng, ys, c)
        # a bare pair written like the canonical unit may stand beside objects
        bare = rng.random() >= 0.75
        objs.append((*ys, c) if bare else obj)
        out.extend(float(y) for y in (ys if bare else zs))
    return kind, objs, out, c


def wrap(rng, obj):
    n = rng.choice([0, 0, 0, 1, 1, 2, 3])
    for _ in range(n):
        obj = rng.choice([lambda x: [x], lambda x: (x,)])(obj)
    return n, obj


def same_values(got, want):
    got = list(got)
    return len(got) == len(want) and all(float(a) == float(b) for a, b in zip(got, want))


def state(obj):
    if isinstance(obj, (list, tuple)):
        return type(obj).__name__, [state(x) for x in obj]
    if isinstance(obj, numpy.ndarray):
        return obj.tolist()
    if isinstance(obj, (physical.Quantity, variable.Quantity)):
        return type(obj).__name__, numpy.array(obj, dtype=float).tolist(), str(obj.unit)
    if isinstance(obj, measurable.Measurement):
        return list(obj.data), str(obj.unit)
    return repr(obj)


def check(mon, m, xs, u, what):
    mon.expect(isinstance(m, measurable.Measurement), 'values', what, f'type {type(m)}')
    mon.expect(same_values(m.data, xs), 'values', what, f'| got {m.data}, want {xs}')
    mon.equal(len(m), len(xs), 'values', what, 'length')
    mon.expect(m.unit == metric.Unit(u), 'unit', what, f'| got {m.unit}, want {u}')


def measuring(mon, rng, i):
    kind, obj, xs, u = build(rng)
    n, w = wrap(rng, obj)
    before = state(w)
    what = f'measure({w!r}) [{kind}]'
    m = measurable.measure(w)
    mon.saw(kind, len(xs), u, n)
    mon.event('form:' + kind)
    mon.sample(what + f' = {m}')
    check(mon, m, xs, u, what)
    mon.expect(measurable.ismeasurable(w), 'ismeasurable', what)
    if isinstance(w, (tuple, list)) and len(w) > 0:
        check(mon, measurable.measure(*w), xs, u, what + ' (separate arguments)')
    # items
    j = rng.randrange(-len(xs), len(xs))
    item = m[j]
    mon.expect(len(item) == 1 and float(item[0][0]) == float(xs[j]) and metric.Unit(item[0][1]) == metric.Unit(u),
               'items', what, f'[{j}] = {item}')
    a = rng.randrange(-len(xs) - 1, len(xs) + 1)
    b = rng.randrange(-len(xs) - 1, len(xs) + 2)
    part = m[a:b]
    mon.expect(same_values([p[0] for p in part], xs[a:b]), 'items', what, f'[{a}:{b}] = {part}')
    for k in (len(xs), -len(xs) - 1):
        mon.refuses(lambda: m[k], 'items', what, f'index {k}', errors=IndexError)
    # measuring a measurement, or what one contains, changes nothing
    check(mon, measurable.measure(m), xs, u, what + ' again')
    check(mon, measurable.measure([m]), xs, u, what + ' again, wrapped')
    check(mon, measurable.measure(m[:]), xs, u, what + ' from its items')
    # one value at a time
    pairs = measurable.parse_measurable((w,), distribute=True)
    mon.expect(same_values([p[0] for p in pairs], xs)
               and all(metric.Unit(p[1]) == metric.Unit(u) for p in pairs),
               'distribute', what, f'| got {pairs}')
    mon.expect(state(w) == before, 'unchanged', what)
    # objects made from measurements
    v = physical.Vector(m)
    mon.expect(same_values(v.data, [float(x) for x in xs]) and v.unit == metric.Unit(u), 'vector', what, repr(v))
    a = operational.Argument(m)
    mon.expect(a.unit == metric.Unit(u) and same_values(list(a), xs), 'vector', what, f'argument {a!r}')
    check(mon, measurable.measure(v), [float(x) for x in xs], u, what + ' through a vector')
    if len(xs) == 1:
        for src in (w, m, v):
            s = physical.scalar(src)
            mon.expect(float(s) == float(xs[0]) and s.unit == metric.Unit(u), 'scalar', what, repr(s))
    else:
        for src in (w, m, v):
            mon.refuses(lambda: physical.scalar(src), 'scalar', what, errors=ValueError)


class Other:
    pass


def isunit(x):
    return isinstance(x, (str, metric.Unit))


def documented(x):
    """Whether the documentation declares an object measurable (None: it does not say)."""
    while isinstance(x, (list, tuple)) and len(x) == 1:
        x = x[0]
    if isinstance(x, dict) or (isinstance(x, (list, tuple)) and not x):
        return None
    if isinstance(x, numbers.Number) or hasattr(x, '__measure__') or isinstance(x, measurable.Measurement):
        return True
    if not isinstance(x, (list, tuple)):
        return False
    number_ = lambda v: isinstance(v, numbers.Number)
    if all(number_(v) for v in x):
        return True
    if isunit(x[-1]):
        head = x[:-1]
        if len(head) == 1 and isinstance(head[0], (list, tuple)):
            head = head[0]
            if not head:
                return None
        if all(number_(v) for v in head):
            return True
    found = [documented(v) for v in x]
    return False if False in found else None if None in found else True


def mixed(rng, u, v):
    """Several measurable items of which one has another unit."""
    n = rng.choice([3, 3, 4, 6])
    j = rng.randrange(n)
    items = []
    for k in range(n):
        w = v if k == j else u
        ys = [number(rng) for _ in range(rng.choice([1, 1, 2]))]
        items.append(rng.choice([
            lambda: (*ys, w), lambda: [tuple(ys), w], lambda: formal(rng, ys, w)[1]])())
    return rng.choice([list, tuple])(items)


def refusing(mon, rng, i):
    """Anything that cannot be measured without loss or guessing is refused."""
    x, y, z = (number(rng) for _ in range(3))
    u = unit(rng)
    while True:
        v = unit(rng)
        if metric.Unit(v) != metric.Unit(u):
            break
    bad = rng.choice([
        lambda: None, lambda: [], lambda: (), lambda: u, lambda: (u,), lambda: [u, x], lambda: (u, x, y),
        lambda: ([x, y], z, u), lambda: ([x, y], [z, x], u), lambda: ([x, u], u), lambda: (x, u, v),
        lambda: (x, u, y, v), lambda: ((x, u), (y, v)), lambda: [(x, u), ([y, z], v)], lambda: (x, y, u, v),
        lambda: Other(), lambda: [x, Other()], lambda: [Other(), u], lambda: [[x, None], u], lambda: {'a': x},
        lambda: (x, (y, u)) if not trivial(u) else None, lambda: [None, None], lambda: ([[x, y], [y, z]], u),
        lambda: [physical.Scalar(float(x), unit=u), physical.Scalar(float(y), unit=v)],
        lambda: [physical.Vector([1.0, 2.0], unit=u), (y, v)], lambda: [[(x, u)], [(y, v)]],
        lambda: (x, u, u), lambda: (x, u, y, u), lambda: (x, y, u, z),
        lambda: [physical.Scalar(float(x), unit=u), u],
        lambda: mixed(rng, u, v), lambda: mixed(rng, u, v), lambda: mixed(rng, u, v),
    ])()
    n, w = wrap(rng, bad)
    what = f'measure({w!r})'
    mon.saw(repr(w))
    if documented(bad) is False:
        try:
            declared = measurable.ismeasurable(w)
        except TypeError:
            declared = False    # a scalar cannot even be looked into
        mon.expect(not declared, 'ismeasurable', what, '| declared measurable')
    try:
        m = measurable.measure(w)
        text = f'{m.data} {m.unit}'
    except Exception as err:
        mon.expect(True, 'refuse')
        mon.event('refusal:' + type(err).__name__)
        return
    mon.expect(False, 'refuse', what, '| accepted, giving', text)


def odd_units(mon, rng, i):
    """A unit that does not exist is never turned into one that does."""
    x = number(rng)
    u = rng.choice(['metre', 'kq', 'qm', 'foo', 'm^x', 'cats', 'furlong / fortnight', 'kkm'])
    def attempt():
        m = measurable.measure((x, u))
        return m.unit
    mon.saw(u)
    mon.refuses(attempt, 'refuse', f'unit {u!r}')


SUBS = {
    'measuring': (measuring, 5000, 120000),
    'refusing': (refusing, 2000, 40000),
    'odd_units': (odd_units, 100, 1000),
}
