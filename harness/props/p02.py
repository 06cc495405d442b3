"""Conversions are coherent with one another."""
from fractions import Fraction

from harness import siref, ugen
from goats.core import metric

RULE = ('a distinct tuple of units on which an identity, inverse, composition, '
        'product, power or application law was evaluated')
ASSUMPTIONS = ('Laws are judged where every conversion involved is granted; '
               'refusals are counted as events and judged by P04.',)
MUST_SEE = ('oracle:identity', 'oracle:inverse', 'oracle:compose', 'oracle:product',
            'oracle:power', 'oracle:reciprocal', 'oracle:loop')


def conv(mon, a, b):
    got = metric.conversion(a, b)
    mon.event('granted' if got is not None else 'refused')
    return got


def near(x, y, rtol=1e-9):
    return abs(x - y) <= rtol * max(abs(x), abs(y))


def identity(mon, rng, i):
    ts = ugen.terms(rng, ugen.ALL, exponents=ugen.EXPONENTS)
    a, b = ugen.fmt(rng, ts), ugen.fmt(rng, ugen.respell(rng, ts))
    sh = list(ts)
    rng.shuffle(sh)
    c = ugen.fmt(rng, sh)
    for x, y in ((a, a), (a, b), (a, c), (b, c)):
        got = conv(mon, x, y)
        mon.saw(x, y)
        mon.expect(got is not None and near(got, 1.0), 'identity', f'{x!r} -> {y!r}: {got!r}')
    mon.sample(f'{a} == {b} == {c}')


def triple(mon, rng, i):
    """Three units of one dimension: inverse and composition."""
    mode = rng.random()
    if mode < 0.6:
        a = ugen.terms(rng, ugen.ALL, exponents=ugen.EXPONENTS)
        b, c = ugen.same_quantity(rng, a), ugen.same_quantity(rng, a)
    else:
        a = ugen.terms(rng, ugen.SI)
        b, c = ugen.base_expansion(rng, a), ugen.same_quantity(rng, a)
        if not b:
            return
    A, B, C = (ugen.fmt(rng, t) for t in (a, b, c))
    ab, ba = conv(mon, A, B), conv(mon, B, A)
    bc, ac = conv(mon, B, C), conv(mon, A, C)
    ca = conv(mon, C, A)
    mon.saw(A, B, C)
    mon.expect((ab is None) == (ba is None), 'symmetric', f'{A!r} <-> {B!r}: {ab} {ba}')
    if ab is not None and ba is not None:
        mon.expect(near(ab * ba, 1), 'inverse', f'{A!r} <-> {B!r}: {ab} * {ba} != 1')
    if None not in (ab, bc, ac):
        mon.expect(near(ab * bc, ac), 'compose', f'{A!r} -> {B!r} -> {C!r}: {ab} * {bc} != {ac}')
    if None not in (ab, bc, ca):
        mon.expect(near(ab * bc * ca, 1), 'loop', f'{A!r} -> {B!r} -> {C!r} -> back: {ab} {bc} {ca}')
    mon.sample(f'{A} -> {B} -> {C}')


NAMES = sorted(siref.UNITS)


def quantity(mon, rng, i):
    """Round trips and powers between all units of one quantity with common prefixes."""
    s = NAMES[i % len(NAMES)]
    for t in ugen.BYQ[siref.UNITS[s][1]]:
        for p in ('', 'c', 'k', 'n'):
            for r in ('', 'c', 'M'):
                k, kk = (ugen.spell(rng, *x, symbolic=True) for x in ((p, s), (r, t)))
                if k is None or kk is None:
                    continue
                e = Fraction(rng.choice([-1, -2, -3, 2, 3, Fraction(1, 2), Fraction(-3, 2)]))
                x, y = f'{k}^{e}', f'{kk}^{e}'
                f, g, h = conv(mon, k, kk), conv(mon, x, y), conv(mon, y, x)
                mon.saw(x, y)
                mon.expect(None not in (f, g, h) and near(f ** float(e), g) and near(g * h, 1), 'inverse',
                           f'{x!r} <-> {y!r}: {g} and {h}; without the power {f}')


def product(mon, rng, i):
    """The factor of a product is the product of the factors."""
    a = ugen.terms(rng, ugen.ALL, rng.choice([1, 2]))
    quantities = {siref.UNITS[t[1]][1] for t in a}
    rest = [s for s in ugen.ALL if siref.UNITS[s][1] not in quantities]
    b = ugen.terms(rng, rest, rng.choice([1, 2]))
    a1, b1 = ugen.same_quantity(rng, a), ugen.same_quantity(rng, b)
    fa = conv(mon, ugen.fmt(rng, a), ugen.fmt(rng, a1))
    fb = conv(mon, ugen.fmt(rng, b), ugen.fmt(rng, b1))
    ab, ab1 = a + b, a1 + b1
    rng.shuffle(ab)
    rng.shuffle(ab1)
    x, y = ugen.fmt(rng, ab), ugen.fmt(rng, ab1)
    fab = conv(mon, x, y)
    mon.saw(x, y)
    mon.expect(None not in (fa, fb, fab) and near(fa * fb, fab), 'product',
               f'{x!r} -> {y!r}: {fab} but parts give {fa} * {fb}')
    # quotient
    inv = [(p, s, k, -e) for p, s, k, e in b]
    inv1 = [(p, s, k, -e) for p, s, k, e in b1]
    x, y = ugen.fmt(rng, a + inv), ugen.fmt(rng, a1 + inv1)
    q = conv(mon, x, y)
    mon.expect(None not in (fa, fb, q) and near(fa / fb, q), 'product',
               f'{x!r} -> {y!r}: {q} but parts give {fa} / {fb}')


def power(mon, rng, i):
    a = ugen.terms(rng, ugen.ALL, rng.choice([1, 1, 2]), exponents=[1, 1, -1, 2])
    b = ugen.same_quantity(rng, a)
    n = Fraction(rng.choice(['2', '3', '-1', '-2', '1/2', '3/2']))
    f = conv(mon, ugen.fmt(rng, a), ugen.fmt(rng, b))
    an = [(p, s, k, e * n) for p, s, k, e in a]
    bn = [(p, s, k, e * n) for p, s, k, e in b]
    x, y = ugen.fmt(rng, an), ugen.fmt(rng, bn)
    g = conv(mon, x, y)
    mon.saw(x, y)
    mon.expect(None not in (f, g) and near(f ** float(n), g), 'power',
               f'{x!r} -> {y!r}: {g} but base gives {f}^{n}')
    # the same law through unit objects
    try:
        u = metric.Unit(ugen.fmt(rng, b, 'space')) // metric.Unit(ugen.fmt(rng, a, 'space'))
    except metric.UnitConversionError:
        u = None
    mon.expect(u is not None and f is not None and near(u, f), 'power', f'{a} // {b}: {u} {f}')


def reciprocal(mon, rng, i):
    """A value converted there and back is the value it was."""
    a = ugen.terms(rng, ugen.ALL, exponents=ugen.INTEGERS)
    b = ugen.same_quantity(rng, a)
    A, B = metric.Unit(ugen.fmt(rng, a)), metric.Unit(ugen.fmt(rng, b))
    x = rng.uniform(-5, 5) * 10 ** rng.randint(-5, 5)
    y = (A // B) * ((B // A) * x)
    mon.saw(str(A), str(B))
    mon.expect(near(x, y), 'reciprocal', f'{A} <-> {B}: {x} became {y}')


SUBS = {
    'identity': (identity, 2000, 40000),
    'triple': (triple, 4000, 80000),
    'quantity': (quantity, len(NAMES), 8 * len(NAMES)),
    'product': (product, 3000, 60000),
    'power': (power, 3000, 60000),
    'reciprocal': (reciprocal, 1500, 30000),
}
