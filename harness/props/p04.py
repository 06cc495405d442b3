"""Only dimensionally consistent conversions are granted."""
import numpy

from harness import siref, ugen
from goats.core import metric, physical, variable

RULE = ('a distinct pair of units whose consistency verdict (granted or refused) was '
        'compared with the dimension vectors of the independent reference')
ASSUMPTIONS = (
    'Units whose Gaussian and SI dimensions differ are judged only within their quantity.',
    'Dimensionless labels (radian, steradian, count, ...) do not make units inconsistent.',
    'A few consistent conversions the package does not offer (e.g. Hz to s^-1) are outside '
    'the claim: a consistent pair must be granted when it pairs units of equal quantities '
    'term by term, or expands SI units into SI base units.',
)
MUST_SEE = ('oracle:refused', 'oracle:granted', 'oracle:consistent', 'oracle:inconsistent',
            'oracle:object-refused', 'oracle:object-unchanged', 'oracle:dimension')

MECH = [s for s in ugen.ALL if s not in ugen.ELECTRIC and s not in ('ohm', 'lm', 'lx')]
PLAIN = MECH + ['A', 'C', 'V', 'Wb', 'T']


def mismatch(rng):
    """Two products with different dimensions, often by one small slip."""
    while True:
        a = ugen.terms(rng, PLAIN)
        mode = rng.choice(['free', 'exponent', 'drop', 'extra', 'swap', 'invert'])
        b = ugen.same_quantity(rng, a)
        j = rng.randrange(len(b))
        p, s, k, e = b[j]
        if mode == 'free':
            b = ugen.terms(rng, PLAIN)
        elif mode == 'exponent':
            b[j] = (p, s, k, e + rng.choice([-1, 1, 2]))
        elif mode == 'drop':
            del b[j]
        elif mode == 'extra':
            q = {siref.UNITS[t[1]][1] for t in b}
            b += ugen.terms(rng, [s for s in PLAIN if siref.UNITS[s][1] not in q], 1)
        elif mode == 'swap':
            q = {siref.UNITS[t[1]][1] for t in b}
            t = ugen.terms(rng, [s for s in PLAIN if siref.UNITS[s][1] not in q], 1)[0]
            b[j] = t[:3] + (e,)
        else:
            b = [(p, s, k, -e) for p, s, k, e in b]
        b = [t for t in b if t[3]]
        if not b or ugen.magnitude(b) > 150:
            continue
        if ugen.meaning(a)[1] != ugen.meaning(b)[1]:
            return mode, a, b


def refused(mon, rng, i):
    mode, a, b = mismatch(rng)
    A, B = ugen.fmt(rng, a), ugen.fmt(rng, b)
    mon.event('mismatch:' + mode)
    mon.saw(A, B)
    for x, y in ((A, B), (B, A)):
        got = metric.conversion(x, y)
        mon.expect(got is None, 'refused', f'{x!r} -> {y!r} ({mode}) gave {got!r}')
        mon.refuses(lambda: metric.conversion(x, y, strict=True), 'refused',
                    f'{x!r} -> {y!r} strict', errors=metric.UnitConversionError)
        mon.refuses(lambda: metric.Unit(y) // metric.Unit(x), 'refused',
                    f'{y!r} // {x!r}', errors=metric.UnitConversionError)
    mon.expect(not (metric.Unit(A) | metric.Unit(B)), 'inconsistent', f'{A!r} | {B!r} is true')
    mon.expect(not (metric.Unit(B) | A), 'inconsistent', f'{B!r} | {A!r} is true')
    mon.expect(not (metric.Unit(A) == metric.Unit(B)), 'inconsistent', f'{A!r} == {B!r}')
    mon.sample(f'{mode}: {A} vs {B}')


def granted(mon, rng, i):
    if rng.random() < 0.6:
        a = ugen.terms(rng, ugen.ALL)
        b = ugen.same_quantity(rng, a)
    else:
        a = ugen.terms(rng, ugen.SI)
        b = ugen.base_expansion(rng, a)
        if not b:
            return
    A, B = ugen.fmt(rng, a), ugen.fmt(rng, b)
    mon.saw(A, B)
    got = metric.conversion(A, B)
    mon.expect(got is not None and got > 0, 'granted', f'{A!r} -> {B!r} gave {got!r}')
    mon.expect(metric.Unit(A) | metric.Unit(B), 'consistent', f'{A!r} | {B!r} is false')


MAKERS = {
    'scalar': lambda u, rng: physical.Scalar(rng.uniform(-9, 9), unit=u),
    'vector': lambda u, rng: physical.Vector([rng.uniform(-9, 9) for _ in range(3)], unit=u),
    'array': lambda u, rng: physical.Array([[rng.uniform(-9, 9) for _ in range(2)] for _ in range(3)], unit=u),
    'variable': lambda u, rng: variable.Quantity(
        [[rng.uniform(-9, 9) for _ in range(2)] for _ in range(3)], unit=u, dimensions=('a', 'b')),
}


def values(q):
    arraylike = isinstance(q, (physical.Array, variable.Quantity))
    return numpy.array(q if arraylike else q.data, dtype=float)


def objects(mon, rng, i):
    mode, a, b = mismatch(rng)
    A, B = ugen.fmt(rng, a), ugen.fmt(rng, b)
    kind = rng.choice(sorted(MAKERS))
    q = MAKERS[kind](A, rng)
    v0, u0 = values(q), str(q.unit)
    mon.event('object:' + kind)
    mon.saw(kind, A, B)
    mon.refuses(lambda: q[B], 'object-refused', f'{kind} in {A!r} changed to {B!r}',
                errors=(ValueError, metric.UnitConversionError))
    mon.expect(str(q.unit) == u0 and numpy.array_equal(values(q), v0), 'object-unchanged',
               f'{kind} in {A!r} after a refused change to {B!r}: {q!r}')
    # and still usable
    c = ugen.same_quantity(rng, a)
    C = ugen.fmt(rng, c)
    f = ugen.meaning(a)[0] / ugen.meaning(c)[0]
    mon.close(values(q[C]), v0 * f, 'object-unchanged', f'{kind} {A!r} -> {C!r} after refusal')


SI_NAMES = 'M L T I H N J'.split()


def dimension(mon, rng, i):
    """The dimension of a unit expression is the product of its parts'."""
    symbols = [s for s in ugen.SI if s not in ()]
    a = ugen.terms(rng, symbols)
    A = ugen.fmt(rng, a)
    u = metric.Unit(A)
    want = {n: x for n, x in zip(SI_NAMES, ugen.meaning(a)[1]) if x}
    got = u.dimensions['mks']
    if got is None:
        mon.event('dimension-undefined')
        return
    read = {}
    for tok in str(got).split():
        k, _, e = tok.partition('^')
        if k != '1':
            from fractions import Fraction
            read[k] = read.get(k, 0) + Fraction(e or 1)
    mon.saw(A)
    mon.equal({k: v for k, v in read.items() if v}, want, 'dimension', f'{A!r}')
    only_labels = not want
    mon.equal(bool(u.dimensionless), only_labels, 'dimension', f'{A!r}.dimensionless')


SUBS = {
    'refused': (refused, 3000, 60000),
    'granted': (granted, 2500, 50000),
    'objects': (objects, 1500, 30000),
    'dimension': (dimension, 2000, 40000),
}
