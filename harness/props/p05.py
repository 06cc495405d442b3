"""Unit algebra preserves magnitude and dimension."""
import math
import re
from fractions import Fraction

from harness import siref, ugen
from goats.core import metric, symbolic

RULE = ('a distinct unit product, quotient, power or equality whose result was read with '
        'an independent reader and compared in size and dimension')
ASSUMPTIONS = (
    'SI and mechanical units are compared in SI; Gaussian units among themselves in cm-g-s '
    'with half-integer exponents.',
    'Units with numeric coefficients are not part of the claim.',
)
MUST_SEE = ('oracle:product', 'oracle:quotient', 'oracle:power', 'oracle:equal',
            'oracle:unequal', 'oracle:named', 'oracle:reduce', 'oracle:gaussian', 'oracle:inputs-kept')

# quantities where names are pinned otherwise by the stable tests
SI = [s for s in siref.UNITS if s not in ugen.GAUSSIAN and s not in ('ohm', 'lm', 'lx')]

# Gaussian reference: factor in cgs and (M, L, T) exponents
H = Fraction(1, 2)
CGS = {
    'statC': (1.0, (H, 3 * H, -1)), 'statA': (1.0, (H, 3 * H, -2)),
    'statV': (1.0, (H, H, -1)), 'G': (1.0, (H, -H, -1)), 'Oe': (1.0, (H, -H, -1)),
    'Mx': (1.0, (H, 3 * H, -1)),
    'erg': (1.0, (1, 2, -2)), 'dyn': (1.0, (1, 1, -2)), 'P': (1.0, (1, -1, -1)),
    'g': (1.0, (1, 0, 0)), 'm': (1e2, (0, 1, 0)), 's': (1.0, (0, 0, 1)),
}


def size(ts):
    f, d = 1.0, [Fraction(0)] * 7
    for p, s, _, e in ts:
        f *= siref.factor(p, s) ** float(e)
        for i, x in enumerate(siref.dimension(s)):
            d[i] += x * e
    return f, tuple(d)


def size_cgs(ts):
    f, d = 1.0, [Fraction(0)] * 3
    for p, s, _, e in ts:
        if s not in CGS:
            return None
        g, v = CGS[s]
        f *= (10.0 ** siref.PREFIX[p][1] * g) ** float(e)
        for i, x in enumerate(v):
            d[i] += x * e
    return f, tuple(d)


def same(a, b, rtol=1e-9):
    return a is not None and b is not None and a[1] == b[1] and math.isclose(a[0], b[0], rel_tol=rtol)


def scaled(ts, n):
    return [(p, s, k, e * n) for p, s, k, e in ts]


def judge(mon, key, text, unit, want, measure):
    ts = ugen.parse(unit)
    got = None if ts is None else measure(ts)
    mon.saw(key, text)
    mon.expect(same(got, want), key, f'{text} = {unit}: read as {got}, want {want}')


def check_ops(mon, rng, symbols, measure, key=None):
    a = ugen.terms(rng, symbols, rng.choice([1, 1, 2, 3]), exponents=ugen.INTEGERS[:-1])
    b = ugen.terms(rng, symbols, rng.choice([1, 1, 2]), exponents=ugen.INTEGERS[:-1])
    if rng.random() < 0.25:
        b = ugen.same_quantity(rng, a)
        b = [t if t[1] in symbols else u for t, u in zip(b, b)]
        if any(t[1] not in symbols for t in b):
            b = ugen.respell(rng, a)
    A, B = ugen.fmt(rng, a), ugen.fmt(rng, b)
    u, v = metric.Unit(A), metric.Unit(B)
    su, sv = str(u), str(v)
    right = v if rng.random() < 0.6 else B
    judge(mon, key or 'product', f'({A}) * ({B})', u * right, measure(a + b), measure)
    judge(mon, key or 'quotient', f'({A}) / ({B})', u / right, measure(a + scaled(b, Fraction(-1))), measure)
    n = rng.choice([2, 3, -1, -2, 0.5, 1, Fraction(1, 3), Fraction(-2, 3)])
    judge(mon, key or 'power', f'({A})^{n}', u ** n, measure(scaled(a, Fraction(n))), measure)
    if rng.random() < 0.3:
        w = (u * v) / v
        judge(mon, key or 'quotient', f'({A}) * ({B}) / ({B})', w, measure(a), measure)
    judge(mon, 'inputs-kept', A, u, measure(a), measure)
    mon.expect((str(u), str(v)) == (su, sv), 'inputs-kept', f'{A}, {B}')
    mon.sample(f'{A} and {B}, power {n}')


def si(mon, rng, i):
    check_ops(mon, rng, SI, size)


def gaussian(mon, rng, i):
    check_ops(mon, rng, sorted(CGS), size_cgs, 'gaussian')


COINCIDE = [
    ((p, x), (q, y))
    for x, y in (('J', 'erg'), ('N', 'dyn'))
    for p in siref.PREFIX for q in siref.PREFIX
    if math.isclose(siref.factor(p, x), siref.factor(q, y), rel_tol=1e-12)
]


def equality(mon, rng, i):
    symbols = SI
    a = ugen.terms(rng, symbols, rng.choice([1, 1, 2, 3]))
    mode = rng.choice(['respell', 'other', 'prefix', 'expand', 'coincide', 'exponent', 'part'])
    if mode == 'respell':
        b = ugen.respell(rng, a)
        rng.shuffle(b)
    elif mode == 'other':
        b = ugen.same_quantity(rng, a)
    elif mode == 'prefix':
        b = list(a)
        j = rng.randrange(len(b))
        p, s, k, e = b[j]
        q = ugen.prefix(rng, 1.0)
        kk = ugen.spell(rng, q, s, True)
        if kk is None:
            return
        b[j] = (q, s, kk, e)
    elif mode == 'exponent':
        # the same units, up to five of them, one to another power
        a = ugen.terms(rng, symbols, rng.choice([1, 2, 3, 4, 5]))
        b = ugen.respell(rng, a)
        if rng.random() < 0.75:
            j = rng.randrange(len(b))
            p, s, k, e = b[j]
            b[j] = (p, s, k, rng.choice([x for x in (e + 1, e - 1, -e) if x]))
        rng.shuffle(b)
    elif mode == 'part':
        # one unit has a factor that the other lacks
        b = ugen.terms(rng, symbols, rng.choice([2, 2, 3, 4]))
        a = ugen.respell(rng, rng.sample(b, rng.randint(1, len(b) - 1)))
        if rng.random() < 0.5:
            a, b = b, a
    elif mode == 'coincide':
        # equal sizes from different prefixes of different units
        (p, x), (q, y) = rng.choice(COINCIDE)
        e = Fraction(rng.choice([1, 1, 2, -1, -2, 3]))
        rest = [t for t in ugen.terms(rng, ['s', 'm', 'K', 'mol'], 1)] if rng.random() < 0.5 else []
        a = [(p, x, ugen.spell(rng, p, x, True), e)] + rest
        b = ugen.respell(rng, rest) + [(q, y, ugen.spell(rng, q, y, True), e)]
        if any(t[2] is None for t in a + b):
            return
        if rng.random() < 0.5:
            a, b = b, a
    else:
        a = ugen.terms(rng, ['N', 'J', 'W', 'Pa', 'C', 'V', 'T', 'Wb', 'H', 'F', 'S'], 1)
        a = [('', s, s, e) for _, s, _, e in a]
        b = ugen.base_expansion(rng, a)
    A, B = ugen.fmt(rng, a), ugen.fmt(rng, b)
    want = same(size(a), size(b), 1e-12)
    u, v = metric.Unit(A), metric.Unit(B)
    mon.saw(A, B)
    key = 'equal' if want else 'unequal'
    mon.equal(bool(u == v), want, key, f'{A!r} == {B!r} ({mode})')
    mon.equal(bool(v == u), want, key, f'{B!r} == {A!r} ({mode})')
    mon.equal(bool(u == B), want, key, f'{A!r} == str {B!r} ({mode})')
    mon.equal(bool(u != v), not want, key, f'{A!r} != {B!r} ({mode})')


def read(terms):
    """Our own reading of a list of unit terms."""
    out = []
    for t in terms:
        ts = ugen.parse(str(t))
        if ts is None:
            return None
        out += ts
    return out


def sized(terms, scale, measure):
    ts = read(terms)
    got = None if ts is None else measure(ts)
    return got and (got[0] * scale, got[1])


def named(mon, rng, i):
    """Single named units know their size, and keep it when reduced to base units."""
    from harness.props import p06
    s = NAMED[i % len(NAMED)]
    p = ugen.prefix(rng, 0.6)
    k = ugen.spell(rng, p, s)
    if k is None:
        return
    u = metric.NamedUnit(k)
    quantity = siref.UNITS[s][1]
    measure = size_cgs if s in ugen.GAUSSIAN else size
    want = measure([(p, s, k, Fraction(1))])
    mon.saw('named', k)
    mon.close(u.scale, 10.0 ** siref.PREFIX[p][1], 'named', f'scale of {k}')
    mon.equal((u.quantity, u.base.quantity, u.prefix.symbol, u.prefix.factor), (quantity, quantity, p, u.scale), 'named', k)
    other = ugen.spell(rng, p, s)
    mon.expect(u == other and metric.NamedUnit(other) == u and hash(metric.NamedUnit(other)) == hash(u) and metric.NamedUnit(u) is u,
               'named', f'{k} and {other}')
    q, t, j = ugen.one(rng, NAMED, 0.6)
    mon.equal(bool(u == j), (q, t) == (p, s), 'named', f'{k} == {j}')
    sy = u.systems
    mon.expect(set(sy['fundamental']) <= set(sy['defined']) <= set(sy['allowed']), 'named', k, sy)
    mon.expect(sy['defined'] or set(sy['allowed']) == {'mks', 'cgs'}, 'named', k, sy)
    order = ['mks', 'cgs']
    rng.shuffle(order)
    for system in order:
        canonical = ugen.parse(p06.Q[quantity][system == 'cgs']) if quantity in p06.Q else None
        single = canonical and len(canonical) == 1 and canonical[0][3] == 1
        fundamental = bool(single and canonical[0][:2] == (p, s))
        defined = bool(single and canonical[0][1] == s)
        if canonical:
            for key, flag in (('fundamental', fundamental), ('defined', defined)):
                mon.equal(system in sy[key], flag, 'named', f'{k} {key} in {system}')
            mon.equal((u.is_fundamental_in(system), u.is_defined_in(system), u.is_allowed_in(system)),
                      (fundamental, defined, system in sy['allowed']), 'named', k, system)
            if system in sy['allowed']:
                mon.equal(p06.read_dim(u.dimensions[system]), p06.dim_of(quantity, system), 'named', f'dimension of {k} in {system}')
            if single and all(re.fullmatch('[A-Za-z1]+', x) for x in p06.Q[quantity][:2]):
                n = u.norm[system]
                mon.expect(n == metric.NamedUnit(canonical[0][2]), 'named', f'norm of {k} in {system}: {n}')
        r = u.reduce(system)
        mon.equal(r is None, system not in sy['defined'], 'reduce', f'{k} in {system}: {r}')
        if r is None:
            continue
        mon.equal(r.system, system, 'reduce', k)
        mon.expect(same(sized(r.units, r.scale, measure), want), 'reduce', f'{k} in {system}: {r}')
        x = rng.choice([2, 3.5, 0.25, 10])
        n = rng.choice([2, 3, -1, 0.5])
        for got, scale, e in ((r * x, r.scale * x, 1), (x * r, r.scale * x, 1), (r / x, r.scale / x, 1), (r ** n, r.scale ** n, n)):
            mon.close(got.scale, scale, 'reduce', f'{r} with {x} or {n}: {got}')
            w = measure(scaled(read(r.units), Fraction(e)))
            mon.expect(same(sized(got.units, 1.0, measure), w) and got.system == system, 'reduce', f'{r} with {x} or {n}: {got}')
        mon.expect(str((r * 2) / 2) == str(r) == str(r ** 1) == str(2 * (r / 2)), 'reduce', f'{r}: text {(r * 2) / 2}')
        mon.refuses(lambda: x / r, 'reduce', k, errors=TypeError)
        mon.expect(same(sized(u.reduce(system).units, u.reduce(system).scale, measure), want), 'reduce', f'{k} in {system}, again')
    try:
        r = u.reduce()
    except metric.SystemAmbiguityError:
        r = None
    if r is not None:
        mon.expect(same(sized(r.units, r.scale, measure), want), 'reduce', f'{k}: {r}')
    d = u.decomposed
    mon.equal(d is None, not sy['fundamental'], 'reduce', f'{k} decomposed: {d}')
    if d is not None:
        mon.expect(same(sized(d, 1.0, measure), want), 'reduce', f'{k} decomposed: {d}')


NAMED = [s for s in siref.UNITS if s not in ('ohm', 'lm', 'lx')]


SUBS = {
    'named': (named, 600, 12000),
    'si': (si, 3000, 60000),
    'gaussian': (gaussian, 1500, 30000),
    'equality': (equality, 3000, 60000),
}
