"""Conversion factors agree with the definitions of the units."""
from fractions import Fraction

from harness import siref, ugen
from goats.core import metric

RULE = ('a distinct (source unit, target unit, requested form) whose factor was '
        'compared with the value computed from the independent unit reference')
ASSUMPTIONS = (
    'Reference values are the SI brochure and Gaussian-CGS definitions, with the '
    'rounded eV, e and nucleon mass that the package documents.',
    'A Gaussian electromagnetic unit is compared only with units of its own quantity.',
    'The ohm is judged on its own scale only: stable tests pin another dimension for it.',
)
MUST_SEE = ('oracle:factor-named', 'oracle:factor-powers', 'oracle:factor-compound', 'oracle:factor-base',
            'oracle:factor-granted', 'oracle:factor-routes', 'oracle:factor-massnumber',
            'oracle:factor-repeated')

SYMBOLS = sorted(siref.UNITS)


def check(mon, key, u0, u1, want, rtol=1e-9):
    got = metric.conversion(u0, u1)
    mon.event('granted' if got is not None else 'refused')
    mon.saw(u0, u1)
    return mon.expect(
        got is not None and abs(got - want) <= rtol * abs(want),
        key, f'{u0!r} -> {u1!r}: got {got!r}, want {want!r}')


def named(mon, rng, i):
    """Every prefix and spelling of one unit against its whole quantity."""
    s = SYMBOLS[i % len(SYMBOLS)]
    q = siref.UNITS[s][1]
    for p in siref.PREFIX:
        if s == 'ohm' and p:
            ks = [siref.PREFIX[p][0] + 'ohm']
        else:
            ks = [k for k in siref.spellings(p, s) if k not in siref.AMBIGUOUS]
        for k in ks:
            for t in ugen.BYQ[q]:
                r = ugen.prefix(rng, 0.6)
                kk = ugen.spell(rng, r, t)
                if kk is None:
                    continue
                check(mon, 'factor-named', k, kk, siref.factor(p, s) / siref.factor(r, t))
    mon.sample(f'{s} with {len(siref.PREFIX)} prefixes against {ugen.BYQ[q]}')


def powers(mon, rng, i):
    """Powers of one unit, alone and next to another, against each unit of its quantity."""
    s = SYMBOLS[i % len(SYMBOLS)]
    symbols = [t for t in ugen.ALL if siref.UNITS[t][1] != siref.UNITS[s][1] and t not in ugen.GAUSSIAN]
    for t in ugen.BYQ[siref.UNITS[s][1]]:
        for p in ('', 'c', 'k', 'm', 'M'):
            for r in ('', 'c', 'k', 'n', 'G'):
                k, kk = (ugen.spell(rng, *x, symbolic=True) for x in ((p, s), (r, t)))
                if k is None or kk is None or (s, p) == (t, r):
                    continue
                for e in rng.sample([-1, -2, -3, 2, 3, Fraction(1, 2), Fraction(-3, 2)], 2):
                    a, b = [(p, s, k, e)], [(r, t, kk, e)]
                    if rng.random() < 0.3:
                        extra = ugen.terms(rng, symbols, 1)
                        place = rng.randrange(2)
                        a, b = (x + extra if place else extra + x for x in (a, b))
                    f0, f1 = ugen.meaning(a)[0], ugen.meaning(b)[0]
                    check(mon, 'factor-powers', ugen.fmt(rng, a), ugen.fmt(rng, b), f0 / f1)


def compound(mon, rng, i):
    ts = ugen.terms(rng, ugen.ALL, exponents=ugen.EXPONENTS)
    us = ugen.same_quantity(rng, ts)
    u0, u1 = ugen.fmt(rng, ts), ugen.fmt(rng, us)
    f0, _ = ugen.meaning(ts)
    f1, _ = ugen.meaning(us)
    check(mon, 'factor-compound', u0, u1, f0 / f1)
    mon.sample(f'{u0} -> {u1}')


def base(mon, rng, i):
    ts = ugen.terms(rng, ugen.SI)
    us = ugen.base_expansion(rng, ts)
    if not us:
        return
    f0, _ = ugen.meaning(ts)
    u0, u1 = ugen.fmt(rng, ts), ugen.fmt(rng, us)
    check(mon, 'factor-base', u0, u1, f0)
    check(mon, 'factor-base', u1, u0, 1 / f0)
    mon.sample(f'{u0} -> {u1}')


def granted(mon, rng, i):
    """Whatever is granted between unrelated spellings of one dimension."""
    symbols = [s for s in ugen.ALL if s not in ugen.GAUSSIAN and s != 'ohm']
    a = ugen.terms(rng, symbols, rng.choice([1, 2, 2, 3]))
    _, d0 = ugen.meaning(a)
    # a different product with the same dimension: a random one times the rest
    b = ugen.terms(rng, symbols, rng.choice([1, 1, 2]))
    _, d1 = ugen.meaning(b)
    rest = []
    for x, y, (p, s) in zip(d0, d1, ugen.BASES):
        if x != y and s not in {t[1] for t in b}:
            rest.append((p, s, p + s, x - y))
    b = b + rest
    f0, d0 = ugen.meaning(a)
    f1, d1 = ugen.meaning(b)
    if d0 != d1:
        return
    u0, u1 = ugen.fmt(rng, a), ugen.fmt(rng, b)
    got = metric.conversion(u0, u1)
    if got is None:
        mon.event('refused')
        return
    mon.event('granted')
    mon.saw(u0, u1)
    mon.expect(abs(got - f0 / f1) <= 1e-9 * f0 / f1, 'factor-granted',
               f'{u0!r} -> {u1!r}: got {got!r}, want {f0 / f1!r}')


def pairs(rng):
    """Two expressions with several units of one quantity each."""
    plain = [t for t in ugen.SI if not set(ugen.BYQ[siref.UNITS[t][1]]) & ugen.GAUSSIAN]
    q = siref.UNITS[rng.choice(plain)][1]
    n = rng.choice([2, 2, 3])
    while True:
        a, b = [], []
        for _ in range(n):
            e = Fraction(rng.choice([1, 1, 1, 2, -1, -1, -2, Fraction(1, 2)]))
            for out in (a, b):
                out.append((*ugen.one(rng, ugen.BYQ[q]), e))
        if rng.random() < 0.4:
            more = ugen.terms(rng, [t for t in plain if siref.UNITS[t][1] != q], rng.choice([1, 1, 2]))
            a, b = a + more, b + ugen.same_quantity(rng, more)
        rng.shuffle(a)
        rng.shuffle(b)
        if ugen.magnitude(a) < 120 and ugen.magnitude(b) < 120:
            return a, b


def repeated(mon, rng, i):
    """Several units of one quantity in one expression."""
    a, b = pairs(rng)
    u0, u1 = ugen.fmt(rng, a), ugen.fmt(rng, b)
    check(mon, 'factor-repeated', u0, u1, ugen.meaning(a)[0] / ugen.meaning(b)[0])
    mon.sample(f'{u0} -> {u1}')


def routes(mon, rng, i):
    """Every public way to ask gives the same factor."""
    ts = ugen.terms(rng, ugen.ALL, exponents=ugen.INTEGERS)
    us = ugen.same_quantity(rng, ts)
    u0, u1 = ugen.fmt(rng, ts), ugen.fmt(rng, us)
    want = ugen.meaning(ts)[0] / ugen.meaning(us)[0]
    x0, x1 = metric.Unit(u0), metric.Unit(u1)
    got = {
        'unit//unit': x1 // x0, 'unit//str': x1 // u0, 'str//unit': u1 // x0,
        'conversion(units)': metric.conversion(x0, x1),
        'conversion(strict)': metric.conversion(u0, u1, strict=True),
        'inverse': 1 / float(metric.Conversion(u0, u1).inverse),
    }
    if len(ts) == 1 and ts[0][3] == 1:
        q = siref.UNITS[ts[0][1]][1]
        got['quantity'] = metric.Quantity(q).convert(u0).to(u1)
        if ts[0][1] == us[0][1]:
            got['ratio'] = metric.ratio(ts[0][2], us[0][2])
            got['named//'] = metric.NamedUnit(us[0][2]) // metric.NamedUnit(ts[0][2])
            got['//named'] = us[0][2] // metric.NamedUnit(ts[0][2])
    for k, v in got.items():
        mon.saw(u0, u1, k)
        mon.expect(abs(v - want) <= 1e-9 * want, 'factor-routes',
                   f'{k}: {u0!r} -> {u1!r}: got {v!r}, want {want!r}')


def massnumber(mon, rng, i):
    p = ugen.prefix(rng, 0.5)
    a, b = rng.choice([('nuc', 'nucleon'), ('amu', 'atomic mass unit')])
    k = p + a
    q = ugen.prefix(rng, 0.5)
    f0 = siref.factor(p, 'g') * 1e3 * 1.6605e-27
    f1 = siref.factor(q, 'g')
    check(mon, 'factor-massnumber', k, q + 'g', f0 / f1)
    check(mon, 'factor-massnumber', q + 'g', k, f1 / f0)
    other = rng.choice(['nuc', 'amu'])
    check(mon, 'factor-massnumber', k, q + other,
          siref.factor(p, 'm') / siref.factor(q, 'm'))


SUBS = {
    'named': (named, len(SYMBOLS), 8 * len(SYMBOLS)),
    'powers': (powers, len(SYMBOLS), 8 * len(SYMBOLS)),
    'compound': (compound, 6000, 120000),
    'repeated': (repeated, 2500, 50000),
    'base': (base, 4000, 80000),
    'granted': (granted, 3000, 60000),
    'routes': (routes, 2000, 40000),
    'massnumber': (massnumber, 200, 1000),
}
