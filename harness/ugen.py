"""Generators of unit expressions, with their meaning according to `siref`."""
import collections
import math
import re
from fractions import Fraction

from harness import siref

BYQ = collections.defaultdict(list)
for _s, _u in siref.UNITS.items():
    BYQ[_u[1]].append(_s)

# The stable test suite pins a different dimension for the ohm; it is only used
# where its own magnitude matters.  'cd' is only ever the candela.
ALL = [s for s in siref.UNITS]
# Mechanical and SI-electromagnetic units that are expressible in SI base units.
SI = ['m', 'au', 'g', 's', 'min', 'h', 'd', 'A', 'K', 'mol', 'J', 'erg', 'eV',
      'N', 'dyn', 'Pa', 'W', 'C', 'V', 'S', 'F', 'Wb', 'H', 'T', 'Gy', 'P',
      'cd', 'rad', 'deg', 'sr']
# Units whose Gaussian meaning does not coincide with the SI one.
GAUSSIAN = {'statC', 'statA', 'statV', 'Mx', 'G', 'Oe', 'e'}
ELECTRIC = {s for s in siref.UNITS if siref.UNITS[s][3][3]} | GAUSSIAN

PREFIXES = [p for p in siref.PREFIX if p]
COMMON = ['', '', '', '', 'k', 'c', 'm', 'M', 'μ', 'G', 'n']
BASES = (('k', 'g'), ('', 'm'), ('', 's'), ('', 'A'), ('', 'K'), ('', 'mol'), ('', 'cd'))


def prefix(rng, wide=0.3):
    return rng.choice(PREFIXES) if rng.random() < wide else rng.choice(COMMON)


def spell(rng, p, s, symbolic=False):
    """One spelling of a prefixed unit that has no other reading."""
    if s == '#':
        options = ['#'] if not p else [siref.PREFIX[p][0] + 'count']
    else:
        options = list(siref.spellings(p, s))
    good = [o for o in options if o not in siref.AMBIGUOUS]
    if symbolic:
        # the expression grammar takes ASCII words
        good = [o for o in good if re.fullmatch(r'[A-Za-z#]+', o)]
    if s == 'ohm':
        good = [o for o in good if o == 'ohm' or o.startswith(siref.PREFIX[p][0]) and p]
    return rng.choice(good) if good else None


def one(rng, symbols, wide=0.3, symbolic=True):
    while True:
        s = rng.choice(symbols)
        p = prefix(rng, wide)
        if s in ('rad', 'sr', 'deg', '#') and rng.random() < 0.7:
            p = ''
        k = spell(rng, p, s, symbolic)
        if k is not None:
            return p, s, k


EXPONENTS = [1, 1, 1, 2, -1, -1, -2, 3, -3, Fraction(1, 2), Fraction(-3, 2)]
INTEGERS = [1, 1, 1, 2, -1, -1, -2, 3, -3, -6]


def terms(rng, symbols, n=None, exponents=INTEGERS, distinct=True):
    """[(prefix, symbol, spelling, exponent)]"""
    n = n or rng.choice([1, 1, 2, 2, 3, 4])
    while True:
        out = _terms(rng, symbols, n, exponents, distinct)
        if magnitude(out) < 120:
            return out


def magnitude(ts):
    """Decades spanned by the factors, to stay within double precision."""
    return sum(abs(math.log10(siref.factor(p, s)) * float(e)) for p, s, _, e in ts)


def _terms(rng, symbols, n, exponents, distinct):
    out, used = [], set()
    while len(out) < n:
        p, s, k = one(rng, symbols)
        q = siref.UNITS[s][1]
        if distinct and q in used:
            continue
        used.add(q)
        out.append((p, s, k, Fraction(rng.choice(exponents))))
    return out


def meaning(ts):
    return siref.compound([(p, s, e) for p, s, _, e in ts])


def _exp(e):
    e = Fraction(e)
    if e.denominator == 1:
        return str(e.numerator)
    return f'{e.numerator}/{e.denominator}'


def fmt(rng, ts, style=None):
    """Write the terms in one of the documented notations."""
    style = style or rng.choice(['space', 'star', 'slash', 'mixed'])
    ts = list(ts)
    if style in ('space', 'star'):
        sep = ' ' if style == 'space' else ' * '
        return sep.join(k if e == 1 else f'{k}^{_exp(e)}' for _, _, k, e in ts)
    num = [(k, e) for _, _, k, e in ts if e > 0]
    den = [(k, -e) for _, _, k, e in ts if e < 0]
    one_ = lambda k, e: k if e == 1 else f'{k}^{_exp(e)}'
    top = ' * '.join(one_(k, e) for k, e in num) or '1'
    if not den:
        return top
    bot = ' '.join(one_(k, e) for k, e in den)
    if len(den) > 1:
        bot = f'({bot})'
    slash = ' / ' if rng.random() < 0.6 else '/'
    return top + slash + bot


def respell(rng, ts):
    """The same units, other spellings."""
    return [(p, s, spell(rng, p, s, True) or k, e) for p, s, k, e in ts]


def same_quantity(rng, ts):
    """Other units of the same quantities."""
    while True:
        out = []
        for p, s, k, e in ts:
            q, t, kk = one(rng, BYQ[siref.UNITS[s][1]])
            out.append((q, t, kk, e))
        if magnitude(out) < 120 and not shadowed(out, ts):
            rng.shuffle(out)
            return out


def shadowed(us, ts):
    """Whether Gaussian units happen to be the same size as the SI units they replace.

    A conversion between equal units changes nothing, so an object made in `us`
    keeps them when asked for `ts`, and its products are then Gaussian ones,
    which SI cannot measure (MK^2 gauss^-3 is TK^2 tesla^-3).
    """
    if not any(t[1] in GAUSSIAN for t in us) or any(t[1] in GAUSSIAN for t in ts):
        return False
    a, b = meaning(us)[0], meaning(ts)[0]
    return abs(a / b - 1) < 1e-6


def base_expansion(rng, ts):
    _, dim = meaning(ts)
    out = []
    for x, (p, s) in zip(dim, BASES):
        if x:
            out.append((p, s, p + s, Fraction(x)))
    rng.shuffle(out)
    return out


_TERM = re.compile(r'^([A-Za-z#Ωμ]+|1)(?:\^(-?\d+(?:/\d+|\.\d+)?))?$')
LOOKUP = {}
for _s in siref.UNITS:
    for _p in siref.PREFIX:
        for _k in siref.spellings(_p, _s):
            LOOKUP.setdefault(_k, (_p, _s))
LOOKUP['cd'] = ('', 'cd')
LOOKUP['1'] = None
LOOKUP['Ω'] = ('', 'ohm')


def parse(text):
    """Read the package's canonical text form with our own reader.

    Returns [(prefix, symbol, spelling, exponent)] or None.
    """
    out = []
    for tok in str(text).split():
        m = _TERM.match(tok)
        if not m:
            return None
        k, e = m.group(1), Fraction(m.group(2) or 1)
        if k not in LOOKUP:
            return None
        if LOOKUP[k] is None:
            continue
        p, s = LOOKUP[k]
        out.append((p, s, k, e))
    return out
