"""An independent reference for metric units, written from the SI brochure and
the Gaussian-CGS conversion tables, not from the code under test.

Every unit is given as a factor and an exponent vector over the SI base
dimensions (mass, length, time, current, temperature, amount, luminosity).
Gaussian electromagnetic units are given as the SI amount they correspond to.
Rounded experimental values (eV, e, nucleon mass) are those the package
documents; exact ones are exact.
"""
import math
from fractions import Fraction

C_SI = 299792458.0
PI = math.pi

PREFIX = {
    'Y': ('yotta', 24), 'Z': ('zetta', 21), 'E': ('exa', 18), 'P': ('peta', 15),
    'T': ('tera', 12), 'G': ('giga', 9), 'M': ('mega', 6), 'k': ('kilo', 3),
    'h': ('hecto', 2), 'da': ('deca', 1), '': ('', 0), 'd': ('deci', -1),
    'c': ('centi', -2), 'm': ('milli', -3), 'μ': ('micro', -6), 'n': ('nano', -9),
    'p': ('pico', -12), 'f': ('femto', -15), 'a': ('atto', -18),
    'z': ('zepto', -21), 'y': ('yocto', -24),
}


def _d(M=0, L=0, T=0, I=0, K=0, N=0, J=0):
    return (M, L, T, I, K, N, J)


# symbol: (name, quantity, SI factor, SI dimension, systems that define it)
UNITS = {
    'm': ('meter', 'length', 1.0, _d(L=1)),
    'au': ('astronomical unit', 'length', 1.495978707e11, _d(L=1)),
    'g': ('gram', 'mass', 1e-3, _d(M=1)),
    's': ('second', 'time', 1.0, _d(T=1)),
    'min': ('minute', 'time', 60.0, _d(T=1)),
    'h': ('hour', 'time', 3600.0, _d(T=1)),
    'd': ('day', 'time', 86400.0, _d(T=1)),
    'A': ('ampere', 'current', 1.0, _d(I=1)),
    'K': ('kelvin', 'temperature', 1.0, _d(K=1)),
    'mol': ('mole', 'amount', 1.0, _d(N=1)),
    'cd': ('candela', 'luminous intensity', 1.0, _d(J=1)),
    'rad': ('radian', 'plane angle', 1.0, _d()),
    'deg': ('degree', 'plane angle', PI / 180.0, _d()),
    'sr': ('steradian', 'solid angle', 1.0, _d()),
    '#': ('count', 'number', 1.0, _d()),
    'Hz': ('hertz', 'frequency', 1.0, _d(T=-1)),
    'J': ('joule', 'energy', 1.0, _d(M=1, L=2, T=-2)),
    'erg': ('erg', 'energy', 1e-7, _d(M=1, L=2, T=-2)),
    'eV': ('electronvolt', 'energy', 1.6022e-19, _d(M=1, L=2, T=-2)),
    'N': ('newton', 'force', 1.0, _d(M=1, L=1, T=-2)),
    'dyn': ('dyne', 'force', 1e-5, _d(M=1, L=1, T=-2)),
    'Pa': ('pascal', 'pressure', 1.0, _d(M=1, L=-1, T=-2)),
    'W': ('watt', 'power', 1.0, _d(M=1, L=2, T=-3)),
    'C': ('coulomb', 'charge', 1.0, _d(I=1, T=1)),
    'statC': ('statcoulomb', 'charge', 1.0 / (10 * C_SI), _d(I=1, T=1)),
    'e': ('fundamental charge', 'charge', 1.6022e-19, _d(I=1, T=1)),
    'statA': ('statampere', 'current', 1.0 / (10 * C_SI), _d(I=1)),
    'V': ('volt', 'potential', 1.0, _d(M=1, L=2, T=-3, I=-1)),
    'statV': ('statvolt', 'potential', C_SI * 1e-6, _d(M=1, L=2, T=-3, I=-1)),
    'S': ('seimens', 'conductance', 1.0, _d(M=-1, L=-2, T=3, I=2)),
    'F': ('farad', 'capacitance', 1.0, _d(M=-1, L=-2, T=4, I=2)),
    'Wb': ('weber', 'magnetic flux', 1.0, _d(M=1, L=2, T=-2, I=-1)),
    'Mx': ('maxwell', 'magnetic flux', 1e-8, _d(M=1, L=2, T=-2, I=-1)),
    'H': ('henry', 'inductance', 1.0, _d(M=1, L=2, T=-2, I=-2)),
    'T': ('tesla', 'induction', 1.0, _d(M=1, T=-2, I=-1)),
    'G': ('gauss', 'induction', 1e-4, _d(M=1, T=-2, I=-1)),
    'Oe': ('Oersted', 'magnetic intensity', 1e3 / (4 * PI), _d(I=1, L=-1)),
    'ohm': ('ohm', 'resistance', 1.0, _d(M=1, L=2, T=-3, I=-2)),
    'Bq': ('becquerel', 'radioactivity', 1.0, _d(T=-1)),
    'Ci': ('Curie', 'radioactivity', 3.7e10, _d(T=-1)),
    'Gy': ('gray', 'dosage', 1.0, _d(L=2, T=-2)),
    'P': ('poise', 'viscosity', 0.1, _d(M=1, L=-1, T=-1)),
    'lm': ('lumen', 'luminous flux', 1.0, _d(J=1)),
    'lx': ('lux', 'illuminance', 1.0, _d(J=1, L=-2)),
}


def spellings(prefix, symbol):
    """All documented ways to write a prefixed unit."""
    pname, _ = PREFIX[prefix]
    uname = UNITS[symbol][0]
    out = [prefix + symbol, pname + uname]
    if prefix == 'μ':
        out.append('u' + symbol)
    return out


def factor(prefix, symbol):
    return float(Fraction(10) ** PREFIX[prefix][1]) * UNITS[symbol][2]


def dimension(symbol):
    return UNITS[symbol][3]


def compound(terms):
    """(factor, dimension) of [(prefix, symbol, exponent), ...]."""
    f = 1.0
    dim = [Fraction(0)] * 7
    for prefix, symbol, exp in terms:
        f *= factor(prefix, symbol) ** float(exp)
        for i, x in enumerate(dimension(symbol)):
            dim[i] += Fraction(x) * Fraction(exp)
    return f, tuple(dim)


# Spellings whose text is also another prefixed unit; the package resolves each
# to one of the readings, so only unambiguous spellings are judged.
def _ambiguous():
    seen = {}
    for s in UNITS:
        for p in PREFIX:
            for k in spellings(p, s):
                seen.setdefault(k, set()).add((p, s))
    return {k for k, v in seen.items() if len(v) > 1}


AMBIGUOUS = _ambiguous()
