"""The two metric systems describe the same physics."""
import math
from fractions import Fraction

from harness import siref, ugen
from harness.props import p05
from goats.core import fundamental, metric, physical, plasma

RULE = ('a distinct quantity, unit expression, constant or species compared between the '
        'two metric systems and with the independent reference')
ASSUMPTIONS = (
    'Constants are compared with CODATA to 5e-4 (the package rounds to five digits, and '
    'uses an older gravitational constant) and between systems to 2e-5.',
    'Vacuum permittivity and permeability are compared only within a system: their '
    'Gaussian counterparts are conventions.',
    'Displacement, magnetization, magnetic moment and magnetomotance differ by 4*pi '
    'conventions between systems; only their dimensions are judged.',
)
MUST_SEE = ('oracle:quantity-unit', 'oracle:quantity-factor', 'oracle:quantity-dimension',
            'oracle:norm', 'oracle:system-change', 'oracle:constant', 'oracle:species',
            'oracle:get-unit', 'oracle:same-dimension', 'oracle:dimensions', 'oracle:compound', 'oracle:system-mapping',
            'oracle:own-dimension')

# quantity: (mks text, cgs text, judged factor or None)
Q = {
    'acceleration': ('m s^-2', 'cm s^-2'), 'amount': ('mol', 'mol'), 'area': ('m^2', 'cm^2'),
    'capacitance': ('F', 'cm', siref.C_SI ** 2 * 1e-5),
    'charge': ('C', 'statC'), 'electric charge': ('C', 'statC'),
    'charge density': ('C m^-3', 'statC cm^-3'),
    'conductance': ('S', 'cm s^-1', siref.C_SI ** 2 * 1e-5),
    'current': ('A', 'statA'), 'current density': ('A m^-2', 'statA cm^-2'),
    'displacement': ('C m^-2', 'statC cm^-2', None),
    'dosage': ('Gy', 'erg g^-1'), 'electric field': ('V m^-1', 'statV cm^-1'),
    'electromotance': ('V', 'statV'), 'potential': ('V', 'statV'),
    'energy': ('J', 'erg'), 'work': ('J', 'erg'), 'energy density': ('J m^-3', 'erg cm^-3'),
    'fluence': ('J^-1 sr^-1 m^-2', 'erg^-1 sr^-1 cm^-2'),
    'particle fluence': ('J^-1 sr^-1 m^-2', 'erg^-1 sr^-1 cm^-2'),
    'flux': ('J^-1 s^-1 sr^-1 m^-2', 'erg^-1 s^-1 sr^-1 cm^-2'),
    'particle flux': ('J^-1 s^-1 sr^-1 m^-2', 'erg^-1 s^-1 sr^-1 cm^-2'),
    'integral flux': ('s^-1 sr^-1 m^-2', 's^-1 sr^-1 cm^-2'),
    'force': ('N', 'dyn'), 'frequency': ('Hz', 'Hz'), 'identity': ('1', '1'),
    'illuminance': ('cd sr m^-2', 'cd sr cm^-2'),
    'inductance': ('H', 's^2 cm^-1', 1e5 / siref.C_SI ** 2),
    'induction': ('T', 'G'), 'magnetic field': ('T', 'G'), 'magnetic induction': ('T', 'G'),
    'length': ('m', 'cm'), 'luminous flux': ('cd sr', 'cd sr'), 'luminous intensity': ('cd', 'cd'),
    'magnetic flux': ('Wb', 'Mx'), 'magnetic intensity': ('A m^-1', 'Oe'),
    'magnetomotance': ('A', 'statA', None),
    'mass': ('kg', 'g'), 'mass density': ('kg m^-3', 'g cm^-3'), 'mass number': ('1', '1'),
    'momentum': ('kg m s^-1', 'g cm s^-1'), 'momentum density': ('kg m^-2 s^-1', 'g cm^-2 s^-1'),
    'number': ('1', '1'), 'number density': ('m^-3', 'cm^-3'),
    'particle distribution': ('s^3 m^-6', 's^3 cm^-6'),
    'permeability': ('H m^-1', '1', 1e7 / (4 * math.pi)),
    'permittivity': ('F m^-1', '1', None),
    'plane angle': ('rad', 'rad'), 'polarization': ('C m^-2', 'statC cm^-2'),
    'power': ('W', 'erg s^-1'), 'power density': ('W m^-3', 'erg s^-1 cm^-3'),
    'pressure': ('Pa', 'dyn cm^-2'), 'radioactivity': ('Bq', 'Ci'), 'ratio': ('1', '1'),
    'temperature': ('K', 'K'), 'thermal conductivity': ('W m^-1 K^-1', 'erg cm^-1 s^-1 K^-1'),
    'time': ('s', 's'), 'solid angle': ('sr', 'sr'), 'speed': ('m s^-1', 'cm s^-1'),
    'vector potential': ('Wb m^-1', 'G cm'), 'velocity': ('m s^-1', 'cm s^-1'),
    'viscosity': ('kg m^-1 s^-1', 'P'), 'volume': ('m^3', 'cm^3'), 'vorticity': ('Hz', 'Hz'),
    'wavenumber': ('m^-1', 'cm^-1'),
}
NAMES = sorted(Q)
GAUSS_DIM = {   # (M, L, T) in Gaussian units
    'capacitance': (0, 1, 0), 'charge': ('1/2', '3/2', -1), 'electric charge': ('1/2', '3/2', -1),
    'charge density': ('1/2', '-3/2', -1), 'conductance': (0, 1, -1), 'current': ('1/2', '3/2', -2),
    'current density': ('1/2', '-1/2', -2), 'displacement': ('1/2', '-1/2', -1),
    'electric field': ('1/2', '-1/2', -1), 'electromotance': ('1/2', '1/2', -1),
    'potential': ('1/2', '1/2', -1), 'inductance': (0, -1, 2), 'induction': ('1/2', '-1/2', -1),
    'magnetic field': ('1/2', '-1/2', -1), 'magnetic induction': ('1/2', '-1/2', -1),
    'magnetic flux': ('1/2', '3/2', -1), 'magnetic intensity': ('1/2', '-1/2', -1),
    'magnetomotance': ('1/2', '3/2', -2), 'permeability': (0, 0, 0), 'permittivity': (0, 0, 0),
    'polarization': ('1/2', '-1/2', -1), 'vector potential': ('1/2', '1/2', -1),
}
DIMS = 'M L T I H N J'.split()


def read_dim(text):
    """Our own reading of a plain dimension text such as 'L^3/2 M^1/2 T^-1'."""
    out = {}
    for tok in str(text).split():
        k, _, e = tok.partition('^')
        if k != '1':
            out[k] = out.get(k, 0) + Fraction(e or 1)
    return {k: v for k, v in out.items() if v}


def si_dim(ts):
    return {n: x for n, x in zip(DIMS, ugen.meaning(ts)[1]) if x}


def quantity(mon, rng, i):
    name = NAMES[i % len(NAMES)]
    mks, cgs, *special = Q[name]
    order = ['mks', 'cgs']
    rng.shuffle(order)
    for system in order:
        want = mks if system == 'mks' else cgs
        w = ugen.parse(want)
        spelled = rng.choice([name, name.title(), metric.Quantity(name)])
        sname = rng.choice([system, system.upper()])
        for p in (metric.System(sname)[spelled], metric.Quantity(name)[sname]):
            g = ugen.parse(p.unit)
            mon.saw(name, system)
            mon.expect(g is not None and p05.same(p05.size(g), p05.size(w)), 'quantity-unit',
                       f'{name} in {system}: {p.unit}, want {want}')
            dims = si_dim(w)
            if system == 'cgs' and name in GAUSS_DIM:
                dims = {k: Fraction(x) for k, x in zip('MLT', GAUSS_DIM[name]) if Fraction(x)}
            mon.equal(read_dim(p.dimension), dims, 'quantity-dimension', f'{name} in {system}')
            declared = metric.Dimension(metric.Quantity(name).dimensions[system])
            mon.equal(read_dim(declared), dims, 'quantity-dimension', f'{name} declared in {system}')
    if special:
        factor = special[0]
    else:
        factor = ugen.meaning(ugen.parse(mks))[0] / ugen.meaning(ugen.parse(cgs))[0]
    if factor:
        q = metric.Quantity(name)
        for a, b in (('mks', 'cgs'), (mks, 'cgs'), ('mks', cgs)):
            got = q.convert(a).to(b)
            mon.close(got, factor, 'quantity-factor', f'{name}: {a} -> {b}')
            back = q.convert(b).to(a)
            mon.close(back, 1 / factor, 'quantity-factor', f'{name}: {b} -> {a}')
    mon.sample(f'{name}: {mks} / {cgs}')


NONEL = [s for s in ugen.ALL if s not in ugen.ELECTRIC and s not in ('ohm', '#', 'lm', 'lx', 'Bq', 'Ci')]
CANON = {}
for _name, _entry in Q.items():
    CANON[_name] = (_entry[0], _entry[1])


FRACTIONAL = [Fraction(1, 2), Fraction(3, 2), Fraction(-1, 2), Fraction(1, 3), 1, -1, 2]


def norm(mon, rng, i):
    """A unit's representation in a system has the system's own units."""
    powers = {'exponents': FRACTIONAL} if rng.random() < 0.3 else {}
    ts = ugen.terms(rng, NONEL, rng.choice([1, 2, 2, 3]), **powers)
    A = ugen.fmt(rng, ts)
    u = metric.Unit(A)
    for k, system in enumerate(('mks', 'cgs')):
        want = []
        for p, s, _, e in ts:
            for t in ugen.parse(CANON[siref.UNITS[s][1]][k]):
                want.append(t[:3] + (t[3] * e,))
        wsize = p05.size(want)
        n = u.norm[system]
        g = ugen.parse(n)
        mon.saw(A, system)
        mon.expect(g is not None and p05.same(p05.size(g), wsize), 'norm',
                   f'{A} in {system}: {n}, want size {wsize}')
        got = metric.System(system).get_unit(unit=A)
        mon.expect(got == n, 'norm', f'{A} in {system}: get_unit {got}, norm {n}')
        # idempotent
        mon.expect(n.norm[system] == n, 'norm', f'norm of norm of {A} in {system}')


def change(mon, rng, i):
    """A value expressed in a system is the same physical value."""
    ts = ugen.terms(rng, [s for s in ugen.ALL if s not in ('ohm', 'lm', 'lx', '#')], 1,
                    exponents=[1, 1, 1, 2, -1])
    A = ugen.fmt(rng, ts)
    p, s, _, e = ts[0]
    k = rng.randrange(2)
    system = ('mks', 'cgs')[k]
    target = CANON[siref.UNITS[s][1]][k]
    tsize = 1.0
    for q, t, _, x in ugen.parse(target):
        tsize *= siref.factor(q, t) ** float(x * e)
    if s in ('F', 'S', 'H') and k == 1:
        tsize = (1 / Q[siref.UNITS[s][1]][2]) ** float(e)
    x = rng.uniform(0.1, 9)
    fsize = siref.factor(p, s) ** float(e)
    scalar = physical.Scalar(x, unit=A)
    try:
        got = scalar[system]
    except (ValueError, metric.UnitConversionError):
        # compound counterparts raised to powers are not all offered
        if len(ugen.parse(target)) == 1 or e == 1:
            raise
        mon.event('refused')
        return
    mon.saw(A, system)
    mon.close(float(got), x * fsize / tsize, 'system-change', f'{x} {A} in {system}: {got}')
    mon.expect(scalar.unit == metric.Unit(A) and float(scalar) == x, 'system-change', f'{A} changed in place')


def get_unit(mon, rng, i):
    system = metric.System(rng.choice(['mks', 'cgs']))
    name = rng.choice(NAMES)
    got = system.get_unit(quantity=name)
    mon.saw(name, system.name)
    mon.expect(got == system[name].unit, 'get-unit', f'{name} in {system}: {got}')
    dim = system[name].dimension
    found = system.get_unit(dimension=dim)
    mon.expect(found.dimensions[system.name] == dim, 'get-unit',
               f'unit for dimension {dim} in {system}: {found}')
    mon.refuses(lambda: system.get_unit(dimension='L^17 T^5'), 'get-unit', 'absurd dimension',
                errors=metric.SearchError)
    # a unit prevails over a dimension, and that over a quantity; what is missing is passed over
    given = {'unit': rng.choice(NAMES), 'dimension': rng.choice(NAMES), 'quantity': rng.choice(NAMES)}
    args = {'unit': str(system[given['unit']].unit), 'dimension': str(system[given['dimension']].dimension),
            'quantity': given['quantity']}
    order = [k for k in ('unit', 'dimension', 'quantity') if rng.random() < 0.7] or ['quantity']
    keys = rng.sample(order, len(order))
    both = system.get_unit(**{k: args[k] for k in keys})
    alone = system.get_unit(**{order[0]: args[order[0]]})
    mon.expect(both == alone and str(both) == str(alone), 'get-unit', f'{keys} {args} in {system}: {both}, want {alone}')
    for k in ('unit', 'dimension'):
        mon.equal(str(system.get_unit(**{k: '1'})), '1', 'get-unit', f"{k}='1' in {system}")


SYMBOLS = [s for s in siref.UNITS if s != 'ohm']


def own_dimension(mon, rng, i):
    """A unit that belongs to both systems, or to neither, has the dimension of its quantity in each."""
    s = SYMBOLS[i % len(SYMBOLS)]
    for p in rng.sample(sorted(siref.PREFIX), 4):
        k = ugen.spell(rng, p, s, True)
        if k is None:
            continue
        named, unit = metric.NamedUnit(k), metric.Unit(k)
        both = len(named.systems['allowed']) == 2
        for system in ('mks', 'cgs'):
            if not both and system not in named.systems['allowed']:
                continue
            want = dim_of(siref.UNITS[s][1], system)
            for what in (named, unit):
                mon.expect(read_dim(what.dimensions[system]) == want, 'own-dimension',
                           f'{k} in {system}: {what.dimensions[system]}, want {want}')
            mon.saw('own', k, system)


def dim_of(name, system):
    """The reference dimension of a quantity."""
    if system == 'cgs' and name in GAUSS_DIM:
        return {k: Fraction(x) for k, x in zip('MLT', GAUSS_DIM[name]) if Fraction(x)}
    return si_dim(ugen.parse(Q[name][system == 'cgs']))


def dim_text(rng, dims):
    items = list(dims.items())
    rng.shuffle(items)
    return ' '.join(f'{k}^{v}' if v != 1 else k for k, v in items) or '1'


def interface(mon, rng, i):
    """Quantities, dimensions and systems as objects."""
    # quantities of the same dimension
    a = NAMES[i % len(NAMES)]
    for b in rng.sample(NAMES, 6) + [n for n in NAMES if dim_of(n, 'mks') == dim_of(a, 'mks')]:
        same = all(dim_of(a, s) == dim_of(b, s) for s in ('mks', 'cgs'))
        x, y = metric.Quantity(a), metric.Quantity(rng.choice([b, b.upper()]))
        mon.saw('quantities', a, b)
        mon.expect((x | y) is same and (y | x) is same, 'same-dimension', a, b, x | y)
        mon.expect((x == y) is (a == b) and (x == b) is (a == b) and (x == b.title()) is (a == b), 'same-dimension', a, '==', b)
    order = ['mks', 'cgs']
    rng.shuffle(order)
    for system in order:
        dims = dim_of(a, system)
        want = {n for n in NAMES if dim_of(n, system) == dims}
        text = dim_text(rng, dims)
        for d in (metric.System(system)[a].dimension, metric.Dimension(text)):
            for _ in range(2):
                got = d.quantities(system)
                mon.expect(set(got) & set(NAMES) == want and not (set(got) - set(metric.System(system))), 'same-dimension',
                           f'quantities of {d} in {system}: {sorted(got)}, want {sorted(want)}')
        other = rng.choice(NAMES)
        p, q = metric.System(system)[a], metric.System(system)[other]
        mon.expect((p == q) is (p.unit == q.unit and dims == dim_of(other, system)), 'same-dimension', 'properties', a, other, system)
        mon.expect(p == metric.Quantity(a)[system] and p != 5, 'same-dimension', 'properties', a, system)
    # collections of dimensions
    given = {s: dim_of(rng.choice(NAMES), s) for s in rng.sample(['mks', 'cgs'], rng.randint(0, 2))}
    common = dim_of(rng.choice(NAMES), 'mks') if rng.random() < 0.7 or not given else None
    kwds = {s: rng.choice([str, metric.Dimension])(dim_text(rng, d)) for s, d in given.items()}
    built = metric.Dimensions(rng.choice([str, metric.Dimension])(dim_text(rng, common)), **kwds) if common is not None else metric.Dimensions(**kwds)
    mon.equal(sorted(built), ['cgs', 'mks'], 'dimensions', given, common)
    mon.equal(len(built), 2, 'dimensions', given, common)
    for s in ('mks', 'cgs'):
        want = given.get(s, common)
        for k in (s, s.upper()):
            got = built[k]
            mon.expect((got is None) if want is None else (got is not None and read_dim(got) == want), 'dimensions',
                       f'{kwds} and {common} in {k}: {got}, want {want}')
    mon.refuses(metric.Dimensions, 'dimensions', 'nothing', errors=TypeError)
    mon.refuses(lambda: built['imperial'], 'dimensions', 'unknown system', errors=KeyError)
    # systems
    name = rng.choice(['mks', 'cgs', 'MKS', 'Cgs'])
    system = metric.System(name)
    mon.expect(system == metric.System(name.lower()) and metric.System(system) == system, 'system-mapping', name)
    mon.expect(not system == metric.System('mks' if name.lower() == 'cgs' else 'cgs') and bool(system), 'system-mapping', name)
    keys = list(system)
    mon.expect(len(keys) == len(set(keys)) == len(system) and set(NAMES) <= set(keys), 'system-mapping', name, 'keys')
    mon.expect(a in system and 'no such quantity' not in system, 'system-mapping', name, a)
    mon.equal(str(system), name.lower(), 'system-mapping', name)
    if i % 16 == 0:
        mon.expect(dict(system.items()).keys() == set(keys) and len(list(system.values())) == len(keys), 'system-mapping', name, 'items')
        mon.refuses(lambda: system['no such quantity'], 'system-mapping', name)
        mon.refuses(lambda: metric.System('imperial'), 'system-mapping', 'unknown system')
        mon.refuses(lambda: metric.Quantity('no such quantity'), 'system-mapping', 'unknown quantity')
        mon.refuses(lambda: metric.Quantity(a)['imperial'], 'system-mapping', 'unknown system', errors=metric.QuantityError)


def compound(mon, rng, i):
    """Products and powers of quantities have the products and powers of their units."""
    k = rng.choice([1, 2, 2, 3, 3, 4])
    parts = [(rng.choice(NAMES), rng.choice([1, 1, 1, 2, 3, -1, -2])) for _ in range(k)]
    net = {}
    for name, e in parts:
        net[name] = net.get(name, 0) + e
    if not any(net.values()):
        return      # nothing is left, and nothing is promised
    text = ''
    for j, (name, e) in enumerate(parts):
        power = f'^{abs(e)}' if abs(e) != 1 else ''
        if j:
            text += ' * ' if e > 0 else rng.choice([' / ', '/'])
        elif e < 0:
            text += rng.choice(['1 / ', '1/'])
        text += rng.choice([name, name.title()]) + power
        if j and e < 0:
            text = f'({text})'
    order = ['mks', 'cgs']
    rng.shuffle(order)
    mon.saw(text)
    for system in order:
        want = []
        dims = {}
        for name, e in parts:
            want += [t[:3] + (t[3] * e,) for t in ugen.parse(Q[name][system == 'cgs'])]
            for d, x in dim_of(name, system).items():
                dims[d] = dims.get(d, 0) + x * e
        dims = {d: x for d, x in dims.items() if x}
        q = metric.Quantity(text)
        for p in (q[system], metric.System(system)[rng.choice([text, q])]):
            g = ugen.parse(p.unit)
            mon.expect(g is not None and p05.same(p05.size(g), p05.size(want)), 'compound',
                       f'{text} in {system}: {p.unit}')
            mon.equal(read_dim(p.dimension), dims, 'compound', f'dimension of {text} in {system}')
    mon.refuses(lambda: metric.Quantity(text + ' * cats')['mks'], 'compound', text + ' * cats', errors=KeyError)


CODATA = {   # SI values
    'pi': math.pi, 'k': 1.380649e-23, 'e': 1.602176634e-19, 'me': 9.1093837e-31, 'mp': 1.67262192e-27,
    'G': 6.6743e-11, 'g': 9.80665, 'h': 6.62607015e-34, 'c': 299792458.0, 'epsilon0': 8.8541878e-12,
    'mu0': 1.25663706e-6, 'Rinfinity': 10973731.568, 'a0': 5.29177211e-11, 're': 2.81794033e-15,
    'alpha': 7.29735257e-3, 'c1': 3.74177185e-16, 'c2': 1.438776877e-2, 'sigma': 5.670374e-8,
    'eV': 1.602176634e-19, 'amu': 1.66053907e-27, 'au': 149597870700.0, 'H+': 13.6 * 1.602176634e-19,
}
CNAMES = sorted(CODATA)


def constant(mon, rng, i):
    name = CNAMES[i % len(CNAMES)]
    mks = physical.Constants(rng.choice(['mks', 'MKS']))[name]
    cgs = physical.Constants('cgs')[name]
    mon.saw(name)
    got = float(mks)
    mon.close(got, CODATA[name], 'constant', f'{name} in mks', rtol=5e-4)
    if name in ('epsilon0', 'mu0'):
        mon.close(float(cgs), 1.0, 'constant', f'{name} in cgs')
        return
    same = cgs[str(mks.unit)]
    mon.close(float(same), got, 'constant', f'{name}: {cgs} against {mks}', rtol=2e-5)
    other = mks[str(cgs.unit)]
    mon.close(float(other), float(cgs), 'constant', f'{name}: {mks} against {cgs}', rtol=2e-5)
    ts = ugen.parse(mks.unit)
    mon.expect(ts is not None, 'constant', f'{name} unit {mks.unit}')
    for system in ('mks', 'cgs'):
        unknown = rng.choice(['Q', 'planck', 'kb', ''])
        mon.refuses(lambda: physical.Constants(system)[unknown], 'constant', unknown, errors=KeyError)


def relations(mon, rng, i):
    """Constants satisfy the relations that define them, in each system."""
    for system in ('mks', 'cgs'):
        K = physical.Constants(system)
        v = {n: float(K[n]) for n in K}
        mon.close(v['c1'], 2 * math.pi * v['h'] * v['c'] ** 2, 'constant', f'c1 in {system}', rtol=2e-4)
        mon.close(v['c2'], v['h'] * v['c'] / v['k'], 'constant', f'c2 in {system}', rtol=2e-4)
        mon.close(v['sigma'], 2 * math.pi ** 5 * v['k'] ** 4 / (15 * v['h'] ** 3 * v['c'] ** 2),
                  'constant', f'sigma in {system}', rtol=1e-3)
        mon.close(v['alpha'], math.sqrt(v['re'] / v['a0']), 'constant', f'alpha in {system}', rtol=2e-4)
        mon.equal(len(v), len(K), 'constant', 'number of constants')
        mon.equal(sorted(v), CNAMES, 'constant', 'names of constants')


def species(mon, rng, i):
    table = list(fundamental.ELEMENTS)
    el = table[i % len(table)]
    q = rng.choice([-3, -2, -1, 1, 2, 3, 4, 6])
    sign = ('+' if q > 0 else '-') * abs(q)
    sp = plasma.Species(el['symbol'] + sign)
    mon.saw(el['symbol'], q)
    mon.equal(sp.symbol, el['symbol'] + sign, 'species', 'symbol')
    mon.close(float(sp.mass), el['mass'], 'species', f'mass of {sp.symbol}')
    mon.close(float(sp.charge), q, 'species', f'charge of {sp.symbol}')
    mon.close(float(sp.mass['kg']), el['mass'] * 1.6605e-27, 'species', f'mass of {sp.symbol} in kg')
    mon.close(float(sp.charge['C']), q * 1.6022e-19, 'species', f'charge of {sp.symbol} in C')
    mon.expect(sp.m is sp.mass and sp.q is sp.charge, 'species', 'aliases')
    n = round(el['mass'])
    first = next(e['symbol'] for e in table if round(e['mass']) == n)
    mon.equal(fundamental.elements(n, q), [first + sign], 'species', f'element with mass {n}')
    m2 = rng.choice(table)
    f2 = next(e['symbol'] for e in table if round(e['mass']) == round(m2['mass']))
    mon.equal(fundamental.elements([n, round(m2['mass'])], [q, 1]), [first + sign, f2 + '+'],
              'species', 'two elements')
    mon.equal(plasma.Species(mass=n, charge=q).symbol, first + sign, 'species', 'from mass and charge')
    mon.refuses(lambda: fundamental.elements([n], [q, q]), 'species', 'lengths differ', errors=TypeError)
    missing = next(x for x in range(300, 999) if x)
    mon.refuses(lambda: fundamental.elements([missing], [1]), 'species', 'no such mass',
                errors=fundamental.MassValueError)


SUBS = {
    'quantity': (quantity, 3 * len(NAMES), 10 * len(NAMES)),
    'norm': (norm, 2000, 40000),
    'change': (change, 2000, 40000),
    'get_unit': (get_unit, 300, 2000),
    'own_dimension': (own_dimension, len(SYMBOLS), 6 * len(SYMBOLS)),
    'interface': (interface, 2 * len(NAMES), 20 * len(NAMES)),
    'compound': (compound, 400, 8000),
    'constant': (constant, 2 * len(CNAMES), 4 * len(CNAMES)),
    'relations': (relations, 8, 8),
    'species': (species, 212, 1060),
}
