"""P25: dataset axes and variables map requests onto the file's grid."""
import numpy

from goats import eprem
from goats.core import datafile, metric
from harness import epdata, epref
from harness.epcase import Case

RULE = ("For each axis of a dataset, whatever the metric system: asking for nothing gives every index and the file's grid in "
        "the axis's unit; asking for indices gives those indices and the grid values there; asking for values, in any unit, "
        "gives the nearest grid points and the values asked for, in that axis's unit; the energy axis answers for the species "
        "named; giving the axis another unit changes the numbers and not the indices; unknown species, incompatible units and "
        "unknown axes are refused; axis names are put in the file's order; variables have the file's values in the system's "
        "unit under every name.")
ASSUMPTIONS = ("Datasets with the layout of EPREM's stream and point observers: 3-5 times, 3-6 shells, 4-6 energies, 2-4 pitch "
               "angles, 1-3 species, with energies common to all species, one grid per species, or a one-dimensional grid. "
               "Values within 1e-3 of the midpoint of two grid points are not asked for.")
MUST_SEE = ('oracle:full', 'oracle:index', 'oracle:value', 'oracle:species', 'oracle:energy-species', 'oracle:unit', 'oracle:reference',
            'oracle:resolve', 'oracle:variable', 'oracle:variable-unit', 'oracle:refused', 'oracle:names', 'oracle:stable')

SI = {'time': 's', 'shell': '1', 'energy': 'J', 'mu': '1', 'species': None}
CGS = {**SI, 'energy': 'erg'}


def dataset(rng):
    """A dataset with any kind of energy grid."""
    u = rng.random()
    kw = {}
    if u < 0.5:
        kw = dict(species=rng.choice([2, 3]), own_grids=True, egrid1d=False)
    elif u < 0.65:
        kw = dict(egrid1d=True)
    return Case(rng, **kw)


def clear(grid, t):
    """Is the nearest point of the grid beyond doubt?"""
    d = sorted(abs(g - t) for g in grid)
    return len(d) < 2 or d[1] - d[0] > 1e-3 * abs(max(grid) - min(grid)) / len(grid) ** 2 + 1e-9 * abs(t)


def near(grid, t):
    return min(range(len(grid)), key=lambda k: abs(grid[k] - t))


def load(rng, c, system):
    data = datafile.Interface(c.data.path)
    arg = system if system is None or rng.random() < 0.5 else metric.System(system)
    return eprem.Axes(data, system=arg), eprem.Variables(data, system=arg)


def grid_of(c, name, row=0):
    """The axis's grid in SI units."""
    return [float(g) for g in (c.ref.grid('egrid')[row] if name == 'energy' else c.ref.s(name))]


def index(mon, rng, i):
    """Every way of asking an axis for indices."""
    with dataset(rng) as c:
        system = rng.choice(['mks', 'cgs', None])
        axes, _ = load(rng, c, system)
        native = CGS if system == 'cgs' else SI
        mon.sample(f'{c.what} {system}')
        asked = []
        for _ in range(rng.randint(6, 12)):
            name = rng.choice(epref.AXES)
            called = rng.choice(epref.AXIS_NAMES.get(name, (name,)))
            what = f'{c.what} system={system} axes[{called!r}]'
            this = axes[called]
            n = c.data.sizes[name]
            row, kw = 0, {}
            if name == 'energy' and rng.random() < 0.8:
                row = rng.randrange(c.data.sizes['species'])
                kw = {'species': rng.choice([row, c.data.symbols[row]])}
                what += f' {kw}'
            if name == 'species':
                one_species(mon, rng, c, this, what)
                continue
            mon.expect(this.unit == native[name], 'unit', what, f'| {this.unit}')
            f = epref.UNITS.get(name, {}).get(native[name], 1.0)
            unit = native[name]
            before = this, unit, [g / f for g in grid_of(c, name, row)]
            if rng.random() < 0.4 and name in ('time', 'energy'):
                unit, f = rng.choice(sorted(epref.UNITS[name].items()))
                if rng.random() < 0.3:
                    system2 = rng.choice(['mks', 'cgs', 'MKS', 'CGS'])
                    this = this[system2]
                    unit = (CGS if system2.lower() == 'cgs' else SI)[name]
                    f = epref.UNITS[name][unit]
                    what += f'[{system2!r}]'
                else:
                    this = this[unit if rng.random() < 0.5 else metric.Unit(unit)]
                    what += f'[{unit!r}]'
                mon.expect(this.unit == unit, 'unit', what, f'| {this.unit}')
                # the axis itself keeps its unit
                mon.expect(before[0].unit == before[1], 'unit', what, f'changed the unit of the axis to {before[0].unit}')
                mon.close([float(v) for v in before[0].index(**kw).values], before[2], 'unit', what, 'changed the axis', rtol=1e-9)
            grid = [g / f for g in grid_of(c, name, row)]
            asked.append((this, name, unit, grid, kw, what))
            one(mon, rng, this, name, unit, f, grid, kw, n, what)
        # earlier answers do not depend on later questions
        for this, name, unit, grid, kw, what in asked:
            got = this.index(**kw)
            mon.equal(list(got), list(range(len(grid))), 'stable', what, 'all indices, again')
            mon.close([float(v) for v in got.values], grid, 'stable', what, 'all values, again', rtol=1e-9)


def one(mon, rng, this, name, unit, f, grid, kw, n, what):
    """One request of one axis."""
    u = rng.random()
    if u < 0.2:
        got = this.index(**kw)
        mon.event('full')
        mon.saw(what)
        mon.equal(list(got), list(range(n)), 'full', what, 'indices')
        mon.close([float(v) for v in got.values], grid, 'full', what, 'values', rtol=1e-9)
        mon.expect(got.unit == unit, 'full', what, f'| unit {got.unit}')
        if isinstance(got.values, numpy.ndarray) and got.values.flags.writeable and rng.random() < 0.5:
            got.values[...] = -7.0      # the caller's own copy
        if not kw:
            ref = this.reference
            mon.close(numpy.array(ref, dtype=float), grid, 'reference', what, rtol=1e-9)
            mon.expect(ref.unit == unit, 'reference', what, f'| unit {ref.unit}')
            if name in ('time', 'energy'):
                other, g = rng.choice(sorted(epref.UNITS[name].items()))
                ref = ref[other]
                mon.close(numpy.array(ref, dtype=float), [v * f / g for v in grid], 'reference', what, other, rtol=1e-9)
                mon.expect(ref.unit == other, 'reference', what, f'| unit {ref.unit}')
                mon.equal(list(ref[:]), list(range(n)), 'reference', what, 'points')
        return
    if u < 0.5 or name == 'shell':
        asked, want = epref.pick_indices(rng, n)
        args = (asked,) if isinstance(asked, (int, slice, range)) else tuple(asked)
        if not isinstance(asked, (slice, range)) and rng.random() < 0.3:
            args = tuple(numpy.int64(k) for k in args)
        got = this.index(*args, **kw)
        mon.event('index')
        mon.saw(what, args.__repr__())
        mon.equal(list(got), want, 'index', what, f'index{args}')
        mon.close([float(v) for v in got.values], [grid[k] for k in want], 'index', what, f'index{args}', rtol=1e-9)
        mon.equal(len(got), len(want), 'index', what, 'length')
        mon.equal(got[-1], want[-1], 'index', what, 'last')
        mon.expect(got.unit == unit, 'index', what, f'| unit {got.unit}')
        return
    vals = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(grid) if rng.random() < 0.3 else epref.offgrid(rng, grid)
        if t is not None and clear(grid, t):
            vals.append(float(t))
    if not vals:
        return
    want = [near(grid, t) for t in vals]
    form = rng.choice(['bare', 'unit', 'last', 'pairs']) if name in ('time', 'energy') else 'bare'
    unit2, g = rng.choice(sorted(epref.UNITS[name].items()))
    if form == 'bare':
        args, opts = vals, {}
        if rng.random() < 0.3:
            args = [numpy.float64(v) for v in vals]
    elif form == 'unit':
        args, opts = [v * f / g for v in vals], {'unit': unit2}
    elif form == 'last':
        args, opts = [*[v * f / g for v in vals], unit2], {}
    else:
        args, opts = [(v * f / g, unit2) for v in vals], {}
    got = this.index(*args, **opts, **kw)
    mon.event('value')
    mon.saw(what, name, form, tuple(want))
    ask = f'index({args}, {opts})'
    mon.equal(list(got), want, 'energy-species' if kw else 'value', what, ask)
    result = unit2 if form == 'unit' else unit
    scale = f / g if form == 'unit' else 1.0
    mon.close([float(v) for v in got.values], [v * scale for v in vals], 'value', what, ask, rtol=1e-9)
    mon.expect(got.unit == result, 'value', what, ask, f'| unit {got.unit}, want {result}')


def one_species(mon, rng, c, this, what):
    """Requests of the species axis."""
    syms = c.data.symbols
    mon.expect(this.unit is None, 'species', what, f'| unit {this.unit}')
    if rng.random() < 0.2:
        got, want, ask = this.index(), list(range(len(syms))), 'index()'
        mon.equal([str(s) for s in numpy.array(this.reference)], syms, 'reference', what)
    else:
        k, want = epref.pick_indices(rng, len(syms))
        args = (k,) if isinstance(k, (int, slice, range)) else tuple(k)
        if not isinstance(k, (slice, range)):
            args = tuple(rng.choice([a, syms[a]]) for a in args)
        got, ask = this.index(*args), f'index{args}'
    mon.event('species')
    mon.saw(what, ask)
    mon.equal(list(got), want, 'species', what, ask)
    mon.equal([str(s) for s in got.values], [syms[k] for k in want], 'species', what, ask)
    mon.expect(got.unit is None, 'species', what, f'| unit {got.unit}')


def refusals(mon, rng, i):
    """Requests that no axis can answer."""
    with dataset(rng) as c:
        axes, variables = load(rng, c, rng.choice(['mks', 'cgs']))
        other = rng.choice([s[0] for s in epdata.SPECIES if s[0] not in c.data.symbols] + ['Xx', 'h+', ''])
        mon.refuses(lambda: axes['species'].index(other), 'refused', c.what, f'species {other!r}')
        mon.refuses(lambda: axes['species'].index(c.data.sizes['species'] + rng.randint(0, 3)), 'refused', c.what, 'species index')
        mon.refuses(lambda: axes['energy'].index(species=other), 'refused', c.what, f'energies of {other!r}')
        for name, bad in (('time', ('m', 'J', 'kg s')), ('energy', ('s', 'm', 'J / s')), ('mu', ('s', 'J'))):
            unit = rng.choice(bad)
            mon.refuses(lambda: axes[name][unit], 'refused', c.what, f'axes[{name!r}][{unit!r}]')
            mon.refuses(lambda: axes[name].index(0.5, 0.25, unit), 'refused', c.what, f'axes[{name!r}].index in {unit}')
            mon.refuses(lambda: axes[name].index((0.5, unit)), 'refused', c.what, f'axes[{name!r}].index in {unit}')
            if name != 'mu':
                mon.refuses(lambda: axes[name].index(c.data.sizes[name] + rng.randint(0, 3)), 'refused', c.what,
                            f'axes[{name!r}] beyond the end')
        mon.refuses(lambda: axes['species']['m'], 'refused', c.what, "axes['species']['m']")
        name = rng.choice(['radius', 'Time', 'nothing', '', 'Br', 0])
        mon.refuses(lambda: axes[name], 'refused', c.what, f'axes[{name!r}]', errors=(KeyError,))
        name = rng.choice(['nothing', 'Radius', 'flow angle', 'B'])
        mon.refuses(lambda: variables[name], 'refused', c.what, f'variables[{name!r}]', errors=(KeyError,))


def resolve(mon, rng, i):
    """Axis names in the file's order."""
    with dataset(rng) as c:
        axes, _ = load(rng, c, 'mks')
        order = list(epref.AXES)
        mon.equal(sorted(set(axes.keys()) & set(order)), sorted(order), 'names', c.what)
        for name, names in epref.AXIS_NAMES.items():
            for k in names:
                mon.expect(k in axes, 'names', c.what, k)
                mon.close(numpy.array(axes[k].reference, dtype=float), numpy.array(axes[name].reference, dtype=float), 'names', c.what, k)
        mon.saw('resolve', c.what)
        for _ in range(20):
            some = rng.sample(order, rng.randint(0, 5))
            extra = rng.sample(['extra', 'minimum energy', 'other', 'T', 'tim'], rng.choice([0, 0, 1, 2, 3]))
            mixed = some + extra
            rng.shuffle(mixed)
            names = rng.choice([tuple, list])(mixed)
            sorted_ = tuple(n for n in order if n in some)
            left = tuple(n for n in mixed if n in extra)
            what = f'{c.what} resolve({names})'
            mon.equal(tuple(axes.resolve(names)), sorted_, 'resolve', what)
            mon.equal(tuple(axes.resolve(names, mode='strict')), sorted_, 'resolve', what, 'strict')
            mon.equal(tuple(axes.resolve(names, mode='append')), sorted_ + left, 'resolve', what, 'append')
            if extra:
                mon.refuses(lambda: axes.resolve(names, mode='other'), 'resolve', what, 'mode', errors=(ValueError,))


def variables(mon, rng, i):
    """The dataset's variables."""
    with dataset(rng) as c:
        system = rng.choice(['mks', 'cgs', 'mks', 'cgs', None])
        _, vs = load(rng, c, system)
        names = [n for n in c.data.si if n in epref.QUANTITIES]
        for name in rng.sample(names, min(len(names), rng.choice([8, 19]))):
            aliases, mks, cgs, k = epref.QUANTITIES[name]
            called = rng.choice((name, *aliases))
            what = f'{c.what} {system} variables[{called!r}]'
            v = vs[called]
            f, unit = (1.0, mks) if system == 'mks' else (k, cgs)
            want = c.data.si[name] * f
            if system is None:
                # as in the file
                want, unit = c.data.raw[name], {'julian date': 'day', 'shell': '1', 'cos(mu)': '1', 'e-': 'e',
                                                '# / cm^2 s sr MeV': '# / (cm^2 s sr MeV/nuc)'}.get(epdata.TABLE[name][1], epdata.TABLE[name][1])
            mon.event('variable')
            mon.saw(what)
            mon.equal(tuple(v.dimensions), tuple(c.data.dims[name]), 'variable', what, 'dimensions')
            mon.equal(tuple(v.shape), want.shape, 'variable', what, 'shape')
            mon.expect(v.unit == unit, 'variable', what, f'| unit {v.unit}, want {unit}')
            mon.close(numpy.array(v), want, 'variable', what, rtol=1e-5)
            sub = tuple(rng.choice([slice(None), rng.randrange(s), slice(0, rng.randint(1, s))]) for s in want.shape)
            if not all(isinstance(q, int) for q in sub):
                mon.close(numpy.squeeze(numpy.array(v[sub])), numpy.squeeze(want[sub]), 'variable', what, f'{sub}', rtol=1e-5)
            other = epref.other_unit(rng, name)
            if other:
                w = v[other[0]]
                mon.expect(w.unit == other[0], 'variable-unit', what, f'| unit {w.unit}, want {other[0]}')
                mon.close(numpy.array(w), c.data.si[name] * other[1], 'variable-unit', what, other[0], rtol=1e-5)
            # the variable itself stays what it was
            mon.close(numpy.array(vs[called]), want, 'stable', what, rtol=1e-5)
            mon.expect(vs[called].unit == unit, 'stable', what, f'| unit {vs[called].unit}')


SUBS = {
    'index': (index, 250, 4000),
    'refusals': (refusals, 24, 400),
    'resolve': (resolve, 16, 200),
    'variables': (variables, 100, 1500),
}
