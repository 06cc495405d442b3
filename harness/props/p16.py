"""Observations at grid points are the data on disk."""
import numpy

from harness import epcase, epref
from harness.epcase import Case, alias, axis_ok, judge, show

RULE = ('a distinct (quantity, constraint form per axis, shape, metric system, observer kind) whose values, unit, '
        'dimensions and axis values were compared with the file as written')
ASSUMPTIONS = (
    'The datasets are synthetic: they have the layout, names and units of EPREM output, with random values.',
    'Where species have their own energy grids, energies are constrained by index, and the reported energy axis is not judged.',
)
MUST_SEE = ('oracle:values', 'oracle:axes', 'oracle:reference', 'oracle:converted', 'oracle:aliases',
            'oracle:observables', 'oracle:refuse', 'oracle:backward', 'oracle:species')


def ondisk(c):
    names = [n for n in epref.ONDISK]
    names += ['flux'] if 'flux' in c.data.si else ['Dist', 'Dist']
    return names


def forms(kw):
    return tuple(sorted((k, type(v).__name__, len(v) if hasattr(v, '__len__') else 0) for k, v in kw.items()))


def observe(mon, rng, i):
    with Case(rng, own_grids=rng.random() < 0.3) as c:
        o = c.observer()
        for _ in range(6):
            name = rng.choice(ondisk(c))
            full, dims = c.ref.get(name)
            kw, cons = epref.constraints(rng, c.ref, dims, c.system, values=False, radius=False)
            kw = epref.renamed(rng, kw)
            used = alias(rng, name)
            what = f'{c.what}: {used}.observe({show(kw)})'
            obs = o[used].observe(**kw)
            x, dims = c.ref.observe(name, cons)
            judge(mon, obs, x, dims, name, c.system, 'values', what, rtol=1e-9)
            axis_ok(mon, obs, c.ref, cons, c.system, 'axes', what)
            mon.saw(name, forms(kw), x.shape, c.system, c.kind)
            mon.sample(what)


def by_value(mon, rng, i):
    """Values that are grid values select the same elements as their indices."""
    with Case(rng) as c:
        o = c.observer()
        for _ in range(4):
            name = rng.choice(ondisk(c))
            full, dims = c.ref.get(name)
            kw, cons = {}, {}
            for d in ('time', 'energy', 'mu'):
                if d in dims and rng.random() < 0.7:
                    grid = c.ref.axis(d)
                    idx = [rng.randrange(len(grid)) for _ in range(rng.choice([1, 1, 2, 3]))]
                    vals = [float(grid[k]) for k in idx]
                    if d == 'mu':
                        kw[d] = vals
                    else:
                        unit, f = rng.choice(sorted(epref.UNITS[d].items()))
                        kw[d] = (*[v / f for v in vals], unit)
                    cons[d] = ('index', idx)
            kw = epref.renamed(rng, kw)
            used = alias(rng, name)
            what = f'{c.what}: {used}.observe({show(kw)})'
            obs = o[used].observe(**kw)
            x, dims = c.ref.observe(name, cons)
            judge(mon, obs, x, dims, name, c.system, 'values', what, rtol=1e-9)
            axis_ok(mon, obs, c.ref, cons, c.system, 'axes', what)
            mon.saw('value', name, forms(kw), x.shape, c.system)


def species(mon, rng, i):
    """Species are selected by symbol or by position."""
    with Case(rng, species=rng.choice([2, 3, 4])) as c:
        o = c.observer()
        mon.equal([str(s) for s in numpy.array(o.species)], c.data.symbols, 'species', c.what, 'symbols')
        n = len(c.data.symbols)
        name = 'flux' if 'flux' in c.data.si else 'Dist'
        for k in range(n):
            want, dims = c.ref.observe(name, {'species': ('index', [k])})
            for user in (k, c.data.symbols[k], [k], [c.data.symbols[k]]):
                what = f'{c.what}: {name}.observe(species={user!r})'
                obs = o[name].observe(species=user)
                judge(mon, obs, want, dims, name, c.system, 'species', what, rtol=1e-9)
                mon.equal([str(s) for s in numpy.array(obs['species'])], [c.data.symbols[k]], 'species', what)
        order = list(range(n))
        rng.shuffle(order)
        user = [rng.choice([k, c.data.symbols[k]]) for k in order]
        what = f'{c.what}: {name}.observe(species={user!r})'
        obs = o[name].observe(species=user)
        want, dims = c.ref.observe(name, {'species': ('index', order)})
        judge(mon, obs, want, dims, name, c.system, 'species', what, rtol=1e-9)
        mon.refuses(lambda: o[name].observe(species='Xx+'), 'refuse', what, 'unknown species')
        mon.refuses(lambda: o[name].observe(species=n), 'refuse', what, 'species out of range')
        mon.saw(n, tuple(user), c.what)


def reference(mon, rng, i):
    """The axes and coordinates of the observer itself."""
    with Case(rng) as c:
        o = c.observer()
        f = 1e7 if c.system == 'cgs' else 1.0
        want = {'time': c.ref.s('time'), 'energy': c.ref.axis('energy') * f, 'mu': c.ref.s('mu'),
                'shell': numpy.arange(c.data.sizes['shell'], dtype=float)}
        for d, x in want.items():
            axis = getattr(o, d)
            mon.close(numpy.array(axis), x, 'reference', c.what, d, rtol=1e-9)
            mon.equal(len(axis), len(x), 'reference', c.what, d, 'length')
            if d in epref.AXIS_UNITS:
                unit, g = rng.choice(sorted(epref.AXIS_UNITS[d].items()))
                new = axis[unit]
                si = x / f if d == 'energy' else x
                mon.close(numpy.array(new), si * g, 'reference', c.what, d, unit, rtol=1e-9)
                mon.expect(new.unit == unit, 'reference', c.what, d, f'| unit {new.unit}, want {unit}')
                mon.close(numpy.array(axis), x, 'reference', c.what, d, 'kept', rtol=1e-9)
                mon.refuses(lambda: axis['kg'], 'refuse', c.what, d, 'in kg')
        mon.equal([str(s) for s in numpy.array(o.species)], c.data.symbols, 'reference', c.what, 'species')
        mon.refuses(lambda: o.species['m'], 'refuse', c.what, 'unit of species')
        g = 1e2 if c.system == 'cgs' else 1.0
        mon.close(numpy.array(o.radius), c.ref.s('R') * g, 'reference', c.what, 'radius', rtol=1e-9)
        mon.close(numpy.array(o.theta), c.ref.s('T'), 'reference', c.what, 'theta', rtol=1e-9)
        mon.close(numpy.array(o.phi), c.ref.s('P'), 'reference', c.what, 'phi', rtol=1e-9)
        q = o['phiOffset']
        mon.close(numpy.array(q), c.ref.s('phiOffset'), 'reference', c.what, 'phiOffset', rtol=1e-9)
        mon.close(float(numpy.array(o['preEruption'])), 0.25 * 86400, 'reference', c.what, 'preEruption', rtol=1e-9)
        mon.saw('ref', c.what)


def converted(mon, rng, i):
    """Changing the unit before or after observing."""
    with Case(rng) as c:
        o = c.observer()
        for _ in range(4):
            name = rng.choice([n for n in ondisk(c) if epref.QUANTITIES[n][1] in epref.OTHER])
            unit, f = epref.other_unit(rng, name)
            full, dims = c.ref.get(name)
            kw, cons = epref.constraints(rng, c.ref, dims, c.system, values=False, radius=False)
            kw = epref.renamed(rng, kw)
            x, dims = c.ref.observe(name, cons)
            used = alias(rng, name)
            what = f'{c.what}: {used} in {unit}, {show(kw)}'
            q = o[used]
            default = str(q.unit)
            new = q[unit]
            mon.expect(new.unit == unit, 'converted', what, f'| observable unit {new.unit}')
            judge(mon, new.observe(**kw), x, dims, name, None, 'converted', what + ' before', rtol=1e-9, f=f, unit=unit)
            obs = q.observe(**kw)
            judge(mon, obs, x, dims, name, c.system, 'converted', what + ' default', rtol=1e-9)
            later = obs[unit]
            judge(mon, later, x, dims, name, None, 'converted', what + ' after', rtol=1e-9, f=f, unit=unit)
            axis_ok(mon, later, c.ref, cons, c.system, 'axes', what)
            judge(mon, obs, x, dims, name, c.system, 'converted', what + ' kept', rtol=1e-9)
            mon.equal(str(q.unit), default, 'converted', what, 'observable kept')
            wrong = rng.choice([u for u in ('kg', 'K', 'm', 's', 'J') if u not in ('kg',) or name != 'mass'])
            if epref.QUANTITIES[name][1] != wrong:
                mon.refuses(lambda: numpy.array(obs[wrong].data), 'refuse', what, 'in', wrong)
                mon.refuses(lambda: numpy.array(q[wrong].observe(**kw).data), 'refuse', what, 'observed in', wrong)
            mon.saw('converted', name, unit, c.system, forms(kw))


def aliases(mon, rng, i):
    """Every name of every quantity observes that quantity."""
    with Case(rng) as c:
        o = c.observer()
        names = [n for n in ondisk(c)]
        for name in sorted(set(names)):
            x, dims = c.ref.get(name)
            for a in (name, *epref.QUANTITIES[name][0]):
                mon.expect(o.observes(a), 'aliases', c.what, a, 'is not observable')
                judge(mon, o[a].observe(), x, dims, name, c.system, 'aliases', f'{c.what}: {a}', rtol=1e-9)
                mon.saw('alias', a, c.system)
        have = epref.available(c.data)
        for n in epref.QUANTITIES:
            groups = [set(g) for g in o.observables if n in g]
            if n in have:
                mon.expect(len(groups) == 1 and set(epref.QUANTITIES[n][0]) | {n} <= groups[0],
                           'observables', c.what, n, groups)
        for n in ('preEruption', 'phiOffset'):
            mon.expect(not o.observes(n), 'observables', c.what, n, 'must not be observable')
        mon.refuses(lambda: o['no such quantity'], 'refuse', c.what)


def outside(mon, rng, i):
    """Indices beyond the axis are refused."""
    with Case(rng) as c:
        o = c.observer()
        for d in ('time', 'shell', 'energy', 'mu'):
            name = 'flux' if 'flux' in c.data.si else 'Dist'
            if d not in c.ref.get(name)[1]:
                continue
            n = c.data.sizes[d]
            k = n + rng.randint(0, 3)
            mon.refuses(lambda: numpy.array(o[name].observe(**{d: k}).data), 'refuse', c.what, d, k)
            mon.refuses(lambda: numpy.array(o[name].observe(**{d: [0, k]}).data), 'refuse', c.what, d, [0, k])
            x, dims = c.ref.get(name)
            judge(mon, o[name].observe(), x, dims, name, c.system, 'values', c.what + ' after refusal', rtol=1e-9)


def backward(mon, rng, i):
    """An index counted from the end names that point, wherever it is accepted."""
    with Case(rng) as c:
        o = c.observer()
        for _ in range(4):
            name = rng.choice(ondisk(c))
            full, dims = c.ref.get(name)
            axes = [d for d in dims if d in ('time', 'species', 'mu')]
            if not axes:
                continue
            axis = rng.choice(axes)
            n = c.ref.sizes[axis] if hasattr(c.ref, 'sizes') else numpy.shape(full)[dims.index(axis)]
            ks = [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2]))]
            want = numpy.take(full, [n - k for k in ks], axis=dims.index(axis))
            neg = [-k for k in ks]
            what = f'{c.what}: {name}, {axis}={neg}'
            judge(mon, o[alias(rng, name)].observe(**{axis: neg if len(neg) > 1 else neg[0]}), want, dims, name, c.system, 'backward', what, rtol=1e-9)
            mon.saw('backward', name, axis, len(ks))


SUBS = {
    'backward': (backward, 24, 300),
    'observe': (observe, 160, 3000),
    'by_value': (by_value, 100, 1600),
    'species': (species, 40, 500),
    'reference': (reference, 48, 600),
    'converted': (converted, 100, 1500),
    'aliases': (aliases, 12, 100),
    'outside': (outside, 24, 200),
}
