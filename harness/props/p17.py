"""Observations between grid points interpolate linearly."""
import numpy

from harness import epcase, epref
from harness.epcase import Case, alias, axis_ok, judge, show
from harness.props.p16 import forms

RULE = ('a distinct (quantity, constraint form per axis, shape, metric system) observed between grid points and '
        'compared with independent linear interpolation of the values on the grid')
ASSUMPTIONS = (
    'Targets are at grid values exactly or further than 0.1% from them (closer targets may select the grid value).',
    'Beyond the ends of an axis the end value is held; a radius beyond the range at some times and not at others '
    'may be refused.',
    'Where species have their own energy grids, energies are within all of them, and each species is interpolated on its own.',
    'Coordinates (time, shell, energy, pitch-angle cosine, radius, theta, phi) are reported at the nearest grid points.',
)
MUST_SEE = ('oracle:values', 'oracle:axes', 'oracle:radius', 'oracle:refuse', 'oracle:between', 'oracle:exact',
            'oracle:each', 'oracle:clamp', 'oracle:forms', 'oracle:nearest')


def names(c, rng, n):
    have = [k for k in epref.available(c.data)]
    return rng.sample(have, min(n, len(have)))


def observe(mon, rng, i):
    with Case(rng, own_grids=rng.random() < 0.3) as c:
        o = c.observer()
        for name in names(c, rng, 6):
            full, dims = c.ref.get(name)
            kw, cons = epref.constraints(rng, c.ref, dims, c.system)
            kw = epref.renamed(rng, kw)
            if c.data.own_grids and name == 'egrid' and cons.get('energy', ('',))[0] == 'value':
                continue    # the nearest energy is not the same for all species
            used = alias(rng, name)
            what = f'{c.what}: {used}.observe({show(kw)})'
            obs = o[used].observe(**kw)
            x, dims = c.ref.observe(name, cons)
            judge(mon, obs, x, dims, name, c.system, 'values', what)
            if name not in epref.COORDINATES:
                sub = {k: v for k, v in cons.items() if k != 'radius'}
                if 'radius' not in cons:
                    axis_ok(mon, obs, c.ref, sub, c.system, 'axes', what)
            mon.saw(name, forms(kw), x.shape, c.system)
            mon.sample(what)


def radius(mon, rng, i):
    """Radius alone and with other constraints, on radial grids that move with time."""
    with Case(rng, fixed_grid=rng.random() < 0.25, ns=rng.randint(4, 8), nt=rng.randint(3, 6)) as c:
        o = c.observer()
        r = c.ref.s('R')
        lo, hi = r[:, 0].max(), r[:, -1].min()
        if not lo < hi:
            return
        for name in rng.sample([n for n in epref.available(c.data) if n not in epref.COORDINATES
                                and {'time', 'shell'} <= set(c.ref.get(n)[1])], 4):
            t = rng.uniform(lo, hi)
            unit, f = rng.choice(sorted(epref.LENGTH_UNITS.items()))
            key = rng.choice(['radius', 'r', 'R'])
            kw, cons = {}, {}
            if rng.random() < 0.7:
                kw, cons = epref.constraints(rng, c.ref, (), c.system, radius=False, p=0.35)
                kw.pop('shell', None), cons.pop('shell', None)
            kw = {**kw, key: (t / f, unit)} if rng.random() < 0.5 else {key: (t / f, unit), **kw}
            cons['radius'] = t
            what = f'{c.what}: {name}.observe({show(kw)})'
            obs = o[name].observe(**kw)
            x, dims = c.ref.observe(name, cons)
            judge(mon, obs, x, dims, name, c.system, 'radius', what)
            mon.saw('radius', name, forms(kw), x.shape, c.system)
        # the shell constraint does not matter once a radius is given
        name = rng.choice(['Br', 'Vr', 'Rho'])
        a = o[name].observe(radius=(t / f, unit))
        b = o[name].observe(radius=(t / f, unit), shell=rng.randrange(c.data.sizes['shell']))
        mon.close(numpy.array(a.data), numpy.array(b.data), 'radius', c.what, name, 'with and without shell')


def between(mon, rng, i):
    """An interpolated value lies between its neighbours, and moves linearly between them."""
    with Case(rng) as c:
        o = c.observer()
        name = rng.choice(['Br', 'Vr', 'Rho', 'V', 'B'])
        t = c.ref.s('time')
        k = rng.randrange(len(t) - 1)
        w = rng.uniform(0.05, 0.95)
        v = rng.uniform(0.05, 0.95)
        unit, f = rng.choice(sorted(epref.TIME_UNITS.items()))
        at = lambda z: numpy.array(o[name].observe(time=((t[k] + z * (t[k + 1] - t[k])) / f, unit)).data)[0]
        a, b = (numpy.array(o[name].observe(time=j).data)[0] for j in (k, k + 1))
        what = f'{c.what}: {name} at {w} and {v} between times {k} and {k + 1}'
        x, y = at(w), at(v)
        top = float(numpy.max(numpy.abs([a, b])))
        mon.expect(bool(numpy.all((x >= numpy.minimum(a, b) - 1e-9 * top) & (x <= numpy.maximum(a, b) + 1e-9 * top))),
                   'between', what, x, a, b)
        mon.close((x - a) * v, (y - a) * w, 'between', what, rtol=1e-6, atol=1e-9 * top)
        mon.saw('between', name, k, c.system)


def exact(mon, rng, i):
    """Interpolating to grid values among others gives the grid values."""
    with Case(rng) as c:
        o = c.observer()
        for name in rng.sample([n for n in epref.available(c.data) if n not in epref.COORDINATES], 3):
            full, dims = c.ref.get(name)
            for d in ('time', 'energy', 'mu'):
                if d not in dims:
                    continue
                grid = c.ref.axis(d)
                idx = [rng.randrange(len(grid)) for _ in range(2)]
                off = epref.offgrid(rng, grid)
                if off is None:
                    continue
                vals = [float(grid[idx[0]]), off, float(grid[idx[1]])]
                unit, f = rng.choice(sorted(epref.UNITS[d].items()))
                user = vals if d == 'mu' else (*[v / f for v in vals], unit)
                what = f'{c.what}: {name}.observe({d}={user!r})'
                k = dims.index(d)
                got = numpy.array(o[name].observe(**{d: user}).data)
                g = epref.factor(name, c.system)
                mon.close(numpy.take(got, [0, 2], k), numpy.take(full, idx, k) * g, 'exact', what, rtol=1e-6,
                          atol=1e-12 * float(numpy.abs(full * g).max()))
                mon.saw('exact', name, d, c.system)


def each(mon, rng, i):
    """Each of several targets gives what it gives alone, whatever the order."""
    with Case(rng) as c:
        o = c.observer()
        name = rng.choice([n for n in epref.available(c.data) if n not in epref.COORDINATES and 'time' in c.ref.get(n)[1]])
        dims = c.ref.get(name)[1]
        d = rng.choice([x for x in dims if x in ('time', 'energy', 'mu')])
        grid = c.ref.axis(d)
        vals = [epref.offgrid(rng, grid) for _ in range(rng.randint(2, 4))]
        if None in vals:
            return
        unit, f = rng.choice(sorted(epref.UNITS[d].items()))
        k = dims.index(d)
        what = f'{c.what}: {name} at {d}={vals}'

        def at(*v):
            user = list(v) if d == 'mu' else (*[q / f for q in v], unit)
            return numpy.array(o[name].observe(**{d: user}).data)
        whole = at(*vals)
        for j, v in enumerate(vals):
            mon.close(numpy.take(whole, [j], k), at(v), 'each', what, rtol=1e-9)
        mon.close(numpy.flip(at(*reversed(vals)), k), whole, 'each', what, 'reversed', rtol=1e-9)
        mon.saw('each', name, d, len(vals), c.system)


def clamp(mon, rng, i):
    """Beyond the ends of an axis the end value is held."""
    with Case(rng) as c:
        o = c.observer()
        t = c.ref.s('time')
        for d in ('time', 'energy', 'radius'):
            name = rng.choice({'time': ['Br', 'V', 'Rho'], 'energy': ['flux', 'mean free path'],
                               'radius': ['Vr', 'B', 'flux']}[d])
            full, dims = c.ref.get(name)
            g = epref.factor(name, c.system)
            unit, f = rng.choice(sorted(epref.UNITS[d].items()))
            k = dims.index('shell' if d == 'radius' else d)
            for end in (0, -1):
                grid = c.ref.s('R') if d == 'radius' else c.ref.axis(d)
                v = grid.max() * rng.uniform(1.01, 3) if end else grid.min() * rng.uniform(0.1, 0.98)
                got = numpy.array(o[name].observe(**{d: (v / f, unit)}).data)
                n = full.shape[k]
                mon.close(got, numpy.take(full, [n - 1 if end else 0], k) * g, 'clamp',
                          f'{c.what}: {name}.observe({d}=({v / f}, {unit!r}))', rtol=1e-6)
                mon.saw('clamp', name, d, end, c.system)


def refused(mon, rng, i):
    """Targets in a unit that does not fit the axis are refused, leaving the observer usable."""
    with Case(rng) as c:
        o = c.observer()
        for d, wrong in (('time', ['m', 'MeV', 'kg', 'au']), ('energy', ['s', 'm', 'day', 'nT']),
                         ('radius', ['s', 'MeV', 'kg']), ('mu', ['m', 's'])):
            name = rng.choice(['flux', 'Vr', 'B'] if d in ('time', 'radius') else
                              ['flux'] if d == 'energy' or 'flux' in c.data.si else ['Dist'])
            if d == 'mu' and name == 'flux':
                continue
            u = rng.choice(wrong)
            v = rng.uniform(0.1, 2)
            mon.refuses(lambda: numpy.array(o[name].observe(**{d: (v, u)}).data), 'refuse',
                        f'{c.what}: {name}.observe({d}=({v}, {u!r}))')
            mon.saw('refused', d, u, name)
        x, dims = c.ref.get('Vr')
        judge(mon, o['Vr'].observe(), x, dims, 'Vr', c.system, 'values', c.what + ' after refusal')


def written(mon, rng, i):
    """All the ways to write the same target give the same result."""
    from goats.core import physical
    with Case(rng) as c:
        o = c.observer()
        d = rng.choice(['time', 'energy', 'radius'])
        name = rng.choice({'time': ['Br', 'V'], 'energy': ['flux', 'mean free path'], 'radius': ['Vr', 'B']}[d])
        if d == 'radius':
            r = c.ref.s('R')
            lo, hi = r[:, 0].max(), r[:, -1].min()
            if not lo < hi:
                return
            v = rng.uniform(lo, hi)
        else:
            v = epref.offgrid(rng, c.ref.axis(d))
        default = {'time': 1.0, 'energy': 1e-7 if c.system == 'cgs' else 1.0,
                   'radius': 1e-2 if c.system == 'cgs' else 1.0}[d]
        ways = [v / default]
        if d != 'radius':
            ways.append([v / default])
        for u, f in epref.UNITS[d].items():
            ways += [(v / f, u), [v / f, u], physical.Scalar(v / f, unit=u)]
            if d != 'radius':
                ways += [[(v / f, u)], ((v / f, u),)]
        cons = {d: v} if d == 'radius' else {d: ('value', [v])}
        x, dims = c.ref.observe(name, cons)
        for w in ways:
            what = f'{c.what}: {name}.observe({d}={w!r})'
            judge(mon, o[name].observe(**{d: w}), x, dims, name, c.system, 'forms', what)
            mon.saw('form', d, type(w).__name__)


def nearest(mon, rng, i):
    """Coordinates are reported at the nearest grid points."""
    with Case(rng) as c:
        o = c.observer()
        for name in rng.sample(list(epref.COORDINATES), 3):
            full, dims = c.ref.get(name)
            kw, cons = {}, {}
            for d in ('time', 'energy', 'mu'):
                if d in dims:
                    user, vals = epref.pick_values(rng, d, c.ref.axis(d), 1e-7 if d == 'energy' and c.system == 'cgs' else 1.0)
                    kw[d], cons[d] = user, ('value', vals)
            what = f'{c.what}: {name}.observe({show(kw)})'
            x, dims = c.ref.observe(name, cons)
            judge(mon, o[name].observe(**kw), x, dims, name, c.system, 'nearest', what)


SUBS = {
    'observe': (observe, 160, 3000),
    'radius': (radius, 100, 2000),
    'between': (between, 48, 600),
    'exact': (exact, 48, 800),
    'each': (each, 60, 800),
    'clamp': (clamp, 32, 400),
    'refused': (refused, 32, 300),
    'written': (written, 48, 500),
    'nearest': (nearest, 32, 300),
}
