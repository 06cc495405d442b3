"""Derived quantities follow their definitions."""
import numpy

from goats.core import computed

from harness import epcase, epref
from harness.epcase import Case, alias, axis_ok, judge, show
from harness.epdata import AU, MEV
from harness.props.p16 import forms

RULE = ('a distinct (derived quantity, parameters given by file or constraint, species, shape, metric system) '
        'compared with an independent evaluation of its definition from the values written to disk')
ASSUMPTIONS = (
    'The definitions are those documented in computed.py: relativistic rigidity, moments of the isotropic '
    'distribution by weighted sums, fluence and integral flux by Simpson\'s rule, the lower end of the integral '
    'flux by a power law.',
    'The minimum energy is not at a grid point, where Simpson\'s rule is discontinuous; above the highest energy '
    'the integral flux is zero, and where the flux is zero on either side of the minimum energy the power law is '
    'taken to be zero there.',
    'There is a magnetic field wherever flow angles and parallel velocities are asked for, and some particles '
    'wherever an average energy is.',
)
MUST_SEE = tuple('oracle:' + n for n in epref.QUANTITIES if n not in epref.ONDISK and n != 'Dist') + (
    'oracle:parameter', 'oracle:converted', 'oracle:minimum energy', 'oracle:assumption', 'oracle:identity', 'oracle:aligned', 'oracle:zeros', 'oracle:above', 'oracle:bounds')

DERIVED = [n for n in epref.QUANTITIES if n not in epref.ONDISK and n != 'Dist']


def derived(c):
    have = epref.available(c.data)
    return [n for n in DERIVED if n in have and n not in c.data.si]


def full(mon, rng, i):
    """Every derived quantity of a dataset, under any of its names."""
    with Case(rng, own_grids=rng.random() < 0.5) as c:
        o = c.observer()
        names = derived(c)
        rng.shuffle(names)
        for name in names:
            x, dims = c.ref.get(name)
            used = alias(rng, name)
            judge(mon, o[used].observe(), x, dims, name, c.system, name, f'{c.what}: {used}')
            mon.saw(name, x.shape, c.system)
        mon.sample(f'{c.what}: {names}')


def part(mon, rng, i):
    """A part of a derived quantity is that part of the whole."""
    with Case(rng, own_grids=rng.random() < 0.5) as c:
        o = c.observer()
        names = derived(c)
        for name in rng.sample(names, 5):
            x, dims = c.ref.get(name)
            kw, cons = epref.constraints(rng, c.ref, dims, c.system, values=False, radius=False)
            used = alias(rng, name)
            what = f'{c.what}: {used}.observe({show(kw)})'
            obs = o[used].observe(**kw)
            x, dims = c.ref.observe(name, cons)
            judge(mon, obs, x, dims, name, c.system, name, what)
            axis_ok(mon, obs, c.ref, cons, c.system, name, what)
            mon.saw(name, forms(kw), x.shape, c.system)


PARAMS = {
    # model name: (config name, names as constraints, generator, unit factors)
    'lambda0': ('lamo', ('lamo', 'lam0', 'lambda0'), (0.01, 3.0), {'au': AU, 'm': 1.0, 'km': 1e3, 'cm': 1e-2}),
    'mfp_radial_power': ('mfpRadialPower', ('mfpRadialPower', 'mfp_radial_power'), (-2.0, 3.0), None),
    'rigidity_power': ('rigidityPower', ('rigidityPower', 'rigidity_power'), (0.1, 1.5), None),
    'kper_kpar': ('kperxkpar', ('kperxkpar', 'kper_kpar'), (0.001, 0.5), None),
}


def parameters(mon, rng, i):
    """Parameters from the configuration file and from constraints, the latter prevailing for one observation."""
    lines, params, given = [], {}, {}
    for p, (conf, names, (lo, hi), units) in PARAMS.items():
        u = rng.random()
        v = rng.uniform(lo, hi)
        if u < 0.5:
            lines.append(f'{conf}={v!r}')
            params[p] = v * (AU if p == 'lambda0' else 1.0)
    rng.shuffle(lines)
    with Case(rng, conf='\n'.join(lines) + '\n') as c:
        c.ref = epref.Ref(c.data, **params)
        o = c.observer()
        for _ in range(3):
            user, now = {}, dict(params)
            for p, (conf, names, (lo, hi), units) in PARAMS.items():
                if rng.random() < 0.4:
                    v = rng.uniform(lo, hi)
                    if units:
                        un, f = rng.choice(sorted(units.items()))
                        user[rng.choice(names)] = (v * AU / f, un)
                        now[p] = v * AU
                    else:
                        user[rng.choice(names)] = v
                        now[p] = v
            ref = epref.Ref(c.data, **now)
            name = rng.choice(['mean free path', 'mean free path', 'acceleration rate'])
            kw, cons = epref.constraints(rng, ref, (), c.system, values=False, radius=False, p=0.25)
            items = list({**kw, **user}.items())
            rng.shuffle(items)
            what = f'{c.what} {lines}: {name}.observe({show(dict(items))})'
            obs = o[name].observe(**dict(items))
            x, dims = ref.observe(name, cons)
            judge(mon, obs, x, dims, name, c.system, 'parameter', what)
            # what the observation says it assumed
            f = 1e2 if c.system == 'cgs' else 1.0
            if name == 'mean free path':
                for p in ('lambda0', 'mfp_radial_power', 'rigidity_power'):
                    mon.expect(p in obs.parameters, 'assumption', what, p, obs.parameters)
                    want = ref.params[p] * (f if p == 'lambda0' else 1.0)
                    mon.close(float(obs[p]), want, 'assumption', what, p, rtol=1e-9)
                    mon.expect(obs[p].unit == (('m' if c.system == 'mks' else 'cm') if p == 'lambda0' else '1'),
                               'assumption', what, p, f'| unit {obs[p].unit}')
            mon.saw('param', name, tuple(sorted(user)), tuple(sorted(params)), c.system)
            mon.sample(what)
        x, dims = c.ref.get('mean free path')
        judge(mon, o['mfp'].observe(), x, dims, 'mean free path', c.system, 'parameter', f'{c.what} {lines}: default')


def minimum(mon, rng, i):
    """Integral flux above an energy."""
    own = rng.random() < 0.4
    with Case(rng, ne=rng.randint(4, 8), **({'species': rng.randint(2, 3), 'own_grids': True, 'egrid1d': False} if own else {})) as c:
        o = c.observer()
        grid = numpy.atleast_2d(c.ref.grid('egrid'))
        for _ in range(4):
            u = rng.random()
            e = grid[rng.randrange(len(grid))]
            low, high = min(g[0] for g in grid), max(g[0] for g in grid)
            if low < high and u < 0.5:
                # above the lowest energy of some species, below that of others
                m = low + (high - low) * rng.uniform(0.05, 0.95)
            elif u > 0.85:
                # beyond the energies of some species or all
                m = e[-1] * rng.uniform(1.001, 1.6)
            elif u < 0.2:
                m = e[0] * rng.uniform(0.1, 0.9)
            else:
                k = rng.randrange(len(e) - 1)
                m = e[k] + (e[k + 1] - e[k]) * rng.uniform(0.01, 0.99)
            unit, f = rng.choice(sorted(epref.ENERGY_UNITS.items()))
            ref = epref.Ref(c.data, minimum_energy=(m / f) * f)
            key = rng.choice(['minimum_energy', 'Emin', 'minimum energy'])
            name = alias(rng, 'integral flux')
            kw, cons = epref.constraints(rng, ref, ref.TS, c.system, values=rng.random() < 0.5, p=0.3)
            for d in ('energy', 'mu'):
                kw.pop(d, None), cons.pop(d, None)
            kw[key] = (m / f, unit)
            what = f'{c.what}: {name}.observe({show(kw)})'
            x, dims = ref.observe('integral flux', cons)
            judge(mon, o[name].observe(**kw), x, dims, 'integral flux', c.system, 'minimum energy', what)
            mon.saw('minimum', unit, key, forms(kw), c.system, own, sum(m < g[0] for g in grid))


def converted(mon, rng, i):
    """Derived quantities in other units, changed before or after observing."""
    with Case(rng) as c:
        o = c.observer()
        for name in rng.sample([n for n in derived(c) if epref.QUANTITIES[n][1] in epref.OTHER], 4):
            unit, f = epref.other_unit(rng, name)
            x, dims = c.ref.get(name)
            what = f'{c.what}: {name} in {unit}'
            judge(mon, o[name][unit].observe(), x, dims, name, None, 'converted', what + ' before', f=f, unit=unit)
            obs = o[name].observe()
            judge(mon, obs[unit], x, dims, name, None, 'converted', what + ' after', f=f, unit=unit)
            judge(mon, obs, x, dims, name, c.system, 'converted', what + ' kept')
            mon.saw('converted', name, unit, c.system)


def special(mon, rng, i):
    """Fields for which a definition is at its limit, and identities between quantities."""
    with Case(rng, flux=False) as c:
        get = lambda n, **k: numpy.array(o[n].observe(**k).data)
        o = c.observer()
        top = lambda x: 1e-9 * float(numpy.abs(x).max())
        V, A, E = get('V'), get('Vpara'), get('Vperp')
        mon.close(A ** 2 + E ** 2, V ** 2, 'identity', c.what, 'V', rtol=1e-9, atol=top(V ** 2))
        B, x, y, z, r = get('B'), get('x'), get('y'), get('z'), get('R')
        mon.close(numpy.sqrt(x ** 2 + y ** 2 + z ** 2), r, 'identity', c.what, 'r', rtol=1e-9)
        mon.close(V * numpy.cos(get('flow angle')), A, 'identity', c.what, 'angle', rtol=1e-6, atol=top(V))
        mon.close(get('BV'), B * V, 'identity', c.what, 'BV', rtol=1e-6)
        mon.close(get('density ratio')[0], numpy.ones(c.data.sizes['shell']), 'identity', c.what, 'ratio')
        ang = get('flow angle')
        mon.expect(bool(numpy.all((ang >= 0) & (ang <= numpy.pi))), 'identity', c.what, 'angle range')
        mon.expect(bool(numpy.all(E >= 0)), 'identity', c.what, 'Vperp')
        mon.saw('identity', c.what)


def aligned(mon, rng, i):
    """Flow along the magnetic field: nothing across it, at any point."""
    with Case(rng, aligned=rng.choice(['radial', 'any'])) as c:
        o = c.observer()
        top = float(numpy.abs(c.ref.get('V')[0]).max()) * epref.factor('V', c.system)
        for _ in range(2):
            kw, cons = epref.constraints(rng, c.ref, c.ref.TS, c.system, values=False, radius=False)
            what = f'{c.what}: flow along the field, observe({show(kw)})'
            get = lambda n: numpy.array(o[alias(rng, n)].observe(**kw).data)
            x, _ = c.ref.observe('Vperp', cons)
            mon.close(get('Vperp'), numpy.zeros(x.shape), 'aligned', what, 'Vperp', rtol=0, atol=1e-6 * top)
            f = epref.factor('V', c.system)
            x, _ = c.ref.observe('Vpara', cons)
            mon.close(get('Vpara'), x * f, 'aligned', what, 'Vpara', rtol=1e-6)
            x, _ = c.ref.observe('flow angle', cons)
            mon.close(get('flow angle'), numpy.where(x > 1, numpy.pi, 0.0), 'aligned', what, 'angle', rtol=0, atol=1e-6)
            x, dims = c.ref.observe('acceleration rate', cons)
            judge(mon, o['acceleration rate'].observe(**kw), x, dims, 'acceleration rate', c.system, 'aligned', what)
            mon.saw('aligned', forms(kw), c.what)


def zeros(mon, rng, i):
    """Energies, places and times without particles."""
    with Case(rng, ne=rng.randint(4, 7), zeros=True, own_grids=rng.random() < 0.5) as c:
        o = c.observer()
        grid = numpy.atleast_2d(c.ref.grid('egrid'))
        names = ['flux', 'fluence', 'integral flux'] + ([] if 'flux' in c.data.si else ['energy density', 'isodist'])
        for name in rng.sample(names, 2):
            name = epref.unalias(name)
            x, dims = c.ref.get(name)
            judge(mon, o[name].observe(), x, dims, name, c.system, 'zeros', f'{c.what} with zeros: {name}')
        for _ in range(3):
            e = grid[rng.randrange(len(grid))]
            k = rng.randrange(len(e))
            m = e[k] + (e[k + 1] - e[k]) * rng.uniform(0.01, 0.99) if k < len(e) - 1 else e[k] * rng.uniform(1.01, 5)
            unit, f = rng.choice(sorted(epref.ENERGY_UNITS.items()))
            ref = epref.Ref(c.data, minimum_energy=(m / f) * f)
            x, dims = ref.get('integral flux')
            what = f'{c.what} with zeros: integral flux above {m / f} {unit}'
            got = o[alias(rng, 'integral flux')].observe(Emin=(m / f, unit))
            judge(mon, got, x, dims, 'integral flux', c.system, 'above' if k == len(e) - 1 else 'zeros', what)
            mon.saw('zeros', c.what, k, int((x == 0).sum()))


def bounds(mon, rng, i):
    """The integral flux above several energies at once, from plain arrays."""
    with Case(rng, ne=rng.randint(4, 8), own_grids=rng.random() < 0.5) as c:
        flux = c.ref.get('flux')[0]
        grid = numpy.array(numpy.broadcast_to(numpy.atleast_2d(c.ref.grid('egrid')), flux.shape[2:]))
        for _ in range(6):
            given = []
            for _ in range(rng.randint(1, 4)):
                e = grid[rng.randrange(len(grid))]
                k = rng.randrange(-1, len(e))
                given.append(float(
                    e[0] * rng.uniform(0.1, 0.9) if k < 0 else e[-1] * rng.uniform(1.01, 2) if k == len(e) - 1
                    else e[k] + (e[k + 1] - e[k]) * rng.uniform(0.01, 0.99)))
            if rng.random() < 0.3:
                given.append(given[0])
            want = numpy.concatenate(
                [epref.Ref(c.data, minimum_energy=m).get('integral flux')[0] for m in given], axis=-1)
            f, e = flux.copy(), grid.copy()
            what = f'{c.what}: integral flux above {given}'
            if len(grid) == 1 and rng.random() < 0.5:
                # one species without its axis
                got = computed.integral_flux(e[0], f[:, :, 0, :], *given)
            else:
                got = computed.integral_flux(e, f, *given)
            mon.close(numpy.array(got), want, 'bounds', what, rtol=1e-8)
            mon.expect(numpy.array_equal(f, flux) and numpy.array_equal(e, grid), 'bounds', f'{what} changed its arguments')
            mon.saw('bounds', len(given), flux.shape)


SUBS = {
    'bounds': (bounds, 40, 500),
    'aligned': (aligned, 40, 500),
    'zeros': (zeros, 40, 500),
    'full': (full, 48, 800),
    'part': (part, 60, 1000),
    'parameters': (parameters, 80, 1200),
    'minimum': (minimum, 60, 1000),
    'converted': (converted, 48, 600),
    'special': (special, 24, 300),
}
