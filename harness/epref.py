"""A reference model of EPREM observations, in SI units, built on numpy alone.

It knows what was written to disk (see epdata), the documented definitions of
the derived quantities, and what a constraint asks for.  It imports nothing
from the package under test.
"""
import math

import numpy

from harness import epdata
from harness.epdata import AU, C, MEV, MP

AXES = ('time', 'shell', 'species', 'energy', 'mu')

# factor from SI to cgs
_CM = 1e2
_G = 1e4
_ERG = 1e7
_STATC = 2.99792458e9

# name: (aliases, mks unit, cgs unit, factor SI -> cgs)
QUANTITIES = {
    'time': (('t', 'times'), 's', 's', 1.0),
    'shell': (('shells',), '1', '1', 1.0),
    'mu': (('mus', 'pitch angle', 'pitch-angle', 'pitch-angle cosine', 'pitch angles', 'pitch-angles',
            'pitch-angle cosines'), '1', '1', 1.0),
    'mass': (('m',), 'kg', 'g', 1e3),
    'charge': (('q',), 'C', 'statC', _STATC),
    'egrid': (('energy', 'energies', 'E'), 'J', 'erg', _ERG),
    'vgrid': (('speed', 'vparticle'), 'm / s', 'cm / s', _CM),
    'R': (('r', 'radius'), 'm', 'cm', _CM),
    'T': (('theta',), 'rad', 'rad', 1.0),
    'P': (('phi',), 'rad', 'rad', 1.0),
    'Br': (('br',), 'T', 'G', _G),
    'Bt': (('bt', 'Btheta', 'btheta'), 'T', 'G', _G),
    'Bp': (('bp', 'Bphi', 'bphi'), 'T', 'G', _G),
    'Vr': (('vr',), 'm / s', 'cm / s', _CM),
    'Vt': (('vt', 'Vtheta', 'vtheta'), 'm / s', 'cm / s', _CM),
    'Vp': (('vp', 'Vphi', 'vphi'), 'm / s', 'cm / s', _CM),
    'Rho': (('rho',), 'm^-3', 'cm^-3', 1e-6),
    'Dist': (('dist', 'f'), 's^3 / m^6', 's^3 / cm^6', 1e-12),
    'x': (('X',), 'm', 'cm', _CM),
    'y': (('Y',), 'm', 'cm', _CM),
    'z': (('Z',), 'm', 'cm', _CM),
    'B': (('b_mag', '|B|', 'bmag', 'b mag'), 'T', 'G', _G),
    'V': (('v_mag', '|V|', 'vmag', 'v mag', 'v', '|v|'), 'm / s', 'cm / s', _CM),
    'BV': (('bv_mag', 'bv', '|bv|', '|BV|'), 'T m / s', 'G cm / s', _G * _CM),
    'Vpara': (('v_para', 'vpara'), 'm / s', 'cm / s', _CM),
    'Vperp': (('v_perp', 'vperp'), 'm / s', 'cm / s', _CM),
    'flow angle': (('flow_angle', 'angle'), 'rad', 'rad', 1.0),
    'div(V)': (('div_v', 'divV', 'divv', 'div V', 'div v', 'div(v)'), 's^-1', 's^-1', 1.0),
    'density ratio': (('density_ratio', 'n2/n1', 'n_2/n_1'), '1', '1', 1.0),
    'rigidity': (('Rg', 'R_g'), 'kg m / (s C)', 'g cm / (s statC)', 1e3 * _CM / _STATC),
    'mean free path': (('mean_free_path', 'mfp'), 'm', 'cm', _CM),
    'acceleration rate': (('acceleration_rate',), 's^-1', 's^-1', 1.0),
    'energy density': (('energy_density',), 'J / m^3', 'erg / cm^3', 10.0),
    'average energy': (('average_energy',), 'J', 'erg', _ERG),
    'isotropic distribution': (('isotropic_distribution', 'isodist'), 's^3 / m^6', 's^3 / cm^6', 1e-12),
    'flux': (('Flux', 'J', 'J(E)', 'j', 'j(E)'), '# nuc / (s sr m^2 J)', '# nuc / (s sr cm^2 erg)', 1e-11),
    'fluence': ((), '# nuc / (sr m^2 J)', '# nuc / (sr cm^2 erg)', 1e-11),
    'integral flux': (('integral_flux',), '# / (s sr m^2)', '# / (s sr cm^2)', 1e-4),
}

ONDISK = ('time', 'shell', 'mu', 'mass', 'charge', 'egrid', 'vgrid', 'R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho')
COORDINATES = ('time', 'shell', 'mu', 'egrid', 'R', 'T', 'P')
FROM_DIST = ('energy density', 'average energy', 'isotropic distribution')

DEFAULTS = {'mfp_radial_power': 2.0, 'rigidity_power': 1 / 3, 'lambda0': AU, 'kper_kpar': 0.01,
            'minimum_energy': 0.0}


def unalias(name):
    for k, v in QUANTITIES.items():
        if name == k or name in v[0]:
            return k
    raise KeyError(name)


def factor(name, system):
    """The factor from SI to the unit of `name` in `system`."""
    return QUANTITIES[name][3] if system == 'cgs' else 1.0


def available(data):
    flux = 'flux' in data.si
    out = [n for n in QUANTITIES]
    if flux:
        out = [n for n in out if n not in FROM_DIST and n != 'Dist']
    return out


def simpson(y, x, axis):
    """Composite Simpson's rule (averaging both ends when the number of intervals is odd)."""
    y = numpy.moveaxis(y, axis, -1)
    n = len(x)
    if n == 1:
        return numpy.zeros(y.shape[:-1])

    def even(a, b):
        total = 0.0
        for k in range(a, b - 1, 2):
            h0, h1 = x[k + 1] - x[k], x[k + 2] - x[k + 1]
            total = total + (h0 + h1) / 6 * (
                (2 - h1 / h0) * y[..., k] + (h0 + h1) ** 2 / (h0 * h1) * y[..., k + 1] + (2 - h0 / h1) * y[..., k + 2])
        return total

    def trapezoid(k):
        return 0.5 * (x[k + 1] - x[k]) * (y[..., k] + y[..., k + 1])
    if n % 2:
        return even(0, n - 1)
    first = even(0, n - 2) + trapezoid(n - 2)
    last = trapezoid(0) + even(1, n - 1)
    return 0.5 * (first + last)


class Ref:
    def __init__(self, data, **params):
        self.d = data
        self.params = {**DEFAULTS, **params}
        self._cache = {}

    def get(self, name):
        """(values in SI, dimensions) of the full quantity."""
        if name not in self._cache:
            if name in self.d.si:
                self._cache[name] = self.d.si[name], tuple(self.d.dims[name])
            else:
                self._cache[name] = getattr(self, '_' + ''.join(c if c.isalnum() else '_' for c in name))()
        return self._cache[name]

    # -- helpers
    def s(self, name):
        return self.d.si[name]

    def grid(self, name):
        """An energy grid as (species, energy)."""
        g = self.s(name)
        if g.ndim == 1:
            g = numpy.tile(g, (self.d.sizes['species'], 1))
        return g

    def gdims(self):
        return tuple(self.d.dims['egrid'])

    TS = ('time', 'shell')
    TSPE = ('time', 'shell', 'species', 'energy')

    # -- definitions
    def _x(self):
        return self.s('R') * numpy.sin(self.s('T')) * numpy.cos(self.s('P')), self.TS

    def _y(self):
        return self.s('R') * numpy.sin(self.s('T')) * numpy.sin(self.s('P')), self.TS

    def _z(self):
        return self.s('R') * numpy.cos(self.s('T')), self.TS

    def _B(self):
        return numpy.sqrt(sum(self.s(k) ** 2 for k in ('Br', 'Bt', 'Bp'))), self.TS

    def _V(self):
        return numpy.sqrt(sum(self.s(k) ** 2 for k in ('Vr', 'Vt', 'Vp'))), self.TS

    def _BV(self):
        return self._B()[0] * self._V()[0], self.TS

    def dot(self):
        return sum(self.s('B' + k) * self.s('V' + k) for k in 'rtp')

    def _flow_angle(self):
        return numpy.arccos(numpy.clip(self.dot() / self._BV()[0], -1, 1)), self.TS

    def _Vpara(self):
        return self.dot() / self._B()[0], self.TS

    def _Vperp(self):
        # the magnitude of the part of V normal to B
        b = self._B()[0]
        u = {k: self.s('V' + k) - self.dot() / b * self.s('B' + k) / b for k in 'rtp'}
        return numpy.sqrt(sum(v ** 2 for v in u.values())), self.TS

    def _div_V_(self):
        f = numpy.log(self.s('Rho'))
        t = self.s('time')
        n = len(t)
        out = numpy.zeros_like(f)
        for k in range(n):
            if k == 0:
                out[k] = (f[1] - f[0]) / (t[1] - t[0])
            elif k == n - 1:
                out[k] = (f[-1] - f[-2]) / (t[-1] - t[-2])
            else:
                a, b = t[k] - t[k - 1], t[k + 1] - t[k]
                out[k] = (a * a * f[k + 1] + (b * b - a * a) * f[k] - b * b * f[k - 1]) / (a * b * (a + b))
        return -out, self.TS

    def _density_ratio(self):
        return self.s('Rho') / self.s('Rho')[0], self.TS

    def _rg(self, energy):
        m = self.s('mass')[:, None]
        q = self.s('charge')[:, None]
        return numpy.sqrt(energy * (energy + 2 * m * C ** 2)) / C / q

    def _rigidity(self):
        return self._rg(self.grid('egrid')), ('species', 'energy')

    def _mean_free_path(self):
        p = self.params
        rg, rg0 = self._rg(self.grid('egrid')), self._rg(MEV)
        a = (self.s('R') / AU) ** p['mfp_radial_power']
        b = (rg / rg0) ** p['rigidity_power']
        return p['lambda0'] * a[:, :, None, None] * b[None, None, :, :], self.TSPE

    def _acceleration_rate(self):
        mfp = self._mean_free_path()[0]
        ang = self._flow_angle()[0]
        v = self._V()[0]
        w = self.grid('vgrid')
        ratio = numpy.cos(ang) ** 2 + self.params['kper_kpar'] * numpy.sin(ang) ** 2
        kxx = mfp * (ratio[:, :, None, None] * w[None, None]) / 3 / v[:, :, None, None]
        ns = self.d.sizes['shell']
        out = numpy.zeros_like(mfp)
        for s in range(ns):
            a, b = min(s + 1, ns - 1), max(s - 1, 0)
            dot = sum(self.s(k)[:, a] * self.s(k)[:, b] for k in ('Vr', 'Vt', 'Vp'))
            dv = v[:, a] * numpy.abs(1 - dot / v[:, a] ** 2)
            out[:, s] = dv[:, None, None] / (3 * (kxx[:, a] + kxx[:, b]))
        return out, self.TSPE

    def _isotropic_distribution(self):
        return self.s('Dist').sum(axis=-1) / self.d.sizes['mu'], self.TSPE

    def _moment(self, n):
        v = self.grid('vgrid')
        dv = numpy.zeros_like(v)
        dv[:, 1:-1] = (v[:, 2:] - v[:, :-2]) / 2
        dv[:, 0] = v[:, 1] - v[:, 0]
        dv[:, -1] = v[:, -1] - v[:, -2]
        f = self._isotropic_distribution()[0]
        return (v ** n * dv * f).sum(axis=-1)

    def _energy_density(self):
        return MP * self._moment(4), self.TSPE[:3]

    def _average_energy(self):
        return 0.5 * MP * self._moment(4) / self._moment(2), self.TSPE[:3]

    def _flux(self):
        return 2 * self.grid('egrid') / MP ** 2 * self._isotropic_distribution()[0], self.TSPE

    def _fluence(self):
        return simpson(self.get('flux')[0], self.s('time'), 0), self.TSPE[1:]

    def _integral_flux(self):
        flux = self.get('flux')[0]
        grid = self.grid('egrid')
        m = self.params['minimum_energy']
        out = numpy.zeros(flux.shape[:3] + (1,))
        for s in range(flux.shape[2]):
            e, f = grid[s], flux[:, :, s, :]
            if m >= e[-1]:
                continue
            if m > e[0]:
                k = max(j for j in range(len(e)) if e[j] <= m)
                # a power law between two positive values, zero if either is zero
                some = (f[..., k] > 0) & (f[..., k + 1] > 0)
                f0, f1 = (numpy.where(some, f[..., j], 1.0) for j in (k, k + 1))
                beta = numpy.log(f1 / f0) / math.log(e[k + 1] / e[k])
                first = numpy.where(some, f0 * (m / e[k]) ** beta, 0.0)
                f = numpy.concatenate([first[..., None], f[..., k + 1:]], axis=-1)
                e = numpy.concatenate([[m], e[k + 1:]])
            out[:, :, s, 0] = simpson(f, e, -1)
        return out, self.TSPE[:3] + ('minimum energy',)

    # -- constraints
    def observe(self, name, cons):
        """What observing `name` under `cons` should give, in SI units."""
        x, dims = self.get(name)
        if name in COORDINATES:
            for k, d in enumerate(dims):
                if d in cons:
                    x = numpy.take(x, self.nearest(d, cons[d]), axis=k)
            return x, dims
        return self.apply(x, dims, cons)

    def apply(self, x, dims, cons):
        """Apply constraints to a quantity that is not a coordinate."""
        if 'radius' in cons and 'shell' in dims and 'time' in dims:
            where = (dims.index('time'), dims.index('shell'))
            x = numpy.moveaxis(radial(numpy.moveaxis(x, where, (0, 1)), self.s('R'), cons['radius']), (0, 1), where)
        elif 'radius' in cons and 'shell' in dims:
            raise NotImplementedError
        for k, d in enumerate(dims):
            if d not in cons or (d == 'shell' and 'radius' in cons):
                continue
            kind, what = cons[d]
            if kind == 'index':
                x = numpy.take(x, what, axis=k)
            elif d == 'energy' and self.d.own_grids and 'species' in dims:
                # each species has its own energies
                j = dims.index('species')
                rows = cons['species'][1] if 'species' in cons else range(self.d.sizes['species'])
                each = [linear(numpy.take(x, [n], axis=j), self.grid('egrid')[row], what, k) for n, row in enumerate(rows)]
                x = numpy.concatenate(each, axis=j)
            else:
                x = linear(x, self.axis(d), what, k)
        return x, dims

    def axis(self, d):
        if d == 'energy':
            return self.grid('egrid')[0]
        return self.s(d)

    def nearest(self, d, con):
        kind, what = con
        if kind == 'index':
            return what
        return [int(numpy.argmin(numpy.abs(self.axis(d) - w))) for w in what]

    def axis_values(self, d, cons):
        """The axis values an observation should report, in SI units."""
        if d == 'species':
            idx = cons[d][1] if d in cons else range(len(self.d.symbols))
            return [self.d.symbols[k] for k in idx]
        n = self.d.sizes[d]
        if d == 'shell':
            return [int(k) for k in (cons[d][1] if d in cons else range(n))]
        if d not in cons:
            return self.axis(d)
        kind, what = cons[d]
        return self.axis(d)[list(what)] if kind == 'index' else numpy.array(what)


def linear(x, grid, targets, axis):
    """Linear interpolation along `axis`, holding the end values outside the grid."""
    x = numpy.moveaxis(x, axis, 0)
    out = []
    for t in targets:
        if t <= grid[0]:
            out.append(x[0])
        elif t >= grid[-1]:
            out.append(x[-1])
        else:
            k = max(j for j in range(len(grid) - 1) if grid[j] <= t)
            w = (t - grid[k]) / (grid[k + 1] - grid[k])
            out.append((1 - w) * x[k] + w * x[k + 1])
    return numpy.moveaxis(numpy.array(out), 0, axis)


def radial(x, radii, target):
    """Interpolate over shells, separately at each time."""
    return numpy.stack([linear(x[k], radii[k], [target], 0) for k in range(len(radii))])


# -- generating constraints

TIME_UNITS = {'s': 1.0, 'min': 60.0, 'h': 3600.0, 'hour': 3600.0, 'day': 86400.0, 'ms': 1e-3}
ENERGY_UNITS = {'J': 1.0, 'MeV': MEV, 'keV': MEV * 1e-3, 'erg': 1e-7, 'GeV': MEV * 1e3}
LENGTH_UNITS = {'m': 1.0, 'au': AU, 'km': 1e3, 'cm': 1e-2, 'Mm': 1e6}
UNITS = {'time': TIME_UNITS, 'energy': ENERGY_UNITS, 'mu': {'1': 1.0}, 'radius': LENGTH_UNITS}


def pick_indices(rng, n, negative=True):
    """(user input, indices)"""
    form = rng.choice(['int', 'list', 'list', 'slice', 'range', 'tuple', 'repeat'])
    if form == 'int':
        k = rng.randrange(n)
        return k, [k]
    if form == 'slice' and rng.random() < 0.5:
        while True:
            ends = [None, *range(-n - 2, n + 3)]
            sl = slice(rng.choice(ends), rng.choice(ends), rng.choice([None, 1, 2, -1, -2]))
            idx = list(range(*sl.indices(n)))
            if idx:
                return sl, idx
    if form == 'slice':
        a = rng.randrange(n)
        b = rng.randint(a + 1, n)
        st = rng.choice([None, 1, 2])
        a = rng.choice([a, None]) if a == 0 else a
        b = rng.choice([b, None]) if b == n else b
        return slice(a, b, st), list(range(*slice(a, b, st).indices(n)))
    if form == 'range':
        a = rng.randrange(n)
        b = rng.randint(a + 1, n)
        st = rng.choice([1, 2])
        return range(a, b, st), list(range(a, b, st))
    idx = [rng.randrange(n) for _ in range(rng.randint(1, n + 1 if form == 'repeat' else n))]
    if form != 'repeat':
        idx = rng.sample(range(n), rng.randint(1, n))
    return (tuple(idx) if form == 'tuple' else list(idx)), idx


def offgrid(rng, grid, outside=True):
    """A value not (nearly) on the grid."""
    for _ in range(1000):
        if outside and rng.random() < 0.12:
            span = grid[-1] - grid[0]
            t = rng.choice([grid[0] - span * rng.uniform(0.01, 0.3), grid[-1] + span * rng.uniform(0.01, 0.5)])
        elif rng.random() < 0.5:
            k = rng.randrange(len(grid) - 1)
            t = grid[k] + (grid[k + 1] - grid[k]) * rng.uniform(0.02, 0.98)
        else:
            t = rng.uniform(grid[0], grid[-1])
        if all(abs(t - g) > 1e-3 * abs(g) + 1e-6 * abs(grid[-1] - grid[0]) for g in grid) and t != 0:
            return float(t)
    return None


def pick_values(rng, dim, grid, default=1.0, exact=0.3, outside=True):
    """(user input, values in SI): one or more values in some unit."""
    n = rng.choice([1, 1, 2, 3])
    vals = []
    for _ in range(n):
        t = float(rng.choice(list(grid))) if rng.random() < exact else offgrid(rng, grid, outside)
        if t is None:
            t = float(rng.choice(list(grid)))
        vals.append(t)
    def whole(user, f, always=False):
        """Some of the values as whole numbers of their unit, where those are off the grid too."""
        user, si = list(user), list(vals)
        for j in range(n):
            k = int(round(user[j]))
            t = k * f
            if (all(abs(t - g) > 2e-3 * max(abs(g), 1e-3) for g in grid) and (outside or grid[0] < t < grid[-1])
                    and (always or rng.random() < 0.6)):
                user[j], si[j] = k, float(t)
        return user, si
    if dim == 'mu':
        if n > 1 and rng.random() < 0.4:
            user, si = whole(vals, 1.0)
            if any(isinstance(u, float) for u in user):     # whole numbers alone would be indices
                return user, si
        return (vals[0] if n == 1 and rng.random() < 0.5 else vals), vals
    form = rng.choice(['pair', 'tuple', 'pairs', 'bare'])
    unit, f = rng.choice(sorted(UNITS[dim].items()))
    if form == 'bare':
        user = [v / default for v in vals]
        return (user[0] if n == 1 and rng.random() < 0.5 else user), vals
    user = [v / f for v in vals]
    if rng.random() < 0.3:
        user, vals = whole(user, f)
    if form == 'pairs':
        return [(u, unit) for u in user], vals
    return (*user, unit), vals


def constraints(rng, ref, dims, system='mks', values=True, radius=True, p=0.6, outside=True):
    """Random constraints on `dims`: (keyword arguments, constraints in SI)."""
    kw, cons = {}, {}
    names = list(AXES)
    rng.shuffle(names)
    for d in names:
        if rng.random() > p:
            continue
        n = ref.d.sizes[d]
        if d == 'species':
            k, idx = pick_indices(rng, n)
            if not isinstance(k, (slice, range)) and rng.random() < 0.6:
                s = [ref.d.symbols[j] for j in idx]
                k = s[0] if isinstance(k, int) else type(k)(s)
            kw[d], cons[d] = k, ('index', idx)
        elif d == 'shell' or not values or rng.random() < 0.35 or n < 2:
            k, idx = pick_indices(rng, n)
            kw[d], cons[d] = k, ('index', idx)
        elif d == 'energy' and ref.d.own_grids:
            grid = ref.grid('egrid')
            lo, hi = grid[:, 0].max(), grid[:, -1].min()
            vals = [math.exp(rng.uniform(math.log(lo), math.log(hi))) for _ in range(rng.choice([1, 2]))]
            if all(abs(v - g) > 2e-3 * v for v in vals for g in grid.ravel()):
                unit, f = rng.choice(sorted(ENERGY_UNITS.items()))
                kw[d], cons[d] = (*[v / f for v in vals], unit), ('value', vals)
        else:
            default = {'time': 1.0, 'mu': 1.0, 'energy': 1.0 if system == 'mks' else 1e-7}[d]
            user, vals = pick_values(rng, d, ref.axis(d), default, outside=outside)
            kw[d], cons[d] = user, ('value', vals)
    if radius and rng.random() < 0.4 and 'shell' in dims and 'time' in dims:
        r = ref.s('R')
        lo, hi = r[:, 0].max(), r[:, -1].min()
        # within every row, or beyond all of them
        u = rng.random()
        if u < 0.1 and outside:
            t = r[:, -1].max() * rng.uniform(1.01, 2)
        elif u < 0.2 and outside:
            t = r[:, 0].min() * rng.uniform(0.2, 0.99)
        elif u < 0.35:
            k = rng.choice([q for q in r.ravel() if lo < q < hi] or [None])
            t = float(k) if k is not None else None
        else:
            t = rng.uniform(lo, hi) if lo < hi else None
        if t is not None:
            unit, f = rng.choice(sorted(LENGTH_UNITS.items()))
            kw[rng.choice(['radius', 'r', 'R'])] = (t / f, unit)
            cons['radius'] = t
    return kw, cons


AXIS_NAMES = {
    'time': ('time', 't', 'times'), 'shell': ('shell', 'shells'), 'energy': ('energy', 'egrid', 'energies', 'E'),
    'mu': ('mu', 'mus', 'pitch angle', 'pitch-angle', 'pitch angles'),
}


def renamed(rng, kw):
    """The same constraints, now and then under another name of the axis."""
    if rng.random() < 0.6:
        return kw
    return {rng.choice(AXIS_NAMES.get(k, (k,))): v for k, v in kw.items()}


# other units for a quantity: mks unit -> {unit: factor from mks}
OTHER = {
    's': {'h': 1 / 3600.0, 'day': 1 / 86400.0, 'min': 1 / 60.0, 'ms': 1e3},
    'kg': {'g': 1e3, 'nuc': 1 / epdata.NUC},
    'C': {'e': 1 / epdata.QE, 'mC': 1e3},
    'J': {'MeV': 1 / MEV, 'erg': 1e7, 'keV': 1e3 / MEV},
    'm / s': {'km / s': 1e-3, 'cm / s': 1e2, 'm / h': 3600.0, 'au / day': 86400.0 / AU},
    'm': {'au': 1 / AU, 'km': 1e-3, 'cm': 1e2},
    'rad': {'deg': 180 / math.pi, 'mrad': 1e3},
    'T': {'nT': 1e9, 'G': 1e4, 'mT': 1e3},
    'm^-3': {'cm^-3': 1e-6, 'km^-3': 1e9},
    's^3 / m^6': {'s^3 / km^6': 1e18, 's^3 / cm^6': 1e-12},
    'T m / s': {'nT km / s': 1e6, 'G cm / s': 1e6},
    's^-1': {'h^-1': 3600.0, 'day^-1': 86400.0},
    'J / m^3': {'erg / cm^3': 10.0, 'MeV / cm^3': 1e-6 / MEV},
    '# nuc / (s sr m^2 J)': {'# / (cm^2 s sr MeV)': 1e-4 * MEV, '# / (cm^2 h sr erg)': 1e-4 * 1e-7 * 3600},
    '# nuc / (sr m^2 J)': {'# / (cm^2 sr MeV)': 1e-4 * MEV},
    '# / (s sr m^2)': {'# / (cm^2 s sr)': 1e-4, '# / (km^2 h sr)': 1e6 * 3600},
}


def other_unit(rng, name):
    """(unit, factor from SI) for a quantity, or None."""
    choices = OTHER.get(QUANTITIES[name][1])
    return rng.choice(sorted(choices.items())) if choices else None


AXIS_UNITS = {'time': OTHER['s'], 'energy': OTHER['J']}
