"""Synthetic EPREM datasets, with the values in SI units that were written.

The files have the layout of EPREM stream and point observers (dimensions,
variable names and units as in the EPREM documentation and the dataset tests).
"""
import pathlib

import netCDF4
import numpy

DAY = 86400.0
AU = 1.495978707e11
MEV = 1.6022e-13
NUC = 1.6605e-27
QE = 1.6022e-19
MP = 1.6726e-27
C = 2.9979e8

# name: (dimensions, unit on disk, factor to SI, unit in mks, unit in cgs, factor SI -> cgs)
TABLE = {
    'phiOffset': (('time',), 'julian date', DAY),
    'time': (('time',), 'julian date', DAY),
    'shell': (('shell',), 'shell', 1.0),
    'mu': (('mu',), 'cos(mu)', 1.0),
    'mass': (('species',), 'nucleon', NUC),
    'charge': (('species',), 'e-', QE),
    'egrid': (('species', 'energy'), 'MeV', MEV),
    'vgrid': (('species', 'energy'), 'cm/s', 1e-2),
    'R': (('time', 'shell'), 'au', AU),
    'T': (('time', 'shell'), 'radian', 1.0),
    'P': (('time', 'shell'), 'radian', 1.0),
    'Br': (('time', 'shell'), 'gauss', 1e-4),
    'Bt': (('time', 'shell'), 'gauss', 1e-4),
    'Bp': (('time', 'shell'), 'gauss', 1e-4),
    'Vr': (('time', 'shell'), 'km/s', 1e3),
    'Vt': (('time', 'shell'), 'km/s', 1e3),
    'Vp': (('time', 'shell'), 'km/s', 1e3),
    'Rho': (('time', 'shell'), 'cm^-3', 1e6),
    'Dist': (('time', 'shell', 'species', 'energy', 'mu'), 's^3/km^6', 1e-18),
    'flux': (('time', 'shell', 'species', 'energy'), '# / cm^2 s sr MeV', 1e4 / MEV),
}

SPECIES = [('H+', 1.0, 1.0), ('He++', 4.0, 2.0), ('C+++++', 12.0, 5.0), ('O++++++', 16.0, 6.0), ('Fe' + 14 * '+', 56.0, 14.0)]


class Data:
    """What was written: `raw` as on disk, `si` in SI units."""

    def __init__(self):
        self.raw, self.si, self.dims = {}, {}, {}
        self.sizes = {}
        self.path = self.directory = None
        self.symbols = []

    def add(self, name, dims, unit, factor, values):
        values = numpy.asarray(values, dtype=float)
        self.raw[name] = values
        self.si[name] = values * factor
        self.dims[name] = dims


def make(directory, rng, kind='stream', number=0, nt=None, ns=None, ne=None, nm=None,
         species=1, egrid1d=False, own_grids=False, fixed_grid=False, conf='', uptodate=True, flux=False, dtype='f8',
         aligned=None, zeros=False):
    """Write a dataset; `rng` is a random.Random."""
    directory = pathlib.Path(directory)
    directory.mkdir(parents=True, exist_ok=True)
    nt = nt or rng.randint(3, 5)
    ns = ns or rng.randint(3, 6)
    ne = ne or rng.randint(4, 6)
    nm = nm or rng.randint(2, 4)
    r = numpy.random.RandomState(rng.getrandbits(31))
    names = SPECIES[:1] + rng.sample(SPECIES[1:], species - 1) if rng.random() < 0.4 else rng.sample(SPECIES, species)
    d = Data()
    d.symbols = [s[0] for s in names]
    d.sizes = {'time': nt, 'shell': ns, 'species': species, 'energy': ne, 'mu': nm}
    d.egrid1d = egrid1d
    d.own_grids = own_grids and not egrid1d and species > 1
    d.directory = directory
    template = {'stream': f'obs{number:06}.nc', 'point': f'p_obs{number:03}.nc'}[kind]
    d.path = directory / template
    e = numpy.logspace(-1, 2, ne) * r.uniform(0.9, 1.1, ne)
    # the speed of a proton with that kinetic energy
    gamma = 1 + e * MEV / (MP * C ** 2)
    v = C * numpy.sqrt(1 - 1 / gamma ** 2) * 1e2
    grids = {}
    if d.own_grids:
        # each species has its own energies and speeds
        grids['egrid'] = numpy.sort(numpy.logspace(-1, 2, ne) * r.uniform(0.7, 1.4, (species, ne)), axis=1)
        grids['vgrid'] = C * numpy.sqrt(1 - 1 / (1 + grids['egrid'] * MEV / (MP * C ** 2)) ** 2) * 1e2
    step = 0.1 + r.rand(1 if fixed_grid else nt, ns)
    radius = numpy.cumsum(step, axis=1) * 0.3 * numpy.ones((nt, 1))
    values = {
        'phiOffset': r.rand(nt), 'time': numpy.cumsum(0.1 + r.rand(nt)),
        'shell': numpy.arange(ns), 'mu': numpy.linspace(-1, 1, nm),
        'mass': [s[1] for s in names], 'charge': [s[2] for s in names],
        'egrid': e if egrid1d else numpy.tile(e, (species, 1)),
        'vgrid': v if egrid1d else numpy.tile(v, (species, 1)),
        'R': radius, 'T': r.uniform(0.2, 2.9, (nt, ns)), 'P': r.uniform(0.0, 6.2, (nt, ns)),
        **{b: r.randn(nt, ns) * 1e-5 for b in ('Br', 'Bt', 'Bp')},
        **{b: r.randn(nt, ns) * 100 + 400 for b in ('Vr', 'Vt', 'Vp')},
        'Rho': r.uniform(1, 6, (nt, ns)), **grids,
    }
    if flux:
        values['flux'] = r.uniform(0.1, 2, (nt, ns, species, ne))
    else:
        values['Dist'] = r.uniform(0.1, 2, (nt, ns, species, ne, nm))
    if aligned:
        # flow along the magnetic field, or against it
        sign = r.choice([-1.0, 1.0], (nt, ns)) * r.uniform(1e7, 9e7, (nt, ns))
        for k in 'rtp':
            if aligned == 'radial' and k != 'r':
                values['B' + k] = numpy.zeros((nt, ns))
            values['V' + k] = values['B' + k] * sign
    if zeros:
        # no particles beyond some energy, below another, or here and there
        x = values['flux' if flux else 'Dist']
        mask = r.rand(nt, ns, species, ne) < 0.15
        for a in range(nt):
            for b in range(ns):
                for c in range(species):
                    u = r.rand()
                    if u < 0.3:
                        mask[a, b, c, r.randint(0, ne):] = True
                    elif u < 0.5:
                        mask[a, b, c, :r.randint(1, ne)] = True
        x[mask] = 0.0
    f = netCDF4.Dataset(str(d.path), 'w')
    for k, n in d.sizes.items():
        f.createDimension(k, n)
    x = f.createVariable('preEruption', 'f8', ())
    x.units = 'julian date'
    x[...] = 0.25
    for name, val in values.items():
        dims, unit, factor = TABLE[name]
        if egrid1d and name in ('egrid', 'vgrid'):
            dims = ('energy',)
        d.add(name, dims, unit, factor, val)
        x = f.createVariable(name, dtype, dims)
        x.units = unit
        x[...] = d.raw[name]
    f.close()
    d.conf = directory / 'eprem_input_file'
    d.conf.write_text(conf)
    return d
