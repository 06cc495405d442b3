"""Generators of array-like quantities, in memory or lazily read from a file."""
import itertools
import os

import netCDF4
import numpy

from goats.core import datafile, physical, variable

_count = itertools.count()
DIMS = ['time', 'shell', 'species', 'energy', 'mu', 'x', 'y', 'Time', 'minimum energy']


def scratch(name):
    return os.path.join(os.environ['VERIF_SCRATCH'], name)


def shape(rng, ndim=None, low=1, high=5):
    ndim = ndim or rng.choice([1, 1, 2, 2, 3, 4])
    return tuple(rng.randint(low, high) for _ in range(ndim))


def values(rng, sh, positive=False):
    g = numpy.random.RandomState(rng.randrange(2 ** 31))
    x = g.uniform(0.2, 9.0, sh) * 10.0 ** g.randint(-3, 4, sh)
    if not positive:
        x *= g.choice([-1, 1], sh)
    return x


def ncfile(variables, path=None, attr='units'):
    """variables: {name: (dims, array, unit)}; returns an open read-only dataset and its path."""
    path = path or scratch(f'f{next(_count)}.nc')
    if os.path.exists(path):
        os.remove(path)
    with netCDF4.Dataset(path, 'w') as d:
        for dims, x, _ in variables.values():
            for k, n in zip(dims, x.shape):
                if k not in d.dimensions:
                    d.createDimension(k, n)
        for name, (dims, x, unit) in variables.items():
            v = d.createVariable(name, x.dtype.str[1:], dims)
            v[...] = x
            if unit is not None:
                setattr(v, attr, unit)
    return path


class File:
    """One scratch dataset holding one variable."""

    def __init__(self, x, dims, unit, attr='units'):
        self.path = ncfile({'v': (dims, x, unit)}, attr=attr)
        self.set = netCDF4.Dataset(self.path, 'r')

    def close(self):
        self.set.close()
        os.remove(self.path)


def source(rng, x, dims, unit, kinds=('list', 'array', 'array', 'file', 'tuple')):
    """A raw data object with the given values: (kind, object, closer)"""
    k = rng.choice(kinds)
    if k == 'list':
        return k, x.tolist(), None
    if k == 'tuple':
        return k, tuple(map(tuple, x.tolist())) if x.ndim == 2 else (tuple(x.tolist()) if x.ndim == 1 else x.tolist()), None
    if k == 'file':
        f = File(x, dims, unit, rng.choice(['units', 'unit']))
        return k, f.set.variables['v'], f.close
    return k, x.copy(), None
