"""Cases shared by the checks of EPREM observers."""
import os
import shutil
import tempfile

import numpy

from goats import eprem
from harness import epdata, epref


class Case:
    """A dataset on disk, its reference model and observers of it."""

    def __init__(self, rng, kind=None, system=None, **kwargs):
        self.dir = tempfile.mkdtemp(prefix='ep-', dir=os.environ['VERIF_SCRATCH'])
        self.kind = kind or rng.choice(['stream', 'stream', 'stream', 'point'])
        self.system = system or rng.choice(['mks', 'cgs'])
        self.number = rng.choice([0, 1, 7, 42, 123])
        opts = dict(
            species=rng.choice([1, 1, 2, 3]), egrid1d=rng.random() < 0.2, fixed_grid=rng.random() < 0.3,
            flux=rng.random() < 0.2, number=self.number, kind=self.kind,
        )
        opts.update(kwargs)
        self.data = epdata.make(self.dir, rng, **opts)
        self.ref = epref.Ref(self.data)
        self.what = f"{self.kind} {self.system} {self.data.sizes}{' flux' if opts['flux'] else ''}{' 1-D energies' if opts['egrid1d'] else ''}{' own energies' if self.data.own_grids else ''}"

    def observer(self, system=None, **kw):
        cls = {'stream': eprem.Stream, 'point': eprem.Point}[self.kind]
        kw.setdefault('config', 'eprem_input_file')
        return cls(self.number, source=self.dir, system=system or self.system, **kw)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def alias(rng, name):
    """Some name of the quantity."""
    return rng.choice((name, name, *epref.QUANTITIES[name][0]))


def show(kw):
    return ', '.join(f'{k}={v!r}' for k, v in kw.items())


def axis_ok(mon, obs, ref, cons, system, key, what):
    """The axis values that an observation reports."""
    for d in obs.dimensions:
        if d not in epref.AXES or (d == 'energy' and ref.d.own_grids and cons.get(d, ('index',))[0] == 'index'):
            continue
        got = obs[d]
        want = ref.axis_values(d, cons)
        if d == 'species':
            mon.equal([str(s) for s in numpy.array(got)], list(want), key, what, f'axis {d}')
            continue
        want = numpy.array(want, dtype=float)
        if d == 'energy' and system == 'cgs':
            want = want * 1e7
        mon.close(numpy.array(got), want, key, what, f'axis {d}', rtol=1e-9)
        if d in ('time', 'energy'):
            u = {'time': 's', 'energy': 'J' if system == 'mks' else 'erg'}[d]
            mon.expect(got.unit == u, key, what, f'axis {d} | unit {got.unit}, want {u}')


def judge(mon, obs, x, dims, name, system, key, what, rtol=1e-6, f=None, unit=None):
    """Values, shape, dimensions and unit of an observation of `name` (x in SI)."""
    if f is None:
        f = epref.factor(name, system)
        unit = epref.QUANTITIES[name][1 if system == 'mks' else 2]
    x = x * f
    top = float(numpy.max(numpy.abs(x))) if x.size else 0.0
    mon.close(numpy.array(obs.data), x, key, what, rtol=rtol, atol=1e-12 * top)
    mon.equal(tuple(obs.dimensions), tuple(dims), key, what, 'dimensions')
    mon.expect(obs.unit == unit, key, what, f'| unit {obs.unit}, want {unit}')
    mon.close(numpy.array(obs.array), numpy.squeeze(x), key, what, 'array', rtol=rtol, atol=1e-12 * top)
