"""Observations do not depend on the metric system, except for their units."""
import numpy

from harness import epcase, epref
from harness.epcase import Case, alias, show
from harness.epdata import AU
from harness.props.p16 import forms

RULE = ('a distinct (quantity or composition, constraints, shape) observed in both metric systems, or before and after '
        'a change of system by unit, and compared after conversion')
ASSUMPTIONS = ('Values agree to 1e-5, since constants of the two systems are given to about five digits.',)
MUST_SEE = ('oracle:same', 'oracle:unit', 'oracle:by-name', 'oracle:update', 'oracle:composed', 'oracle:axes', 'oracle:refuse')

RTOL = 1e-5


def close(mon, a, b, key, what, rtol=RTOL):
    b = numpy.array(b)
    top = float(numpy.abs(b).max()) if b.size else 0.0
    mon.close(a, b, key, what, rtol=rtol, atol=1e-10 * top)


def systems(mon, rng, i):
    """The same observation by observers in mks and in cgs units."""
    with Case(rng) as c:
        a, b = c.observer('mks'), c.observer(rng.choice(['cgs', 'CGS']))
        for name in rng.sample(epref.available(c.data), 6):
            _, dims = c.ref.get(name)
            kw, cons = epref.constraints(rng, c.ref, dims, None)
            for d in ('energy',):      # a bare number means the default unit
                v = kw.get(d)
                if v is not None and cons[d][0] == 'value':
                    kw[d] = (*[x / epref.MEV for x in cons[d][1]], 'MeV')
            used = alias(rng, name)
            what = f'{c.what}: {used}.observe({show(kw)})'
            p, q = a[used].observe(**kw), b[used].observe(**kw)
            mon.expect(p.unit == epref.QUANTITIES[name][1], 'unit', what, f'| mks unit {p.unit}')
            mon.expect(q.unit == epref.QUANTITIES[name][2], 'unit', what, f'| cgs unit {q.unit}')
            close(mon, numpy.array(q.data), numpy.array(p.data) * epref.factor(name, 'cgs'), 'same', what)
            mon.equal(tuple(p.dimensions), tuple(q.dimensions), 'same', what, 'dimensions')
            for d in p.dimensions:
                if d in ('time', 'energy', 'mu'):
                    f = 1e7 if d == 'energy' else 1.0
                    close(mon, numpy.array(q[d]), numpy.array(p[d]) * f, 'axes', what + ' ' + d)
            mon.saw(name, forms(kw), p.data.shape)
            mon.sample(what)


def by_name(mon, rng, i):
    """Changing to the unit of a named system, before and after observing."""
    with Case(rng) as c:
        o = c.observer()
        # rigidity and charge: electromagnetic units of other systems are expanded, which is judged by P01
        for name in rng.sample([n for n in epref.available(c.data) if n not in ('rigidity', 'charge')], 4):
            x, dims = c.ref.get(name)
            for system in ('mks', 'cgs'):
                what = f'{c.what}: {name}[{system!r}]'
                f = epref.factor(name, system)
                unit = epref.QUANTITIES[name][1 if system == 'mks' else 2]
                for how, obs in (('before', o[name][system].observe()), ('after', o[name].observe()[unit])):
                    close(mon, numpy.array(obs.data), x * f, 'by-name', what + ' ' + how)
                    mon.expect(obs.unit == unit, 'by-name', what, how, f'| unit {obs.unit}')
            mon.saw('name', name, x.shape, c.system)


def update(mon, rng, i):
    """An observer keeps its metric system when its paths are updated."""
    with Case(rng, kind='stream') as c, Case(rng, kind='stream', number=c.number) as d:
        d.number = c.number
        for system in ('mks', 'cgs'):
            o = c.observer(system)
            for name in rng.sample(epref.available(c.data), 2):
                x, _ = c.ref.get(name)
                close(mon, numpy.array(o[name].observe().data), x * epref.factor(name, system), 'update', f'{c.what} {system}: {name} first')
            how = rng.choice(['source', 'config', 'both'])
            kw = {'source': {'source': d.dir}, 'config': {'config': str(d.data.conf)},
                  'both': {'source': d.dir, 'config': 'eprem_input_file'}}[how]
            r = o.update(**kw)
            mon.expect(r is o, 'update', how)
            now = c if how == 'config' else d
            for name in rng.sample(epref.available(now.data), 3):
                x, _ = now.ref.get(name)
                what = f'{now.what} {system}: {name} after update of {how}'
                obs = o[name].observe()
                close(mon, numpy.array(obs.data), x * epref.factor(name, system), 'update', what)
                mon.expect(obs.unit == epref.QUANTITIES[name][1 if system == 'mks' else 2], 'update', what, f'| unit {obs.unit}')
            mon.close(numpy.array(o.time), now.ref.s('time'), 'update', 'time axis')
            mon.saw('update', how, system, c.what, d.what)


COMPOSED = [
    ('Vr / Br', 'Vr', -1, 'Br'), ('Vr * Rho', 'Vr', 1, 'Rho'), ('R / V', 'R', -1, 'V'), ('mfp / Vr', 'mean free path', -1, 'Vr'),
    ('B * Vr', 'B', 1, 'Vr'), ('Rho * x', 'Rho', 1, 'x'), ('flux * T', 'flux', 1, 'T'),
]


def composed(mon, rng, i):
    with Case(rng) as c:
        a, b = c.observer('mks'), c.observer('cgs')
        for text, left, sign, right in rng.sample(COMPOSED, 3):
            p, q = a[text].observe(), b[text].observe()
            f = epref.factor(left, 'cgs') * epref.factor(right, 'cgs') ** sign
            close(mon, numpy.array(q.data), numpy.array(p.data) * f, 'composed', f'{c.what}: {text}')
            mon.saw('composed', text, p.data.shape)


def refuse(mon, rng, i):
    with Case(rng) as c:
        mon.refuses(lambda: numpy.array(c.observer('no such system')['Vr'].observe().data), 'refuse', c.what)


SUBS = {
    'systems': (systems, 100, 1600),
    'by_name': (by_name, 48, 600),
    'update': (update, 32, 400),
    'composed': (composed, 40, 400),
    'refuse': (refuse, 4, 16),
}
