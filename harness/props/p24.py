"""The interface of observers: what is observable, under which names, and what observables and observations report."""
import numpy

from goats.core import index, metric, observing, physical, spelling, variable
from harness import epcase, epref, eptable
from harness.epref import AXES, QUANTITIES
from harness.props import p14

RULE = ('a distinct request (name, alias, misspelling, unit or key) to an observer of a generated dataset, an observable or an '
        'observation, whose answer or refusal was compared with the table of EPREM quantities')
ASSUMPTIONS = (
    'Datasets that store flux instead of the distribution list some quantities that cannot be computed from flux; '
    'for them only the computable ones are required to be listed.',
    'Observables compare equal when unit, dimensions and parameters agree, as documented.',
    'A mass in nucleons is not asked for its unit in a metric system, since the nucleon is also the unit of mass number.',
    'Observations are asked for axes and parameters by the names in their dimensions and parameters.',
)
MUST_SEE = ('oracle:listed', 'oracle:observes', 'oracle:alias', 'oracle:unobservable', 'oracle:parameter', 'oracle:misspelt', 'oracle:unknown',
            'oracle:meta', 'oracle:rescaled', 'oracle:original', 'oracle:inconsistent', 'oracle:item', 'oracle:item-unit', 'oracle:item-refused',
            'oracle:equal', 'oracle:unequal', 'oracle:axis', 'oracle:grid', 'oracle:path')

LOCAL = {'minimum_energy': ('Emin', 'minimum energy'), 'reference energy': ('energy0',), 'reference radius': ('r0',)}
PARAMETERS = {k: v[3] for k, v in eptable.PARAMETERS.items()}
PARAMETERS.update(LOCAL)
HIDDEN = ('preEruption', 'phiOffset')


def groups(data):
    """The groups of names of observable quantities."""
    return [frozenset((k, *v[0])) for k, v in QUANTITIES.items() if k in data]


def words(data):
    """Every name that the observer knows."""
    known = set(HIDDEN)
    for g in groups(data):
        known |= g
    for k, v in PARAMETERS.items():
        known |= {k, *v}
    return known


def another(rng, name, system):
    """Another unit of a quantity and the factor that leads to it."""
    si = epref.factor(name, system)
    found = epref.other_unit(rng, name)
    unit, f = found if found else (QUANTITIES[name][2], QUANTITIES[name][3])
    return unit, f / si


def plain(word):
    return word and all(c.isalpha() or c == '_' for c in word) and word != 'sqrt'


def names(mon, rng, i):
    flux = rng.random() < 0.2
    with epcase.Case(rng, flux=flux) as c:
        st = c.observer()
        have = [n for n in QUANTITIES if not (flux and n == 'Dist')]
        can = epref.available(c.data)
        # what is listed
        listed = [frozenset(g) for g in st.observables]
        if flux:
            mon.expect(set(groups(can)) <= set(listed), 'listed', c.what, [sorted(g) for g in set(groups(can)) - set(listed)])
        else:
            mon.equal({tuple(sorted(g)) for g in listed}, {tuple(sorted(g)) for g in groups(have)}, 'listed', c.what)
        mon.equal(len(listed), len(set(listed)), 'listed', c.what, 'repeated')
        # names of one quantity
        for n in rng.sample(can, 8):
            a, b = (epcase.alias(rng, n) for _ in 'ab')
            mon.saw('names', n, a, b)
            for k in (a, b):
                mon.expect(st.observes(k) is True, 'observes', k, c.what)
            mon.expect(st.observes(('no such name', a)) and st.observes([a, b]), 'observes', a, b)
            x, y = st[a], st[b]
            mon.require(isinstance(x, observing.Observable) and isinstance(y, observing.Observable), 'alias', a, b, type(x))
            mon.expect(x == y and not x != y, 'equal', a, b, c.what)
            mon.expect(x.name == a and y.name == b, 'meta', 'name', x.name, a)
            mon.expect(x.unit == y.unit and tuple(x.dimensions) == tuple(y.dimensions), 'alias', a, b, x.unit, y.unit)
            mon.expect(a in repr(x), 'meta', repr(x))
        # hidden variables are readable but not observable
        for k in HIDDEN:
            mon.expect(not st.observes(k) and not any(k in g for g in listed), 'unobservable', k)
            v = st[k]
            mon.expect(isinstance(v, variable.Quantity) and not isinstance(v, observing.Observable), 'unobservable', k, type(v))
            want = c.data.si['phiOffset'] if k == 'phiOffset' else 0.25 * 86400.0
            mon.close(numpy.array(v), want, 'unobservable', k, rtol=1e-9)
            mon.equal(v.unit, 's', 'unobservable', k)
        # parameters
        for k in rng.sample(sorted(PARAMETERS), 6):
            if any(k in g for g in groups(have)):
                continue
            mon.expect(not st.observes(k), 'unobservable', k)
            got = [st[n] for n in (k, *PARAMETERS[k])]
            mon.expect(all(g == got[0] for g in got[1:]) and not isinstance(got[0], observing.Observable), 'parameter', k, [str(g) for g in got])
            if k in LOCAL or eptable.PARAMETERS[k][0] is not float or isinstance(eptable.PARAMETERS[k][1], str):
                continue
            d, u = eptable.PARAMETERS[k][1:3]
            if u:
                mon.expect(float(got[0]) == d and got[0].unit == u, 'parameter', k, d, u, str(got[0]))
            else:
                mon.expect(got[0] == d, 'parameter', k, d, str(got[0]))
        mon.sample(f'{c.what}: {len(listed)} groups')
        str(st), repr(st), repr(st.observables)


def misspelt(mon, rng, i):
    with epcase.Case(rng, flux=False, nt=2, ns=2, ne=2, nm=1, species=1) as c:
        st = c.observer()
        known = words(list(QUANTITIES))
        for step in range(3):
            base = rng.choice(sorted(w for w in known if plain(w) and len(w) <= 9))
            bad = base
            for _ in range(rng.choice([1, 1, 1, 2, 2, 4])):
                k = rng.randint(0, len(bad))
                ch = rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
                bad = rng.choice([bad[:k] + ch + bad[k:], bad[:k] + ch + bad[k + 1:], bad[:k] + bad[k + 1:], bad[:k] + bad[k + 1:k + 2] + bad[k:k + 1] + bad[k + 2:]])
            if bad in known or not plain(bad) or len(bad) > 9:
                continue
            want = {w for w in known if p14.one(bad, w)} or {w for w in known if p14.two(bad, w)}
            mon.saw('misspelt', bad)
            mon.sample(f'{bad} -> {sorted(want)}')
            mon.expect(not st.observes(bad), 'observes', bad)
            try:
                got = st[bad]
            except spelling.SpellingError as err:
                mon.equal(sorted(err.suggested), sorted(want), 'misspelt' if want else 'unknown', bad)
            except KeyError as err:
                mon.expect(not want, 'unknown' if not want else 'misspelt', bad, repr(err), sorted(want))
            else:
                mon.fail('unknown', bad, 'was accepted', str(got))
        for bad in rng.sample(['nothing like it', 'quux_zyzzyva', 'Zyzzyva * Vr', 'Vr / quuxquux', 'qwertzuiopas'], 2):
            mon.expect(not st.observes(bad), 'observes', bad)
            mon.refuses(lambda: st[bad], 'unknown', bad, errors=(KeyError, spelling.SpellingError))
        # still usable
        mon.expect(st.observes('Vr') and isinstance(st['Vr'], observing.Observable), 'observes', 'after errors')


def describe(mon, rng, i):
    """Observables and observations describe themselves and each other."""
    with epcase.Case(rng) as c:
        st = c.observer()
        for n in rng.sample(epref.available(c.data), 4):
            a = epcase.alias(rng, n)
            o = st[a]
            mks, cgs, f = QUANTITIES[n][1:]
            unit = mks if c.system == 'mks' else cgs
            dims = c.ref.get(n)[1]
            what = f'{c.what} {a}'
            mon.expect(o.unit == unit, 'meta', what, 'unit', o.unit, unit)
            obs = o.observe(time=0) if 'time' in dims and rng.random() < 0.5 else o.observe()
            mon.equal(tuple(o.dimensions), tuple(dims), 'meta', what, 'dimensions')
            mon.equal(tuple(obs.dimensions), tuple(o.dimensions), 'meta', what, 'dimensions of the observation')
            mon.expect(obs.unit == o.unit, 'meta', what, obs.unit, o.unit)
            mon.expect(all(p in o.parameters for p in obs.parameters), 'meta', what, 'parameters', obs.parameters, list(o.parameters))
            repr(o), repr(obs), str(o.target)
            # another unit
            new, factor = another(rng, n, c.system)
            form = rng.choice([str, metric.Unit])(new)
            p = o[form]
            mon.saw('describe', a, new, c.system, len(dims))
            mon.expect(p.unit == new and p.name == a, 'rescaled', what, new, p.unit)
            mon.expect(o.unit == unit, 'original', what, 'the observable changed', o.unit, unit)
            mon.equal(tuple(p.dimensions), tuple(dims), 'rescaled', what, new)
            x = numpy.array(obs.data)
            q = p.observe(time=0) if obs.data.shape != p.observe().data.shape else p.observe()
            mon.expect(q.unit == new, 'rescaled', what, new, q.unit)
            mon.close(numpy.array(q.data), x * factor, 'rescaled', what, new, rtol=2e-4)
            again = o.observe(time=0) if 'time' in dims else o.observe()
            mon.expect(again.unit == unit, 'original', what, 'after observing in another unit', again.unit, unit)
            for s, u in (('mks', mks), ('CGS', cgs)):
                mon.expect((p[s].unit == u or new == 'nuc') and o[s].unit == u, 'rescaled', what, s, p[s].unit, o[s].unit, u)
            wrong = 'K' if rng.random() < 0.5 else 'cd'
            mon.refuses(lambda: o[wrong].observe(), 'inconsistent', what, wrong)
            # equality
            mon.expect(o == st[n] and st[a] == o, 'equal', what)
            mon.expect(o != p or o.unit == p.unit, 'unequal', what, new)
            mon.expect(obs == obs, 'equal', what, 'observation')
            mon.expect(o.__eq__(5) is NotImplemented and obs.__eq__(5) is NotImplemented and o != 'text', 'unequal', what)
            items(mon, rng, c, o, obs, dims, what, new, factor)


def items(mon, rng, c, o, obs, dims, what, new, factor):
    """Context items of an observation."""
    kept = numpy.array(obs.data).copy(), str(obs.unit)
    for d in dims:
        if d not in AXES:
            continue
        got = obs[d]
        want = c.ref.axis_values(d, {}) if obs.data.shape[list(dims).index(d)] == c.data.sizes[d] else None
        if want is None:
            mon.equal(len(numpy.array(got)), 1, 'item', what, d)
        elif d == 'species':
            mon.equal([str(s) for s in numpy.array(got)], list(want), 'item', what, d)
        else:
            e = 1e7 if d == 'energy' and c.system == 'cgs' else 1.0
            mon.close(numpy.array(got), numpy.array(want, dtype=float) * e, 'item', what, d, rtol=1e-9)
    units = {'mfp_radial_power': '1', 'rigidity_power': '1', 'lambda0': 'm cm', 'kper_kpar': '1'}
    for p in obs.parameters:
        v = obs[p]
        if p in units:
            u = units[p].split()
            mon.expect(v.unit == u[0 if c.system == 'mks' else -1], 'item', what, p, v.unit)
            mon.close(float(v), c.ref.params[p] * (100 if p == 'lambda0' and c.system == 'cgs' else 1), 'item', what, p, rtol=1e-6)
    form = rng.choice([str, metric.Unit])(new)
    r = obs[form]
    mon.expect(isinstance(r, observing.Observation) and r.unit == new, 'item-unit', what, new, r.unit)
    mon.close(numpy.array(r.data), kept[0] * factor, 'item-unit', what, new, rtol=2e-4)
    mon.equal((tuple(r.dimensions), list(r.parameters)), (tuple(obs.dimensions), list(obs.parameters)), 'item-unit', what)
    mon.expect(str(obs.unit) == kept[1] and numpy.array_equal(numpy.array(obs.data), kept[0]), 'original', what, 'the observation changed')
    for bad in rng.sample([3, slice(None), None, (0,), ..., 2.5], 2):
        mon.refuses(lambda: obs[bad], 'item-refused', what, repr(bad), errors=TypeError)
    mon.refuses(lambda: obs[rng.choice(['cd', 'K', 'mol'])], 'item-refused', what, 'inconsistent unit')
    mon.refuses(lambda: obs['no such item'], 'item-refused', what)


def equality(mon, rng, i):
    with epcase.Case(rng) as c:
        a, b = c.observer(), c.observer()
        for n in rng.sample([q for q in epref.available(c.data) if q not in epref.COORDINATES], 3):
            dims = c.ref.get(n)[1]
            kw, model = epref.constraints(rng, c.ref, dims, c.system)
            what = f'{c.what} {n} {epcase.show(kw)}'
            x, y = a[n].observe(**kw), rng.choice([a, b])[epcase.alias(rng, n)].observe(**kw)
            mon.saw('equality', n, epcase.show(kw))
            mon.expect(x == y and y == x and not x != y, 'equal', what)
            if 'time' in dims:
                p, q = a[n].observe(time=0), a[n].observe(time=1)
                same = numpy.array_equal(numpy.array(p.data), numpy.array(q.data))
                mon.expect(not p == q and p != q, 'unequal', what, 'other times', same)
            unit, f = another(rng, n, c.system)
            if abs(f - 1) > 1e-9:
                mon.expect(x != x[unit], 'unequal', what, unit)
            # observations that differ in a single attribute
            make = observing.Observation
            def position(d, factor=1.0):
                v = x[d]
                if d == 'species':
                    return index.Quantity(index.Data(range(len(v)), values=[str(s) for s in numpy.array(v)]))
                return index.Quantity(index.Data(range(len(v)), values=[float(s) * factor + (factor - 1) for s in numpy.array(v)]), unit=v.unit)
            places = {d: position(d) for d in x.dimensions if d in AXES}
            given = {k: x[k] for k in x.parameters}
            same = make(x.data, places, given)
            mon.expect(same == make(x.data, dict(places), dict(given)), 'equal', what, 'rebuilt')
            def differs(y, why):
                mon.expect(y != same and same != y and not y == same and not same == y, 'unequal', what, why)
            k = rng.choice(sorted(given) + ['lambda0'])
            differs(make(x.data, places, {**given, k: physical.Scalar(17.25, unit=given[k].unit if k in given else 'm')}), f'assumption {k}')
            if given:
                differs(make(x.data, places, {j: v for j, v in given.items() if j != k and j != sorted(given)[0]}), 'fewer assumptions')
            for d in places:
                if d != 'species':
                    differs(make(x.data, {**places, d: position(d, 2.0)}, given), f'axis {d}')
                differs(make(x.data, {j: v for j, v in places.items() if j != d}, given), f'no axis {d}')
            mon.expect(not x == x.data and x != 1, 'unequal', what, 'another type')


def axes(mon, rng, i):
    """Axes and coordinates of the dataset, as properties."""
    with epcase.Case(rng) as c:
        st = c.observer()
        mks = c.system == 'mks'
        energy = c.ref.axis('energy')
        want = {'time': (c.data.si['time'], 's', 's', 1.0), 'shell': (c.data.si['shell'], '1', '1', 1.0),
                'energy': (energy, 'J', 'erg', 1e7), 'mu': (c.data.si['mu'], '1', '1', 1.0)}
        grid = {'radius': ('R', 'm', 'cm', 1e2), 'theta': ('T', 'rad', 'rad', 1.0), 'phi': ('P', 'rad', 'rad', 1.0)}
        mon.saw('axes', c.what)
        order = list(want) + list(grid)
        rng.shuffle(order)
        for k in order:
            v = getattr(st, k)
            if k in want:
                x, m, g, f = want[k]
                key = 'axis'
            else:
                name, m, g, f = grid[k]
                x, key = c.data.si[name], 'grid'
                mon.equal(tuple(v.dimensions), tuple(c.data.dims[name]), key, k)
            x = numpy.array(x, dtype=float)
            mon.expect(v.unit == (m if mks else g), key, c.what, k, v.unit)
            mon.close(numpy.array(v), x * (1.0 if mks else f), key, c.what, k, rtol=1e-9)
            for s, u, e in (('mks', m, 1.0), ('cgs', g, f)):
                mon.expect(v[s].unit == u, key, c.what, k, s, v[s].unit)
                mon.close(numpy.array(v[s]), x * e, key, c.what, k, s, rtol=1e-9)
            if k in ('time', 'energy', 'radius'):
                u, e = rng.choice(sorted(epref.UNITS[k].items()))
                mon.close(numpy.array(v[u]), x / e, key, c.what, k, u, rtol=2e-4)
            mon.close(numpy.array(getattr(st, k)), x * (1.0 if mks else f), key, c.what, k, 'changed', rtol=1e-9)
        mon.equal([str(s) for s in st.species.values], c.data.symbols, 'axis', 'species', c.what)
        mon.equal(len(st.species), len(c.data.symbols), 'axis', 'species', c.what)
        mon.expect(str(st.datapath) == str(c.data.path.resolve()) and str(st.confpath) == str(c.data.conf.resolve()), 'path', str(st.datapath), str(st.confpath))
        mon.refuses(lambda: c.observer(config='no such file'), 'path')


SUBS = {
    'names': (names, 64, 600),
    'misspelt': (misspelt, 24, 400),
    'describe': (describe, 64, 900),
    'equality': (equality, 64, 700),
    'axes': (axes, 64, 700),
}
