"""Observing has no side effects: results do not depend on what was done before, and data are only read."""
import contextlib
import copy
import hashlib
import os
import pathlib
import tempfile

import numpy

from goats import eprem
from goats.core import datafile, iotools
from harness import epcase, epref
from harness.epcase import Case, alias, axis_ok, judge, show
from harness.epdata import AU
from harness.props.p16 import forms

RULE = ('a distinct history of observations, refused requests, unit changes and path updates over one or more observers, '
        'every result of which was compared with the reference model and re-examined at the end of the history')
ASSUMPTIONS = ('The files of a dataset do not change while it is being observed.',)
MUST_SEE = ('oracle:history', 'oracle:unchanged', 'oracle:repeat', 'oracle:files', 'oracle:path', 'oracle:readonly',
            'oracle:viewers', 'oracle:find', 'oracle:held', 'oracle:arguments', 'oracle:mutated', 'oracle:append')


def state(directory):
    out = {}
    for p in sorted(pathlib.Path(directory).rglob('*')):
        if p.is_file():
            st = p.stat()
            out[str(p)] = (hashlib.sha256(p.read_bytes()).hexdigest(), st.st_mtime_ns, st.st_size)
    return out


def params(rng):
    """Constraints on parameters: (keyword arguments, model)."""
    kw, now = {}, {}
    if rng.random() < 0.3:
        v = rng.uniform(0.05, 2)
        kw[rng.choice(['lamo', 'lam0', 'lambda0'])] = (v, 'au')
        now['lambda0'] = v * AU
    if rng.random() < 0.2:
        v = rng.uniform(0.5, 3)
        kw['mfp_radial_power'] = v
        now['mfp_radial_power'] = v
    return kw, now


class Seen:
    """An observation and what it should remain."""

    def __init__(self, obs, x, dims, name, system, what, f=None, unit=None):
        self.args = (x, dims, name, system)
        self.obs, self.what, self.f, self.unit = obs, what, f, unit

    def judge(self, mon, key):
        x, dims, name, system = self.args
        judge(mon, self.obs, x, dims, name, system, key, self.what, f=self.f, unit=self.unit)


def history(mon, rng, i):
    with contextlib.ExitStack() as stack:
        cases = [stack.enter_context(Case(rng)) for _ in range(rng.choice([1, 1, 2]))]
        pool = []        # (case, system, observer)
        for c in cases:
            for system in rng.choice([[c.system], ['mks', 'cgs']]):
                pool.append((c, system, c.observer(system)))
        before = [state(c.dir) for c in cases]
        held = []        # observables obtained earlier
        seen = []
        trace = []
        for step in range(10):
            c, system, o = rng.choice(pool)
            op = rng.choice(['observe', 'observe', 'observe', 'held', 'bad', 'unit', 'axis'])
            if op == 'held' and held:
                (c, system, name, q) = rng.choice(held)
            else:
                name = rng.choice(epref.available(c.data))
                q = o[alias(rng, name)]
                held.append((c, system, name, q))
            if op == 'bad':
                try:
                    q.observe(**rng.choice([{'time': (1.0, 'kg')}, {'radius': (2.0, 's')}, {'shell': [999]},
                                            {'species': 'Zz'}, {'time': 'x'}]))
                except Exception:
                    pass
                trace.append(('bad', name))
                continue
            if op == 'axis':
                u = rng.choice(['h', 'day'])
                numpy.array(o.time[u])
                mon.close(numpy.array(o.time), pool_time(o, pool), 'history', 'time axis after conversion')
                trace.append(('axis', u))
                continue
            extra, now = params(rng) if rng.random() < 0.5 else ({}, {})
            ref = epref.Ref(c.data, **now)
            kw, cons = epref.constraints(rng, ref, ref.get(name)[1], system, p=rng.choice([0.0, 0.4, 0.7]))
            given = {**kw, **extra}
            kept = copy.deepcopy(given)
            f = unit = None
            if op == 'unit' and epref.other_unit(rng, name):
                unit, f = epref.other_unit(rng, name)
                obs = q[unit].observe(**given)
            else:
                obs = q.observe(**given)
            trace.append((op, name, system, tuple(sorted(given))))
            what = f'{c.what} {system}: step {step} {name}.observe({show(given)}) {unit or ""} after {trace[-6:-1]}'
            mon.expect(given == kept, 'arguments', what)
            x, dims = ref.observe(name, cons)
            s = Seen(obs, x, dims, name, system, what, f, unit)
            s.judge(mon, 'history')
            seen.append(s)
            if rng.random() < 0.3:
                again = (q[unit] if unit else q).observe(**given)
                mon.expect(numpy.array_equal(numpy.array(again.data), numpy.array(obs.data))
                           and again.unit == obs.unit and tuple(again.dimensions) == tuple(obs.dimensions),
                           'repeat', what)
            if unit is None:
                mon.expect(q.unit == epref.QUANTITIES[name][1 if system == 'mks' else 2], 'held', what, f'| observable unit {q.unit}')
        for s in seen:
            s.judge(mon, 'unchanged')
        mon.expect([state(c.dir) for c in cases] == before, 'files', trace)
        mon.saw(tuple(trace))
        mon.sample(trace)


def accumulated(mon, rng, i):
    """Constraints on a context replace the previous ones, or add to them on request."""
    with Case(rng) as c:
        o = c.observer()
        x = o.context
        kws, cons, now, trace = {}, {}, {}, []
        for step in range(6):
            more = rng.random() < 0.5
            extra, lam = params(rng) if rng.random() < 0.5 else ({}, {})
            name = rng.choice(epref.available(c.data))
            kw, new = epref.constraints(rng, c.ref, c.ref.get(name)[1], c.system, p=0.3)
            if not more:
                kws, cons, now = {}, {}, {}
            # one name for each constraint, so that the later one is the one that counts
            kw = {{'r': 'radius', 'R': 'radius'}.get(k, k): v for k, v in kw.items()}
            extra = {{'lamo': 'lambda0', 'lam0': 'lambda0'}.get(k, k): v for k, v in extra.items()}
            kws, cons, now = {**kws, **kw, **extra}, {**cons, **new}, {**now, **lam}
            given = {**kw, **extra}
            r = x.constrain(given, append=True) if more else x.constrain(given)
            mon.expect(r is x, 'append', 'the context itself')
            trace.append(('append' if more else 'replace', tuple(sorted(given)), name))
            ref = epref.Ref(c.data, **now)
            dims = ref.get(name)[1]
            if 'radius' in cons and not ('shell' in dims and 'time' in dims):
                continue
            what = f'{c.what}: {show(kws)} after {trace}: {name}'
            want, dims = ref.observe(name, cons)
            judge(mon, x.observe(name), want, dims, name, c.system, 'append', what)
            if rng.random() < 0.5:      # an observation through the observer has its own constraints
                other = rng.choice(epref.available(c.data))
                want, dims = c.ref.get(other)
                judge(mon, o[other].observe(), want, dims, other, c.system, 'append', f'{what}, then {other}')
                kws, cons, now = {}, {}, {}
        mon.saw('context', tuple(trace))


def pool_time(o, pool):
    return next(c.ref.s('time') for c, _, p in pool if p is o)


def mutated(mon, rng, i):
    """Arrays handed out can be changed without changing later results."""
    with Case(rng) as c:
        o = c.observer()
        name = rng.choice(epref.available(c.data))
        x, dims = c.ref.get(name)
        q = o[name]
        obs = q.observe()
        for get in (lambda: obs.array, lambda: numpy.array(obs.data), lambda: numpy.asarray(obs.data),
                    lambda: numpy.array(o.time), lambda: numpy.asarray(o.energy), lambda: numpy.asarray(o.radius)):
            a = get()
            with contextlib.suppress(ValueError):     # read-only arrays are fine
                a[...] = -7.0
        judge(mon, q.observe(), x, dims, name, c.system, 'mutated', f'{c.what}: {name}')
        judge(mon, o[name].observe(), x, dims, name, c.system, 'mutated', f'{c.what}: {name} again')
        axis_ok(mon, o[name].observe(), c.ref, {}, c.system, 'mutated', f'{c.what}: {name}')
        judge(mon, c.observer()[name].observe(), x, dims, name, c.system, 'mutated', f'{c.what}: {name} anew')


def paths(mon, rng, i):
    """Observers find their data and configuration by any path to them."""
    from harness import epdata
    root = pathlib.Path(tempfile.mkdtemp(prefix='paths-', dir=os.environ['VERIF_SCRATCH'])).resolve()
    old = os.getcwd()
    try:
        a = epdata.make(root / 'a', rng, number=3, conf='lamo=0.2\n')
        b = epdata.make(root / 'b', rng, number=3, conf='lamo=0.7\n')
        (root / 'other').write_text('lamo=0.5\n')
        (root / 'link').symlink_to(root / 'a')

        def check(o, d, lam, what):
            ref = epref.Ref(d, lambda0=(lam or 1) * AU)
            for name in ('Vr', 'mean free path') if lam else ('Vr',):
                x, dims = ref.get(name)
                judge(mon, o[name].observe(), x, dims, name, 'mks', 'path', what)
            mon.equal(pathlib.Path(o.datapath), d.path.resolve(), 'path', what, 'datapath')
            for axis, x in (('time', ref.s('time')), ('energy', ref.axis('energy')), ('mu', ref.s('mu')),
                            ('shell', numpy.arange(d.sizes['shell'], dtype=float)),
                            ('radius', ref.s('R')), ('theta', ref.s('T')), ('phi', ref.s('P'))):
                mon.close(numpy.array(getattr(o, axis)), x, 'path', what, axis)
            mon.equal([str(s) for s in numpy.array(o.species)], d.symbols, 'path', what, 'species')
        S = eprem.Stream
        os.chdir(root / 'a')
        check(S(3, config='eprem_input_file'), a, 0.2, 'current directory')
        os.chdir(root / 'b')
        check(S(3, config='eprem_input_file'), b, 0.7, 'another current directory')
        check(S(3, config='../other', source='.'), b, 0.5, 'relative configuration')
        check(S(3, config='../other', source='../a'), a, 0.5, 'relative source')
        os.chdir(root)
        check(S(3, config='eprem_input_file', source='a'), a, 0.2, 'relative directory')
        check(S(3, config='eprem_input_file', source=root / 'link'), a, 0.2, 'link')
        check(S(3, config=str(root / 'b' / 'eprem_input_file'), source=pathlib.Path('a')), a, 0.7, 'absolute configuration')
        # a name is sought beside the data first, a path from the current directory
        (root / 'a' / 'sub').mkdir(), (root / 'sub').mkdir()
        (root / 'a' / 'sub' / 'c').write_text('lamo=0.3\n')
        (root / 'sub' / 'c').write_text('lamo=0.4\n')
        check(S(3, config='sub/c', source='a'), a, 0.4, 'configuration in a directory')
        check(S(3, config='other', source='a'), a, 0.5, 'configuration in the current directory')
        (root / 'eprem_input_file').write_text('lamo=0.9\n')
        check(S(3, config='eprem_input_file', source='a'), a, 0.2, 'configuration beside the data')
        check(S(3, config='./eprem_input_file', source='a'), a, 0.9, 'configuration here')
        o = S(3, config='eprem_input_file', source='a')
        p = S(3, config='eprem_input_file', source='b')
        check(o, a, 0.2, 'first of two')
        check(p, b, 0.7, 'second of two')
        o.update(source='b')
        check(o, b, None, 'updated source')      # which configuration is not specified
        o.update(config='other')
        check(o, b, 0.5, 'updated configuration')
        o.update(source='a', config='eprem_input_file')
        check(o, a, 0.2, 'updated both')
        o.update(source='b', config='eprem_input_file')
        check(o, b, 0.7, 'updated both, same configuration name')
        o.update(config='eprem_input_file', source=root / 'a')
        check(o, a, 0.2, 'updated both back')
        check(p, b, 0.7, 'the other, after updates')
        mon.refuses(lambda: S(3, config='eprem_input_file', source=root / 'none'), 'path', 'missing directory')
        mon.refuses(lambda: S(3, config='missing_file', source='a'), 'path', 'missing configuration')
        mon.refuses(lambda: S(4, config='eprem_input_file', source='a')['Vr'], 'path', 'missing dataset')
        check(o, a, 0.2, 'after refusals')
        # one dataset per file, whatever it is called
        same = [datafile.Interface(n) for n in ('a/obs000003.nc', root / 'a' / 'obs000003.nc', 'link/obs000003.nc',
                                                str(root / 'b' / '..' / 'a' / 'obs000003.nc'))]
        mon.expect(all(s is same[0] for s in same), 'path', 'one instance per file')
        mon.expect(datafile.Interface('b/obs000003.nc') is not same[0], 'path', 'distinct files')
        os.chdir(root / 'b')
        mon.expect(datafile.Interface('obs000003.nc') is not same[0], 'path', 'same relative name elsewhere')
        mon.saw('paths', str(a.sizes), str(b.sizes))
    finally:
        os.chdir(old)


def readonly(mon, rng, i):
    root = pathlib.Path(tempfile.mkdtemp(prefix='ro-', dir=os.environ['VERIF_SCRATCH']))
    f = root / rng.choice(['data.txt', 'x.nc', 'no_suffix'])
    text = 'hello\nworld\n'
    f.write_text(text)
    p = iotools.ReadOnlyPath(f)
    for mode in ('w', 'a', 'x', 'w+', 'r+', 'wb', 'ab', 'rb+', 'a+', 'wt'):
        def attempt(mode=mode):
            with p.open(mode) as h:
                h.write('')
        mon.refuses(attempt, 'readonly', mode)
        mon.saw(mode)
    mon.refuses(lambda: p.write_text('x'), 'readonly', 'write_text')
    mon.refuses(lambda: p.write_bytes(b'x'), 'readonly', 'write_bytes')
    mon.equal(f.read_text(), text, 'readonly', 'content')
    for mode in ('r', 'rt'):
        with p.open(mode) as h:
            mon.equal(h.read(), text, 'readonly', 'reading')
    mon.equal(p.read_text(), text, 'readonly', 'read_text')
    mon.equal(p.read_bytes(), text.encode(), 'readonly', 'read_bytes')
    mon.refuses(lambda: iotools.ReadOnlyPath(root / 'missing'), 'readonly', 'missing', errors=iotools.NonExistentPathError)
    t = iotools.TextFile(f)
    mon.equal(list(t.lines), text.splitlines(True), 'readonly', 'lines')
    mon.equal(t.extract(lambda s: s.strip() if 'o' in s else None, lambda s: (s, len(s))),
              {'hello': 5, 'world': 5}, 'readonly', 'extract')
    mon.equal(iotools.file_lines(f), 2, 'readonly', 'file_lines')


def viewers(mon, rng, i):
    """A dataset keeps its own viewers, and reports what is in its file."""
    with Case(rng, species=2) as c, Case(rng) as d:
        v, w = datafile.Interface(c.data.path), datafile.Interface(d.data.path)
        for x, case in ((v, c), (w, d)):
            names = set(case.data.raw) | {'preEruption'}
            mon.equal(set(x.available('variables').canonical), names, 'viewers', case.what, 'names')
            mon.equal(set(x.available('axes').canonical), set(case.data.sizes), 'viewers', case.what, 'axes')
            for n in rng.sample(sorted(case.data.raw), 5):
                for a in (n, *epref.QUANTITIES.get(n, ((),))[0]):
                    var = x.variables[a]
                    mon.close(numpy.array(var.data[...]), case.data.raw[n], 'viewers', case.what, a)
                    mon.equal(tuple(var.dimensions), tuple(case.data.dims[n]), 'viewers', case.what, a, 'dimensions')
                    mon.equal(var.unit, epref.epdata.TABLE[n][1], 'viewers', case.what, a, 'unit')
                    mon.equal(x.units[a], epref.epdata.TABLE[n][1], 'viewers', case.what, a, 'units')
            for n, size in case.data.sizes.items():
                mon.equal(x.axes[n].size, size, 'viewers', case.what, n, 'size')
        class Odd(datafile.Viewer):
            def get_members(self, path):
                return {'odd': 1}
            def __getitem__(self, k):
                return datafile.Axis(1, k)
        v.use(axes=Odd)
        mon.equal(list(v.viewers['axes']), ['odd'], 'viewers', 'own viewer')
        mon.equal(set(w.viewers['axes']), set(d.data.sizes), 'viewers', 'viewer of another dataset')
        fresh = datafile.Interface(d.observer().datapath)
        mon.equal(set(fresh.viewers['axes']), set(d.data.sizes), 'viewers', 'viewer of a new dataset')
        f = pathlib.Path(c.dir) / rng.choice(['x.dat', 'x.txt', 'x'])
        f.write_text('')
        mon.refuses(lambda: datafile.Interface(f).variables, 'viewers', 'unknown type', errors=TypeError)
        mon.refuses(lambda: v.variables['nothing'], 'viewers', 'unknown variable', errors=KeyError)


def find(mon, rng, i):
    """The file of an observer is the one its number and kind name."""
    from harness import epdata
    root = pathlib.Path(tempfile.mkdtemp(prefix='find-', dir=os.environ['VERIF_SCRATCH']))
    numbers = rng.sample(range(0, 300), 3)
    made = {}
    for n in numbers:
        made['stream', n] = epdata.make(root, rng, kind='stream', number=n)
        made['point', n] = epdata.make(root, rng, kind='point', number=n)
    for (kind, n), d in made.items():
        cls = {'stream': eprem.Stream, 'point': eprem.Point}[kind]
        o = cls(n, config='eprem_input_file', source=root)
        x, dims = epref.Ref(d).get('Vr')
        judge(mon, o['Vr'].observe(), x, dims, 'Vr', 'mks', 'find', f'{kind} {n}')
        mon.equal(str(o), str(n), 'find', 'name')
    mon.saw(tuple(numbers))
    dirs = [root / k for k in 'pqr']
    for k in dirs:
        k.mkdir()
    here = rng.sample(range(3), rng.randint(0, 3))
    for k in here:
        (dirs[k] / 'target').write_text(str(k))
    order = rng.sample(dirs, 3)
    want = next((k / 'target' for k in order if (k / 'target').exists()), None)
    got = iotools.search(order, 'target')
    mon.expect((got is None) == (want is None) and (want is None or pathlib.Path(got) == want.resolve()), 'find', 'search', got, want)
    templates = [lambda n: f'no{n}', lambda n: f'obs{n:06}.nc', lambda n: f'p_obs{n:03}.nc']
    rng.shuffle(templates)
    n = rng.choice(numbers)
    want = next(root / t(n) for t in templates if (root / t(n)).exists())
    mon.equal(pathlib.Path(iotools.find_file_by_template(templates, n, directory=root)), want.resolve(), 'find', 'template')
    mon.expect(iotools.find_file_by_template(templates, 999, directory=root) is None, 'find', 'no template')


SUBS = {
    'history': (history, 160, 3000),
    'accumulated': (accumulated, 48, 800),
    'mutated': (mutated, 48, 600),
    'paths': (paths, 16, 160),
    'readonly': (readonly, 16, 80),
    'viewers': (viewers, 24, 200),
    'find': (find, 16, 160),
}
