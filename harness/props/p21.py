"""Runtime parameters: configuration files, defaults, source files and arguments, against a restated table."""
import contextlib
import io
import json
import math
import os
import re
import shutil
import tempfile

import numpy

from goats.core import measurable, operational, physical
from goats.eprem import runtime
from harness import eptable

RULE = ('a distinct configuration (set of parameters given, how they were written, and where) whose parameter values, '
        'units and aliases were all compared with the restated table of EPREM parameters')
ASSUMPTIONS = (
    'The table of parameters, defaults and units is EPREM\'s, restated in harness/eptable.py.',
    'Configuration files hold one name=value pair per line; of repeated names the last one counts; an empty value '
    'means the default; values contain no comment character.',
    'EPREM source files are generated line by line in the form of configuration.c and baseTypes.h, without trailing comments.',
)
MUST_SEE = ('oracle:default', 'oracle:config', 'oracle:derived', 'oracle:alias', 'oracle:unit', 'oracle:type', 'oracle:file',
            'oracle:constants', 'oracle:source', 'oracle:path', 'oracle:diff', 'oracle:compare', 'oracle:missing',
            'oracle:argument', 'oracle:comments', 'oracle:keys', 'oracle:generated')

P = eptable.PARAMETERS
LOCAL = {'minimum_energy': (0.0, 'MeV', ('Emin', 'minimum energy')), 'reference energy': (1.0, 'MeV', ('energy0',)),
         'reference radius': (1.0, 'au', ('r0',))}
UNIT_OF = {k: v[2] for k, v in P.items()}


def constants(table):
    """Values of the constants of baseTypes.h."""
    out = {}

    def value(k):
        if k not in out:
            env = {n: value(n) for n in re.findall(r'[A-Z_]+\b', table[k]) if n in table}
            env['sqrt'] = math.sqrt
            # a leading letter guards against the exponents of numbers
            out[k] = eval(re.sub(r'\b(?<![\d.])([A-Z_]+)\b', r'\1', table[k]), {'__builtins__': {}}, env)
        return out[k]

    for k in table:
        value(k)
    return out


CONST = constants(eptable.CONSTANTS)


def expected(given, params=P, const=CONST):
    """The value of each parameter."""
    out = {}

    def value(k):
        if k in out:
            return out[k]
        t, default = params[k][:2]
        if given.get(k) not in (None, ''):
            v = given[k]
            v = {int: int, float: float, str: str, list: lambda s: [float(x) for x in s.strip('[]').split(',') if x.strip()]}[t](v)
        elif isinstance(default, str) and t is not str:
            env = {**const, 'third': 1 / 3}
            text = re.sub(r'config\.(\w+)', lambda m: repr(value(m.group(1))), default)
            v = eval(text, {'__builtins__': {}}, env)
        else:
            v = default
        out[k] = v
        return v

    for k in params:
        value(k)
    return out


def same(a, b):
    """Values of a parameter agree."""
    if b is None or isinstance(b, str):
        return type(a) in (type(b), numpy.str_) and a == b
    if isinstance(b, list):
        a = list(a) if isinstance(a, (list, tuple, numpy.ndarray)) else [a]
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, list)) or a is None:
        return False
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=0.0)


def number(rng):
    x = rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(-10, 10), 10 ** rng.uniform(-8, 8)])
    return rng.choice([repr(x), f'{x:.3e}', f'{x:g}', f'{x:.6f}', f'+{abs(x)!r}', str(int(x))])


def written(rng, name):
    """A value for a parameter, as a user may write it."""
    t = P[name][0]
    if t is int:
        return str(rng.choice([0, 1, 2, 10, 500, rng.randrange(10 ** 6)]))
    if t is float:
        return number(rng)
    if t is list:
        sep = rng.choice([',', ', ', ' , '])
        return '[' + sep.join(repr(round(rng.uniform(0, 5), 4)) for _ in range(rng.randint(1, 4))) + ']'
    return rng.choice(['/data/run', 'file.txt', 'a b', '12', '../x=y', 'third', 'PI', 'lamo'])


def config(rng, k=None, comments='#'):
    """(text, mapping) of a configuration file."""
    names = rng.sample(sorted(P), rng.randint(0, 25) if k is None else k)
    # parameters that others depend on
    for n in ('simStartTime', 'tDel', 'lamo', 'simStopTime'):
        if rng.random() < 0.3 and n not in names:
            names.append(n)
    pairs, lines = {}, []
    for n in names:
        v = written(rng, n)
        if rng.random() < 0.05:
            lines.append(f'{n}={written(rng, n)}')  # overridden below
        if rng.random() < 0.03:
            v = ''
        pairs[n] = v
        eq = rng.choice(['=', '=', '=', ' = ', ' =', '= ', '\t=  '])
        lead = rng.choice(['', '', '', '  ', '\t'])
        tail = rng.choice(['', '', '', ' ', f' {comments[0]} note', f'{comments[-1]}note', f'  {comments[-1]} {n}=99'])
        lines.append(f'{lead}{n}{eq}{v}{tail}')
        if rng.random() < 0.2:
            lines.append(rng.choice(['', ' ', '\t', f'{comments[0]} text', f'  {comments[-1]} {n}=77', comments[0], f'{comments[-1]}{n}=7']))
    extra = {}
    if rng.random() < 0.3:
        extra['notAParameter'] = '3'
        lines.insert(0, 'notAParameter=3')
    text = '\n'.join(lines) + rng.choice(['', '\n', '\n\n'])
    return text, {**pairs, **extra}


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='rt-', dir=os.environ['VERIF_SCRATCH'])
    cwd = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def judge(mon, iface, want, given, what, rng, all_=True):
    """Every parameter of an interface."""
    for k, v in want.items():
        if not all_ and rng.random() < 0.7 and k not in given:
            continue
        key = 'config' if k in given else 'derived' if isinstance(P[k][1], str) and P[k][0] is float else 'default'
        arg = iface[k]
        mon.expect(same(arg.data, [] if v is None else v) or (v is None and arg.data is None), key, what, k, '| got', repr(arg.data), 'want', v)
        u = UNIT_OF[k]
        mon.expect((arg.unit is None) == (u is None) and (u is None or arg.unit == u), 'unit', what, k, '| got', arg.unit, 'want', u)
        for a in P[k][3]:
            mon.expect(same(iface[a].data, v) and iface[a].unit == u, 'alias', what, k, a, '| got', iface[a].data)
            mon.expect(a in iface, 'alias', what, k, a, '| not in interface')


def typed(mon, rt, want, what):
    for k, v in want.items():
        got = rt[k]
        mon.expect(same(got, v), 'type', what, k, '| got', repr(got), 'want', repr(v))
        if v is not None:
            mon.expect(isinstance(got, (int, float)) if P[k][0] is float else isinstance(got, P[k][0]), 'type', what, k, type(got))


def case_defaults(mon, rng, i):
    want = expected({})
    how = rng.choice(['interface', 'runtime', 'arguments', 'twice'])
    if how == 'runtime':
        typed(mon, runtime.Runtime(), want, 'defaults')
        mon.equal(set(runtime.Runtime()), set(P), 'keys', 'defaults')
    elif how == 'arguments':
        args = runtime.Arguments(runtime.Runtime())
        for k, v in want.items():
            a = args[k]
            got = list(a.data) if UNIT_OF[k] else a.value
            mon.expect(same(got, ([v] if not isinstance(v, list) else v) if UNIT_OF[k] else v), 'default', 'Arguments', k, got, v)
    else:
        it = runtime.Interface()
        judge(mon, it, want, {}, 'no config file', rng)
        for k, (v, u, al) in LOCAL.items():
            for n in (k, *al):
                mon.expect(same(it[n].data, v) and it[n].unit == u, 'default', n, it[n])
                mon.expect(it.config(n, 'none') == 'none', 'default', n, '| in config')
        mon.refuses(lambda: it['noSuchParameter'], 'missing', 'noSuchParameter', errors=KeyError)
        mon.expect(it.get('noSuchParameter', 5) == 5, 'missing', 'get')
    mon.saw('defaults', how)


def case_constants(mon, rng, i):
    b = runtime.BaseTypesH()
    names = sorted(CONST)
    rng.shuffle(names)
    mon.equal(set(b), set(CONST), 'keys', 'constants')
    for k in names:
        mon.expect(same(b[k], CONST[k]) and isinstance(b[k], int if isinstance(CONST[k], int) else float), 'constants', k, b[k], CONST[k])
    mon.refuses(lambda: b['NOT_THERE'], 'missing', 'NOT_THERE', errors=KeyError)
    mon.saw('constants', tuple(names[:5]))


def case_config(mon, rng, i):
    comments = rng.choice(['#', '#', '#', ';', '#!', '%#'])
    text, given = config(rng, comments=comments)
    want = expected(given)
    opts = {} if comments == '#' else {'comments': list(comments)}
    with scratch() as d:
        name = rng.choice(['eprem_input_file', 'config.ini', 'run'])
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            f.write(text)
        arg = rng.choice([path, 'relative', 'home', 'pathlib'])
        old = os.environ.get('HOME')
        if arg == 'relative':
            os.chdir(d)
            arg = name
        elif arg == 'home':
            os.environ['HOME'] = d
            arg = '~/' + name
        elif arg == 'pathlib':
            import pathlib
            arg = pathlib.Path(path)
        try:
            it = runtime.Interface(arg, **opts)
            rt = runtime.Runtime(config_path=arg, **opts)
            cf = runtime.ConfigFile(arg, **opts)
            typed(mon, rt, want, f'{text!r}')
        finally:
            if old is not None:
                os.environ['HOME'] = old
        what = f'{text!r} read from {arg}'
        mon.sample(what)
        mon.equal(dict(cf), given, 'comments' if opts else 'file', what)
        mon.equal(len(cf), len(given), 'file', what)
        for k in rng.sample(sorted(P), 5):
            mon.expect((k in cf) == (k in given), 'file', what, k)
            if k not in given:
                mon.refuses(lambda: cf[k], 'missing', what, k, errors=KeyError)
        judge(mon, it, want, given, what, rng)
        for k in rng.sample(sorted(P), 10):
            got = it.config(k, 'absent')
            mon.expect(same(got.data, want[k]) if k in given else got == 'absent', 'config', what, k, 'config()', got)
        with open(path) as f:
            mon.equal(f.read(), text, 'file', 'file changed')
        # the same path with other contents
        text, given = config(rng, comments=comments)
        want = expected(given)
        with open(path, 'w') as f:
            f.write(text)
        what = f'{text!r} read again from {path}'
        judge(mon, runtime.Interface(path, **opts), want, given, what, rng, all_=False)
        typed(mon, runtime.Runtime(config_path=path, **opts), want, what)
        mon.equal(dict(runtime.ConfigFile(path, **opts)), given, 'comments' if opts else 'file', what)
    mon.saw(tuple(sorted(given.items())), comments)


def case_paths(mon, rng, i):
    """Changing the config file or source of a set of arguments."""
    with scratch() as d:
        files = []
        for n in range(3):
            text, given = config(rng)
            path = os.path.join(d, f'conf{n}')
            with open(path, 'w') as f:
                f.write(text)
            files.append((path, given))
        src = os.path.join(d, 'src')
        table, params, const = source(rng, src)
        rt = runtime.Runtime()
        cur, source_, p = {}, None, P
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.25:
                # both at once, in either order
                path, cur = rng.choice(files)
                source_ = rng.choice([src, None])
                new = [('config', path), ('source', source_)]
                rng.shuffle(new)
                rt.path_to(**dict(new))
                mon.equal(rt.path_to('config', 'source'), [path, source_], 'path', 'both')
            elif rng.random() < 0.7:
                path, cur = rng.choice(files)
                mon.expect(rt.path_to(config=path) is rt, 'path', 'result')
                mon.equal(rt.path_to('config'), path, 'path', 'config')
            elif rng.random() < 0.5:
                rt.path_to(source=src)
                mon.equal(rt.path_to('source'), src, 'path', 'source')
                source_ = src
            else:
                rt.path_to(source=None)
                source_ = None
            want = expected(cur, params if source_ else P, const if source_ else CONST)
            for k, v in want.items():
                mon.expect(same(rt[k], v), 'path', k, 'from', cur.get(k), '| got', rt[k], 'want', v, 'source', bool(source_))
        mon.refuses(lambda: rt.path_to(), 'missing', 'path_to()', errors=TypeError)
        mon.refuses(lambda: rt.path_to('config', source=src), 'missing', 'path_to(get and set)', errors=TypeError)
    mon.saw('paths', tuple(sorted(cur.items())))


MODES = {int: 'readInt', float: 'readDouble', str: '(char*)readString', list: 'readDoubleArray'}


def source(rng, d):
    """Write EPREM sources with other values: (attributes, parameters, constants)."""
    os.makedirs(d, exist_ok=True)
    table = dict(eptable.CONSTANTS)
    for k, v in table.items():
        if re.fullmatch(r'[\d.e+-]+', v) and rng.random() < 0.6:
            table[k] = (str(rng.randrange(500)) if re.fullmatch(r'\d+', v)
                        else rng.choice([f'{10 ** rng.uniform(-12, 12):.5e}', f'{rng.uniform(0.1, 9):.4f}']))
    lines = ['#ifndef BASETYPES_H', '#define BASETYPES_H', '/* constants */', 'typedef double Scalar_t;', '#include <math.h>']
    for k, v in table.items():
        lines.append(f"#define{rng.choice([' ', '  ', chr(9)])}{k}{rng.choice([' ', '     '])}{v}{rng.choice(['', ' '])}")
        if rng.random() < 0.1:
            lines.append(f'// #define {k} 17')
    with open(os.path.join(d, 'baseTypes.h'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    params, attrs = {}, {}
    lines = ['#include "configuration.h"', 'Config_t config;', 'void getParams(void) {']
    for k in rng.sample(sorted(P), len(P)):
        t, default, u, al = P[k]
        sp = lambda: rng.choice(['', ' ', '  '])
        if t is int:
            v = None if default is None else rng.choice([default, rng.randrange(100)])
            text = 'N_PROCS' if v is None else str(v)
            lo, hi = '0', rng.choice(['1', 'BADINT', '1000'])
            rest, attr = f'{sp()}{text},{sp()}{lo},{sp()}{hi}{sp()}', {'default': text, 'minimum': lo, 'maximum': hi}
        elif t is float:
            v = default if isinstance(default, str) else rng.choice([default, round(rng.uniform(0, 9), 3), 10 ** rng.randint(-6, 6) * 1.0])
            text = v if isinstance(v, str) else repr(v)
            lo, hi = rng.choice(['VERYSMALL', '0.0', '-1.0 * BADVALUE']), rng.choice(['BADVALUE', '2.0 * PI', 'PI'])
            rest, attr = f'{sp()}{text},{sp()}{lo},{sp()}{hi}', {'default': text, 'minimum': lo, 'maximum': hi}
        elif t is str:
            v = rng.choice([default, 'other.txt'])
            rest, attr = f'{sp()}"{v}"', {'default': v}
        else:
            v = [float(rng.choice([0, 1, 2.5]))]
            text = f'{v[0]:g}'
            var = f'default_{k}'
            lines.append(f'  Scalar_t {var}[1] ={sp()}{{{text}}};')
            rest, attr = f'{sp()}1,{sp()}{var}', {'default': f'[{text}]'}
        name = k
        if rng.random() < 0.1 and t is not list:
            name = rng.choice([k + 'X', k.upper() if k.upper() != k else k + 'X', k[:-1] or 'X'])
            attr['alias'] = name
        params[k] = (t, v, u, al)
        attrs[k] = {'type': t, **attr}
        lines.append(f'  config.{k}{sp()}={sp()}{MODES[t]}("{name}",{rest});')
        if rng.random() < 0.1:
            lines.append(f'  // config.{k} = readInt("{k}", 99, 0, 1);')
    lines.append('}')
    with open(os.path.join(d, 'configuration.c'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return attrs, params, constants({**table})


def case_source(mon, rng, i):
    with scratch() as d:
        attrs, params, const = source(rng, os.path.join(d, 'src'))
        src = os.path.join(d, 'src')
        c = runtime.ConfigurationC(src)
        mon.equal(set(c), set(attrs), 'source', 'parameters')
        for k, a in attrs.items():
            mon.equal(dict(c[k]), a, 'source', k)
        b = runtime.BaseTypesH(src)
        mon.equal(set(b), set(const), 'source', 'constants')
        for k, v in const.items():
            mon.expect(same(b[k], v), 'source', k, b[k], v)
        text, given = config(rng)
        path = os.path.join(d, 'conf')
        with open(path, 'w') as f:
            f.write(text)
        rt = runtime.Runtime(src, path)
        want = expected(given, params, const)
        for k, v in want.items():
            mon.expect(same(rt[k], v), 'source', k, '| got', rt[k], 'want', v)
        # what is written for later use describes the same parameters
        js = c.format('json')
        modes = {t: m.replace('(char*)', '') for t, m in MODES.items()}
        for k, a in attrs.items():
            mon.equal(dict(js[k]), {'mode': modes[a['type']], **{x: y for x, y in a.items() if x != 'type'}}, 'source', k, 'json')
        mon.refuses(lambda: c['noSuchParameter'], 'missing', errors=KeyError)
        # a database generated from the source is complete and describes the same parameters and constants
        out = os.path.join(d, 'generated')
        before = None
        mode = rng.choice([None, 'write', 'append'])
        if mode == 'append' or rng.random() < 0.5:
            before = {'other': {'x': [1, 2], 'y': 'z'}}
            with open(out + '.json', 'w') as f:
                json.dump(before, f)
        runtime.generate_defaults(src, output=out, action=mode)
        with open(out + '.json') as f:
            made = f.read()
        try:
            made = json.loads(made)
        except ValueError as err:
            mon.fail('generated', 'unreadable database', str(err))
            made = None
        if made is not None:
            mon.equal(made.get('_CONFIGURATION_C'), {k: dict(v) for k, v in js.items()}, 'generated', 'parameters')
            mon.equal(set(made.get('_BASETYPES_H', ())), set(const), 'generated', 'constants')
            again = constants({k: str(v) for k, v in made.get('_BASETYPES_H', {}).items()})
            for k, v in again.items():
                mon.expect(same(v, const[k]), 'generated', k, v, const[k])
            mon.equal({k: v for k, v in made.items() if not k.startswith('_')}, before if mode == 'append' else {}, 'generated', mode)
        mon.refuses(lambda: runtime.generate_defaults(src, output=out, action='other'), 'missing', 'action', errors=ValueError)
    mon.saw('source', tuple(sorted((k, str(v)) for k, v in want.items())))


def numbers_in(s):
    return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?', s)]


def shown(mon, text, value, key, *what):
    """A displayed value stands for `value`."""
    if value is None or isinstance(value, str):
        mon.expect(text in (repr(value), str(value)), key, *what, '| shown', text, 'want', value)
        return
    got = numbers_in(text.split("'")[0])
    want = value if isinstance(value, list) else [value]
    mon.expect(len(got) == len(want) and all(math.isclose(g, w, rel_tol=1e-6, abs_tol=1e-12) for g, w in zip(got, want)),
               key, *what, '| shown', text, 'want', value)


def case_compare(mon, rng, i):
    with scratch() as d:
        base = {}
        files, seen = [], []
        for n in range(rng.randint(1, 3)):
            pairs = {k: written(rng, k) for k in rng.sample(sorted(k for k in P if P[k][0] is not str), rng.randint(1, 6))}
            if n and rng.random() < 0.7:
                pairs = {**base, **({} if rng.random() < 0.3 else dict(list(pairs.items())[:1]))}
            base = base or pairs
            sub = rng.choice(['', 'a', 'b/c'])
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            path = os.path.join(d, sub, f'conf{n}')
            with open(path, 'w') as f:
                f.write(''.join(f'{k}={v}\n' for k, v in pairs.items()))
            files.append(path)
            seen.append((pairs, expected(pairs)))
        what = f'{[s[0] for s in seen]}'
        if len(files) > 1:
            a, b = (runtime.ConfigFile(f) for f in files[:2])
            pa, pb = seen[0][0], seen[1][0]
            other = rng.choice([b, files[1]])
            mon.equal(a.diff(other)['keys'], {0: set(pa) - set(pb), 1: set(pb) - set(pa)}, 'diff', what)
            mon.equal(a.compare(other), {k: (pa.get(k), pb.get(k)) for k in sorted({*pa, *pb})}, 'diff', what)
            mon.refuses(lambda: a.diff(3), 'missing', 'diff(3)', errors=TypeError)
        os.chdir(rng.choice(['/', d, os.environ['VERIF_SCRATCH']]))
        mode = rng.choice(['show', 'diff', None])
        given = [os.path.relpath(f) if rng.random() < 0.3 else f for f in files]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            runtime.compare_arguments(given, action=mode)
        common = os.path.commonpath([os.path.dirname(f) for f in files])
        labels = [os.path.relpath(f, common) for f in files]
        blocks = {}
        for block in re.split(r'\n\s*\n', out.getvalue()):
            rows = [r for r in block.splitlines() if r.strip()]
            if rows:
                found = blocks[rows[0].strip()] = {}
                for r in rows[2:]:
                    # a wide value may follow its label without a space
                    label = max((l for l in ('default', *labels) if r.startswith(l)), key=len, default=r)
                    found[label] = r[len(label):].strip()
        default = expected({})
        differ = [k for k in P if any((k in s[0]) != (k in seen[0][0]) or (k in s[0] and not same(s[1][k], seen[0][1][k]))
                                      for s in seen)]
        mon.equal(set(blocks), set(P) if mode != 'diff' else set(differ), 'compare', what, mode, 'parameters')
        for k, rows in blocks.items():
            mon.equal(set(rows), {'default', *labels}, 'compare', what, k, 'rows')
            shown(mon, rows['default'], default[k], 'compare', what, k, 'default')
            for l, (pairs, want) in zip(labels, seen):
                shown(mon, rows[l], want[k] if k in pairs else None, 'compare', what, k, l)
        mon.refuses(lambda: runtime.compare_arguments(files, action='other'), 'missing', 'action', errors=ValueError)
    mon.saw('compare', mode, what)


def case_argument(mon, rng, i):
    """One or more values with or without a unit."""
    unit = rng.choice([None, 'm', 'au', 'MeV', 'km / s', '1'])
    if unit is None:
        v = rng.choice([0, 1, 5, 'text', 'x', '', ' ', '12', True, False])
        a = operational.Argument(v, None) if rng.random() < 0.5 else operational.Argument(v)
        vals = [v]
    else:
        n = rng.choice([1, 1, 2, 3])
        vals = [rng.choice([0.0, 1.0, -2.5, rng.uniform(-5, 5)]) for _ in range(n)]
        form = rng.choice(['list', 'array', 'single', 'measure', 'vector'])
        if form == 'single' and n == 1:
            a = operational.Argument(vals[0], unit)
        elif form == 'measure':
            a = operational.Argument(measurable.measure(*vals, unit))
        elif form == 'vector':
            a = operational.Argument(physical.Vector(vals, unit=unit))
        else:
            a = operational.Argument(numpy.array(vals) if form == 'array' else list(vals), unit)
    what = f'Argument({vals}, {unit!r})'
    mon.expect(same(a.data, vals[0] if len(vals) == 1 else vals), 'argument', what, '| data', a.data)
    mon.expect(a.unit is None if unit is None else a.unit == unit, 'argument', what, '| unit', a.unit)
    mon.equal(len(a), len(vals), 'argument', what, 'length')
    mon.expect(same(list(a), vals), 'argument', what, '| values', list(a))
    truth = bool(vals[0].strip()) if isinstance(vals[0], str) else vals[0] if isinstance(vals[0], bool) else True
    mon.equal(bool(a), truth, 'argument', what, 'truth')
    k = rng.randrange(-len(vals), len(vals))
    got = a[k]
    if unit is None:
        mon.expect(got == vals[k], 'argument', what, k, '| got', got)
    else:
        mon.expect(same(float(got), vals[k]) and got.unit == unit, 'argument', what, k, '| got', got)
        m = measurable.measure(a)
        mon.expect(same(list(m.data), vals) and m.unit == unit, 'argument', what, '| measured', m)
        if len(vals) == 1:
            mon.expect(same(float(a), vals[0]) and int(a) == int(vals[0]), 'argument', what, '| number')
        else:
            mon.refuses(lambda: float(a), 'missing', what, 'float', errors=operational.NumericCastError)
        b = operational.Argument([*vals[:-1], vals[-1] + 1], unit)
        mon.expect(a != b and not a == b, 'argument', what, '| equal to', b)
        c = operational.Argument(list(vals), 'kg')
        mon.expect(not a == c, 'argument', what, '| equal to', c)
    if unit is not None:
        j, k = sorted(rng.sample(range(len(vals) + 1), 2))
        for s in (slice(j, k), slice(None), slice(None, None, -1)):
            part = a[s]
            mon.expect(len(part) == len(vals[s]) and same([float(x) for x in part], vals[s])
                       and all(x.unit == unit for x in part), 'argument', what, s, '| got', part)
    mon.refuses(lambda: a[len(vals)], 'missing', what, len(vals), errors=IndexError)
    mon.expect(a == operational.Argument(vals[0] if len(vals) == 1 else vals, unit), 'argument', what, '| not equal to itself')
    mon.refuses(lambda: operational.Argument(1.5), 'missing', 'Argument(1.5)', errors=TypeError)
    mon.refuses(lambda: operational.Argument(1.5, 'm', 'km'), 'missing', 'Argument(1.5, m, km)', errors=TypeError)
    mon.saw('argument', unit, tuple(vals))


SUBS = {
    'defaults': (case_defaults, 24, 100),
    'constants': (case_constants, 8, 40),
    'config': (case_config, 240, 4000),
    'paths': (case_paths, 64, 1000),
    'source': (case_source, 64, 1000),
    'compare': (case_compare, 120, 2000),
    'argument': (case_argument, 400, 6000),
}
