"""What a unit means does not depend on spelling, order or earlier use."""
import json
import os
import subprocess
import sys

from harness import siref, ugen
from goats.core import metric, physical, symbolic

RULE = ('a distinct query answered in at least two different process histories '
        '(fresh, shuffled, preceded by unrelated use, other hash seed) and compared')
ASSUMPTIONS = (
    'Histories run in forked children of a process that has only imported the package, '
    'so every child starts from the state a user starts from.',
    'Numbers are compared to 1e-9; the textual order of factors in a unit is not compared.',
)
MUST_SEE = ('oracle:collision', 'oracle:history', 'oracle:hashseed', 'oracle:spelling', 'oracle:singleton')


# ---- queries: plain data, answered by one interpreter
def canon(text):
    """Order-free reading of a unit's text."""
    ts = ugen.parse(text)
    if ts is None:
        return str(text)
    out = {}
    for p, s, _, e in ts:
        k = p + '|' + s
        out[k] = out.get(k, 0) + e
    return sorted((k, str(v)) for k, v in out.items() if v)


def dim(d):
    return None if d is None else sorted(str(d).split())


def answer(q):
    kind, *args = q
    try:
        if kind == 'conversion':
            return metric.conversion(*args)
        u = metric.Unit(args[0])
        if kind == 'unit':
            return canon(u)
        if kind == 'norm':
            return [canon(u.norm[s]) for s in ('mks', 'cgs')]
        if kind == 'dims':
            return [dim(u.dimensions[s]) for s in ('mks', 'cgs')]
        if kind == 'dimensionless':
            return bool(u.dimensionless)
        if kind == 'named':
            n = metric.NamedUnit(args[0])
            return [n.quantity, n.scale, n.base.name]
        if kind == 'same':
            v = metric.Unit(args[1])
            return [bool(u == v), bool(v == u)]
        if kind == 'eq':
            return bool(u == metric.Unit(args[1]))
        if kind == 'consistent':
            return bool(u | metric.Unit(args[1]))
        if kind == 'mul':
            return canon(u * metric.Unit(args[1]))
        if kind == 'div':
            return canon(u / metric.Unit(args[1]))
        if kind == 'floordiv':
            return u // metric.Unit(args[1])
        if kind == 'scalar':
            x = physical.Scalar(2.5, unit=args[0])[args[1]]
            return [float(x), canon(x.unit)]
        if kind == 'system':
            return canon(metric.System(args[1]).get_unit(unit=args[0]))
    except (metric.UnitConversionError, metric.UnitParsingError) as err:
        return 'refused: ' + type(err).__name__
    except Exception as err:
        return 'error: ' + type(err).__name__
    raise ValueError(kind)


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def queries(rng, n):
    out = []
    while len(out) < n:
        a = ugen.terms(rng, ugen.ALL, exponents=ugen.INTEGERS)
        b = ugen.same_quantity(rng, a)
        c = ugen.respell(rng, a)
        rng.shuffle(c)
        A, B, C = ugen.fmt(rng, a), ugen.fmt(rng, b), ugen.fmt(rng, c)
        single = ugen.one(rng, ugen.ALL, symbolic=False)[2]
        one = ugen.one(rng, ugen.ALL)[2]
        kind = rng.choice(['conversion', 'conversion', 'unit', 'norm', 'dims', 'named',
                           'same', 'eq', 'consistent', 'mul', 'div', 'floordiv', 'scalar',
                           'dimensionless', 'system', 'conversion1'])
        if kind == 'conversion1':
            t = ugen.one(rng, ugen.ALL)
            out.append(['conversion', t[2], ugen.one(rng, ugen.BYQ[siref.UNITS[t[1]][1]])[2]])
        elif kind == 'conversion':
            D = B if rng.random() < 0.8 else one
            out.append([kind, A, D])
        elif kind in ('unit', 'norm', 'dims', 'dimensionless'):
            out.append([kind, rng.choice([A, B, one])])
        elif kind == 'named':
            out.append([kind, single])
        elif kind == 'same':
            out.append([kind, A, C])
        elif kind in ('eq', 'consistent'):
            out.append([kind, A, rng.choice([B, C, one])])
        elif kind in ('mul', 'div'):
            out.append([kind, rng.choice([A, one]), rng.choice([one, C])])
        elif kind in ('floordiv', 'scalar'):
            out.append([kind, A, B])
        elif kind == 'system':
            out.append([kind, A, rng.choice(['mks', 'cgs'])])
    return out


def child(func):
    """Run `func` in a fork and return its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(func(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError(f'history child ended with status {status}')
    return json.loads(text)


def run_in_order(qs, order, before=()):
    def func():
        for q in before:
            answer(q)
        got = {}
        for i in order:
            got[i] = answer(qs[i])
        return [got[i] for i in range(len(qs))]
    return child(func)


def compare(mon, key, qs, base, other, how):
    for q, x, y in zip(qs, base, other):
        mon.saw(*q)
        mon.expect(alike(x, y), key, f'{q} gave {x} fresh but {y} {how}')


def history(mon, rng, i):
    qs = queries(rng, 40)
    order = list(range(len(qs)))
    base = run_in_order(qs, order)
    sh = order[:]
    rng.shuffle(sh)
    compare(mon, 'history', qs, base, run_in_order(qs, sh), 'when asked in another order')
    before = queries(rng, 40)
    compare(mon, 'history', qs, base, run_in_order(qs, order, before), 'after unrelated use')
    # variants of the same questions first: other spellings of the same units
    compare(mon, 'history', qs, base, run_in_order(qs, sh, qs[::-1] + before), 'after repeated use')
    for q, x in zip(qs, base):
        if q[0] == 'same':
            mon.expect(x == [True, True], 'equal-spellings', f'{q[1]!r} == {q[2]!r}: {x}')
        if isinstance(x, str) and x.startswith('error'):
            mon.expect(False, 'query-error', f'{q}: {x}')
    mon.sample(f'{len(qs)} queries, 4 histories, first {qs[0]}')


def spelling(mon, rng, i):
    """Alone in a fresh process, each spelling means the same."""
    s = sorted(siref.UNITS)[i % len(siref.UNITS)]
    p = rng.choice([''] + ugen.PREFIXES)
    ks = [k for k in siref.spellings(p, s) if k not in siref.AMBIGUOUS]
    if s == 'ohm':
        ks = [k for k in ks if k == 'ohm' or k.endswith('ohm') and len(k) > 5] + ([p + 'Ω'])
    kk = ugen.one(rng, ugen.BYQ[siref.UNITS[s][1]])[2]
    def ask(k):
        return child(lambda: [answer(q) for q in (
            ['named', k], ['unit', k], ['conversion', k, kk], ['conversion', kk, k],
            ['dims', k], ['norm', k], ['floordiv', k, kk], ['scalar', k, kk])])
    base = ask(ks[0])
    for k in ks[1:]:
        got = ask(k)
        mon.saw(k, ks[0])
        mon.expect(alike(base, got), 'spelling', f'{k!r}: {got} but {ks[0]!r}: {base}')
    # all spellings are one object, whichever came first
    def same(order):
        return child(lambda: [metric.Unit(a) is metric.Unit(b) for a in order for b in order])
    for order in (ks, ks[::-1]):
        got = same(order)
        mon.expect(all(got), 'singleton', f'{order} are not one unit: {got}')


def hashseed(mon, rng, i):
    qs = queries(rng, 120)
    base = None
    for seed in (0, rng.randint(1, 10**6), rng.randint(1, 10**6)):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        done = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c',
             'import sys; sys.path[:0] = ["/repo/src", sys.argv[1]]; '
             'import json; from harness.props import p03; '
             'print(json.dumps([p03.answer(q) for q in json.load(sys.stdin)]))',
             os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))],
            input=json.dumps(qs), capture_output=True, text=True, env=env, timeout=120)
        if done.returncode:
            raise RuntimeError(done.stderr[-500:])
        got = json.loads(done.stdout)
        if base is None:
            base = got
        else:
            compare(mon, 'hashseed', qs, base, got, f'with hash seed {seed}')


CASEPAIRS = []
for _s in siref.UNITS:
    for _p, _q in (('m', 'M'), ('p', 'P'), ('z', 'Z'), ('y', 'Y')):
        a, b = _p + _s, _q + _s
        if all(k in siref.spellings(p, _s) and k not in siref.AMBIGUOUS
               for k, p in ((a, _p), (b, _q))):
            CASEPAIRS.append((_p, _q, _s))


def collide(mon, rng, i):
    """Questions whose text nearly coincides must not be mixed up."""
    qs = []
    for _ in range(10):
        p, q, s = rng.choice(CASEPAIRS)
        if rng.random() < 0.4:      # the same letters, other case
            rest = ugen.terms(rng, [u for u in ugen.SI if siref.UNITS[u][1] != siref.UNITS[s][1]], 1)
            to = rng.choice(ugen.BYQ[siref.UNITS[s][1]])
            e = rng.choice([1, -1, 2, -2])
            texts = [ugen.fmt(rng, [(x, s, x + s, e)] + rest, 'space') for x in (p, q)]
            target = ugen.fmt(rng, [('', to, to, e)] + ugen.respell(rng, rest), 'space')
        elif rng.random() < 0.5:
            texts = [p + s, q + s]
            target = ugen.one(rng, ugen.BYQ[siref.UNITS[s][1]])[2]
        else:                       # the same units, exchanged or inverted exponents
            a, b = ugen.terms(rng, ugen.SI, 2, exponents=[1])
            f = lambda m, n: ugen.fmt(rng, [a[:3] + (m,), b[:3] + (n,)], 'space')
            m, n = rng.sample([1, 2, 3, -1, -2], 2)
            texts = [f(m, n), f(n, m), f(-m, -n), f(m, -n)]
            t = ugen.same_quantity(rng, [a[:3] + (m,), b[:3] + (n,)])
            target = ugen.fmt(rng, t)
        for t in texts:
            qs += [['conversion', t, target], ['conversion', target, t], ['floordiv', t, target],
                   ['dims', t], ['norm', t], ['consistent', t, target], ['unit', t]]
    order = list(range(len(qs)))
    rng.shuffle(order)
    base = run_in_order(qs, order)
    compare(mon, 'collision', qs, base, run_in_order(qs, order[::-1]), 'when asked in the reverse order')
    rng.shuffle(order)
    compare(mon, 'collision', qs, base, run_in_order(qs, order), 'when asked in another order')


SUBS = {
    'collide': (collide, 24, 400),
    'history': (history, 64, 1600),
    'spelling': (spelling, len(siref.UNITS), 20 * len(siref.UNITS)),
    'hashseed': (hashseed, 8, 100),
}
