"""Look-up containers and helpers of the core against plain models."""
import itertools

import numpy

from goats.core import fundamental, iterables, physical, plasma, spelling, utilities

RULE = ('a distinct container content, request or history of operations whose answer was compared with that of a plain model')
ASSUMPTIONS = (
    'Table keys are strings that are valid keyword arguments; tables have at least one entry.',
    'Objects registered without a name have a __name__ or __qualname__.',
    'Where several elements share a rounded mass, which of them is reported is not judged beyond having that mass.',
    'The order of spelling suggestions is not judged.',
)
MUST_SEE = ('oracle:table-column', 'oracle:table-strict', 'oracle:table-iterative', 'oracle:table-refused', 'oracle:table-find',
            'oracle:registry', 'oracle:registry-reset', 'oracle:registry-copy', 'oracle:graph', 'oracle:graph-inverse',
            'oracle:bijection', 'oracle:bijection-refused', 'oracle:guard', 'oracle:guard-unknown', 'oracle:spelling',
            'oracle:spelling-known', 'oracle:spelling-far', 'oracle:helper', 'oracle:element', 'oracle:species', 'oracle:instances')

KEYS = ['a', 'b', 'name', 'symbol', 'x', 'unit', 'factor']
VALUES = [0, 1, 2, -1, 1.5, 'x', 'y', 'm', '', None, True, (1, 2)]


# ------------------------------------------------------------------ tables
def outcome(func, *args, **kwargs):
    try:
        return 'value', func(*args, **kwargs)
    except iterables.AmbiguousRequestError:
        return 'ambiguous', None
    except iterables.TableLookupError:
        return 'missing', None
    except iterables.TableKeyError:
        return 'key', None
    except iterables.AmbiguousValueError:
        return 'ambiguous', None
    except iterables.MissingValueError:
        return 'missing', None


def same(got, want):
    return got[0] == want[0] and (got[0] != 'value' or got[1] is want[1])


def strict(rows, common, request):
    """The only entry that meets all criteria."""
    if any(k not in common for k in request):
        return 'key', None
    found = [r for r in rows if all(r[k] == v for k, v in request.items())]
    return ('value', found[0]) if len(found) == 1 else ('missing', None)


def iterative(rows, common, request):
    """The entry singled out by the shortest leading part of the request."""
    for n, k in enumerate(request, start=1):
        if k not in common:
            return 'key', None
        part = dict(itertools.islice(request.items(), n))
        found = [r for r in rows if all(r[j] == v for j, v in part.items())]
        if len(found) == 1:
            return 'value', found[0]
    return ('ambiguous' if request and len(found) > 1 else 'missing'), None


def table(mon, rng, i):
    keys = rng.sample(KEYS, rng.randint(1, 5))
    pool = rng.sample(VALUES, rng.randint(2, 6))
    rows = []
    for _ in range(rng.randint(1, 8)):
        row = {k: rng.choice(pool) for k in rng.sample(keys, len(keys))}
        if rng.random() < 0.3:
            row.pop(rng.choice(keys))
        if rng.random() < 0.3:
            row[rng.choice(KEYS)] = rng.choice(pool)
        rows.append(row)
    common = {k for k in KEYS if all(k in r for r in rows)}
    kept = [dict(r) for r in rows]
    t = iterables.Table(rows)
    mon.sample(f'{rows}')
    mon.equal(len(t), len(rows), 'table-column', 'len', rows)
    mon.equal(list(t), rows, 'table-column', 'iter', rows)
    mon.equal(set(t.keys), common, 'table-column', 'keys', rows)
    for _ in range(rng.randint(4, 10)):
        k = rng.choice(KEYS)
        if k in common:
            mon.equal(t[k], tuple(r[k] for r in rows), 'table-column', k, rows)
            mon.expect(k in t, 'table-column', k, 'in', rows)
        else:
            mon.refuses(lambda: t[k], 'table-refused', k, rows, errors=iterables.TableKeyError)
        d = rng.choice([None, 'default', 0])
        mon.equal(t.get(k, d), tuple(r.get(k, d) for r in rows), 'table-column', 'get', k, d, rows)
        v = rng.choice(VALUES)
        found = [r for r in rows if any(x == v for x in r.values())]
        want = ('missing', None) if not found else ('ambiguous', None) if len(found) > 1 else ('value', found[0])
        got = outcome(t.find, v, unique=True)
        mon.expect(same(got, want), 'table-find', 'unique', v, rows, got, want)
        if found:
            mon.equal(t.find(v), found, 'table-find', v, rows)
        else:
            mon.refuses(lambda: t.find(v), 'table-find', v, rows, errors=iterables.MissingValueError)
        names = rng.sample(KEYS if rng.random() < 0.3 or not common else sorted(common), 1) + \
            [n for n in (sorted(common) if common else KEYS) if rng.random() < 0.5]
        row = rng.choice(rows)
        request = {n: row[n] if n in row and rng.random() < 0.7 else rng.choice(VALUES) for n in dict.fromkeys(names)}
        got, want = outcome(t, strict=True, **request), strict(rows, common, request)
        mon.expect(same(got, want), 'table-strict', request, rows, got, want)
        got, want = outcome(t, **request), iterative(rows, common, request)
        mon.expect(same(got, want), 'table-iterative', request, rows, got, want)
        mon.saw('table', str(rows), str(request), want[0])
    mon.equal(rows, kept, 'table-column', 'look-ups changed the entries')


# ---------------------------------------------------------------- registry
def thing(name, kind):
    if kind == 'class':
        return type(name, (), {})

    def f():
        return name
    f.__name__ = name
    f.__qualname__ = name
    return f


def registry(mon, rng, i):
    okey = rng.choice(['object', 'method', 'thing'])
    names = ['f', 'g', 'f_1', 'f_2', 'g_1', 'h']
    base = {}
    for n in rng.sample(names, rng.randint(0, 3)):
        o = thing(n, 'function')
        base[n] = o if rng.random() < 0.5 else {okey: o, 'note': n}
    model = {k: v if isinstance(v, dict) else {okey: v} for k, v in base.items()}
    init = dict(model)
    reg = iterables.ObjectRegistry(base or rng.choice([None, {}]), object_key=okey)
    log = [('base', sorted(base))]

    def agree(r, m, key='registry'):
        mon.equal(dict(r), m, key, log)
        mon.equal((len(r), set(r.keys())), (len(m), set(m)), key, log)
        mon.expect(all((n in r) == (n in m) for n in names), key, log)
        mon.refuses(lambda: r['no such key'], key, log, errors=KeyError)

    agree(reg, model)
    for _ in range(rng.randint(3, 12)):
        op = rng.random()
        if op < 0.7:
            o = thing(rng.choice(names), rng.choice(['function', 'class']))
            name = rng.choice([None, None, *names])
            over = rng.random() < 0.4
            meta = {k: rng.choice([1, 'x', None]) for k in rng.sample(['unit', 'note', 'axes'], rng.randint(0, 2))}
            kw = dict(meta)
            if name:
                kw['name'] = name
            if over:
                kw['overwrite'] = True
            log.append(('register', o.__name__, kw))
            before = set(model)
            if kw and rng.random() < 0.7:
                got = reg.register(**kw)(o)
            else:
                got = reg.register(o, **kw)
            mon.expect(got is o, 'registry', 'the decorated object changed', log)
            if name and (over or name not in model):
                key = name
            elif o.__qualname__ not in model:
                key = o.__qualname__
            else:
                new = set(reg) - before
                mon.require(len(new) == 1, 'registry', 'an object with a taken name gets one new key', log, sorted(new), sorted(before))
                key = new.pop()
                mon.expect(key.startswith(o.__qualname__ + '_'), 'registry', 'derived from its name', key, log)
            model[key] = {okey: o, **meta}
            agree(reg, model)
        elif op < 0.82:
            log.append('reset')
            reg.reset()
            model = dict(init)
            agree(reg, model, 'registry-reset')
        else:
            log.append('copy')
            c = reg.copy()
            agree(c, model, 'registry-copy')
            o = thing('only in the copy', 'function')
            c.register(o)
            mon.expect('only in the copy' in c and 'only in the copy' not in reg, 'registry-copy', log)
            agree(reg, model, 'registry-copy')
            c.reset()
            agree(c, model, 'registry-copy')
            if rng.random() < 0.5:
                log.append('continue with the copy')
                reg, init = c, dict(model)
        mon.saw('registry', str(log))
    mon.sample(str(log))


# ------------------------------------------------------------------- graph
def graph(mon, rng, i):
    nodes = list('abcdef')
    weights = [1.0, 2.0, 0.5, 1e-3, 1e6, 3, -2.0, None, 1e-7]
    pick = lambda: (rng.choice(nodes), rng.choice(nodes), rng.choice(weights))
    model = {}

    def add(s, e, w):
        model.setdefault((s, e), w)
        model.setdefault((e, s), 1 / w if w else w)

    base = {}
    for _ in range(rng.randint(0, 4)):
        s, e, w = pick()
        base[(s, e)] = w
    for (s, e), w in base.items():
        add(s, e, w)
    g = iterables.Connections(base or rng.choice([None, {}]))
    log = [base]
    for step in range(rng.randint(2, 8)):
        if step:
            s, e, w = pick()
            log.append((s, e, w))
            add(s, e, w)
            g.add_connection(s, e, w) if w is not None or rng.random() < 0.5 else g.add_connection(s, e)
        mon.equal({c: g.get_weight(*c) for c in g}, model, 'graph', log)
        mon.equal(len(g), len(model), 'graph', log)
        mon.equal(g.nodes, {n for c in model for n in c}, 'graph', log)
        for s, e in itertools.product(nodes, nodes):
            mon.equal((s, e) in g, (s, e) in model, 'graph', s, e, log)
            if (s, e) in model:
                w, v = g.get_weight(s, e), g.get_weight(e, s)
                mon.expect(w is None and v is None or s == e or abs(w * v - 1) < 1e-12, 'graph-inverse', s, e, w, v, log)
            else:
                mon.refuses(lambda: g.get_weight(s, e), 'graph', s, e, log, errors=KeyError)
        for n in nodes + ['z']:
            mon.equal(g.get_adjacencies(n), {e: w for (s, e), w in model.items() if s == n}, 'graph', 'adjacent to', n, log)
        mon.saw('graph', str(log))
    str(g), repr(g)
    mon.sample(str(log))


def bijection(mon, rng, i):
    keys = rng.sample(['a', 'b', 'c', 1, 2, None, (1,), 'A'], rng.randint(0, 6))
    pool = ['x', 'y', 'z', 0, 1, None, (2,), 'a', 'X']
    values = rng.sample(pool, len(keys)) if rng.random() < 0.6 else [rng.choice(pool) for _ in keys]
    d = dict(zip(keys, values))
    mon.saw('bijection', str(d))
    if len(set(d.values())) < len(d):
        mon.refuses(lambda: iterables.Bijection(d), 'bijection-refused', d, errors=TypeError)
        return
    given = rng.choice([d, list(d.items())])
    b = iterables.Bijection(given)
    mon.equal(dict(b), d, 'bijection', d)
    mon.equal(dict(b.invert()), {v: k for k, v in d.items()}, 'bijection', 'inverse', d)
    mon.equal(dict(b.invert().invert()), d, 'bijection', 'double inverse', d)
    mon.expect(all(b.invert()[b[k]] == k for k in d), 'bijection', d)
    mon.refuses(lambda: b['no such key'], 'bijection', d, errors=KeyError)
    d['later'] = 'added'
    mon.expect('later' not in b and len(b) == len(d) - 1, 'bijection', 'depends on its argument', d)


# ------------------------------------------------------------------- guard
class Custom(ValueError):
    pass


class Deeper(Custom):
    pass


ERRORS = [ValueError, Custom, Deeper, KeyError, LookupError, IndexError, TypeError, ZeroDivisionError, ArithmeticError, Exception]


def guard(mon, rng, i):
    def func(*args, **kwargs):
        if raised is not None:
            raise raised('x')
        return ('result', args, kwargs)
    g = iterables.Guard(func)
    known = {}
    for _ in range(rng.randint(0, 5)):
        e = rng.choice(ERRORS[:-1] if rng.random() < 0.9 else ERRORS)
        v = rng.choice([None, 0, 'value', ..., [1], False])
        if v is None and rng.random() < 0.5:
            g.catch(e)
        else:
            g.catch(e, v) if rng.random() < 0.5 else g.catch(e, value=v)
        known[e] = v
    for _ in range(rng.randint(2, 6)):
        raised = rng.choice([None, *ERRORS])
        args = tuple(rng.choice([1, 'a', None, [2]]) for _ in range(rng.choice([0, 1, 1, 2, 3])))
        kwargs = {k: rng.choice([1, None]) for k in rng.sample(['p', 'q'], rng.choice([0, 0, 1, 2]))}
        what = (str(known), str(raised), args, kwargs)
        mon.saw('guard', str(what))
        if raised is None:
            mon.equal(g.call(*args, **kwargs), ('result', args, kwargs), 'guard', what)
            continue
        hit = next((t for t in raised.__mro__ if t in known), None)
        if hit is None:
            try:
                got = g.call(*args, **kwargs)
            except Exception as err:
                mon.expect(type(err) is raised, 'guard-unknown', what, repr(err))
            else:
                mon.fail('guard-unknown', 'an unknown exception was swallowed', what, got)
                mon.event('oracle:guard-unknown')
            continue
        v = known[hit]
        want = v
        if v is ...:
            want = (args, kwargs) if args and kwargs else kwargs if kwargs else args[0] if len(args) == 1 else args
        mon.equal(g.call(*args, **kwargs), want, 'guard', what)


# ---------------------------------------------------------------- spelling
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def one(a, b):
    """True if one edit leads from `a` to `b`."""
    n, m = len(a), len(b)
    if m == n - 1:
        return any(a[:k] + a[k + 1:] == b for k in range(n))
    if m == n + 1:
        return any(b[:k] + b[k + 1:] == a and b[k] in LETTERS for k in range(m))
    if n != m:
        return False
    diff = [k for k in range(n) if a[k] != b[k]]
    if not diff:
        return True
    if len(diff) == 1:
        return b[diff[0]] in LETTERS
    return len(diff) == 2 and diff[1] == diff[0] + 1 and a[diff[0]] == b[diff[1]] and a[diff[1]] == b[diff[0]]


def near(a, b):
    """Words one edit away from `a` that may lead to `b`."""
    use = sorted(set(b) & set(LETTERS))
    out = {a}
    for k in range(len(a) + 1):
        out.update(a[:k] + c + a[k:] for c in use)
        if k < len(a):
            out.add(a[:k] + a[k + 1:])
            out.update(a[:k] + c + a[k + 1:] for c in use)
        if k + 1 < len(a):
            out.add(a[:k] + a[k + 1] + a[k] + a[k + 2:])
    return out


def two(a, b):
    return abs(len(a) - len(b)) <= 2 and any(one(w, b) for w in near(a, b))


def mangle(rng, word, n, kinds='dirts'):
    for _ in range(n):
        k = rng.randint(0, len(word))
        kind = rng.choice(kinds)
        c = rng.choice(LETTERS + ' _1')
        if kind == 'd':
            word = word[:k] + word[k + 1:]
        elif kind == 'i':
            word = word[:k] + c + word[k:]
        elif kind == 'r':
            word = word[:k] + c + word[k + 1:]
        elif kind == 't' and k + 1 < len(word):
            word = word[:k] + word[k + 1] + word[k] + word[k + 2:]
        elif kind == 's':
            word = word.swapcase() if rng.random() < 0.1 else word + c
    return word


WORDS = ['time', 'shell', 'species', 'energy', 'mu', 'radius', 'r', 'flux', 'fluence', 'Vr', 'Br', 'rho', 'density', 'B', 'V',
         'mean free path', 'mfp', 'T', 'tim', 'times', 'phi', 'theta', 'pho', 'rigidity', 'a1', 'a2', '']


def spell(mon, rng, i):
    words = rng.sample(WORDS, rng.randint(1, 9))
    c = spelling.SpellChecker(*words)
    for _ in range(2):
        pick = rng.choice([w for w in words if len(w) < 8] or ['mu'])
        if rng.random() < 0.35:
            name = mangle(rng, rng.choice([w for w in words if 3 < len(w) < 8] or [pick]), 2, rng.choice(['d', 'd', 'i', 'r', 't', 'dt']))
        else:
            name = mangle(rng, pick, rng.choice([0, 1, 1, 2, 2, 3]))
        if len(name) > 8:
            name = name[:8]
        if name in words:
            want, key = set(), 'spelling-known'
        else:
            want = {w for w in words if one(name, w)} or {w for w in words if two(name, w)}
            key = 'spelling' if want else 'spelling-far'
        mon.saw('spelling', name, tuple(sorted(words)))
        got = c.check(name, mode='suggest')
        mon.equal((len(got), set(got)), (len(want), want), key, name, words)
        mon.equal(c.check(name, mode='truth'), not want, key, name, words)
        try:
            c.check(name)
        except spelling.SpellingError as err:
            mon.expect(want and all(w in str(err) for w in want) and name in str(err), key, name, words, str(err))
            mon.equal(set(err.suggested), want, key, name, words)
        else:
            mon.expect(not want, key, name, words, 'no error')
    mon.equal(c.known([*words, 'nonsense']), set(words), 'spelling-known', words)
    mon.refuses(lambda: c.check('x', mode='other'), 'spelling', errors=ValueError)


# ----------------------------------------------------------------- helpers
def nested(rng, depth):
    if depth == 0 or rng.random() < 0.3:
        return rng.choice([1, 2.5, 'ab', '', None, {'k': 1}, {1, 2}])
    n = rng.choice([0, 1, 1, 1, 2, 3])
    return rng.choice([list, tuple])(nested(rng, depth - 1) for _ in range(n))


def peel(x):
    return peel(x[0]) if isinstance(x, (list, tuple)) and len(x) == 1 else x


def members(x):
    """What a whole object holds."""
    if x is None:
        return []
    if isinstance(x, str) or not hasattr(x, '__iter__'):
        return [x]
    return list(x)


def helpers(mon, rng, i):
    def check(got, want, *what):
        mon.expect(type(got) is type(want) and got == want, 'helper', *what, '| got', repr(got), '| want', repr(want))
    x = nested(rng, rng.randint(0, 4))
    mon.saw('helpers', repr(x), i % 50)
    mon.sample(repr(x))
    check(iterables.unwrap(x), peel(x), 'unwrap', x)
    for t in (list, tuple):
        check(iterables.unwrap(x, wrap=t), t(members(peel(x))), 'unwrap', t, x)
    w = iterables.whole(x)
    check((list(w), len(w)), (members(x), len(members(x))), 'whole', x)
    check(all(m in w for m in members(x)), True, 'whole', x)
    check(isinstance(x, iterables.whole), hasattr(x, '__iter__') and not isinstance(x, str), 'whole instance', x)
    # unique
    items = [rng.choice([1, 1.0, 'a', 'b', (1,), [1], None, 0, False]) for _ in range(rng.randint(0, 8))]
    want = [v for k, v in enumerate(items) if v not in items[:k]]
    got = iterables.unique(*items)
    mon.expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'helper', 'unique', items, got, want)
    # distribute
    a, b = (rng.choice([1, 'ab', [1, 2], (3,), [], ['x', 'y', 'z'], None]) for _ in 'ab')
    wa, wb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if wa or wb:
        want = [(p, q) for p in (a if wa else [a]) for q in (b if wb else [b])]
        check(list(iterables.distribute(a, b)), want, 'distribute', a, b)
    else:
        mon.refuses(lambda: iterables.distribute(a, b), 'helper', 'distribute', a, b, errors=TypeError)
    # missing
    for v, want in ((0, False), (0.0, False), (1, False), (False, False), ('', True), ('0', False), ([], True), ([0], False),
                    ({}, True), ((), True), (None, True), (numpy.array([]), True), (numpy.array([0.0]), False),
                    (numpy.zeros((2, 2)), False), (numpy.zeros((0, 3)), True), (0j, False), (set(), True)):
        check(bool(iterables.missing(v)), want, 'missing', repr(v))
    # hastype
    obj = rng.choice([1, 's', 2.0, [1, 2], [1, 2.0], (1, 's'), [], (), {1, 's'}, [[1]], None])
    types = rng.choice([int, str, list, (int, float), (int, str), type(None)])
    wraps = rng.sample([list, tuple, set], rng.randint(0, 3))
    st = rng.random() < 0.5
    if isinstance(obj, types):
        want = True
    elif any(isinstance(obj, t) for t in wraps):
        want = (all if st else any)(isinstance(m, types) for m in obj)
    else:
        want = False
    check(iterables.hastype(obj, types, *wraps, strict=st), want, 'hastype', repr(obj), types, wraps, st)
    # slices
    n = rng.randint(1, 9)
    s = slice(*(rng.choice([None, 0, 1, 2, -1, -2, -12, 12, 5]) for _ in 'ab'), rng.choice([None, 1, 2, -1, -2, 3]))
    check(list(iterables.slice_to_range(s, n)), list(range(n))[s], 'slice_to_range', s, n)
    mon.refuses(lambda: iterables.slice_to_range(s, None), 'helper', 'slice_to_range', s, errors=TypeError)
    # strings
    nums = [rng.choice([1, -2, 3.5, 1e-9, 0, 1e20, -0.25]) for _ in range(rng.randint(0, 5))]
    sep = rng.choice([',', ', ', ' , '])
    check(iterables.string_to_list('[' + sep.join(map(repr, nums)) + ']'), nums, 'string_to_list', nums, sep)
    bad = rng.choice(['1, 2', '(1, 2)', '[1', '1]', '', '[a, b]'])
    mon.refuses(lambda: iterables.string_to_list(bad), 'helper', 'string_to_list', bad, errors=TypeError)
    vals = list(range(rng.randint(0, 8)))
    k = rng.randint(1, 6)
    sep = rng.choice([',', ', '])
    want = sep.join(map(str, vals)) if len(vals) <= k else sep.join([*map(str, vals[:k - 1]), '...', str(vals[-1])])
    check(iterables.show_at_most(k, vals, separator=sep), want, 'show_at_most', k, vals)
    r, c = rng.randint(1, 4), rng.randint(0, 4)
    m = [[(p, q) for q in range(c)] for p in range(r)]
    check(iterables.transpose_list(m), [[m[p][q] for p in range(r)] for q in range(c)], 'transpose', m)
    tree = {'a': {'b': {'c': 1}, 'd': 2}, 'e': 3}
    path = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c'], ('a', 'd'), ('e',)])
    want = tree
    for p in path:
        want = want[p]
    check(iterables.get_nested_element(tree, path), want, 'nested', path)
    check(iterables.extract_single(x), x[0] if isinstance(x, (str, list, tuple)) and len(x) == 1 else x, 'extract', x) \
        if not isinstance(x, (dict, set)) else None
    lst = list(range(rng.randint(0, 3)))
    want = lst[0] if lst else 'default'
    rest = lst[1:]
    check(iterables.pop(lst, 'default'), want, 'pop')
    check(lst, rest, 'pop')
    types = rng.choice([int, str, (int, str)])
    args = [rng.choice([1, 's', 2.0]) for _ in range(rng.randint(0, 3))]
    check(iterables.allinstance(args, types), all(isinstance(v, types) for v in args), 'allinstance', args, types)
    calls = []
    res = [rng.choice([None, 0, '', 'yes', 7]) for _ in range(rng.randint(0, 4))]
    methods = [lambda v, r=r: (calls.append((r, v)), r)[1] for r in res]
    check(iterables.apply(methods, 5), next((v for v in res if v), None), 'apply', res)
    first = next((k for k, v in enumerate(res) if v), len(res) - 1)
    check(calls, [(v, 5) for v in res[:first + 1]], 'apply stops at the first result', res)
    # attributes
    class A:
        tags = 'a'
        def method(self, p=1, *, q=2):
            return (p, q)

    class B(A):
        tags = ['b', 'c']

    class C(B):
        pass
    own = C if rng.random() < 0.5 else B
    check(iterables.class_attribute(own, 'tags'), ['a', 'b', 'c'] + (['b', 'c'] if own is C else []), 'class_attribute')
    obj = own()
    obj.value = rng.choice([0, None, 'v'])
    check(utilities.getattrval(obj, 'value'), obj.value, 'getattrval')
    check(utilities.getattrval(obj, 'method', 3, q=4), (3, 4), 'getattrval')
    check(utilities.getattrval(5, 'no such attribute'), 5, 'getattrval')
    utilities.setattrval(obj, 'value', 11)
    check(obj.value, 11, 'setattrval')
    objs = [own() for _ in range(rng.randint(1, 4))]
    for o in objs:
        o.value = rng.choice([1, 1, 1, 2])
        if rng.random() < 0.1:
            del o.value
    have = [getattr(o, 'value', None) for o in objs]
    check(utilities.equal_attrs('value', *objs), None not in have and len(set(have)) == 1, 'equal_attrs', have)
    mon.refuses(lambda: utilities.equal_attrs('value'), 'helper', 'equal_attrs', errors=ValueError)
    # mappings of a uniform type
    d = {k: {p: rng.choice([1, 'x', None]) for p in rng.sample(['value', 'name', 'extra'], rng.randint(0, 3))} for k in 'abc'}
    class T:
        def __init__(self, value, name):
            self.value, self.name = value, name
    u = iterables.UniformMapping(d, T)
    check({k: (v.value, v.name) for k, v in u.items()}, {k: (v.get('value'), v.get('name')) for k, v in d.items()}, 'uniform', d)
    mon.refuses(lambda: u['z'], 'helper', 'uniform', errors=KeyError)
    n = iterables.Nothing
    check((n['x'], n(1, a=2), len(n), 'x' in n, list(n), bool(n), iterables.NothingType() is n),
          (None, None, 0, False, [], False, True), 'Nothing')


# ---------------------------------------------------------------- elements
MASSES = {}
for _row in fundamental.ELEMENTS:
    MASSES.setdefault(round(_row['mass']), []).append(_row['symbol'])
LIGHT = {1: ['H'], 4: ['He'], 7: ['Li'], 9: ['Be'], 11: ['B'], 12: ['C'], 14: ['N'], 16: ['O'], 19: ['F'], 20: ['Ne'], 23: ['Na'],
         24: ['Mg'], 27: ['Al'], 28: ['Si'], 31: ['P'], 32: ['S'], 39: ['K'], 40: ['Ar', 'Ca'], 56: ['Fe']}


def elements(mon, rng, i):
    if i % 6 == 0:
        for m, s in LIGHT.items():
            mon.expect(set(s) <= set(MASSES.get(m, ())), 'element', m, s, MASSES.get(m))
    n = rng.randint(1, 5)
    masses = [rng.choice(sorted(LIGHT) if rng.random() < 0.6 else sorted(MASSES)) for _ in range(n)]
    charges = [rng.choice([-2, -1, 0, 1, 2, 3, 6, 14]) for _ in range(n)]
    wobble = lambda v: v + rng.choice([0, 0, 0.2, -0.2, 1e-9, -0.4])
    given = ([wobble(m) for m in masses], [q + rng.choice([0, 0, 1e-9, -1e-9, .1, -.1]) if q else q for q in charges])
    form = rng.choice([list, tuple, numpy.array])
    mon.saw('elements', str(given))
    got = fundamental.elements(form(given[0]), form(given[1]))
    mon.equal(len(got), n, 'element', given, got)
    for s, m, q in zip(got, masses, charges):
        mon.expect(s.rstrip('+-') in MASSES[m], 'element', given, got)
        mon.equal(s[len(s.rstrip('+-')):], ('+' if q > 0 else '-') * abs(q), 'element', given, got)
    if n == 1:
        mon.equal(fundamental.elements(given[0][0], given[1][0]), got, 'element', 'scalar', given)
    mon.refuses(lambda: fundamental.elements(form(given[0]), form(given[1] + [1])), 'element', 'lengths', errors=TypeError)
    bad = rng.choice([0, 5, 17, 300, -1, 1000])
    mon.refuses(lambda: fundamental.elements([bad], [1]), 'element', bad, errors=fundamental.MassValueError)
    # species
    row = rng.choice(list(fundamental.ELEMENTS))
    q = rng.choice([-2, -1, 0, 1, 2, 3, 11])
    sym = row['symbol'] + ('+' if q > 0 else '-') * abs(q)
    sp = plasma.Species(sym)
    order = ['m', 'q', 'mass', 'charge', 'symbol']
    rng.shuffle(order)
    for attr in order:
        v = getattr(sp, attr)
        if attr == 'symbol':
            mon.equal(v, sym, 'species', sym)
        else:
            want, unit = (row['mass'], 'nucleon') if attr in ('m', 'mass') else (float(q), 'e')
            mon.expect(isinstance(v, physical.Scalar) and float(v) == want and v.unit == unit, 'species', sym, attr, v)
            mon.expect(attr in v.name, 'species', sym, attr, v.name)
    m = rng.choice(masses)
    back = plasma.Species(mass=wobble(m), charge=q)
    mon.expect(back.symbol.rstrip('+-') in MASSES[m] and back.symbol[len(back.symbol.rstrip('+-')):] == sym[len(row['symbol']):],
               'species', m, q, back.symbol)
    mon.refuses(plasma.Species, 'species', 'undefined', errors=ValueError)


# --------------------------------------------------------------- instances
def instances(mon, rng, i):
    class Meta(iterables.InstanceSet):
        _instances = {}
        def _generate_key(self, *args, **kwargs):
            return (args, tuple(sorted(kwargs.items())))

    class Thing(metaclass=Meta):
        made = 0
        def __init__(self, *args, **kwargs):
            type(self).made += 1
            self.args, self.kwargs = args, kwargs
    seen = {}
    log = []
    for _ in range(rng.randint(2, 12)):
        args = tuple(rng.choice([1, 2, 'a']) for _ in range(rng.randint(0, 2)))
        kwargs = {k: rng.choice([1, 2]) for k in rng.sample('pq', rng.randint(0, 2))}
        log.append((args, kwargs))
        t = Thing(*args, **kwargs)
        key = (args, tuple(sorted(kwargs.items())))
        mon.expect(t is seen.setdefault(key, t), 'instances', log)
        mon.equal((t.args, t.kwargs), (args, kwargs), 'instances', log)
        mon.equal(Thing.made, len(seen), 'instances', log)
        mon.saw('instances', str(log))
    mon.equal(len({id(t) for t in seen.values()}), len(seen), 'instances', log)


SUBS = {
    'table': (table, 1500, 20000),
    'registry': (registry, 600, 8000),
    'graph': (graph, 300, 4000),
    'bijection': (bijection, 300, 3000),
    'guard': (guard, 600, 6000),
    'spell': (spell, 48, 1200),
    'helpers': (helpers, 800, 10000),
    'elements': (elements, 200, 3000),
    'instances': (instances, 200, 2000),
}
