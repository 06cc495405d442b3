"""Aliased mappings and groups against a model: groups of names with one value each."""
import itertools

from goats.core import aliased

RULE = ('a distinct history of operations on an aliased mapping (or groups, or name map) '
        'whose complete contents were compared with the model after each step')
ASSUMPTIONS = (
    'Keys are strings (or tuples, lists and sets of strings); the order of aliases within a group '
    'is unspecified and not compared.',
    'Views obtained before a later change of the mapping are not judged.',
    'Assigning through a tuple of names, which the interface does not document, is not generated.',
)
MUST_SEE = ('oracle:contents', 'oracle:refused', 'oracle:refused-kept', 'oracle:isolated', 'oracle:merge',
            'oracle:built', 'oracle:groups', 'oracle:group', 'oracle:namemap', 'oracle:squeeze', 'oracle:equal')

NAMES = ['a', 'A', 'a0', 'b', 'B', 'b0', 'time', 't', 'T', 'times', 'x', 'xx', 'r', 'radius', 'mu', 'mu0', 'v', 'V r', '1', '']
VALUES = [0, 1, -1, None, '', 'text', 2.5, (), [], False, True]


class Model:
    """An unordered partition of names, each part with a value."""

    def __init__(self, items=()):
        self.items = []
        for names, value in items:
            self.put(names, value)

    def put(self, names, value):
        names = frozenset(names)
        for part, _ in [p for p in self.items if p[0] & names]:
            names |= part
        self.items = [p for p in self.items if not p[0] & names] + [(names, value)]

    def find(self, name):
        for p in self.items:
            if name in p[0]:
                return p
        return None

    def drop(self, name):
        self.items = [p for p in self.items if name not in p[0]]

    def flat(self):
        return {n: v for part, v in self.items for n in part}

    def copy(self):
        m = Model()
        m.items = list(self.items)
        return m

    def __repr__(self):
        return str([(sorted(p), v) for p, v in self.items])


def parts(rng, n, low=1, high=4):
    """Disjoint groups of names."""
    names = rng.sample(NAMES, len(NAMES))
    out = []
    for _ in range(n):
        k = min(rng.randint(low, high), len(names))
        if k:
            out.append([names.pop() for _ in range(k)])
    return out


def written(rng, part):
    """A key that stands for a group of names."""
    part = rng.sample(part, len(part))
    if len(part) == 1 and rng.random() < 0.6:
        return part[0]
    return rng.choice([tuple(part), aliased.Group(*part), aliased.Group(part)])


def alike(x, y):
    return type(x) is type(y) and x == y


def contents(mon, m, model, what, key='contents'):
    """Every public reading of the mapping agrees with the model."""
    flat = model.flat()
    ok = mon.expect(sorted(m) == sorted(flat) and len(m) == len(flat), key, what, f'| names {list(m)}, want {model}')
    mon.expect(all(n in m and alike(m[n], v) for n, v in flat.items()), key, what, f'| values {m!r}, want {model}')
    if not ok:
        return
    for n in NAMES:
        if n not in flat:
            mon.expect(n not in m and m.get(n, 'absent') == 'absent', key, what, f'| has {n!r}')
    mon.expect(m.flat == flat, key, what, f'| flat {m.flat}, want {flat}')
    mon.expect(sorted(m.keys()) == sorted(flat) and len(m.keys()) == len(m.values()) == len(m.items()) == len(flat),
               key, what, f'| keys {list(m.keys())}')
    mon.expect(dict(m.items()) == flat and all(any(alike(v, x) for x in flat.values()) for v in m.values()),
               key, what, f'| items {list(m.items())}')
    groups = list(m.keys(aliased=True))
    mon.expect(sorted(sorted(g) for g in groups) == sorted(sorted(p) for p, _ in model.items)
               and len(list(m.values(aliased=True))) == len(model.items), key, what, f'| groups {groups}, want {model}')
    mon.expect(all(alike(m[g], v) and alike(m[next(iter(g))], v) for g, v in m.items(aliased=True)), key, what, '| aliased items')
    for part, v in model.items:
        for order in ([*part], [*part][::-1]):
            g = aliased.Group(*order)
            mon.expect(g in m and alike(m[g], v) and g in m.keys(aliased=True), key, what, f'| group {order}')
        for n in part:
            mon.expect(set(m.alias(n, include=True)) == set(part), key, what, f'| alias({n!r}, include=True)')
            if len(part) > 1:
                mon.expect(set(m.alias(n)) == set(part) - {n}, key, what, f'| alias({n!r})')


def start(rng):
    n = rng.randint(0, 5)
    items = [(p, rng.choice(VALUES)) for p in parts(rng, n)]
    given = {written(rng, p): v for p, v in items}
    return given, Model(items)


def histories(mon, rng, i):
    given, model = start(rng)
    keep = dict(given)
    m = aliased.MutableMapping(given)
    steps = [f'MutableMapping({given})']
    contents(mon, m, model, str(steps))
    others = []
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(['set', 'set', 'del', 'alias', 'alias', 'update', 'pop', 'copy', 'freeze', 'setdefault',
                         'missing', 'clash', 'group', 'new group', 'clashing group', 'clear', 'popitem', 'merge'])
        flat = model.flat()
        name = rng.choice(sorted(flat)) if flat and rng.random() < 0.8 else rng.choice(NAMES)
        v = rng.choice(VALUES)
        if op == 'set':
            m[name] = v
            model.put([name], v)
        elif op == 'group':
            p = model.find(name)
            if not p:
                continue
            m[aliased.Group(*rng.sample(sorted(p[0]), len(p[0])))] = v
            model.put(p[0], v)
        elif op == 'new group':
            free = [n for n in NAMES if n not in flat]
            if not free:
                continue
            new = rng.sample(free, min(len(free), rng.randint(1, 3)))
            m[rng.choice([tuple, lambda x: aliased.Group(*x), frozenset])(new)] = v
            model.put(new, v)
            name = new
        elif op == 'clashing group':
            # names of different keys, or a name in use with a new one
            free = [n for n in NAMES if n not in flat]
            rest = [n for n in flat if n not in (model.find(name) or [()])[0]]
            if name not in flat or not (free or rest):
                continue
            new = [name, rng.choice(free + rest)]
            rng.shuffle(new)
            how = rng.choice([tuple, lambda x: aliased.Group(*x)])
            mon.refuses(lambda: m.__setitem__(how(new), v), 'refused', str(steps), f'[{new}] = {v!r}', errors=KeyError)
            contents(mon, m, model, f'{steps} after refused [{new}] = {v!r}', 'refused-kept')
        elif op == 'del':
            if name not in flat:
                continue
            del m[name]
            model.drop(name)
        elif op == 'pop':
            got = m.pop(name, 'none')
            mon.expect(alike(got, flat.get(name, 'none')), 'contents', str(steps), f'pop({name!r}) gave {got!r}')
            model.drop(name)
        elif op == 'popitem':
            if not flat:
                continue
            k, got = m.popitem()
            mon.expect(k in flat and alike(flat[k], got), 'contents', str(steps), f'popitem gave {(k, got)}')
            model.drop(k)
        elif op == 'clear':
            if rng.random() < 0.8:
                continue
            m.clear()
            model = Model()
        elif op == 'setdefault':
            got = m.setdefault(name, v)
            mon.expect(alike(got, flat.get(name, v)), 'contents', str(steps), f'setdefault({name!r}, {v!r}) gave {got!r}')
            if name not in flat:
                model.put([name], v)
        elif op == 'update':
            new = {n: rng.choice(VALUES) for n in rng.sample(NAMES, rng.randint(0, 3))}
            m.update(new)
            for n, x in new.items():
                model.put([n], x)
            name = new
        elif op == 'alias':
            free = [n for n in NAMES if n not in flat]
            if name not in flat or not free:
                continue
            new = rng.sample(free, min(len(free), rng.randint(1, 3)))
            if rng.random() < 0.2:
                new.insert(rng.randint(0, len(new)), name)
            m.alias(name, *new)
            model.put([name, *new], flat[name])
            name = (name, new)
        elif op == 'clash':
            # an alias that already belongs to another key is refused
            rest = [n for n in flat if n not in (model.find(name) or [()])[0]]
            free = [n for n in NAMES if n not in flat]
            if name not in flat or not rest or not free:
                continue
            new = [rng.choice(rest)]
            if rng.random() < 0.5:
                new.insert(rng.randint(0, 1), rng.choice(free))
            before = repr(model)
            mon.refuses(lambda: m.alias(name, *new), 'refused', str(steps), f'alias({name!r}, {new})', errors=KeyError)
            contents(mon, m, model, f'{steps} after refused alias({name!r}, *{new}) of {before}', 'refused-kept')
        elif op == 'missing':
            lost = [n for n in NAMES if n not in flat]
            if not lost:
                continue
            n = rng.choice(lost)
            for f in (lambda: m[n], lambda: m.__delitem__(n), lambda: m.pop(n), lambda: m.alias(n),
                      lambda: m.alias(n, include=True), lambda: m.alias(n, 'entirely new'),
                      lambda: m[aliased.Group(n, 'entirely new')], lambda: m[('entirely', 'new')]):
                mon.refuses(f, 'refused', str(steps), f'{n!r}', errors=KeyError)
            mon.expect('entirely new' not in m, 'refused-kept', str(steps))
        elif op == 'copy':
            c = m.copy() if rng.random() < 0.5 else aliased.MutableMapping(m)
            mon.expect(type(c) is type(m) and c == m and m == c, 'equal', str(steps))
            others.append((c, model.copy(), list(steps)))
            if rng.random() < 0.3:      # work on the copy from here on
                others[-1], m = (m, model.copy(), list(steps)), c
        elif op == 'freeze':
            others.append((aliased.Mapping(m), model.copy(), list(steps)))
        elif op == 'merge':
            d, n2 = start(rng)
            other = aliased.Mapping(d)
            joint = m | other
            want = model.copy()
            for p, x in n2.items:
                want.put(p, x)
            contents(mon, joint, want, f'{steps} | {d}', 'merge')
            contents(mon, other, n2, f'{steps} | {d}: right operand', 'isolated')
        steps.append((op, name, v))
        contents(mon, m, model, str(steps))
    for c, cm, cs in others:
        contents(mon, c, cm, f'snapshot at {cs}, then {steps}', 'isolated')
        mon.expect((c == m) is (cm.flat() == model.flat()), 'equal', str(steps), f'{c!r} == {m!r}')
    mon.expect(given == keep, 'isolated', str(steps), f'argument became {given}')
    mon.saw(str(steps))
    mon.sample(str(steps))
    mon.event('steps', len(steps))


def building(mon, rng, i):
    """All documented ways to give aliases."""
    ps = [list(p) for p in parts(rng, rng.randint(1, 5))]
    heads = [p[0] for p in ps]
    mode = rng.choice(['declared', 'key', 'groups', 'mapping', 'fromkeys', 'fromgroups', 'fromlist', 'repeat', 'shared', 'keysfrom'])
    mon.saw(mode, str(ps))
    def inner(p, key):
        rest = p[1:]
        d = {'n': rng.choice(VALUES), 'm': rng.choice(VALUES)}
        if rest or rng.random() < 0.5:
            d[key] = rest[0] if len(rest) == 1 and rng.random() < 0.5 else rng.choice([tuple(rest), list(rest)])
        return d
    if mode == 'shared':
        # groups that share a name are one group, with the latest value
        if len(ps) < 2:
            return
        for _ in range(rng.randint(1, 2)):
            p, q = rng.sample(ps, 2)
            p.append(rng.choice([n for n in q if n not in p] or [q[0] + '2']))
        given = {p[0]: {'n': rng.choice(VALUES), 'aliases': tuple(p[1:])} for p in ps}
        m = rng.choice([aliased.Mapping, aliased.MutableMapping])(given, aliases=rng.choice([None, 'aliases']))
        want = Model((p, {'n': given[p[0]]['n']}) for p in ps)
    elif mode in ('declared', 'key'):
        key = 'aliases' if mode == 'declared' else 'alt'
        given = {p[0]: inner(p, key) for p in ps}
        if mode == 'declared' and all(key not in d for d in given.values()):
            return
        m = aliased.Mapping(given) if mode == 'declared' and rng.random() < 0.7 else aliased.Mapping(given, aliases=key)
        want = Model((p, {k: v for k, v in given[p[0]].items() if k != key}) for p in ps)
    elif mode in ('groups', 'mapping'):
        given = {p[0]: rng.choice(VALUES) for p in ps}
        extra = [['unrelated', 'other']] if rng.random() < 0.5 else []
        keyed = [q for q in (rng.sample(p, len(p)) for p in ps) if len(q) > 1 or rng.random() < 0.5]
        gs = [written(rng, q) for q in rng.sample(keyed + extra, len(keyed + extra))]
        if not gs:
            return
        if mode == 'groups':
            m = aliased.Mapping(given, aliases=aliased.Groups(*gs))
        else:
            m = aliased.Mapping(given, aliases=aliased.Mapping({g: None for g in gs}))
        want = Model((p, given[p[0]]) for p in ps)
    elif mode == 'fromkeys':
        given = {p[0]: inner(p, 'aliases') for p in ps}
        v = rng.choice(VALUES)
        m = rng.choice([aliased.Mapping, aliased.MutableMapping]).fromkeys(given, value=v)
        want = Model((p, v) for p in ps)
    elif mode in ('fromgroups', 'fromlist'):
        v = rng.choice(VALUES)
        gs = [written(rng, p) for p in ps]
        m = aliased.Mapping.fromkeys(aliased.Groups(*gs) if mode == 'fromgroups' else gs, value=v)
        want = Model((p, v) for p in ps)
        given = gs
    elif mode == 'repeat':
        # a later key that repeats an alias overwrites the value
        given = [(written(rng, p), p, rng.choice(VALUES)) for p in ps]
        for _ in range(rng.randint(1, 3)):
            q = rng.sample(rng.choice(ps), 1)
            if rng.random() < 0.5:
                q += rng.sample(NAMES, rng.randint(0, 2))
            q = list(dict.fromkeys(q))
            given.insert(rng.randint(0, len(given)), (written(rng, q), q, rng.choice(VALUES)))
        keys = [k for k, _, _ in given]
        if any(a == b for a, b in itertools.combinations(keys, 2) if type(a) is type(b)):
            return
        d = {}
        for k, _, v in given:
            if k in d:
                return
            d[k] = v
        m = aliased.Mapping(d)
        want = Model((p, v) for _, p, v in given)
    elif mode == 'keysfrom':
        given = {p[0]: inner(p, 'aliases') for p in ps}
        got = aliased.keysfrom(given, aliases='aliases')
        mon.expect([sorted(g) for g in got] == [sorted(p) for p in ps], 'built', f'keysfrom({given}) gave {got}')
        got = aliased.keysfrom(given)
        mon.expect([sorted(g) for g in got] == [[p[0]] for p in ps], 'built', f'keysfrom({given}) gave {got}')
        m = aliased.Mapping(given, aliases='aliases')
        got = aliased.keysfrom(m)
        mon.expect(sorted(sorted(g) for g in got) == sorted(sorted(p) for p in ps), 'built', f'keysfrom({m}) gave {got}')
        return
    contents(mon, m, want, f'{mode}: {given}', 'built')
    mon.sample(f'{mode}: {given}')
    mon.refuses(lambda: m.__class__ is aliased.Mapping and m.__setitem__('q', 1) or aliased.Mapping().__getitem__('q'),
                'refused', mode, errors=(TypeError, AttributeError, KeyError))


def squeezing(mon, rng, i):
    ps = parts(rng, rng.randint(1, 5))
    same = rng.random() < 0.5
    names = ['k' if same else rng.choice(['k', 'l']) for _ in ps]
    values = [rng.choice(VALUES) for _ in ps]
    full = rng.random() < 0.7
    given = {}
    for p, k, v in zip(ps, names, values):
        d = {k: v}
        if not full and rng.random() < 0.5:
            d['other'] = 1
        given[written(rng, p)] = d
    m = aliased.Mapping(given)
    before = Model((p, d) for p, d in zip(ps, given.values()))
    single = all(len(d) == 1 for d in given.values())
    mon.saw('squeeze', str(given))
    if single and len(set(names)) > 1:
        mon.refuses(lambda: m.copy().squeeze(strict=True), 'squeeze', str(given), errors=TypeError)
        contents(mon, m, before, f'squeeze {given}', 'squeeze')
        r = m.copy().squeeze()
    else:
        r = m.copy().squeeze(strict=rng.random() < 0.5)
    want = Model(zip(ps, values)) if single else before
    contents(mon, r, want, f'squeeze {given}', 'squeeze')
    contents(mon, m, before, f'squeeze {given}: source', 'isolated')


def groups(mon, rng, i):
    """A collection of disjoint groups."""
    ps = [set(p) for p in parts(rng, rng.randint(0, 5))]
    g = aliased.Groups(*[written(rng, sorted(p)) for p in ps])
    model = [frozenset(p) for p in ps]
    steps = [str(sorted(map(sorted, ps)))]

    def check(g, model, what):
        mon.expect(len(g) == len(model) and sorted(sorted(x) for x in g) == sorted(sorted(x) for x in model)
                   and all(isinstance(x, aliased.Group) for x in g), 'groups', what, f'| {g!r}, want {model}')
        flat = sorted(n for p in model for n in p)
        mon.expect(sorted(g.flat) == flat, 'groups', what, f'| flat {g.flat}')
        for n in NAMES:
            p = next((p for p in model if n in p), None)
            found = g.find(n, 'none')
            mon.expect(set(found) == p if p else found == 'none', 'groups', what, f'| find({n!r}) gave {found}, want {p}')
            mon.expect((n in g) is bool(p), 'groups', what, f'| {n!r} in groups')
        for p in model:
            mon.expect(set(g.find(tuple(p)) or ()) == set(p), 'groups', what, f'| find({tuple(p)})')
        # any other group of several names is not there
        for _ in range(2):
            near = set(rng.choice(model)) if model and rng.random() < 0.8 else set()
            change = rng.choice(['fewer', 'more', 'any'])
            if change == 'fewer' and near:
                near.discard(rng.choice(sorted(near)))
            elif change == 'more':
                near.add(rng.choice(NAMES))
            else:
                near = set(rng.sample(NAMES, rng.randint(2, 4)))
            if len(near) < 2:
                continue
            q = rng.sample(sorted(near), len(near))
            for q in (tuple(q), aliased.Group(*q)):
                p = next((p for p in model if p == near), None)
                mon.expect((q in g) is bool(p) and (g.find(q) is not None) is bool(p), 'groups', what, f'| part {q} found {g.find(q)}')

    def merged(model, new):
        for q in new:
            q = frozenset(q)
            hit = [p for p in model if p & q]
            model = [p for p in model if not p & q] + [frozenset(q.union(*hit))]
        return model

    check(g, model, str(steps))
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(['add', 'discard', 'update', 'merge', 'without'])
        flat = [n for p in model for n in p]
        free = [n for n in NAMES if n not in flat]
        if op == 'add':
            q = rng.sample(free, min(len(free), rng.randint(1, 3)))
            if not q:
                continue
            if flat and rng.random() < 0.3:
                q.append(rng.choice(flat))
                mon.refuses(lambda: g.add(written(rng, q)), 'groups', str(steps), f'add({q})', errors=ValueError)
            else:
                g.add(written(rng, q))
                model = model + [frozenset(q)]
        elif op == 'discard':
            if rng.random() < 0.4:
                q = rng.sample(NAMES, rng.randint(2, 3))
                if model and rng.random() < 0.7:
                    q = sorted(rng.choice(model))[rng.randint(0, 1):]
                if len(q) > 1:
                    g.discard(written(rng, q))
                    model = [p for p in model if p != set(q)]
            else:
                q = rng.choice(NAMES)
                g.discard(q)
                model = [p for p in model if q not in p]
        elif op == 'without':
            q = rng.sample(NAMES, rng.randint(0, 3))
            r = g.without(*q)
            check(r, [p for p in model if not p & set(q)], f'{steps} without {q}')
            if model:
                p = rng.choice(model)
                r = g.without(aliased.Group(*p))
                check(r, [x for x in model if x != p], f'{steps} without group {p}')
        else:
            new = [rng.sample(NAMES, rng.randint(1, 3)) for _ in range(rng.randint(0, 3))]
            if new and rng.random() < 0.5:
                # groups of a collection are disjoint
                new = [sorted(p) for p in merged([], new)]
                arg = [aliased.Groups(*[written(rng, p) for p in new])]
            else:
                arg = [written(rng, p) for p in new]
            q = new
            if op == 'update':
                g.update(*arg)
                model = merged(model, new)
            else:
                r = g.merge(*arg)
                check(r, merged(model, new), f'{steps} merge {new}')
        steps.append((op, q))
        check(g, model, str(steps))
    mon.saw(str(steps))
    # single groups are sets of names
    a, b = rng.sample(NAMES, rng.randint(1, 4)), rng.sample(NAMES, rng.randint(1, 4))
    x, y = aliased.Group(*a), aliased.Group(tuple(rng.sample(b, len(b))))
    A, B = set(a), set(b)
    what = f'{a} {b}'
    mon.expect(set(x) == A and len(x) == len(A) and all(n in x for n in a) and bool(x), 'group', what)
    mon.expect((x == y) is (A == B) and (x != y) is (A != B), 'group', what, '==')
    z = aliased.Group(*a[::-1])
    mon.expect(x == z and hash(x) == hash(z) and {x: 1}.get(z) == 1 and len({x, z}) == 1, 'group', what, 'hash')
    mon.expect(x == tuple(a[::-1]) and x == a, 'group', what, '== sequence')
    mon.expect(set(x | y) == A | B and isinstance(x | y, aliased.Group), 'group', what, '|')
    mon.expect(x.isdisjoint(y) is A.isdisjoint(B), 'group', what, 'isdisjoint')
    for f, want in ((lambda: x & y, A & B), (lambda: x - y, A - B), (lambda: x ^ y, A ^ B)):
        if want:
            got = f()
            mon.expect(set(got) == want and isinstance(got, aliased.Group), 'group', what, f'{got} {want}')
    mon.expect((x <= y) is (A <= B) and (x < y) is (A < B) and (x >= y) is (A >= B), 'group', what, 'order')
    mon.expect(set(x) == A and set(y) == B, 'group', what, 'operands')
    mon.refuses(lambda: aliased.Group(), 'group', 'empty', errors=TypeError)


def namemaps(mon, rng, i):
    ps = parts(rng, rng.randint(1, 5), 1, 4)
    names = [p[0] for p in ps]
    extra = [n for n in NAMES if not any(n in p for p in ps)][:rng.randint(0, 2)]
    mode = rng.choice(['lists', 'map', 'nested'])
    key = rng.choice(['aliases', 'alt'])
    def some(p):
        rest = list(p[1:])
        if rng.random() < 0.3:
            rest.insert(rng.randint(0, len(rest)), p[0])
        return rest[0] if len(rest) == 1 and rng.random() < 0.5 else rng.choice([tuple, list])(rest)
    if mode == 'lists':
        defs = [rng.choice([tuple, list])(rng.sample(p, len(p))) for p in ps]
    elif mode == 'map':
        defs = {p[0]: some(p) for p in ps}
    else:
        defs = {p[0]: ({key: some(p)} if len(p) > 1 or rng.random() < 0.5 else {}) for p in ps}
    refs = names + extra
    refs = rng.choice([refs, tuple(refs), {n: 1 for n in refs}])
    if mode != 'lists' and not extra and rng.random() < 0.5:
        refs = None
    what = f'NameMap({defs}, {refs}, {key!r})'
    m = aliased.NameMap(defs, refs, key=key)
    want = {n: p[0] for p in ps for n in p}
    if refs is not None:
        want.update({n: n for n in extra})
    def check(m, what):
        mon.expect(sorted(m) == sorted(want) and len(m) == len(want), 'namemap', what, f'| names {list(m)}, want {want}')
        mon.expect(all(n in m and m[n] == v for n, v in want.items()), 'namemap', what, f'| {m}, want {want}')
        mon.expect(dict(m.items()) == want, 'namemap', what)
        for n in NAMES:
            if n not in want:
                mon.expect(n not in m, 'namemap', what, n)
                mon.refuses(lambda: m[n], 'namemap', what, n, errors=KeyError)
    mon.saw(what)
    check(m, what)
    c = m.copy()
    check(c, what + ' copied')
    v = c.invert()
    parts_ = {}
    for n, h in want.items():
        parts_.setdefault(h, set()).add(n)
    for h, p in parts_.items():
        mon.expect(set(v[h]) == p, 'namemap', what, f'inverted: {h!r} gave {v[h]}, want {p}')
    check(m, what + ' after inverting a copy')
    if mode == 'lists':
        mon.refuses(lambda: aliased.NameMap(defs), 'refused', what, errors=TypeError)


SUBS = {
    'histories': (histories, 1600, 24000),
    'building': (building, 2400, 24000),
    'squeezing': (squeezing, 400, 4000),
    'groups': (groups, 2400, 24000),
    'namemaps': (namemaps, 1200, 12000),
}
