"""Composed observables are the products of their parts."""
import re
from fractions import Fraction as F

import numpy

from harness import epcase, epref
from harness.epcase import Case, show
from harness.epdata import AU
from harness.props.p16 import forms
from harness.props.p11 import Model, aligned

RULE = ('a distinct (expression, dimensions, constraints, metric system) whose observation was compared with the product '
        'of powers of the parts, evaluated on the grid and matched by dimension name')
ASSUMPTIONS = (
    'Compositions contain * or /, and name their factors by plain identifiers; fractional exponents are for positive quantities.',
    'The dimensions of a composition may come in any order; axes are matched by name.',
)
MUST_SEE = ('oracle:values', 'oracle:unit', 'oracle:dimensions', 'oracle:parameters', 'oracle:rewritten', 'oracle:refuse',
            'oracle:converted', 'oracle:observable')

PLAIN = re.compile(r'[A-Za-z_]+\Z')
PARAMS = {'mean free path': {'lambda0', 'mfp_radial_power', 'rigidity_power'}, 'acceleration rate': {'kper_kpar'}}


def pick(rng, c, n):
    """Distinct quantities with a plain name: [(canonical, name used)]."""
    out = []
    have = epref.available(c.data)
    rng.shuffle(have)
    for name in have:
        plain = [a for a in (name, *epref.QUANTITIES[name][0]) if PLAIN.match(a)]
        if name == 'shell' or name in epref.COORDINATES and rng.random() < 0.6:
            continue
        if plain:
            out.append((name, rng.choice(plain)))
        if len(out) == n:
            break
    return out


def write(rng, parts):
    """An expression for [(used, exponent)], in one of several notations."""
    def power(u, e):
        e = abs(e)
        return u if e == 1 else f'{u}^{e}'
    up = [(u, e) for u, e in parts if e > 0]
    down = [(u, e) for u, e in parts if e < 0]
    style = rng.choice(['signed', 'fraction', 'chain'])
    sep = rng.choice([' * ', '*', ' * '])
    if style == 'signed' or not up:
        return sep.join(u if e == 1 else f'{u}^{e}' for u, e in parts)
    top = sep.join(power(u, e) for u, e in up)
    if not down:
        return top
    if len(up) > 1 and style == 'fraction':
        top = f'({top})'
    if style == 'chain' and len(up) == 1:
        return top + ''.join(' / ' + power(u, e) for u, e in down[:1]) if len(down) == 1 else \
            f"{top} / ({sep.join(power(u, e) for u, e in down)})"
    if len(up) > 1:
        top = f'({top})' if not top.startswith('(') else top
    bottom = sep.join(power(u, e) for u, e in down)
    return f'{top} / ({bottom})' if len(down) > 1 or '^' in bottom else f'{top} / {bottom}'


def product(ref, parts):
    """(values in SI, dimensions) of a composition."""
    m = None
    for name, e in parts:
        x, dims = ref.get(name)
        p = Model(x ** float(e), dims, None)
        if m is None:
            m = p
        else:
            x, dims = aligned(numpy.multiply, m, p)
            m = Model(x, dims, None)
    return m.x, m.dims


def observed(mon, obs, x, dims, key, what, rtol=1e-6):
    """Compare values after matching axes by name."""
    got = tuple(obs.dimensions)
    if not mon.expect(sorted(got) == sorted(dims), 'dimensions', what, f'| got {got}, want {dims}'):
        return
    x = numpy.transpose(x, [dims.index(d) for d in got])
    top = float(numpy.abs(x).max()) if x.size else 0.0
    mon.close(numpy.array(obs.data), x, key, what, rtol=rtol, atol=1e-12 * top)


def units(parts, system):
    out = []
    for name, e in parts:
        u = epref.QUANTITIES[name][1 if system == 'mks' else 2]
        out.append(f'({u})^{e}' if u != '1' else '1')
    return ' '.join(u for u in out if u != '1') or '1'


def exponents(rng, n):
    return [rng.choice([1, 1, 1, -1, -1, 2, -2, 3]) for _ in range(n)]


HALVES = [F(1, 2), F(-1, 2), F(3, 2), F(1, 3), F(-2, 3), F(5, 2)]


def tree(rng, names, depth=0):
    """(text, is atomic, {name: exponent}) of a nested composition."""
    if depth > 1 or len(names) == 1 and rng.random() < 0.8:
        n, u = rng.choice(names)
        e = rng.choice([F(1), F(1), F(1), F(2), F(-1), F(3), *HALVES[:3]])
        return (u if e == 1 else f'{u}^{e}'), True, {n: e}
    sides = [tree(rng, names, depth + 1) for _ in range(rng.choice([2, 2, 3]))]
    op = rng.choice(['*', '/'])
    pad = rng.choice([' ', ' ', ''])
    total, texts = {}, []
    for k, (text, atomic, powers) in enumerate(sides):
        texts.append(text if atomic else f'({text})')
        for n, e in powers.items():
            total[n] = total.get(n, 0) + (e if op == '*' or k == 0 else -e)
    if op == '/' and any('^' in t and '/' in t and not t.startswith('(') for t in texts):
        pad = ' '
    text = f'{pad}{op}{pad}'.join(texts)
    if depth and rng.random() < 0.3:
        e = rng.choice([F(2), F(-1), F(1, 2)])
        return f'({text})^{e}', True, {n: x * e for n, x in total.items()}
    return text, False, total


def nested(rng, c):
    """(text, parts) of a composition with groups, repeated and fractional powers."""
    chosen = pick(rng, c, rng.choice([1, 2, 2, 3]))
    while True:
        text, _, powers = tree(rng, chosen)
        if '*' in text or '/' in text.replace('^1/', '').replace('^-1/', ''):
            break
    powers = {n: e for n, e in powers.items() if e}
    return text, list(powers.items())


def compose(mon, rng, i):
    with Case(rng) as c:
        o = c.observer()
        for _ in range(3):
            if rng.random() < 0.4:
                text, parts = nested(rng, c)
                if not parts or any(e.denominator > 1 and numpy.any(c.ref.get(n)[0] < 0) for n, e in parts):
                    continue
            else:
                chosen = pick(rng, c, rng.choice([2, 2, 2, 3]))
                es = exponents(rng, len(chosen))
                parts = [(n, e) for (n, _), e in zip(chosen, es)]
                text = write(rng, [(u, e) for (_, u), e in zip(chosen, es)])
            if any(numpy.any(c.ref.get(n)[0] == 0) and e < 0 for n, e in parts):
                continue
            x, dims = product(c.ref, parts)
            f = 1.0
            for n, e in parts:
                f *= epref.factor(n, c.system) ** float(e)
            if not numpy.all(numpy.isfinite(x * f)) or not 1e-250 < numpy.abs(x).max() < 1e250:
                continue
            kw, cons = epref.constraints(rng, c.ref, dims, c.system, p=0.35, values=rng.random() < 0.6, radius='shell' in dims)
            what = f'{c.what}: {text!r}.observe({show(kw)})'
            mon.expect(o.observes(text), 'observable', what)
            q = o[text]
            obs = q.observe(**kw)
            y, _ = c.ref.apply(x, dims, cons)
            observed(mon, obs, y * f, dims, 'values', what)
            want = units(parts, c.system)
            mon.expect(obs.unit == want, 'unit', what, f'| unit {obs.unit}, want {want}')
            mon.expect(q.unit == want, 'unit', what, f'| observable unit {q.unit}, want {want}')
            mon.equal(sorted(q.dimensions), sorted(dims), 'dimensions', what, 'observable')
            need = set().union(*(PARAMS.get(n, set()) for n, _ in parts))
            mon.expect(need <= set(obs.parameters), 'parameters', what, f'| {obs.parameters}, want {need}')
            mon.expect(need <= set(q.parameters), 'parameters', what, f'| observable {q.parameters}, want {need}')
            mon.saw(text, x.shape, c.system, forms(kw))
            mon.sample(what)


def rewritten(mon, rng, i):
    """Other ways to write a composition observe the same values."""
    with Case(rng) as c:
        o = c.observer()
        chosen = pick(rng, c, rng.choice([2, 3]))
        es = exponents(rng, len(chosen))
        if any(numpy.any(c.ref.get(n)[0] == 0) and e < 0 for (n, _), e in zip(chosen, es)):
            return
        base = None
        for _ in range(3):
            order = list(range(len(chosen)))
            rng.shuffle(order)
            parts = []
            for k in order:
                n = chosen[k][0]
                plain = [a for a in (n, *epref.QUANTITIES[n][0]) if PLAIN.match(a)]
                parts.append((rng.choice(plain), es[k]))
            text = write(rng, parts)
            obs = o[text].observe()
            a = numpy.array(obs.data)
            if base is None:
                base = (a, tuple(obs.dimensions), obs.unit, text)
                continue
            what = f'{c.what}: {text!r} and {base[3]!r}'
            observed(mon, obs, base[0], base[1], 'rewritten', what, rtol=1e-9)
            mon.expect(obs.unit == base[2], 'rewritten', what, f'| units {obs.unit} and {base[2]}')
            mon.saw('rewritten', text, base[3])


def converted(mon, rng, i):
    with Case(rng) as c:
        o = c.observer()
        text, parts, unit, f = rng.choice([
            ('Vr / Br', [('Vr', 1), ('Br', -1)], 'km / (s nT)', 1e-3 / 1e9),
            ('Vr * Rho', [('Vr', 1), ('Rho', 1)], 'km / (s cm^3)', 1e-9),
            ('R / V', [('R', 1), ('V', -1)], 'day', 1 / 86400),
            ('mfp * Br', [('mean free path', 1), ('Br', 1)], 'au nT', 1e9 / AU),
            ('B * Vr^2', [('B', 1), ('Vr', 2)], 'nT km^2 / s^2', 1e3),
        ])
        if 'B' in text and c.system == 'cgs':
            return      # Gaussian units do not convert to nT in compositions (refused; see DESIGN.md)
        x, dims = product(c.ref, parts)
        what = f'{c.what}: {text!r} in {unit!r}'
        q = o[text]
        default = str(q.unit)
        new = q[unit]
        mon.expect(new.unit == unit, 'converted', what, f'| observable {new.unit}')
        for how, obs in (('before', new.observe()), ('after', q.observe()[unit])):
            observed(mon, obs, x * f, dims, 'converted', what + ' ' + how)
            mon.expect(obs.unit == unit, 'converted', what, how, f'| unit {obs.unit}')
        mon.equal(str(q.unit), default, 'converted', what, 'kept')
        mon.refuses(lambda: numpy.array(q['kg'].observe().data), 'refuse', what, 'in kg')
        mon.saw('converted', text, c.system)


def parameters(mon, rng, i):
    """Constraints on parameters reach the parts of a composition."""
    with Case(rng) as c:
        o = c.observer()
        lam = rng.uniform(0.05, 3)
        ref = epref.Ref(c.data, lambda0=lam * AU)
        other = rng.choice(['Vr', 'Br', 'V'])
        e = rng.choice([1, -1])
        parts = [('mean free path', 1), (other, e)]
        text = f"mfp {'*' if e > 0 else '/'} {other}"
        kw, cons = epref.constraints(rng, ref, ref.TSPE, c.system, p=0.3, values=False)
        kw['lamo'] = (lam, 'au')
        what = f'{c.what}: {text!r}.observe({show(kw)})'
        obs = o[text].observe(**kw)
        x, dims = product(ref, parts)
        y, _ = ref.apply(x, dims, cons)
        f = epref.factor('mean free path', c.system) * epref.factor(other, c.system) ** e
        observed(mon, obs, y * f, dims, 'parameters', what)
        mon.close(float(obs['lambda0']), lam * AU * (100 if c.system == 'cgs' else 1), 'parameters', what, 'assumption')
        mon.saw('parameters', text, c.system, forms(kw))


def refuse(mon, rng, i):
    with Case(rng) as c:
        o = c.observer()
        for text in ('Vr / nothing', 'xyzzy * Br', 'Vr * qqq^2'):
            mon.expect(not o.observes(text), 'refuse', c.what, text)
            mon.refuses(lambda: o[text], 'refuse', c.what, text)
        # an unknown or unobservable part anywhere in a longer composition
        for _ in range(4):
            parts = rng.sample(['Vr', 'Br', 'rho', 'V', 'Vtheta', 'Bphi', 'density ratio'], rng.randint(2, 5))
            parts = [q for q in parts if ' ' not in q] or ['Vr']
            good = rng.choice([' * ', ' / ']).join(parts)
            mon.expect(o.observes(good), 'observable', c.what, good)
            k = rng.randint(0, len(parts))
            parts.insert(k, rng.choice(['nothing', 'xyzzy^2', 'qqq^-1', 'lambda0', 'preEruption', 'phiOffset^1/2']))
            text = ''.join(q if not j else rng.choice([' * ', ' / ']) + q for j, q in enumerate(parts))
            # (asking for it would search for spellings, which takes long for long text)
            mon.expect(not o.observes(text), 'refuse', c.what, text)
            mon.saw('refuse', len(parts), k)


SUBS = {
    'compose': (compose, 160, 3000),
    'rewritten': (rewritten, 60, 900),
    'converted': (converted, 40, 400),
    'parameters': (parameters, 48, 600),
    'refuse': (refuse, 24, 200),
}
