"""Symbolic expressions: reading, arithmetic, equality and printing."""
import math
from fractions import Fraction

from goats.core import symbolic

RULE = ('a distinct expression text (or pair of expressions) whose terms were compared '
        'with the coefficient and exponents of the generated syntax tree')
ASSUMPTIONS = (
    'Coefficients are compared to 1e-9 relative; the package keeps them as binary fractions.',
    'With the default operator order, operators bind from left to right and a fraction '
    'glued to a variable (1/2a) is its coefficient.',
    'A quotient whose divisor is a group with a glued coefficient, x / 2(y), has no agreed '
    'reading and is not generated.',
    'The square-root keyword is exercised only in leading position.',
)
MUST_SEE = ('oracle:read', 'oracle:roundtrip', 'oracle:product', 'oracle:quotient',
            'oracle:power', 'oracle:equal', 'oracle:unequal', 'oracle:malformed',
            'oracle:tokens', 'oracle:order-error', 'oracle:difference', 'oracle:term',
            'oracle:operand', 'oracle:apply', 'oracle:tex', 'oracle:sequence')

NAMES = ['a', 'b', 'c', 'x', 'V', 'km', 'mol', 'a1', 'b20', 'T_e', '_q', '#', 'rho', 'E', 'e', 'sqr', 'n_0']
EXPS = [Fraction(n) for n in (1, 1, 2, 3, -1, -2, 0, 10, 12)] + [
    Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2), Fraction(5, 4), Fraction(-7, 4),
    Fraction(1, 256), Fraction(-3, 128), Fraction(1, 3), Fraction(-2, 3)]
TOKENS = [
    dict(multiply='*', divide='/', opening='(', closing=')', raising='^'),
    dict(multiply='.', divide='|', opening='[', closing=']', raising='^'),
    dict(multiply='*', divide='/', opening='{', closing='}', raising='~'),
    dict(multiply='&', divide=':', opening='<', closing='>', raising='!'),
]


class Meaning:
    """A coefficient and a map of exponents."""

    def __init__(self, c=1.0, e=None, exact=True):
        self.c, self.e = float(c), {k: v for k, v in (e or {}).items() if v}
        # every intermediate coefficient was a power of two, thus exact in binary
        self.exact = exact and self.c > 0 and math.frexp(self.c)[0] == 0.5

    def __mul__(self, o):
        e = dict(self.e)
        for k, v in o.e.items():
            e[k] = e.get(k, 0) + v
        return Meaning(self.c * o.c, e, self.exact and o.exact)

    def __pow__(self, n):
        n = Fraction(n)
        if self.c and abs(math.log10(abs(self.c)) * float(n)) > 250:
            raise OverflowError
        return Meaning(self.c ** float(n), {k: v * n for k, v in self.e.items()},
                       self.exact and n.denominator == 1)

    def __repr__(self):
        return f'{self.c} {self.e}'


def observe(expr):
    """The meaning of a real expression, from its public terms."""
    m = Meaning()
    for t in expr:
        if t.base == '1':
            m = m * Meaning(float(t.coefficient) ** float(t.exponent))
        else:
            m = m * Meaning(t.coefficient, {t.base: Fraction(t.exponent)})
    return m


def same(m, n):
    return m.e == n.e and math.isclose(m.c, n.c, rel_tol=1e-9, abs_tol=1e-300)


def exptext(rng, e):
    if e.denominator == 1:
        opts = [str(e.numerator)]
        if rng.random() < 0.2:
            opts.append(f'{e.numerator}.0')
        if e > 0 and rng.random() < 0.15:
            opts = [f'+{e.numerator}']
        if e == 10 and rng.random() < 0.3:
            opts = ['1e1']
        return rng.choice(opts)
    return rng.choice([f'{e.numerator}/{e.denominator}', *([str(float(e))] if binary(e) else [])])


def binary(e):
    """True if e is exact as a binary fraction."""
    return Fraction(float(e)) == e


def coeftext(rng):
    r = rng.random()
    if r < 0.45:
        n = rng.choice([1, 2, 3, 4, 10, 25, 100])
        return str(n), float(n)
    if r < 0.65:
        x = rng.choice(['0.5', '2.5', '1.25', '.5', '4.', '0.125', '1.0000001', '0.99999999'])
        return x, float(x)
    if r < 0.8:
        x = rng.choice(['1e3', '2.5e2', '1e-2', '5E+1', '12e2'])
        return x, float(x)
    n, d = rng.choice([1, 3, 5, 10]), rng.choice([2, 4, 8, 10, 16])
    return f'{n}/{d}', n / d


def gen(rng, depth, tok, strictly=False):
    """(text, meaning) of a product/quotient of operands."""
    n = rng.choice([1, 1, 2, 2, 3, 4]) if depth else rng.choice([1, 1, 2, 3])
    text, m = '', Meaning()
    seen_div = False
    for i in range(n):
        t, v, glue = operand(rng, depth, tok)
        if i:
            r = rng.random()
            if strictly and seen_div:
                break
            if glue and r >= 0.65:
                r = 0.5       # x / 2(y) has no agreed reading
            if r < 0.3:
                op, div = rng.choice([' ', '  ']), False
                if strictly and seen_div:
                    break
            elif r < 0.65:
                op, div = rng.choice([f' {tok["multiply"]} ', tok['multiply'], f' {tok["multiply"]}']), False
            else:
                op, div = rng.choice([f' {tok["divide"]} ', f'{tok["divide"]} ']), True
                seen_div = True
            text += op + t
            m = m * (v ** -1 if div else v)
        else:
            text, m = t, v
    return text, m


def operand(rng, depth, tok):
    r = rng.random()
    up = tok['raising']
    if depth and r < 0.35:
        inner, m = gen(rng, depth - 1, tok)
        if rng.random() < 0.2:
            inner = ' ' + inner + ' '
        t = tok['opening'] + inner + tok['closing']
        if rng.random() < 0.5:
            e = rng.choice(EXPS)
            if not e or m.c >= 0:
                t += up + exptext(rng, e)
                m = m ** e
        if rng.random() < 0.3:
            c, v = coeftext(rng)
            return c + t, Meaning(v) * m, True
        return t, m, None
    if r < 0.5:
        c, v = coeftext(rng)
        if '/' in c and tok['divide'] != '/':
            pass
        m = Meaning(v)
        if rng.random() < 0.25:
            e = rng.choice([Fraction(2), Fraction(-1), Fraction(3), Fraction(-2), Fraction(0),
                            Fraction(1, 2), Fraction(-1, 2), Fraction(-3, 2)])
            c, m = c + up + str(e), m ** e
        return c, m, None
    name = rng.choice(NAMES)
    e = rng.choice(EXPS) if rng.random() < 0.5 else Fraction(1)
    t, m = name, Meaning(1, {name: e})
    if e != 1:
        t += up + exptext(rng, e)
    if rng.random() < 0.3:
        c, v = coeftext(rng)
        # 'e'/'E' directly after a number would read as an exponent marker
        if not (name[0] in 'eE' and len(name) > 1):
            t, m = c + t, Meaning(v) * m
    return t, m, None


def fresh(rng, depth=None, tok=None, bounded=True):
    tok = tok or TOKENS[0]
    while True:
        try:
            t, m = gen(rng, rng.choice([0, 1, 2, 3]) if depth is None else depth, tok)
        except OverflowError:
            continue
        if m.c and 1e-60 < abs(m.c) < 1e60 and sum(abs(v) for v in m.e.values()) < 4000:
            return t, m


def case_read(mon, rng, i):
    for _ in range(20):
        t, m = fresh(rng)
        x = symbolic.Expression(t)
        got = observe(x)
        mon.saw('read', t)
        mon.sample(f'{t!r} -> {x}')
        mon.expect(same(got, m), 'read', f'{t!r} read as {x} = {got}, want {m}')
        # one term per base, none with exponent zero, a constant at most first
        bases = [k.base for k in x]
        mon.expect(len(set(bases)) == len(bases)
                   and all(k.exponent != 0 for k in x)
                   and '1' not in bases[1:], 'reduced', f'{t!r} -> {[str(k) for k in x]}')
        if rng.random() < 0.3:
            lead = f'sqrt({t})'
            if m.c > 0:
                mon.expect(same(observe(symbolic.Expression(lead)), m ** Fraction(1, 2)),
                           'sqrt', f'{lead} -> {symbolic.Expression(lead)}')
            # the root of one simple operand, followed by something else
            o, n, _ = operand(rng, 0, TOKENS[0])
            if n.c > 0 and 1e-60 < n.c < 1e60 and not o.lstrip().startswith('sqr'):
                for lead, want in ((f'sqrt {o}', n ** Fraction(1, 2)),
                                   (f'sqrt({o}) * ({t})', n ** Fraction(1, 2) * m),
                                   (f'(sqrt {o})^2 / ({t})', n * m ** -1)):
                    x = symbolic.Expression(lead)
                    mon.expect(same(observe(x), want), 'sqrt', f'{lead} -> {x}, want {want}')


def case_roundtrip(mon, rng, i):
    for _ in range(12):
        t, m = fresh(rng)
        x = symbolic.Expression(t)
        y = symbolic.Expression(str(x))
        mon.saw('rt', str(x))
        mon.expect(same(observe(y), m), 'roundtrip', f'{t!r} printed as {str(x)!r}, read back as {y}')
        mon.expect(x == y and y == x and x == str(x), 'roundtrip', f'{x} != its own text {y}')
        mon.expect(hash(x) == hash(y), 'hash', f'{x} and {y} equal with different hashes')
        mon.expect(symbolic.Expression(x) is x, 'identity', f'{x}')
        z = symbolic.Expression(x.format(separator=' * '))
        mon.expect(same(observe(z), m), 'format', f"{x.format(separator=' * ')!r} -> {z}")
        terms = list(x)
        z = symbolic.Expression(terms)
        mon.expect(same(observe(z), m), 'from-terms', f'{terms} -> {z}')
        rng.shuffle(terms)
        mon.expect(symbolic.Expression(terms) == x, 'from-terms', f'{terms} != {x}')
        tex = x.format(style='tex')
        want = ' '.join(
            k.format() if k.exponent == 1 or k.base == '1'
            else k.format().replace('^' + str(k.exponent), '^{' + str(k.exponent) + '}') for k in x)
        mon.expect(tex == want, 'tex', f'{tex!r} want {want!r}')


def case_algebra(mon, rng, i):
    S = symbolic
    for _ in range(8):
        (s, m), (t, n) = fresh(rng, 1), fresh(rng, 1)
        x, y = S.Expression(s), S.Expression(t)
        before = (str(x), str(y))
        mon.saw('alg', s, t)
        other = rng.choice([y, t, list(y)])
        for name, r in (('x*y', x * other), ('product', S.product(s, t))):
            mon.expect(same(observe(r), m * n), 'product', f'{name}: ({s}) * ({t}) = {r}, want {m * n}')
        for name, r in (('x/y', x / other), ('ratio', S.ratio(s, t))):
            mon.expect(same(observe(r), m * n ** -1), 'quotient', f'{name}: ({s}) / ({t}) = {r}')
        mon.expect(same(observe(t * x), m * n), 'product', f'{t!r} * ({s}) = {t * x}')
        mon.expect(same(observe(t / x), n * m ** -1), 'quotient', f'{t!r} / ({s}) = {t / x}')
        e = rng.choice([p for p in EXPS if p])
        if m.c > 0 and abs(math.log10(m.c) * float(e)) < 20:
            given = [e, float(e)] if binary(e) else [e]
            for r in (x ** (int(e) if e.denominator == 1 else rng.choice(given)), S.power(s, rng.choice(given))):
                mon.expect(same(observe(r), m ** e), 'power', f'({s}) ** {e} = {r}, want {m ** e}')
        mon.expect(x * y == y * x, 'equal', f'{x} and {y} do not commute')
        mon.expect((x * y) / y == x or not math.isclose(1, 1), 'equal',
                   f'({x}) * ({y}) / ({y}) = {(x * y) / y}') if _dyadic(m) and _dyadic(n) else None
        q = x / x if m.c else None
        if q is not None and _dyadic(m):
            mon.expect(q == '1' and len(q) == 1, 'equal', f'({s}) / ({s}) = {q}')
        mon.expect((str(x), str(y)) == before, 'inputs-kept', f'{before} became {(str(x), str(y))}')


def _dyadic(m):
    return m.exact


def case_equality(mon, rng, i):
    for _ in range(10):
        t, m = fresh(rng, 1)
        x = symbolic.Expression(t)
        # a reordered respelling
        parts = [f'{b}^{e}' for b, e in m.e.items()]
        if m.c != 1:
            parts.append(repr(m.c))
        rng.shuffle(parts)
        other = rng.choice([' ', ' * ']).join(parts) or '1'
        y = symbolic.Expression(other)
        if _dyadic(m):
            mon.expect(x == y and x == other and symbolic.equality(t, other),
                       'equal', f'{t!r} and {other!r} compare unequal')
            mon.expect(hash(x) == hash(y), 'hash', f'{t!r} {other!r}')
        # a genuinely different one
        e = dict(m.e)
        r = rng.random()
        name = rng.choice(NAMES)
        if r < 0.4:
            e[name] = e.get(name, 0) + rng.choice([1, -1, Fraction(1, 2)])
            c = m.c
        elif r < 0.6 and len(e) > 1:
            a, b = rng.sample(sorted(e), 2)
            if e[a] == e[b]:
                continue
            e[a], e[b] = e[b], e[a]
            c = m.c
        else:
            c = m.c * rng.choice([2, 3, 0.5, 1.0000001, 0.9999999])
        parts = [f'{b}^{p}' for b, p in e.items() if p]
        parts.insert(rng.randrange(len(parts) + 1), repr(c))
        z = ' '.join(parts)
        mon.saw('ne', t, z)
        mon.expect(not x == z and x != symbolic.Expression(z), 'unequal', f'{t!r} compares equal to {z!r}')
        # difference of term sets
        d = x.difference(z)
        zz = symbolic.Expression(z)
        key = lambda k: (float(k.coefficient), k.base, k.exponent)
        a, b = {key(k) for k in x}, {key(k) for k in zz}
        mon.expect({key(k) for k in d} == a - b, 'difference', f'{t!r} - {z!r} = {d}')
        mon.expect({key(k) for k in x.difference(zz, symmetric=True)} == a ^ b, 'difference', f'{t!r} ^ {z!r}')
        lr = x.difference(zz, split=True)
        mon.expect([{key(k) for k in s} for s in lr] == [a - b, b - a], 'difference', f'split {t!r} {z!r}')
        lr = x.difference(z, symmetric=True, split=True)
        mon.expect([{key(k) for k in s} for s in lr] == [a - b, b - a], 'difference',
                   f'split takes precedence over symmetric: {t!r} {z!r}')


def case_tokens(mon, rng, i):
    for _ in range(8):
        tok = rng.choice(TOKENS[1:])
        t, m = fresh(rng, rng.choice([0, 1, 2]), tok)
        if '/' in t and tok['divide'] != '/' and any(c in t for c in './'):
            # decimal points clash with '.' as operator; only unambiguous text
            pass
        if tok['multiply'] == '.' and any(ch.isdigit() for ch in t):
            continue
        x = symbolic.Expression(t, **tok)
        mon.saw('tok', t)
        mon.expect(same(observe(x), m), 'tokens', f'{t!r} with {tok} -> {x}, want {m}')


BAD = ['{a}**{b}', '{a}*/{b}', '{a}/*{b}', '{a}^', '^2', '({a}', '{a})', '{a} $ {b}', '+{a}',
       '{a} *', '{a} /', '* {a}*', '{a} + {b}', '{a} - {b}', '{a}^2^3', '-{a}', '{a}, {b}',
       '{a} = {b}', '{a}^{b}', '({a} * {b}', '{a} * {b})', '2({a}', '{a} %', '({a}))', '(({a})',
       '{a} @ {b}', '{a}//{b}']


def case_malformed(mon, rng, i):
    for f in rng.sample(BAD, 12):
        t = f.format(a=rng.choice(NAMES), b=rng.choice(NAMES))
        mon.saw('bad', t)
        mon.refuses(lambda: symbolic.Expression(t), 'malformed', repr(t), errors=(ValueError, symbolic.ParsingError))
    # strict operator order
    a, b, c = rng.sample(NAMES[:8], 3)
    for t, err in ((f'{a} / {b} / {c}', symbolic.RatioError),
                   (f'{a} / {b} * {c}', symbolic.ProductError),
                   (f'({a} / {b} / {c})^2 * {a}', symbolic.RatioError)):
        mon.refuses(lambda: symbolic.Expression(t, operator_order='error'), 'order-error', t, errors=err)
    for t, m in ((f'({a} / {b}) / {c}', {a: 1, b: -1, c: -1}), (f'{a} / ({b} / {c})', {a: 1, b: -1, c: 1}),
                 (f'({a} / {b}) * {c}', {a: 1, b: -1, c: 1}), (f'{a} / ({b} * {c})', {a: 1, b: -1, c: -1}),
                 (f'{a} * {b} / {c}', {a: 1, b: 1, c: -1})):
        x = symbolic.Expression(t, operator_order='error')
        mon.expect(same(observe(x), Meaning(1, m)), 'order-error', f'{t} -> {x}')


def case_terms(mon, rng, i):
    for _ in range(10):
        c = rng.choice([1, 2, 0.5, 4, 10, Fraction(3, 2), -2, 0])
        b = rng.choice(NAMES)
        e = rng.choice(EXPS)
        t = symbolic.Term(c, b, e)
        u = symbolic.Term(coefficient=c, base=b, exponent=e)
        mon.saw('term', c, b, e)
        mon.expect(t == u and hash(t) == hash(u), 'term', f'{t} {u}')
        mon.expect((float(t.coefficient), t.base, t.exponent) == (float(c), b, e), 'term', f'Term({c},{b},{e}) -> {t.attrs}')
        v = rng.choice([1, 2, 4, 0.25, 16])
        got = float(t(v))
        mon.close(got, float(c) * v ** float(e), 'term', f'{t}({v})')
        mon.refuses(lambda: float(t), 'term', f'float({t})', errors=TypeError)
        p = rng.choice([2, -1, 3, 0]) if c else 2
        w = t ** p
        mon.expect((float(w.coefficient), w.base, w.exponent) == (float(c) ** p, b, e * p), 'term', f'{t} ** {p} = {w.attrs}')
        w = 3 * t * 2
        mon.expect((float(w.coefficient), w.base, w.exponent) == (float(c) * 6, b, e), 'term', f'3*{t}*2')
        if c:
            back = symbolic.Expression(str(t))
            mon.expect(same(observe(back), Meaning(c, {b: e} if e else {})), 'term', f'Term({c},{b},{e}) printed {t}, read {back}')
            tex = t.format(style='tex')
            mon.expect(tex == str(t).replace(f'^{e}', f'^{{{e}}}'), 'term', f'{t} in tex: {tex}')
        k = symbolic.Term(coefficient=c)
        mon.expect(float(k) == float(c) and k == c, 'term', f'constant {c} -> {k}')
        mon.expect(float(symbolic.OperandFactory().create(f'{b}^{e}').exponent) == float(e), 'term', f'create {b}^{e}')
    for bad in ('', '2a', 'a b', 'a^2', '(a)', 'a*b'):
        if bad:
            mon.refuses(lambda: symbolic.Term(bad), 'term', f'Term({bad!r})', errors=ValueError)
    # applying a map to the bases
    t, m = fresh(rng, 1)
    if m.e:
        x = symbolic.Expression([f'{b}^{e}' for b, e in m.e.items()])
        table = {b: 1.0 + rng.random() for b in NAMES}
        table['1'] = 1.0
        got = x.apply(lambda b: table[b])
        want = 1.0
        for b, e in m.e.items():
            want *= table[b] ** float(e)
        mon.close(float(got), want, 'apply', f'{x}')
    # sequence behaviour
    x = symbolic.Expression(' '.join(f'{n}^{k + 1}' for k, n in enumerate(rng.sample(NAMES, 4))))
    ts = list(x)
    mon.expect(len(x) == 4 and [x[k] for k in range(4)] == ts and x[-1] == ts[-1] and list(x[1:3]) == ts[1:3]
               and ts[2] in x, 'sequence', f'{x}')
    mon.expect([k.exponent for k in ts] == [4, 3, 2, 1], 'sequence', f'{x} not ordered by exponent')
    for k in (4, 5, -5, -6, -9):
        mon.refuses(lambda: x[k], 'sequence', f'{x}[{k}]', errors=IndexError)
    mon.expect([x[-k] for k in (1, 2, 3, 4)] == ts[::-1], 'sequence', f'{x} counted from the end')


def case_operand(mon, rng, i):
    """Operands made from a coefficient, a base text and an exponent."""
    factory = symbolic.OperandFactory()
    for _ in range(20):
        try:
            t, m, _ = operand(rng, rng.choice([0, 1, 2, 3]), TOKENS[0])
            c = rng.choice([1, 1, 2, 0.5, 4, 3, -2])
            e = rng.choice(EXPS)
            if m.c <= 0 and e.denominator != 1:
                e = Fraction(2)
            if m.c == 0:
                continue
            want = Meaning(c) * m ** e
            if not 1e-60 < abs(want.c) < 1e60:
                continue
            form = rng.randrange(4)
            if form == 0:
                want, args = m, (t,)
            elif form == 1:
                want, args = m ** e, (t, rng.choice([e, float(e) if binary(e) else e, int(e) if e.denominator == 1 else str(e)]))
            elif form == 2:
                want, args = Meaning(c) * m, (c, t)
            else:
                args = (c, t, rng.choice([e, float(e) if binary(e) else e, str(e)]))
        except OverflowError:
            continue
        got = factory.create(*args)
        mon.saw('operand', t, c, e, form)
        try:
            seen = Meaning(got.coefficient) * observe(symbolic.Expression(got.base)) ** got.exponent
        except OverflowError:
            continue
        mon.expect(same(seen, want), 'operand', f'create{args} -> {type(got).__name__} {got.attrs}: {seen}, want {want}')
        if isinstance(got, symbolic.Term):
            mon.expect(got.base == '1' or got.base in NAMES, 'operand', f'create{args} -> term with base {got.base!r}')


SUBS = {
    'operand': (case_operand, 240, 3000),
    'read': (case_read, 1600, 6000),
    'roundtrip': (case_roundtrip, 800, 3000),
    'algebra': (case_algebra, 800, 3000),
    'equality': (case_equality, 800, 3000),
    'tokens': (case_tokens, 120, 1500),
    'malformed': (case_malformed, 120, 1200),
    'terms': (case_terms, 120, 1500),
}
