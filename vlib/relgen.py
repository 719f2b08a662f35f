"""Random queries together with what they mean.

Every generated part is a pair of its SQL text and a Python function which computes it, so the meaning of a query comes out of
its derivation by the rules of SQL and never out of the analyzer under test.  Types: 'i' integer, 's' string, 'b' boolean.
An environment maps column identities (unique for every appearance of a column in the text) to values.
"""
import itertools, re
from . import plan

TY = {'i': ['int8', 'int4'], 's': ['varchar(*)'], 'b': ['boolean']}
STRINGS = ['', 'a', 'b', 'ab', 'ba', '%', 'a_b', 'A', "it''s", 'abc']
NAMES = ['a', 'b', 'c', 'd', 'e']


def nn(f):
    return lambda a: None if any(x is None for x in a) else f(*a)


# id -> (name, parameter types, result, how it is written, function)
FUNCTIONS = {
    20001: ('inc', 'i', 'i', 'call', nn(lambda x: x + 1)),
    20002: ('mix', 'ii', 'i', 'call', nn(lambda x, y: 3 * x - y)),
    20003: ('glue', 'ss', 's', 'call', nn(lambda x, y: x + '_' + y)),
    20004: ('size', 's', 'i', 'call', nn(len)),
    20005: ('one', '', 'i', 'call', lambda a: 1),
    20006: ('isodd', 'i', 'b', 'call', nn(lambda x: x % 2 == 1)),
    20007: ('nn', 'i', 'i', 'call', lambda a: a[0] or 0),
    20008: ('flip', 'b', 'b', 'call', nn(lambda x: not x)),
    20009: ('pick3', 'iii', 'i', 'call', lambda a: a[0] if a[1] is None else a[2]),
    20010: ('abs', 'i', 'i', 'ABS(%s)', nn(abs)),
    20011: ('mod', 'ii', 'i', 'MOD(%s)', nn(lambda x, y: plan.arith('remainder', x, y))),
    20012: ('upper', 's', 's', 'UPPER(%s)', nn(str.upper)),
    20013: ('lower', 's', 's', 'LOWER(%s)', nn(str.lower)),
    20014: ('character_length', 's', 'i', 'CHAR_LENGTH(%s)', nn(lambda x: len(x) + 100)),
    # the same name with other parameters
    20015: ('inc', 's', 's', 'call', nn(lambda x: x + '+')),
    20016: ('inc', 'ii', 'i', 'call', nn(lambda x, y: x + y + 1000)),
    20017: ('mix', 'is', 's', 'call', nn(lambda x, y: y + str(x))),
    20018: ('length', 's', 'i', 'LENGTH(%s)', nn(len)),
    20019: ('octet_length', 's', 'i', 'OCTET_LENGTH(%s)', nn(lambda x: 2 * len(x))),
}


def _rows(f, distinct=False):
    def g(rows):
        xs = [r[0] for r in rows if r[0] is not None]
        if distinct:
            xs = list(dict.fromkeys(xs))
        return f(xs)
    return g


def _opt(f):
    return lambda xs: f(xs) if xs else None


def _and(xs):
    return False not in xs


AGGREGATES = {}


def _aggregate(name, params, result, text, f, distinct=True):
    n = 10001 + len(AGGREGATES)
    AGGREGATES[n] = (name, params, result, text, _rows(f))
    if distinct:
        AGGREGATES[n + 1] = (name + '$distinct', params, result, text.replace('(', '(DISTINCT ', 1), _rows(f, True))


for _t in 'isb':
    _aggregate('count', _t, 'i', 'COUNT(%s)', len)
AGGREGATES[10099] = ('count', '', 'i', 'COUNT(*)', len)
_aggregate('sum', 'i', 'i', 'SUM(%s)', _opt(sum))
for _t in 'is':
    _aggregate('max', _t, _t, 'MAX(%s)', _opt(max), False)
    _aggregate('min', _t, _t, 'MIN(%s)', _opt(min), False)
AGGREGATES[10050] = ('every', 'b', 'b', 'EVERY(%s)', _rows(_opt(_and)))
AGGREGATES[10051] = ('bool_or', 'b', 'b', 'BOOL_OR(%s)', _rows(_opt(lambda xs: True in xs)))
AGGREGATES[10052] = ('bool_and', 'b', 'b', 'BOOL_AND(%s)', _rows(_opt(_and)))
AGGREGATES[10053] = ('xorall', 'i', 'i', 'xorall(%s)', _rows(lambda xs: __import__('functools').reduce(lambda x, y: x ^ y, xs, 7)))
AGGREGATES[10054] = ('pairs', 'ii', 'i', 'pairs(%s)', lambda rows: sum(2 * (x or 0) - (y or 0) for x, y in rows))
AGGREGATES[10055] = ('bit_and', 'i', 'i', 'BIT_AND(%s)', _rows(_opt(lambda xs: __import__('functools').reduce(lambda x, y: x & y, xs))))

TABLEFNS = {
    30001: ('gen', 'i', [('n', 'i')], lambda a: [] if a[0] is None else [(k,) for k in range(a[0] % 4)]),
    30002: ('two', 'is', [('n', 'i'), ('s', 's')], lambda a: [] if a[0] is None else [(a[0], a[1]), (a[0] + 1, None)][:a[0] % 3]),
}


def catalog_functions():
    out = []

    def ps(p):
        return '|'.join(TY[t][0] for t in p)
    for i, (n, p, r, _, _) in FUNCTIONS.items():
        out.append('func\t%d\t%s\t%s\t%s\tscalar' % (i, n, TY[r][0], ps(p)))
    for i, (n, p, r, _, _) in AGGREGATES.items():
        out.append('aggr\t%d\t%s\t%s\t%s' % (i, n, TY[r][0], ps(p)))
    for i, (n, p, c, _) in TABLEFNS.items():
        out.append('func\t%d\t%s\ttable{%s}\t%s\ttable' % (i, n, ';'.join('%s:%s' % (x, TY[t][0]) for x, t in c), ps(p)))
    return '\n'.join(out) + '\n'


FN = {i: f[4] for i, f in FUNCTIONS.items()}
AGG = {i: f[4] for i, f in AGGREGATES.items()}
TFN = {i: f[3] for i, f in TABLEFNS.items()}


class Col:
    __slots__ = ('name', 'type', 'uid', 'visible')

    def __init__(self, name, type, uid, visible=True):
        self.name = name
        self.type = type
        self.uid = uid
        self.visible = visible


class Ref:
    """a relation in a FROM clause"""
    __slots__ = ('name', 'schema', 'cols')

    def __init__(self, name, schema, cols):
        self.name = name
        self.schema = schema      # of a plain table, or None
        self.cols = cols


class Scope:
    def __init__(self, refs, parent=None, allowed=None):
        self.refs = refs
        self.parent = parent
        self.allowed = allowed           # identities which may be read (None: all)


class Q:
    """a query: text, columns [(name, type)], rows(env) -> [tuple]; order(env) -> [(sort key, tuple)] or None"""
    __slots__ = ('text', 'cols', 'rows', 'order', 'limit', 'single', 'chain')

    def __init__(self, text, cols, rows, order=None, limit=None, single=False):
        self.text = text
        self.cols = cols
        self.rows = rows
        self.order = order
        self.limit = limit
        self.single = single
        self.chain = None


class E:
    """an expression: text, type, f(env)"""
    __slots__ = ('text', 'type', 'f', 'simple', 'name')

    def __init__(self, text, type, f, simple=False, name=None):
        self.text = text
        self.type = type
        self.f = f
        self.simple = simple
        self.name = name


class Table:
    def __init__(self, schema, name, cols, rows, pk):
        self.schema = schema
        self.name = name
        self.cols = cols                 # [(name, type, sql type, nullable)]
        self.rows = rows                 # [tuple]
        self.pk = pk                     # [index]
        self.features = {}               # name -> 'hidden', 'synthesized', ...

    def visible(self):
        return [k for k, c in enumerate(self.cols) if not {'hidden', 'synthesized'} & set(self.features.get(c[0], '').split(','))]

    def vcols(self):
        return [(self.cols[k][0], self.cols[k][1]) for k in self.visible()]

    def vrows(self):
        v = self.visible()
        return [tuple(r[k] for k in v) for r in self.rows]


class Gen:
    outer_using = False     # RIGHT and FULL JOIN USING: see known-findings.txt

    def __init__(self, rng, fuel=30):
        self.rng = rng
        self.fuel = fuel
        self.uid = itertools.count()
        self.tables = []
        self.host = {}
        self.ph = {}
        self.features = set()
        self.names = itertools.count()

    def p(self, x):
        return self.rng.random() < x

    def pick(self, xs):
        return self.rng.choice(xs)

    def note(self, f):
        self.features.add(f)

    def low(self):
        return self.fuel <= 0

    # ------------------------------------------------------------------ data
    def val(self, t, null=0.2):
        if self.p(null):
            return None
        if t == 'i':
            return self.rng.randint(-2, 4)
        if t == 's':
            return self.pick(STRINGS).replace("''", "'")
        return self.p(0.5)

    def make_tables(self, n=None):
        n = n or self.rng.randint(2, 3)
        for k in range(n):
            names = self.rng.sample(NAMES, self.rng.randint(2, 4))
            cols = []
            for j, c in enumerate(names):
                t = 'i' if j == 0 else self.pick('iisb')
                cols.append((c, t, self.pick(TY[t]), j > 0))
            features = {}
            if self.p(0.25):
                for c in self.rng.sample(NAMES + ['hid'], self.rng.randint(1, 2)):
                    if c not in names:
                        t = self.pick('isb')
                        features[c] = self.pick(['hidden', 'hidden', 'synthesized', 'hidden,synthesized'])
                        cols.insert(self.rng.randint(1, len(cols)), (c, t, self.pick(TY[t]), True))
            if self.p(0.1):
                features[self.pick(names)] = 'read_only'
            rows = []
            ids = self.rng.sample(range(-2, 8), self.rng.choice([0, 1, 3, 4, 5]))
            for i in ids:
                rows.append((i,) + tuple(self.val(t) for _, t, _, _ in cols[1:]))
            tb = Table(self.pick(['s1', 's2']), 't%d' % k, cols, rows, [0])
            if self.tables and self.p(0.15):      # the same name in the other schema
                o = self.pick(self.tables)
                if sum(x.name == o.name for x in self.tables) == 1:
                    tb = Table('s2' if o.schema == 's1' else 's1', o.name, cols, rows, [0])
            if self.p(0.1):
                features[names[0]] = 'hidden'          # a key nobody sees
            tb.features = features
            if self.p(0.2):
                tb.pk.append(self.rng.randrange(1, len(cols)))
                self.rng.shuffle(tb.pk)
            self.tables.append(tb)
        return self.tables

    def behind(self, t):
        """the search path finds another table of that name first"""
        return t.schema == 's2' and any(x.name == t.name and x.schema == 's1' for x in self.tables)

    def catalog(self):
        out = []
        for s in ('s1', 's2'):
            out.append('schema\t' + s)
            if s == 's1':
                out.append(catalog_functions().rstrip('\n'))
            for t in self.tables:
                if t.schema == s:
                    out.append('table\t' + t.name)
                    for c, _, ty, nullable in t.cols:
                        out.append('col\t%s\t%s\t%s\t-\t%s' % (c, ty, 'null' if nullable else 'notnull', t.features.get(c, '')))
                    out.append('pk\t%s\t%s' % (t.name, ','.join(t.cols[k][0] + ':asc' for k in t.pk)))
        out.append('path\ts1,s2')
        out.append('default\ts1')
        for n, (t, ty, v) in self.host.items():
            out.append('host\t%s\t%s\tnull' % (n, ty))
        for n, (t, ty, v) in self.ph.items():
            out.append('ph\t%s\t%s\t%s' % (n, ty, 'null' if v is None else {'i': 'int8:%s', 's': 'char:%s', 'b': 'bool:%s'}[t] % (str(v).lower() if t == 'b' else v)))
        return '\n'.join(out) + '\n%%\n'

    def data(self):
        return {t.schema + '.' + t.name: [dict(zip([c[0] for c in t.cols], r)) for r in t.rows] for t in self.tables}

    def make_parameters(self):
        for n in self.rng.sample(['h1', 'h2', 'H3'], self.rng.randint(0, 3)):
            t = self.pick('isb')
            self.host[n] = (t, self.pick(TY[t]), self.val(t))
        for n in self.rng.sample(['p1', 'p2', 'p3'], self.rng.randint(0, 3)):
            t = self.pick('isb')
            v = self.val(t)
            self.ph[n] = (t, TY[t][0], v)

    # ------------------------------------------------------------------ names
    def ref_text(self, scope, ref, col):
        """ways to name a column, or None"""
        ways = []
        s = scope
        while s is not None:
            hits = [(r, c) for r in s.refs for c in r.cols if c.visible and c.name == col.name]
            if hits:
                if len(hits) == 1 and hits[0][1] is col:
                    ways.append(col.name)
                break
            s = s.parent
        s = scope
        while s is not None:
            hits = [r for r in s.refs if r.name == ref.name]
            if hits:
                if len(hits) == 1 and hits[0] is ref and len([c for c in ref.cols if c.visible and c.name == col.name]) == 1 and ref.name:
                    ways.append(ref.name + '.' + col.name)
                break
            s = s.parent
        s = scope
        while s is not None and ref.schema:
            hits = [r for r in s.refs if r.name == ref.name and r.schema == ref.schema]
            if hits:
                if len(hits) == 1 and hits[0] is ref and len([c for c in ref.cols if c.visible and c.name == col.name]) == 1:
                    ways.append(ref.schema + '.' + ref.name + '.' + col.name)
                break
            s = s.parent
        return self.pick(ways) if ways else None

    def column(self, scope, t, outer=0.3, only=None):
        """a reference to a column of type t, or None. only: identities which are allowed (grouping keys)"""
        levels = []
        s = scope
        while s is not None:
            levels.append(s)
            s = s.parent
        if not levels:
            return None
        k = 0
        while k + 1 < len(levels) and self.p(outer if levels[k].refs else 0.9):
            k += 1
        s, local = levels[k], k == 0
        allowed = s.allowed if s.allowed is not None else only if local else None
        opts = [(r, c) for r in s.refs for c in r.cols if c.visible and c.type == t and c.name is not None and (allowed is None or c.uid in allowed)]
        self.rng.shuffle(opts)
        for r, c in opts[:4]:
            text = self.ref_text(scope, r, c)
            if text:
                u = c.uid
                if not local:
                    self.note('correlated')
                return E(self.case(text), t, lambda env: env[u], True, c.name)
        return None

    def case(self, text):
        return text

    # ------------------------------------------------------------------ scalar expressions
    def lit(self, t):
        r = self.rng.random()
        if r < 0.12 and self.ph:
            xs = [(n, v) for n, (ty, _, v) in self.ph.items() if ty == t]
            if xs:
                n, v = self.pick(xs)
                self.note('placeholder')
                return E(':' + n, t, lambda env: v, simple=True)
        if r < 0.24 and self.host:
            xs = [(n, v) for n, (ty, _, v) in self.host.items() if ty == t]
            if xs:
                n, v = self.pick(xs)
                self.note('host parameter')
                return E(':' + n, t, lambda env: v, simple=True)
        if r < 0.3:
            return E('CAST(NULL AS %s)' % {'i': 'BIGINT', 's': 'VARCHAR(*)', 'b': 'BOOLEAN'}[t], t, lambda env: None)
        if t == 'i':
            n = self.rng.randint(0, 4)
            if self.p(0.1):
                n = self.pick([100, 127, 128, 32768, 2147483648, 9223372036854775807])
            return E(str(n), t, lambda env: n, simple=True)
        if t == 's':
            s = self.pick(STRINGS)
            return E("'%s'" % s, t, lambda env: s.replace("''", "'"), simple=True)
        b = self.p(0.5)
        return E(self.pick(['TRUE', 'true']) if b else 'FALSE', t, lambda env: b, simple=True)

    def expr(self, t, scope, agg=None):
        """agg: None, or (keys, inner scope allowed): a grouped query, where columns stand for grouping keys or in set functions"""
        self.fuel -= 1
        if self.fuel <= 0 or self.p(0.25):
            only = agg
            if scope is not None and self.p(0.8):
                c = self.column(scope, t, only=only)
                if c is not None:
                    return c
            if agg is not None and self.p(0.5) and self.fuel > -20:
                return self.set_function(t, scope)
            return self.lit(t)
        if agg is not None and self.p(0.3):
            return self.set_function(t, scope)
        return getattr(self, 'expr_' + t)(scope, agg)

    def par(self, e):
        if e.simple :
            return e.text
        return '(' + e.text + ')'

    def set_function(self, t, scope):
        opts = [a for a in AGGREGATES.values() if a[2] == t]
        if not opts:
            return self.lit(t)
        name, params, _, text, f = self.pick(opts)
        # its operands only read the relations of its own query
        inner = Block(scope, scope.refs)
        args = [self.expr(x, inner) for x in params]
        self.note('set function ' + name)
        at = ', '.join(a.text for a in args)
        fs = [a.f for a in args]
        return E(text % at if '%s' in text else text, t, lambda env: f([tuple(g(r) for g in fs) for r in env['group']]), True)

    def generic(self, t, scope, agg):
        """forms of any type"""
        e = lambda x: self.expr(x, scope, agg)
        r = self.rng.randint(0, 9)
        if r == 0:
            self.note('searched case')
            ws = [(e('b'), e(t)) for _ in range(self.rng.randint(1, 2))]
            d = e(t) if self.p(0.6) else None
            text = 'CASE %s %sEND' % (' '.join('WHEN %s THEN %s' % (a.text, b.text) for a, b in ws), 'ELSE %s ' % d.text if d else '')

            def f(env):
                for a, b in ws:
                    if a.f(env) is True:
                        return b.f(env)
                return d.f(env) if d else None
            return E(text, t, f, True)
        if r == 1:
            self.note('simple case')
            ot = self.pick('isb')
            o = e(ot)
            ws = [(e(ot), e(t)) for _ in range(self.rng.randint(1, 2))]
            d = e(t) if self.p(0.6) else None
            text = 'CASE %s %s %sEND' % (o.text, ' '.join('WHEN %s THEN %s' % (a.text, b.text) for a, b in ws), 'ELSE %s ' % d.text if d else '')

            def f(env):
                x = o.f(env)
                for a, b in ws:
                    if plan.cmp3('equal', x, a.f(env)) is True:
                        return b.f(env)
                return d.f(env) if d else None
            return E(text, t, f, True)
        if r == 2:
            self.note('coalesce')
            xs = [e(t) for _ in range(self.rng.randint(1, 3))]

            def f(env):
                for x in xs:
                    v = x.f(env)
                    if v is not None:
                        return v
                return None
            return E('COALESCE(%s)' % ', '.join(x.text for x in xs), t, f, True)
        if r == 3:
            self.note('nullif')
            a, b = e(t), e(t)

            def f(env):
                x = a.f(env)
                return None if plan.cmp3('equal', x, b.f(env)) is True else x
            return E('NULLIF(%s, %s)' % (a.text, b.text), t, f, True)
        if r in (4, 5):
            opts = [f for f in FUNCTIONS.values() if f[2] == t]
            name, params, _, how, fn = self.pick(opts)
            self.note('function ' + name)
            args = [e(x) for x in params]
            at = ', '.join(a.text for a in args)
            fs = [a.f for a in args]
            return E('%s(%s)' % (name, at) if how == 'call' else how % at, t, lambda env: fn([g(env) for g in fs]), True)
        if r == 6:
            self.note('cast')
            u = {'i': 'i', 's': self.pick('isb'), 'b': 'b'}[t]
            a = e(u)
            ty = self.pick({'i': [('BIGINT', 'int8'), ('INT', 'int4')], 's': [('VARCHAR(*)', 'varchar')], 'b': [('BOOLEAN', 'boolean')]}[t])
            return E('CAST(%s AS %s)' % (a.text, ty[0]), t, lambda env: plan.cast(a.f(env), ty[1]), True)
        if r == 7 and not self.low():
            q = self.scalar_subquery(t, scope, agg)
            if q is not None:
                return q
        return None

    def expr_i(self, scope, agg):
        g = self.generic('i', scope, agg)
        if g is not None:
            return g
        if self.p(0.15):
            a = self.expr('i', scope, agg)
            if self.p(0.7):
                return E('-' + self.par2(a), 'i', lambda env: None if a.f(env) is None else -a.f(env))
            return E('+' + self.par2(a), 'i', a.f)
        op, name = self.pick([('+', 'add'), ('-', 'subtract'), ('*', 'multiply'), ('/', 'divide'), ('%', 'remainder')])
        a, b = self.expr('i', scope, agg), self.expr('i', scope, agg)
        return E('%s %s %s' % (self.par(a), op, self.par(b)), 'i', lambda env: plan.arith(name, a.f(env), b.f(env)))

    def par2(self, e):
        return '(' + e.text + ')'

    def expr_s(self, scope, agg):
        g = self.generic('s', scope, agg)
        if g is not None:
            return g
        a, b = self.expr('s', scope, agg), self.expr('s', scope, agg)
        return E('%s || %s' % (self.par(a), self.par(b)), 's', lambda env: plan.arith('concat', a.f(env), b.f(env)))

    CMP = [('=', 'equal'), ('<>', 'not_equal'), ('<', 'less'), ('<=', 'less_equal'), ('>', 'greater'), ('>=', 'greater_equal'), ('!=', 'not_equal')]

    def expr_b(self, scope, agg):
        if self.p(0.25):
            g = self.generic('b', scope, agg)
            if g is not None:
                return g
        e = lambda t: self.expr(t, scope, agg)
        r = self.rng.randint(0, 12)
        if r <= 2:
            t = self.pick('iiisb')
            op, name = self.pick(self.CMP)
            a, b = e(t), e(t)
            return E('%s %s %s' % (self.par(a), op, self.par(b)), 'b', lambda env: plan.cmp3(name, a.f(env), b.f(env)))
        if r in (3, 4):
            a, b = e('b'), e('b')
            if self.p(0.5):
                return E('%s AND %s' % (self.par(a), self.par(b)), 'b', lambda env: plan.and3(a.f(env), b.f(env)))
            return E('%s OR %s' % (self.par(a), self.par(b)), 'b', lambda env: plan.or3(a.f(env), b.f(env)))
        if r == 5:
            a = e('b')
            return E('NOT ' + self.par2(a), 'b', lambda env: plan.not3(a.f(env)))
        neg = self.p(0.4)
        sign = (lambda x: plan.not3(x)) if neg else (lambda x: x)
        if r == 6:
            t = self.pick('isb')
            a = e(t)
            w = 'NULL'
            g = lambda env: a.f(env) is None
            if t == 'b' and self.p(0.7):
                w = self.pick(['TRUE', 'FALSE', 'UNKNOWN'])
                want = {'TRUE': True, 'FALSE': False, 'UNKNOWN': None}[w]
                g = lambda env: a.f(env) is want
            self.note('is ' + w)
            return E('%s IS %s%s' % (self.par(a), 'NOT ' if neg else '', w), 'b', lambda env: sign(g(env)))
        if r == 7:
            t = self.pick('is')
            a, b, c = e(t), e(t), e(t)
            sym = self.pick(['', '', 'ASYMMETRIC ', 'SYMMETRIC '])
            self.note('between ' + sym)

            def f(env):
                x, lo, hi = a.f(env), b.f(env), c.f(env)

                def bt(lo, hi):
                    return plan.and3(plan.cmp3('less_equal', lo, x), plan.cmp3('less_equal', x, hi))
                v = bt(lo, hi)
                if sym == 'SYMMETRIC ':
                    v = plan.or3(v, bt(hi, lo))
                return sign(v)
            return E('%s %sBETWEEN %s%s AND %s' % (self.par(a), 'NOT ' if neg else '', sym, self.par(b), self.par(c)), 'b', f)
        if r == 8:
            t = self.pick('isb')
            a = e(t)
            xs = [e(t) for _ in range(self.rng.randint(1, 3))]
            self.note('in list')

            def f(env):
                return sign(plan.quantified('equal', 'any', a.f(env), [x.f(env) for x in xs]))
            return E('%s %sIN (%s)' % (self.par(a), 'NOT ' if neg else '', ', '.join(x.text for x in xs)), 'b', f)
        if r == 9:
            a, b = e('s'), e('s')
            c = None
            if self.p(0.3):
                ch = self.pick(['_', 'a', '!'])
                c = E("'%s'" % ch, 's', lambda env: ch)
            k = self.pick(['LIKE', 'LIKE', 'SIMILAR TO'])
            self.note(k)
            fn = plan.like if k == 'LIKE' else plan.similar
            return E('%s %s%s %s%s' % (self.par(a), 'NOT ' if neg else '', k, self.par(b), ' ESCAPE ' + c.text if c else ''), 'b',
                     lambda env: sign(fn(a.f(env), b.f(env), c.f(env) if c else '')))
        if self.low():
            return self.lit('b')
        if r == 10:
            q = self.subquery(scope, agg)
            self.note('exists')
            return E('EXISTS (%s)' % q.text, 'b', lambda env: bool(q.rows(env)))
        t = self.pick('isb')
        q = self.subquery(scope, agg, [t])
        if q.text.lstrip('\x01').startswith('VALUES') and r == 11:
            return self.lit('b')      # IN (VALUES (...)) is not supported
        a = e(t)
        if r == 11:
            self.note('in query')
            return E('%s %sIN (%s)' % (self.par(a), 'NOT ' if neg else '', q.text), 'b',
                     lambda env: sign(plan.quantified('equal', 'any', a.f(env), [x[0] for x in q.rows(env)])))
        op, name = self.pick(self.CMP)
        w = self.pick(['ANY', 'SOME', 'ALL'])
        self.note('quantified ' + w)
        return E('%s %s %s (%s)' % (self.par(a), op, w, q.text), 'b',
                 lambda env: plan.quantified(name, 'all' if w == 'ALL' else 'any', a.f(env), [x[0] for x in q.rows(env)]))

    # ------------------------------------------------------------------ subqueries in expressions
    def around(self, scope, agg):
        if agg is None or scope is None:
            return scope
        # only grouping keys of the query around are allowed
        h = Hidden(scope.refs, scope.parent, frozenset(agg))
        h.ctes = getattr(scope, 'ctes', ())
        return h

    def subquery(self, scope, agg, types=None):
        """a nested query which may read the columns around it"""
        return self.query(self.around(scope, agg), types)

    def scalar_subquery(self, t, scope, agg):
        q = self.query(self.around(scope, agg), [t], single=True)
        if not q.single:
            return None
        self.note('scalar subquery')

        def f(env):
            rows = q.rows(env)
            return rows[0][0] if rows else None
        return E('(%s)' % q.text, t, f, True)

    # ------------------------------------------------------------------ FROM
    def alias(self, taken):
        n = self.pick(['x', 'y', 'z', 'u', 'v', 't0', 't1', 't2', 'w1', 'w2'])
        while n in taken:
            n = 'r%d' % next(self.names)
        taken.add(n)
        return n

    def base(self, scope, taken):
        """a table, a common table or a nested query: (text, refs, rows(env) -> [env])"""
        r = self.rng.random()
        ctes = self.visible_ctes(scope)
        if ctes and r < 0.4:
            name, cols, rows = self.pick(ctes)
            self.note('common table')
            return self.with_alias(name, name, None, cols, rows, taken, named=True)
        if r < 0.75 or self.low():
            t = self.pick([t for t in self.tables])
            shadowed = any(n == t.name for n, _, _ in ctes)
            qualified = self.p(0.3) or shadowed or self.behind(t)
            data = t.vrows()
            if len(data) and len(data[0]) != len(t.cols):
                self.note('hidden columns')
            return self.with_alias((t.schema + '.' if qualified else '') + t.name, t.name, t.schema, t.vcols(),
                                   lambda env: data, taken, named=True)
        # it sees what is around the query, not the relations beside it
        if self.p(0.5):
            q = self.query(scope)
        else:
            q = self.query(Block(scope))
        self.note('nested query')
        return self.with_alias('(%s)' % q.text, None, None, q.cols, q.rows, taken, named=False)

    def with_alias(self, text, name, schema, cols, rows, taken, named):
        cols = list(cols)
        full = schema and (schema, name)
        twin = full and name in taken and full not in taken and (None, name) in taken     # another table of that name: both can be told apart
        if not named or name in taken and not twin or self.p(0.4):
            a = self.alias(taken)
            text += ' %s%s' % ('AS ' if self.p(0.5) else '', a)
            if self.p(0.25) or not named and any(c[0] is None for c in cols) and self.p(0.8):
                k = len(cols)
                ns = (NAMES + ['k%d' % i for i in range(20)])[:max(k, 5)] if k <= 5 else ['k%d' % i for i in range(k)]
                ns = self.rng.sample(ns, k)
                text += ' (%s)' % ', '.join(ns)
                cols = [(n, t) for n, (_, t) in zip(ns, cols)]
            name, schema = a, None
        else:
            if twin:
                self.note('tables of one name')
            taken.add(name)
            if full:
                taken.update([full, (None, name)])
        ref = Ref(name, schema, [Col(n, t, next(self.uid)) for n, t in cols])
        ids = [c.uid for c in ref.cols]
        return text, [ref], lambda env: [_merge(env, ids, r) for r in rows(env)]

    def from_item(self, scope, taken, depth=0):
        self.fuel -= 1
        r = self.rng.random()
        if self.low() or depth > 2 or r < 0.55:
            return self.base(scope, taken)
        if r < 0.65:
            return self.apply(scope, taken, depth)
        return self.join(scope, taken, depth)

    def apply(self, scope, taken, depth):
        text, refs, rows = self.from_item(scope, taken, depth + 1)
        name, params, cols, fn = self.pick(list(TABLEFNS.values()))
        kind = self.pick(['CROSS ', 'OUTER ', ''])
        inner = Scope(refs, self.beyond(scope))
        args = [self.expr(t, inner) for t in params]
        a = self.alias(taken)
        rt = ''
        if self.p(0.4):
            ns = self.rng.sample(NAMES, len(cols))
            rt = ' (%s)' % ', '.join(ns)
            cols = [(n, t) for n, (_, t) in zip(ns, cols)]
        ref = Ref(a, None, [Col(n, t, next(self.uid)) for n, t in cols])
        ids = [c.uid for c in ref.cols]
        self.note('apply ' + kind)

        def f(env):
            res = []
            for e in rows(env):
                out = fn([x.f(e) for x in args])
                if not out and kind == 'OUTER ':
                    out = [[None] * len(ids)]
                res += [_merge(e, ids, o) for o in out]
            return res
        return '%s %sAPPLY %s(%s) AS %s%s' % (text, kind, name, ', '.join(x.text for x in args), a, rt), refs + [ref], f

    def beyond(self, scope):
        """what expressions in FROM see besides the relations of their join"""
        return scope

    def join(self, scope, taken, depth):
        lt, lrefs, lrows = self.from_item(scope, taken, depth + 1)
        rt, rrefs, rrows = self.from_item(scope, taken, depth + 1)
        nested = len(rrefs) > 1
        if nested:
            rt = '(%s)' % rt
        kind = self.pick(['CROSS JOIN', 'JOIN', 'INNER JOIN', 'LEFT JOIN', 'LEFT OUTER JOIN', 'RIGHT JOIN', 'FULL OUTER JOIN'])
        self.note(kind)
        cond = None
        text = '%s %s %s' % (lt, kind, rt)
        refs = lrefs + rrefs
        merged = []
        if kind != 'CROSS JOIN':
            names = None
            if self.p(0.3) and (self.outer_using or not kind.startswith(('RIGHT', 'FULL'))):
                def visible(rs):
                    n = {}
                    for r in rs:
                        for c in r.cols:
                            if c.visible:
                                n.setdefault(c.name, []).append(c)
                    return n
                lv, rv = visible(lrefs), visible(rrefs)
                names = [n for n in lv if n is not None and n in rv and len(lv[n]) == 1 and len(rv[n]) == 1 and lv[n][0].type == rv[n][0].type]
                self.rng.shuffle(names)
                names = names[:self.rng.randint(1, 2)]
            if names:
                text += ' USING (%s)' % ', '.join(names)
                self.note('using ' + kind)
                pairs = [(lv[n][0].uid, rv[n][0].uid) for n in names]
                merged = pairs
                cond = lambda env: plan_all(plan.cmp3('equal', env[a], env[b]) for a, b in pairs)
                for n in names:
                    rv[n][0].visible = False
            else:
                e = self.expr('b', Scope(refs, self.beyond(scope)))
                text += ' ON ' + e.text
                cond = e.f
        lid = [c.uid for r in lrefs for c in r.cols]
        rid = [c.uid for r in rrefs for c in r.cols]
        left = kind.startswith(('LEFT', 'FULL'))
        right = kind.startswith(('RIGHT', 'FULL'))

        def f(env):
            ls, rs = lrows(env), rrows(env)
            self.spend(len(ls) * len(rs))
            res = []
            hit = set()
            for a in ls:
                found = False
                for j, b in enumerate(rs):
                    m = dict(a)
                    m.update(b)
                    if cond is None or cond(m) is True:
                        found = True
                        hit.add(j)
                        res.append(m)
                if not found and left:
                    res.append(_merge(a, rid, [None] * len(rid)))
            if right:
                for j, b in enumerate(rs):
                    if j not in hit:
                        m = _merge(b, lid, [None] * len(lid))
                        for x, y in merged:     # a column of USING has the value of the side which is there
                            m[x] = m[y]
                        res.append(m)
            return res
        return text, refs, f

    def spend(self, n):
        self.budget -= n + 1
        if self.budget < 0:
            raise plan.Runtime('budget')

    # ------------------------------------------------------------------ queries
    def visible_ctes(self, scope):
        res = []
        seen = set()
        s = scope
        while s is not None:
            for c in getattr(s, 'ctes', ()):
                if c[0] not in seen:
                    seen.add(c[0])
                    res.append(c)
            s = s.up if isinstance(s, Block) else s.parent
        return res

    def query(self, scope, types=None, single=False, top=False):
        """scope: the scope around"""
        self.fuel -= 1
        if (self.p(0.12) or top and self.p(0.2)) and not self.low():
            return self.with_query(scope, types, single, top)
        r = self.rng.random()
        if not single and r < (0.25 if not self.low() else 0):
            return self.set_operation(scope, types)
        if not single and r < 0.33:
            return self.values(scope, types)
        if not single and r < 0.38 and (types is None) and not top:
            t = self.pick(self.tables)
            if not any(n == t.name for n, _, _ in self.visible_ctes(scope)):
                rows = t.vrows()
                self.note('table query')
                return Q('TABLE %s.%s' % (t.schema, t.name), t.vcols(), lambda env: rows)
        return self.select(scope, types, single, top)

    def with_query(self, scope, types, single, top):
        own = CteScope([], scope)
        own.ctes = []
        parts = []
        for _ in range(self.rng.randint(1, 2)):
            name = self.pick(['w1', 'w2', 't0', 't1'])
            if any(n == name for n, _, _ in own.ctes):
                continue
            q = self.query(Block(own))
            cols = q.cols
            text = name
            if self.p(0.4) or any(c[0] is None for c in cols):
                k = len(cols)
                ns = self.rng.sample(NAMES, k) if k <= 5 else ['k%d' % i for i in range(k)]
                text += ' (%s)' % ', '.join(ns)
                cols = [(n, t) for n, (_, t) in zip(ns, cols)]
            parts.append('%s AS (%s)' % (text, q.text))
            own.ctes.append((name, cols, strip(q.rows)))
        self.note('with')
        q = self.query_body(own, types, single, top)
        return Q('WITH %s %s' % (', '.join(parts), q.text), q.cols, q.rows, q.order, q.limit, q.single)

    def query_body(self, scope, types, single, top):
        r = self.rng.random()
        if not single and r < 0.15:
            return self.set_operation(scope, types)
        return self.select(scope, types, single, top)

    def values(self, scope, types):
        types = types or [self.pick('isb') for _ in range(self.rng.randint(1, 3))]
        n = self.rng.randint(1, 3)
        rows = [[self.expr(t, scope) for t in types] for _ in range(n)]
        self.note('values')
        return Q('VALUES ' + ', '.join('(%s)' % ', '.join(e.text for e in r) for r in rows), [(None, t) for t in types],
                 lambda env: [tuple(e.f(env) for e in r) for r in rows])

    def set_operation(self, scope, types):
        types = types or [self.pick('isb') for _ in range(self.rng.randint(1, 3))]
        l, r = self.operand(scope, types), self.operand(scope, types)
        op = self.pick(['UNION', 'UNION ALL', 'UNION DISTINCT', 'EXCEPT', 'EXCEPT ALL', 'INTERSECT', 'INTERSECT ALL', 'EXCEPT DISTINCT', 'INTERSECT DISTINCT'])
        if l.chain and (l.chain == 'INTERSECT' or not op.startswith('INTERSECT')) and self.p(0.6):
            l = Q(l.text[1:-1], l.cols, l.rows)       # read from the left to the right
            self.note('set operations in a row')
        elif r.chain == 'INTERSECT' and not op.startswith('INTERSECT') and self.p(0.6):
            r = Q(r.text[1:-1], r.cols, r.rows)       # INTERSECT binds more tightly
            self.note('set operations in a row')
        self.note(op)
        every = op.endswith('ALL')

        def f(env):
            a, b = l.rows(env), r.rows(env)
            if op.startswith('UNION'):
                return a + b if every else untag(dict.fromkeys(map(tag, a + b)))
            from collections import Counter
            n = Counter(map(tag, b))
            res = []
            seen = set()
            for x in a:
                t = tag(x)
                hit = n[t] > 0
                if every:
                    n[t] -= hit
                else:
                    if t in seen:
                        continue
                    seen.add(t)
                if hit == op.startswith('INTERSECT'):
                    res.append(x)
            return res
        q = Q('%s %s %s' % (l.text, op, r.text), l.cols, f)
        q.chain = op.split()[0]
        return q

    def operand(self, scope, types):
        r = self.rng.random()
        if r < 0.22 and not self.low():
            q = self.set_operation(scope, types)
            x = Q('(%s)' % q.text, q.cols, q.rows)
            x.chain = q.chain
            return x
        if r < 0.25:
            return self.values(scope, types)
        q = self.select(scope, types, operand=True)
        return Q('(%s)' % q.text, q.cols, q.rows) if self.p(0.5) else q

    def select(self, scope, types=None, single=False, top=False, operand=False):
        """SELECT ...; scope: what is around"""
        taken = set()
        refs = []
        text = ''
        if self.p(0.93):
            items = []
            for _ in range(self.pick([1, 1, 1, 2])):
                items.append(self.from_item(scope, taken))
            text = ' FROM ' + ', '.join(i[0] for i in items)
            refs = [r for i in items for r in i[1]]

            def source(env, items=items):
                res = [env]
                first = True
                for _, _, rows in items:
                    x = rows(env)
                    self.spend(len(x) * len(res))
                    res = [_join(a, b) for a in res for b in x]
                return res
        else:
            source = lambda env: [env]
            self.note('no from')
        own = Scope(refs, scope)
        where = None
        if refs and self.p(0.4):
            where = self.expr('b', own)
            text += ' WHERE ' + where.text
        grouped = self.p(0.3) if not single else self.p(0.5)
        keys = None
        having = None
        self.note('select')
        if grouped and not (single and not refs):
            keys = []
            cols = [(r, c) for r in refs for c in r.cols if c.visible and c.name is not None]
            self.rng.shuffle(cols)
            explicit = bool(refs) and not single and self.p(0.75)
            ktext = []
            if explicit:
                some = cols[:self.rng.randint(1, 3)]
                if self.p(0.2):       # all columns of a relation, for an asterisk
                    some += [rc for rc in cols if rc[0] is cols[0][0] and rc not in some] if cols else []
                for r, c in some:
                    t = self.ref_text(own, r, c)
                    if t:
                        keys.append(c.uid)
                        ktext.append(t)
                        if self.p(0.1):
                            ktext.append(self.ref_text(own, r, c))
                if not ktext:
                    explicit = self.p(0.5)
            if explicit:
                if not ktext:
                    self.note('group by ()')
                    text += ' GROUP BY ()'
                else:
                    self.note('group by')
                    text += ' GROUP BY ' + ', '.join(ktext)
            if refs and self.p(0.4):
                having = self.expr('b', own, frozenset(keys))
                text += ' HAVING ' + having.text
                self.note('having')
        agg = frozenset(keys) if keys is not None else None
        # the selection
        outs = []       # (text, [(name, type)], f(env) -> [values], uids)
        if types is None and keys is None and refs and self.p(0.2 if all(c.visible for r in refs for c in r.cols) else 0.35):
            if self.p(0.6):
                cs = [c for r in refs for c in r.cols if c.visible]
                if cs:
                    outs.append(('*', [(c.name, c.type) for c in cs], lambda env, cs=cs: [env[c.uid] for c in cs], None))
                    self.note('select *')
            else:
                half = [r for r in refs if any(not c.visible for c in r.cols) and r.name]
                r = self.pick(half or refs)
                cs = [c for c in r.cols if c.visible]
                if cs and len([x for x in refs if x.name == r.name]) == 1 and r.name:
                    outs.append((r.name + '.*', [(c.name, c.type) for c in cs], lambda env, cs=cs: [env[c.uid] for c in cs], None))
                    self.note('select r.*')
        if types is None and keys and self.p(0.6):
            full = [r for r in refs if all(c.uid in keys for c in r.cols if c.visible)]
            cs = [c for r in refs for c in r.cols if c.visible]
            if len(full) == len(refs) and cs and self.p(0.6):
                outs.append(('*', [(c.name, c.type) for c in cs], lambda env, cs=cs: [env[c.uid] for c in cs], None))
                self.note('select * grouped')
            elif full:
                r = self.pick(full)
                cs = [c for c in r.cols if c.visible]
                if cs and len([x for x in refs if x.name == r.name]) == 1 and r.name:
                    outs.append((r.name + '.*', [(c.name, c.type) for c in cs], lambda env, cs=cs: [env[c.uid] for c in cs], None))
                    self.note('select r.* grouped')
        ts = types or ([] if outs and self.p(0.5) else [self.pick('iisb') for _ in range(self.rng.randint(1, 3))])
        for t in ts:
            if keys and self.p(0.5):
                e = self.column(own, t, outer=0.05, only=agg) or self.expr(t, own, agg)
            else:
                e = self.expr(t, own, agg)
            name = e.name
            et = e.text
            if self.p(0.4):
                name = self.pick(NAMES + ['n1', 'n2'])
                et += (' AS ' if self.p(0.7) else ' ') + name
            outs.append((et, [(name, t)], lambda env, f=e.f: [f(env)], e))
        implicit = False
        if keys is not None and not explicit and having is None:
            # a set function makes it an aggregated query
            if not any(re.match(r'(count|sum|max|min|every|bool_or|bool_and|xorall|pairs|bit_and)\(', o[0], re.I) for o in outs):
                e = self.set_function('i', own)
                if types is None:
                    outs.append((e.text, [(None, 'i')], lambda env, f=e.f: [f(env)], e))
                else:
                    t = outs[0][3].text
                    outs[0] = ('CASE WHEN COUNT(*) >= 0 THEN %s END' % t, [(None, outs[0][1][0][1])], outs[0][2], None)
        distinct = self.p(0.15 if not any(o[0].endswith('*') for o in outs) else 0.4)
        cols = [c for o in outs for c in o[1]]
        # ORDER BY and LIMIT
        order = []
        limit = None
        one = keys is not None and not keys or not refs
        if refs and not operand and (top and self.p(0.5) or not top and not single and self.p(0.08)) or (single and not one):
            if distinct:
                cand = [o[3] for o in outs if o[3] is not None and o[3].name is not None]
                for e in cand:
                    if self.p(0.7):
                        order.append((e, self.pick(['', ' ASC', ' DESC'])))
            else:
                for _ in range(self.rng.randint(1, 2)):
                    t = self.pick('isb')
                    e = self.expr(t, own, agg)
                    if not is_literal(e.text):
                        order.append((e, self.pick(['', ' ASC', ' DESC'])))
        ob = ''
        if not top:
            # only a total order gives one result
            order = []
            if refs and (single and not one or not operand and self.p(0.06)) and keys is None and not distinct:
                cs = [c for r in refs for c in r.cols if c.visible]
                names = [(self.pick_ref(own, c, refs), c) for c in cs]
                if all(n for n, _ in names) and len(names) == len([c for r in refs for c in r.cols]):
                    order = [(E(n, c.type, (lambda env, u=c.uid: env[u])), self.pick(['', ' DESC'])) for n, c in names]
        if order:
            ob = ' ORDER BY ' + ', '.join(e.text + d for e, d in order)
            self.note('order by')
        if single and not one:
            if not order:
                return Q('', cols, None)
            limit = 1
        elif not refs:
            limit = None
        elif top and self.p(0.3) or order and not top and self.p(0.8):
            limit = self.pick([0, 1, 2, 3, 10]) if self.p(0.85) else self.pick([2**31 + 1, 2**32, 2**32 + 1, 2**33 + 2, 2**63 - 1])
        if limit is not None:
            ob += ' LIMIT %d' % limit
            self.note('limit')
        sql = 'SELECT %s%s%s%s' % (self.pick(['DISTINCT ']) if distinct else self.pick(['', '', 'ALL ']), ', '.join(o[0] for o in outs), text, ob)
        if distinct:
            self.note('distinct')

        def compute(env):
            rows = source(env)
            self.spend(len(rows))
            if where is not None:
                rows = [r for r in rows if where.f(r) is True]
            if keys is not None:
                groups = {}
                for r in rows:
                    groups.setdefault(tag([r[k] for k in keys]), []).append(r)
                if not keys and not groups:
                    groups[()] = []
                rows = []
                for g in groups.values():
                    m = dict(env)
                    for k in keys:
                        m[k] = g[0][k]
                    m['group'] = g
                    rows.append(m)
                if having is not None:
                    rows = [r for r in rows if having.f(r) is True]
            res = []
            for r in rows:
                res.append(([plan.sort_key(e.f(r), d == ' DESC') for e, d in order], tuple(v for o in outs for v in o[2](r))))
            if distinct:
                d = {}
                for k, t in res:
                    d.setdefault(tag(t), (k, t))
                res = list(d.values())
            if order:
                res.sort(key=lambda x: x[0])
            return res

        def rows(env):
            r = [t for _, t in compute(env)]
            return r if limit is None else r[:limit]
        return Q(sql, cols, rows, compute, limit, single and (one or limit is not None))

    def pick_ref(self, scope, col, refs):
        for r in refs:
            if col in r.cols:
                return self.ref_text(scope, r, col) if col.name else None
        return None


class Hidden(Scope):
    """the scope around a subquery of a grouped query"""


class CteScope(Scope):
    """common tables"""


class Block(Scope):
    """nothing of the scope above can be read except common tables"""

    def __init__(self, up, refs=()):
        super().__init__(list(refs), None)
        self.up = up


def strip(rows):
    return lambda env: rows({})


def is_literal(t):
    t = t.strip('()+- ')
    return t[:1] in "'0123456789" or t.upper() in ('TRUE', 'FALSE') or t.startswith(':')


def _merge(env, ids, r):
    m = dict(env)
    for u, v in zip(ids, r):
        m[u] = v
    return m


def _join(a, b):
    m = dict(a)
    m.update(b)
    return m


def tag(t):
    return tuple((type(v).__name__, v) for v in t)


def untag(ts):
    return [tuple(v for _, v in t) for t in ts]


def plan_all(xs):
    r = True
    for x in xs:
        r = plan.and3(r, x)
    return r


def compare(q, want, rows):
    """what is wrong with the rows of a query, or None. want: rows in any order, or [(sort key, row)] in order"""
    from collections import Counter
    if q.order is None:
        a, b = Counter(map(tag, want)), Counter(map(tag, rows))
        if a != b:
            return 'missing rows %s, wrong rows %s' % (untag((a - b).elements())[:5], untag((b - a).elements())[:5])
        return None
    n = len(want) if q.limit is None else min(q.limit, len(want))
    if len(rows) != n:
        return '%d rows instead of %d' % (len(rows), n)
    i = 0
    while i < n:
        j = i
        while j < len(want) and want[j][0] == want[i][0]:
            j += 1
        a, b = Counter(tag(r) for _, r in want[i:j]), Counter(map(tag, rows[i:min(j, n)]))
        if b - a or j <= n and a - b:
            return 'rows %d to %d: missing %s, wrong %s' % (i, j, untag((a - b).elements())[:5], untag((b - a).elements())[:5])
        i = j
    return None
