"""Random catalogs in which the same names are declared in many places, and references together with the declaration they denote."""
import re

FOLDS = {'variable': 'lowercase_variable_regular_identifiers', 'function': 'lowercase_function_regular_identifiers', 'relation': 'lowercase_relation_regular_identifiers',
         'schema': 'lowercase_schema_regular_identifiers', 'catalog': 'lowercase_catalog_regular_identifiers'}
POOL = ['foo', 'Foo', 'FOO', 'bar', 'Bar', 'qux', 'Q x']
SCHEMAS = ['s1', 's2', 'S2', 'foo', 'Foo', 'bar']
CATALOG = 'tsurugi'
# from -> what its values can be passed to
RANK = {'int4': 1, 'int8': 2, 'float8': 3}
TYPES = ['int4', 'int8', 'float8', 'varchar(*)', 'date', 'boolean']
SQL = {'int4': 'INT', 'int8': 'BIGINT', 'float8': 'DOUBLE PRECISION', 'varchar(*)': 'VARCHAR(*)', 'date': 'DATE', 'boolean': 'BOOLEAN'}
VALUES = {'int4': 'int4:5', 'int8': 'int8:6', 'float8': 'float8:0x1p-1', 'varchar(*)': 'char:x', 'date': 'date:9', 'boolean': 'bool:true'}
# what is written -> the name it stands for
BUILTIN = {'ABS(%s)': 'abs', 'MOD(%s, %s)': 'mod', 'CEIL(%s)': 'ceil', 'FLOOR(%s)': 'floor', 'CARDINALITY(%s)': 'cardinality', 'CHAR_LENGTH(%s)': 'character_length', 'CHARACTER_LENGTH(%s)': 'character_length',
           'OCTET_LENGTH(%s)': 'octet_length', 'UPPER(%s)': 'upper', 'LOWER(%s)': 'lower', 'LENGTH(%s)': 'length', 'POSITION(%s IN %s)': 'position', 'SUBSTRING(%s FROM %s)': 'substring',
           'SUBSTRING(%s FROM %s FOR %s)': 'substring', 'OVERLAY(%s PLACING %s FROM %s FOR %s)': 'overlay', 'OVERLAY(%s PLACING %s FROM %s)': 'overlay', 'CURRENT_DATE': 'current_date', 'CURRENT_TIME': 'current_time',
           'LOCALTIME': 'localtime', 'CURRENT_TIMESTAMP': 'current_timestamp', 'LOCALTIMESTAMP': 'localtimestamp', 'CURRENT_TIMESTAMP(%s)': 'current_timestamp', 'LOCALTIME(%s)': 'localtime'}
# field -> the function it delegates to, the operands it can be taken from
D, TS, TZ = ['date'], ['ts', 'tstz'], ['timetz', 'tstz']
EXTRACT = {'YEAR': ('extract_year', D + TS), 'MONTH': ('extract_month', D + TS), 'DAY': ('extract_day', D + TS), 'HOUR': ('extract_hour', ['time', 'timetz'] + TS), 'MINUTE': ('extract_minute', ['time', 'timetz'] + TS),
           'SECOND': ('extract_second', ['time', 'timetz'] + TS), 'TIMEZONE_HOUR': ('extract_timezone_hour', TZ), 'TIMEZONE_MINUTE': ('extract_timezone_minute', TZ), 'DATE': ('date', D + TS),
           'YEAR TO MONTH': ('extract_year_to_month', D + TS), 'YEAR TO DAY': ('extract_year_to_day', D + TS), 'YEAR TO HOUR': ('extract_year_to_hour', TS), 'YEAR TO MINUTE': ('extract_year_to_minute', TS),
           'YEAR TO SECOND': ('extract_year_to_second', TS)}
TEMPORAL = {'date': 'DATE', 'time': 'TIME', 'timetz': 'TIME WITH TIME ZONE', 'ts': 'TIMESTAMP', 'tstz': 'TIMESTAMP WITH TIME ZONE', 'varchar(*)': 'VARCHAR(*)'}
SET = {'SUM': 'sum', 'MAX': 'max', 'MIN': 'min', 'AVG': 'avg', 'COUNT': 'count', 'EVERY': 'every'}


def applies(args, params):
    """values of these types can be passed to parameters of those types"""
    return len(args) == len(params) and all(a == 'unknown' or a == p or RANK.get(a, 9) <= RANK.get(p, 0) for a, p in zip(args, params))


class Fail(Exception):
    """a reference denotes nothing"""

    def __init__(self, place, *codes, form=None):
        self.form = form
        self.place = place          # the text which must contain the reported region
        self.codes = set(codes)


class Schema:
    def __init__(self, name):
        self.name = name
        self.tables, self.vars, self.indices, self.views = {}, {}, {}, []
        self.funcs, self.aggrs = [], []         # (id, name, result, parameters, kind)


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.ids = 20000
        self.seen = set()
        self.given = {o: rng.randint(0, 1) if rng.random() < .7 else 0 for o in FOLDS.values()}
        self.given['lowercase_regular_identifiers'] = int(rng.random() < .2)
        self.given['host_parameter_declaration_starts_with_colon'] = rng.randint(0, 1)
        self.given['allow_context_independent_null'] = 1
        self.make()

    def p(self, x):
        return self.rng.random() < x

    def pick(self, xs):
        return self.rng.choice(xs)

    # -------------------------------------------------------------------------------------------- catalog
    def make(self):
        rng = self.rng
        self.schemas = [Schema(n) for n in rng.sample(SCHEMAS, rng.randint(2, 4))]
        self.words = rng.sample(POOL, rng.randint(2, 4))
        builtins = list(BUILTIN.values())
        sets = list(SET.values())
        for s in self.schemas:
            for n in self.words:
                if self.p(.6):
                    cols = rng.sample(['k1', 'k2', 'K1', 'k3', 'foo', 'Foo', 'bar', 's1', 's2'], rng.randint(1, 4))
                    s.tables[n] = [(c, self.pick(TYPES)) for c in cols]
                if self.p(.4):
                    s.vars[n] = self.pick(TYPES)
            for n in self.words:
                if s.tables and self.p(.4) and n not in s.tables:
                    s.indices[n] = self.pick(list(s.tables))
            s.views = [n for n in ('a view', 'vw') if self.p(.5)]
            # functions
            for n in self.words:
                if self.p(.75):
                    self.overloads(s.funcs, n, False)
                if self.p(.35):
                    self.overloads(s.aggrs, n, True)
        home = self.pick(self.schemas)
        for n in rng.sample(sorted(set(builtins)), 6):
            self.overloads(home.funcs, n, False)
        for n in rng.sample(sets, 3):
            self.overloads(home.aggrs, n, True)
            if self.p(.7):
                self.overloads(home.aggrs, n + '$distinct', True)
        for s in self.schemas:
            if self.p(.6):
                for f, (n, ts) in EXTRACT.items():
                    for t in ts:
                        if self.p(.6):
                            self.ids += 1
                            s.funcs.append((self.ids, n, 'int8', [t] + ['int4'] * f.endswith('SECOND'), self.pick(['scalar'] * 5 + ['table'])))
        self.path = rng.sample(self.schemas, rng.randint(0 if self.p(.1) else 1, len(self.schemas)))
        self.default = self.pick(self.schemas)
        self.marks, self.hosts = {}, {}
        colon = self.given['host_parameter_declaration_starts_with_colon']
        for m in (self.marks, self.hosts):
            for n in ['foo', 'Foo', '1', '2', '3']:
                if self.p(.5):
                    m[(':' if colon != self.p(.15) else '') + n] = self.pick(TYPES)

    def overloads(self, to, name, aggregate):
        have = {tuple(f[3]) for f in to if f[1] == name}
        arity = self.pick([0, 1, 1, 2, 2, 2, 3])
        types = self.rng.sample(TYPES, self.rng.randint(1, 2)) if self.p(.4) else ['int4', 'int8', 'float8'] if self.p(.6) else TYPES
        for _ in range(self.rng.randint(1, 5)):
            ps = [self.pick(types) for _ in range(arity if self.p(.85) else self.rng.randint(0, 3))]
            if tuple(ps) in have:
                continue
            have.add(tuple(ps))
            self.ids += 1
            to.append((self.ids, name, self.pick(TYPES), ps, 'aggregate' if aggregate else 'table' if self.p(.3) else 'scalar'))

    def catalog(self):
        out = []
        for s in self.schemas:
            out.append('schema\t' + s.name)
            for t, cols in s.tables.items():
                out.append('table\t' + t)
                out += ['col\t%s\t%s\tnull\t-\t' % c for c in cols]
                out.append('pk\tpk %s\t%s:asc' % (t, cols[0][0]))
                out += ['index\t%s\t%s:asc' % (i, cols[-1][0]) for i, u in s.indices.items() if u == t]
            out += ['view\t' + v for v in s.views]
            out += ['var\t%s\t%s\tnull' % v for v in s.vars.items()]
            for i, n, r, ps, k in s.funcs:
                out.append('func\t%d\t%s\t%s\t%s\t%s' % (i, n, 'table{x:%s;y:int8}' % r if k == 'table' else r, '|'.join(ps), k))
            for i, n, r, ps, k in s.aggrs:
                out.append('aggr\t%d\t%s\t%s\t%s' % (i, n, r, '|'.join(ps)))
            if s is self.schemas[0]:
                out.append('func\t99999\ttfn\ttable{k1:int8;Foo:int8}\t\ttable')
        out += ['host\t%s\t%s\tnull' % h for h in self.hosts.items()]
        out += ['ph\t%s\t%s\t%s' % (n, t, VALUES[t]) for n, t in self.marks.items()]
        out.append('path\t' + ','.join(s.name for s in self.path))
        out.append('default\t' + self.default.name)
        return '\n'.join(out) + '\n%%\n'

    # -------------------------------------------------------------------------------------------- names
    def word(self, w):
        """a way to write something which may stand for w: (text, identifier, delimited)"""
        if not w.isalnum() or self.p(.35):
            return '"%s"' % w, w, True
        t = self.pick([w, w, w.lower(), w.upper(), w.capitalize()])
        return t, t, False

    def name(self, *parts):
        ws = [self.word(w) for w in parts]
        return '.'.join(w[0] for w in ws), ws

    def id(self, w, kind):
        """the identifier of what is written, where this kind of things is searched"""
        if not w[2] and (self.given[FOLDS[kind]] or self.given['lowercase_regular_identifiers']):
            return w[1].lower()
        return w[1]

    def schema(self, w):
        i = self.id(w, 'schema')
        return next((s for s in self.schemas if s.name == i), None)

    def home(self, ws):
        """the schema which the qualifiers denote"""
        if len(ws) > 2 or len(ws) == 2 and self.id(ws[0], 'catalog') != CATALOG:
            return None
        return self.schema(ws[-1])

    def declared(self, ws, what):
        """the schema and the name of the table (index) which it denotes, or None"""
        i = self.id(ws[-1], 'relation')
        if len(ws) > 1:
            s = self.home(ws[:-1])
            return (s, i) if s and i in getattr(s, what) else None
        return next(((s, i) for s in self.path if i in getattr(s, what)), None)

    def some_schema(self):
        return self.pick(self.schemas).name if self.p(.93) else self.pick(['nowhere', 'S1', 'FOO'])

    def parts(self, w):
        r = self.rng.random()
        if r < .5:
            return [w]
        if r < .85:
            return [self.some_schema(), w]
        return [CATALOG if self.p(.85) else self.pick(['Tsurugi', 'other', 's1']), self.some_schema(), w]

    def some_name(self, pool):
        return self.name(*self.parts(self.pick(pool) if self.p(.95) else 'nothing'))

    # -------------------------------------------------------------------------------------------- statements on tables and indices
    def table_statement(self):
        """(form, text, what it denotes or None, the codes of a refusal, the place)"""
        names = sorted({n for s in self.schemas for n in s.tables}) or ['foo']
        if self.p(.04):
            names = ['a view', 'vw']        # they are no tables
        if self.p(.12):
            names = sorted({n for s in self.schemas for n in s.indices}) or ['foo']
            text, ws = self.some_name(names)
            hit = self.declared(ws, 'indices')
            return 'DROP INDEX', 'DROP INDEX \x01%s' % text, hit, {'index_not_found', 'schema_not_found', 'catalog_not_found', 'symbol_not_found'}, text
        text, ws = self.some_name(names)
        hit = self.declared(ws, 'tables')
        cols = hit[0].tables[hit[1]] if hit else [('k1', 'int4')]
        form = self.pick(['SELECT', 'SELECT', 'SELECT', 'TABLE', 'DELETE', 'UPDATE', 'INSERT', 'TRUNCATE', 'DROP TABLE', 'GRANT', 'REVOKE', 'SUBQUERY', 'JOIN', 'WITH'])
        c = '"%s"' % cols[-1][0]
        if form == 'UPDATE' and len(cols) == 1:
            form = 'DELETE'
        sql = {
            'SELECT': 'SELECT * FROM %s', 'TABLE': 'TABLE %s', 'DELETE': 'DELETE FROM %s', 'UPDATE': 'UPDATE %%s SET %s = %s' % (c, c), 'INSERT': 'INSERT INTO %%s (%s) VALUES (NULL)' % c,
            'TRUNCATE': 'TRUNCATE TABLE %s', 'DROP TABLE': 'DROP TABLE %s', 'GRANT': 'GRANT SELECT ON TABLE %s TO zed', 'REVOKE': 'REVOKE INSERT ON %s FROM zed',
            'SUBQUERY': 'SELECT 1 FROM (VALUES (1)) v(w) WHERE EXISTS (SELECT * FROM %s)', 'JOIN': 'SELECT 1 FROM (VALUES (1)) v(w) CROSS JOIN %s', 'WITH': 'WITH zed AS (SELECT * FROM %s) SELECT 1 FROM zed',
        }[form] % ('\x01' + text)
        if form in ('SELECT', 'TABLE', 'JOIN', 'SUBQUERY') and self.p(.25):
            # a query of the same name hides the declared tables, if it is not qualified
            w = self.word(self.pick(names))
            sql = 'WITH %s AS (SELECT 17 AS z) %s' % (w[0], sql)
            if len(ws) == 1 and self.id(w, 'relation') == self.id(ws[0], 'relation'):
                return form + ' of WITH', sql, 'query', None, text
        return form, sql, hit, {'table_not_found', 'schema_not_found', 'catalog_not_found', 'symbol_not_found', 'relation_not_found'}, text

    # -------------------------------------------------------------------------------------------- expressions
    def scope(self):
        """the FROM clause, which makes columns available: sets .relation (identifier, the declared table or None, columns)"""
        hits = [(n, s) for s in self.path for n in s.tables]
        tables = [(s, n) for s in self.schemas for n in s.tables]
        self.rel = None
        if self.p(.2):
            return self.made()
        if not tables or self.p(.05):
            w, cw = self.word('foo'), self.word('k1')
            self.rel = (self.id(w, 'relation'), None, [(self.id(cw, 'variable'), 'int8')])
            return '(SELECT CAST(1 AS BIGINT)) AS %s (%s)' % (w[0], cw[0])
        s, n = self.pick(tables)
        if self.p(.5) and next((u for u in self.path if n in u.tables), None) is s:
            text = '"%s"' % n
        else:
            text = '"%s"."%s"' % (s.name, n)
        if self.p(.4):
            w = self.word(self.pick(self.words + [self.pick(self.schemas).name]))
            self.rel = (self.id(w, 'relation'), None, s.tables[n])
            return '%s AS %s' % (text, w[0])
        self.rel = (n, (s, n), s.tables[n])
        return text

    def made(self):
        """a relation the query names itself"""
        w, cs = self.word(self.pick(self.words)), [self.word(c) for c in self.rng.sample(sorted(set(self.words) | {'k1', 'K1', 'foo', 'bar'}), self.rng.randint(1, 3))]
        ids = [self.id(c, 'variable') for c in cs]
        if len(set(ids)) < len(ids):
            raise ValueError
        ts = [self.pick(TYPES) for _ in cs]
        vals = ['CAST(NULL AS %s)' % SQL[t] for t in ts]
        q = 'SELECT ' + ', '.join(vals)
        named = 'SELECT ' + ', '.join(v + self.pick([' ', ' AS ']) + c[0] for v, c in zip(vals, cs))
        names = ', '.join(c[0] for c in cs)
        form = self.pick(['alias', 'correlation', 'values', 'with', 'with columns', 'with alias', 'apply', 'apply columns', 'using', 'set'])
        self.seen.add('made by ' + form)
        self.rel = (self.id(w, 'relation'), None, list(zip(ids, ts)))
        if form == 'alias':
            return '(%s) AS %s' % (named, w[0])
        if form == 'correlation':
            return '(%s) %s (%s)' % (self.pick([q, named]), w[0], names)
        if form == 'values':
            return '(VALUES (%s)) AS %s (%s)' % (', '.join(vals), w[0], names)
        if form == 'set':
            return '(%s UNION ALL %s) AS %s' % (named, q, w[0])
        if form in ('with', 'with columns'):
            self.prefix = 'WITH %s%s AS (%s) ' % (w[0], ' (%s)' % names if form != 'with' else '', q if form != 'with' else named)
            return w[0]
        if form == 'with alias':
            self.prefix = 'WITH qq AS (%s) ' % named
            return 'qq AS ' + w[0]
        if form == 'using':
            # the common column is found by its name alone
            if len(cs) > 1 or self.rel[0] == 'zr':
                raise ValueError
            c = self.word(cs[0][1])
            if self.id(c, 'variable') != ids[0]:
                raise ValueError
            return '(%s) AS %s JOIN (%s) AS zr USING (%s)' % (named, w[0], named, c[0])
        fn = '(VALUES (1)) AS zv (zc) CROSS APPLY "%s".tfn() AS %s' % (self.schemas[0].name, w[0])
        if form == 'apply':
            # the columns of a function are folded too, as the unit tests of the repository say
            self.rel = (self.rel[0], None, [('k1', 'int8'), (self.id(('Foo', 'Foo', False), 'variable'), 'int8')])
            return fn
        if len(cs) != 2:
            raise ValueError
        self.rel = (self.rel[0], None, [(i, 'int8') for i in ids])
        return fn + ' (%s)' % names

    def column_statement(self):
        """statements which write a column: (form, text, the written column or None, codes, place)"""
        tables = [(s, n) for s in self.schemas for n in s.tables]
        if not tables:
            raise ValueError
        s, n = self.pick(tables)
        cols = s.tables[n]
        w = self.word(self.pick(cols)[0] if self.p(.9) else 'nothing')
        hit = next((c for c, _ in cols if c == self.id(w, 'variable')), None)
        form = self.pick(['INSERT column', 'UPDATE column', 'UPDATE column with alias', 'INSERT query column'])
        t = '"%s"."%s"' % (s.name, n)
        text = {'INSERT column': 'INSERT INTO %s (\x01%s) VALUES (NULL)', 'UPDATE column': 'UPDATE %s SET \x01%s = NULL', 'UPDATE column with alias': 'UPDATE %s AS ' + self.word(self.pick(self.words))[0] + ' SET \x01%s = NULL WHERE TRUE',
                'INSERT query column': 'INSERT INTO %s (\x01%s) SELECT NULL'}[form] % (t, w[0])
        return form, text, hit and 'c:%s.%s.%s' % (s.name, n, hit), {'column_not_found'}, w[0]

    def variable(self, ws):
        """what a chain of names denotes -> ('col', name, type) or ('var', schema, name, type)"""
        st = None
        for k, w in enumerate(ws):
            rest = len(ws) - 1 - k
            nxt = None
            if st is None:
                i, v = self.id(w, 'relation'), self.id(w, 'variable')
                if rest and self.rel and i == self.rel[0]:
                    nxt = ('rel',)
                else:
                    nxt = self.col(v)
                    if not nxt:
                        nxt = next((('var', s.name, v, s.vars[v]) for s in self.path if v in s.vars), None)
                    if not nxt and rest and self.schema(w):
                        nxt = ('schema', self.schema(w))
                    if not nxt and rest > 1 and self.id(w, 'catalog') == CATALOG:
                        nxt = ('catalog',)
            elif st[0] == 'rel':
                nxt = self.col(self.id(w, 'variable'))
            elif st[0] == 'schema':
                v, i = self.id(w, 'variable'), self.id(w, 'relation')
                if v in st[1].vars:
                    nxt = ('var', st[1].name, v, st[1].vars[v])
                elif rest and self.rel and self.rel[1] == (st[1], i):
                    nxt = ('rel',)
            elif st[0] == 'catalog' and rest:
                s = self.schema(w)
                nxt = s and ('schema', s)
            if nxt is None:
                return None
            st = nxt
        return st if st[0] in ('col', 'var') else None

    def col(self, v):
        return next((('col', c, t) for c, t in self.rel[2] if c == v), None) if self.rel else None

    VARIABLE = ('variable_not_found', 'column_not_found', 'symbol_not_found', 'table_not_found', 'relation_not_found', 'schema_not_found', 'catalog_not_found', 'unsupported_feature')

    def reference(self):
        """a chain of names: (text, type, uses)"""
        w = self.pick([c[0] for c in self.rel[2]]) if self.rel and self.p(.6) else self.pick(self.words)
        r = self.rng.random()
        parts = [w]
        if r < .3:
            parts = [self.rel[0] if self.rel and self.p(.7) else self.pick(self.words), w]
        elif r < .55:
            parts = [self.some_schema(), w]
        elif r < .75:
            s = self.rel[1][0].name if self.rel and self.rel[1] and self.p(.7) else self.some_schema()
            t = self.rel[0] if self.p(.8) else self.pick(self.words)
            parts = [s, t, w] if self.p(.6) else [CATALOG, self.some_schema(), w]
        elif r < .82:
            s = self.rel[1][0].name if self.rel and self.rel[1] and self.p(.7) else self.some_schema()
            parts = [CATALOG, s, self.rel[0], w]
        text, ws = self.name(*parts)
        hit = self.variable(ws)
        self.last = self.id(ws[-1], 'variable')
        self.seen.add('%d part name%s' % (len(ws), '' if hit else ' of nothing'))
        if hit is None:
            raise Fail(text, *self.VARIABLE)
        if hit[0] == 'col':
            return text, hit[2], ['column ' + hit[1]]
        return text, hit[3], ['x:%s.%s' % hit[1:3]]

    def parameter(self):
        """:name or ?"""
        colon = self.given['host_parameter_declaration_starts_with_colon']
        if self.p(.5):
            self.mark += 1
            text, n = '?', str(self.mark)
        else:
            n = self.pick(['foo', 'Foo', 'foo', 'FOO'])
            text = ':' + n
        key = ':' * colon + n
        if key in self.marks:
            self.seen.add('placeholder')
            return text, self.marks[key], ['value ' + VALUES[self.marks[key]]]
        if key in self.hosts:
            self.seen.add('host parameter')
            return text, self.hosts[key], ['h:' + key]
        raise Fail(text, 'variable_not_found', 'symbol_not_found')

    def argument(self, depth):
        r = self.rng.random()
        if r < .35:
            t = self.pick(TYPES)
            return 'CAST(NULL AS %s)' % SQL[t], t, []
        if r < .42:
            return 'NULL', 'unknown', []
        if r < .5:
            return self.parameter()
        if r < .75 or depth > 1:
            return self.reference()
        return self.call(depth + 1)

    def most_specific(self, found, place, form):
        best = [f for f in found if all(g is f or applies(f[3], g[3]) and not applies(g[3], f[3]) for g in found)]
        if not best:
            self.seen.add('ambiguous call')
            raise Fail(place, 'function_ambiguous', form=form)
        if len(found) > 2:
            self.seen.add('most specific of three or more')
        elif len(found) > 1:
            self.seen.add('most specific of two')
        return best[0]

    def wanted(self, name, aggregate, arity=None):
        """types of arguments some function of this name takes"""
        fs = [f for s in self.schemas for f in (s.aggrs if aggregate else s.funcs) if f[1] == name and arity in (None, len(f[3]))]
        return self.pick(fs)[3] if fs else None

    def arguments(self, want, depth):
        """arguments: mostly such that some function may take them"""
        out = []
        for t in want:
            if self.p(.75):
                down = [x for x in TYPES if applies([x], [t])]
                u = self.pick(down)
                cols = [c for c in (self.rel[2] if self.rel else []) if c[1] == u]
                if cols and self.p(.4):
                    c = self.pick(cols)[0]
                    q = '"%s"' % c
                    hit = self.variable([(q, c, True)])
                    out.append((q, hit[2], ['column ' + c]))
                else:
                    out.append(('CAST(NULL AS %s)' % SQL[u], u, []))
            else:
                out.append(self.argument(depth))
        return out

    def call(self, depth=0, forms=('call', 'call', 'call', 'builtin', 'extract')):
        form = self.pick(forms)
        if form == 'builtin':
            spell = self.pick(list(BUILTIN))
            here = [k for k, n in BUILTIN.items() if any(f[1] == n for s in self.path for f in s.funcs)]
            if here and self.p(.8):
                spell = self.pick(here)
            name, arity = BUILTIN[spell], spell.count('%s')
            want = self.wanted(name, False, arity) or ['int8'] * arity
            args = self.arguments(want, depth)
            text = spell % tuple(a[0] for a in args)
            found = [f for s in self.path for f in s.funcs if f[1] == name and f[4] == 'scalar' and applies([a[1] for a in args], f[3])]
        elif form == 'extract':
            f = self.pick(list(EXTRACT))
            name, ts = EXTRACT[f]
            t = self.pick(ts) if self.p(.8) else self.pick(list(TEMPORAL))
            a, types, field = 'CAST(NULL AS %s)' % TEMPORAL[t], [t], f
            args = []
            if f.endswith('SECOND'):
                types.append('int4')
                d = 9
                if self.p(.5):
                    d = self.pick([0, 3, 9, 10, 4294967297, 99999999999])
                    field += '(%d)' % d
                args = [('', 'int4', ['value int4:%d' % min(d, 9)])]
            text = 'EXTRACT(%s FROM %s)' % (field, a)
            if t not in ts:
                raise Fail(text, 'function_not_found', form=form)
            here = next((x for x in ([g for g in s.funcs if g[1] == name and len(g[3]) == len(types)] for s in self.path) if x), [])
            found = [g for g in here if g[4] == 'scalar' and applies(types, g[3])]
        elif form == 'set':
            spell = self.pick(list(SET))
            name = SET[spell]
            q = self.pick(['', '', 'ALL ', 'DISTINCT '])
            if q == 'DISTINCT ':
                name += '$distinct'
            w = self.wanted(name, True)
            args = self.arguments(w if w and len(w) == 1 and self.p(.9) else ['int8'], depth)
            text = '%s(%s%s)' % (spell, q, args[0][0])
            found = [f for s in self.path for f in s.aggrs if f[1] == name and applies([args[0][1]], f[3])]
        else:
            aggregate = form == 'aggregate'
            w = self.pick(self.words) if self.p(.95) else 'nothing'
            want = self.wanted(w, aggregate) or [self.pick(TYPES) for _ in range(self.rng.randint(0, 2))]
            args = self.arguments(want, depth)
            nt, ws = self.name(*self.parts(w))
            text = '%s(%s)' % (nt, ', '.join(a[0] for a in args))
            types = [a[1] for a in args]
            name = self.id(ws[-1], 'function')

            def listed(what):
                if len(ws) > 1:
                    s = self.home(ws[:-1])
                    return [f for f in getattr(s, what) if f[1] == name and len(f[3]) == len(types)] if s else []
                return next((x for x in ([f for f in getattr(s, what) if f[1] == name and len(f[3]) == len(types)] for s in self.path) if x), [])
            kind = 'table' if form == 'table' else 'scalar'
            found = [f for f in listed('funcs') if f[4] == kind and applies(types, f[3])]
            if not found and kind == 'scalar':
                found = [f for f in listed('aggrs') if applies(types, f[3])]
        if not found:
            raise Fail(text, 'function_not_found', form=form)
        f = self.most_specific(found, text, form)
        uses = [u for a in args for u in a[2]] + ['%s#%d' % (f[1], f[0])]
        self.seen.add(form + (' in ' + f[4]) * (form == 'call'))
        if f[4] == 'aggregate':
            if self.aggregate or depth:
                raise ValueError        # not in another one
            self.aggregate = True
        return text, f[2], uses

    def expression_statement(self):
        """(form, text, uses or None, codes, place)"""
        self.mark = 0
        self.aggregate = False
        self.prefix = ''
        self.named = None
        src = self.scope()
        form = self.pick(['reference', 'reference', 'order', 'group', 'condition', 'star', 'alias', 'parameter', 'call', 'call', 'call', 'call', 'builtin', 'builtin', 'extract', 'aggregate', 'set', 'where', 'apply', 'delete', 'update'])
        sql = self.prefix + 'SELECT %%s FROM %s' % src
        try:
            if form == 'reference':
                text, t, uses = self.reference()
                self.named = self.last
            elif form in ('order', 'group', 'condition'):
                sql = self.prefix + {'order': 'SELECT 1 FROM %s ORDER BY %%s', 'group': 'SELECT 1 FROM %s GROUP BY %%s', 'condition': 'SELECT 1 FROM %s WHERE EXISTS (SELECT 1 FROM (VALUES (1)) AS zz (zx) WHERE %%s IS NULL)'}[form] % src
                text, t, uses = self.reference()
                if form != 'condition' and uses[0].startswith('x:'):
                    raise ValueError
            elif form in ('delete', 'update'):
                if self.prefix or '(' in src:
                    raise ValueError
                sql = ('DELETE FROM %s WHERE %%s IS NULL' if form == 'delete' else 'UPDATE %%s SET "%s" = NULL WHERE %%%%s IS NULL' % self.pick(self.rel[2])[0]) % src
                text, t, uses = self.pick([self.reference, self.reference, lambda: self.call(1)])()
            elif form == 'star':
                w = self.word(self.rel[0])
                text, uses = w[0], []
                sql = self.prefix + 'SELECT %%s.* FROM %s' % src
                if self.id(w, 'relation') != self.rel[0]:
                    raise Fail(text, *self.VARIABLE)
            elif form == 'alias':
                w = self.word(self.pick(self.words))
                text, uses = w[0], []
                self.named = self.id(w, 'variable')
                sql = self.prefix + 'SELECT 1 %s%%s FROM %s' % (self.pick(['', 'AS ']), src)
            elif form == 'parameter':
                text, t, uses = self.parameter()
            elif form == 'where':
                sql = self.prefix + 'SELECT 1 FROM %s WHERE %%s IS NULL' % src
                text, t, uses = self.call(1)
            elif form == 'apply':
                sql = self.prefix + 'SELECT 1 FROM %s %s APPLY %%s AS app' % (src, self.pick(['CROSS', 'OUTER']))
                text, t, uses = self.call(1, ('table',))
            else:
                text, t, uses = self.call(0, (form,))
        except Fail as f:
            if f.place.count('?') != self.mark:
                raise ValueError            # the marks count from the first one
            if form == 'apply' and f.form != 'table':
                sql = self.prefix + 'SELECT %%s FROM %s' % src
            return form, f.place, sql, None, f.codes
        return form, text, sql, uses, None
