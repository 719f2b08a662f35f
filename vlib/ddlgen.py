"""Random definitions (CREATE, ALTER, DROP, TRUNCATE, GRANT, REVOKE) together with the statement they stand for, or with one fault and how it is refused."""
from . import litgen

TYPES = [('INT', 'int4'), ('INTEGER', 'int4'), ('BIGINT', 'int8'), ('SMALLINT', 'int2'), ('REAL', 'float4'), ('DOUBLE PRECISION', 'float8'), ('VARCHAR(10)', 'varchar(10)'), ('VARCHAR(*)', 'varchar(*)'),
         ('CHAR(3)', 'char(3)'), ('DECIMAL(5,2)', 'decimal(5,2)'), ('BOOLEAN', 'boolean'), ('DATE', 'date'), ('TIME', 'time'), ('TIMESTAMP WITH TIME ZONE', 'tstz'), ('VARBINARY(4)', 'varoctet(4)'),
         ('BLOB', 'blob'), ('CLOB', 'clob')]
MISSING = ('symbol_not_found', 'variable_not_found', 'column_not_found', 'relation_not_found', 'table_not_found')
LIMITS = {'int4': (-2 ** 31, 2 ** 31 - 1), 'int8': (-2 ** 63, 2 ** 63 - 1)}


def mark(t):
    return '\x01' + t + '\x02'


class Statement:
    """a statement without its semicolon; begin and end: where it stands (in bytes)"""

    def __init__(self, text, want=None, codes=None):
        b = text.encode()
        self.place = self.extent = None
        for a, z, n in ((b'\x03', b'\x04', 'extent'), (b'\x01', b'\x02', 'place')):
            if a in b:
                i, j = b.index(a), b.index(z)
                # drop the marks, other marks may stand around
                setattr(self, n, (len(b[:i].translate(None, b'\x01\x02\x03\x04')), len(b[:j].translate(None, b'\x01\x02\x03\x04'))))
        self.text = b.translate(None, b'\x01\x02\x03\x04').decode()
        self.want = want
        self.codes = codes and set(codes)


class Table:
    def __init__(self, schema, name, cols, pk, index):
        self.schema, self.name, self.cols, self.pk, self.index = schema, name, cols, pk, index

    @property
    def full(self):
        return self.schema + '.' + self.name


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.given, self.o = litgen.options(rng)
        if self.o['max_decimal_precision'] < 19:
            self.given['max_decimal_precision'] = self.o['max_decimal_precision'] = 19
        self.fold = rng.randint(0, 1)
        self.given['lowercase_regular_identifiers'] = self.fold
        self.cycle = rng.choice([None, 0, 1])
        if self.cycle is not None:
            self.given['default_sequence_cycle'] = self.cycle
        self.features = set()
        self.make()

    def p(self, x):
        return self.rng.random() < x

    def pick(self, xs):
        return self.rng.choice(xs)

    def note(self, *f):
        self.features.update(f)

    # -------------------------------------------------------------------------------------------- catalog
    def make(self):
        names = ['t0', 't1', 't2', 't3', 't4', 't5']
        self.tables, self.lines = [], []
        for s in ('s1', 's2', 's3'):
            self.lines.append('schema\t' + s)
            if s == 's1':
                self.lines += ['func\t20001\tf0\tint8\t\tscalar', 'func\t20002\tf1\tint8\tint8\tscalar', 'func\t20003\tnow2\tdate\t\tscalar', 'func\t20004\ttf\ttable{x:int8}\t\ttable']
            for _ in range(2):
                n = names.pop(0)
                cols = self.rng.sample(['a', 'b', 'c', 'd', 'e'], self.rng.randint(1, 4))
                self.lines.append('table\t' + n)
                for c in cols:
                    self.lines.append('col\t%s\t%s\tnull\t-\t' % (c, self.pick(['int4', 'int8', 'varchar(*)', 'date'])))
                pk = 'p' + n[1:] if self.p(.8) else None
                ix = 'i' + n[1:] if self.p(.8) else None
                if pk:
                    self.lines.append('pk\t%s\t%s:asc' % (pk, cols[0]))
                if ix:
                    self.lines.append('index\t%s\t%s:desc' % (ix, cols[-1]))
                self.tables.append(Table(s, n, cols, pk, ix))
        self.home = self.pick(['s1', 's1', 's2', 's3'])      # where new tables and indices are made
        self.lines += ['path\ts1,s2', 'default\t' + self.home]
        self.catalog = '\n'.join(self.lines) + '\n'

    # -------------------------------------------------------------------------------------------- texts
    def word(self, n):
        """a name as an identifier"""
        if self.p(.2) or not n.isascii():
            return '"%s"' % n
        if self.fold and self.p(.3):
            return ''.join(self.pick([c, c.upper()]) for c in n)
        return n

    def named(self, schema, n, must=False):
        """the name of something in a schema"""
        if schema == 's3' or must or self.p(.3):
            return self.word(schema) + '.' + self.word(n)
        return self.word(n)

    def table(self):
        return self.pick(self.tables)

    def gap(self):
        return self.pick([' '] * 6 + ['\n', '  ', ' /* c */ ', ' -- c\n', '\t'])

    def join(self, *xs):
        out = ''
        for x in xs:
            if x:
                out += (self.gap() if out else '') + x
        return out

    def described(self):
        """(comment, description)"""
        r = self.rng.random()
        if r < .6:
            return '', ''
        if r < .65:
            return self.pick(['/* no */ ', '-- no\n', '/**/ ', '/* ** a */ ']), ''
        n = self.rng.choice([0, 1, 1, 2, 3, 5])
        lines = []
        for i in range(n):
            t = ' '.join(self.pick(['a', 'the table', 'Größe', 'b*c', 'x/y', '"q"', "it's", '--', '日本', '100%', '@see z', 'a  b', '{', '; DROP']) for _ in range(self.rng.randint(1, 3)))
            lines.append(t if i in (0, n - 1) or self.p(.8) else '')
        indent = [self.rng.choice([0, 0, 0, 2, 4]) if t else 0 for t in lines]
        if self.p(.4) and n <= 1:
            t = lines[0] if lines else ''
            return '/**%s%s%s%s' % (self.pick(['', ' ', '  ', '*']), t, self.pick(['', ' ', '  ']) if not t else self.pick([' ', '  ', '\t', '']), '*/') + self.pick([' ', '\n']), t
        if n:
            m = min(i for i, t in zip(indent, lines) if t)
        eol = self.pick(['\n', '\n', '\r\n'])
        lead = self.pick(['', '  ', '\t'])
        star = self.pick([' *', ' *', '*', '', '   '])
        body = ['/**' + self.pick(['', '', ' ', '*'])]
        if self.p(.2):
            body.append(lead + star)
        for i, t in zip(indent, lines):
            sp = ' ' if '*' in star else ''
            body.append(lead + star + (sp + ' ' * i + t if t else '') + self.pick(['', '', ' ', '\t']))
        if self.p(.2):
            body.append(lead + star)
        body.append(lead + ' *' * self.p(.5) + '*/' if self.p(.3) else ' */')
        text = eol.join(body)
        want = '\n'.join(' ' * (i - m) + t if t else '' for i, t in zip(indent, lines)) if n else ''
        after = self.pick(['', '', '-- x\n', '/* c */ '])
        return text + self.pick(['\n', ' ']) + after, want

    # -------------------------------------------------------------------------------------------- CREATE TABLE
    def default(self, fault):
        """a DEFAULT expression: (text, default, codes)"""
        r = self.rng.random()
        if fault == 'default':
            k = self.pick(['1 + 1', 'f1(1)', 'nosuch', "'a' || 'b'", 'CASE WHEN TRUE THEN 1 END', 'nosuch(1)', '(SELECT 1)', 'tf()', '(a)'])
            codes = {'nosuch': MISSING, '(a)': MISSING, 'nosuch(1)': ('function_not_found', 'symbol_not_found'), 'tf()': ('inconsistent_function_type', 'function_not_found')}.get(k, ('unsupported_feature', 'invalid_aggregation_column'))
            if k == '(a)':
                return '(' + mark('a') + ')', None, codes
            return mark(k), None, codes
        if fault == 'literal':
            for _ in range(50):
                t, m = litgen.literal(self.rng, self.o)
                if isinstance(m, litgen.Refused):
                    return t[:m.begin] + mark(t[m.begin:m.end]) + t[m.end:], None, (m.code,)
            return None
        if r < .15:
            return self.pick(['NULL', 'null', '(NULL)']), ['imm', 'null'], None
        if r < .3:
            f, i = self.pick([('f0', 20001), ('now2', 20003)])
            return self.pick(['', 's1.']) + f + self.pick(['()', '( )']), ['func', '%s#%d' % (f, i)], None
        for _ in range(50):
            t, m = litgen.literal(self.rng, self.o)
            if isinstance(m, litgen.Value) and not m.may_refuse:
                try:
                    t = t.encode('latin-1').decode()
                    v = m.value.encode('latin-1').decode()
                except UnicodeError:
                    continue
                if self.p(.1):
                    t = '(' + t + ')'
                return t, ['imm', v], None
        return 'TRUE', ['imm', 'bool:true'], None

    def integer(self, v):
        """a text for an integer"""
        s = str(v)
        p = self.o['max_decimal_precision']
        if not -2 ** 63 <= v < 2 ** 63 and len(s.lstrip('-')) > p:
            return None
        if self.p(.1) and len(s.lstrip('-')) + 1 <= p:
            s += '.0'
        if v >= 0 and self.p(.1):
            s = '+' + s
        return s

    def identity(self, type, fault):
        """(text of the constraint body, default, read only, codes)"""
        lo, hi = LIMITS[type]
        always = self.p(.5)
        head = self.join('GENERATED', 'ALWAYS' if always else self.join('BY', 'DEFAULT'), 'AS', 'IDENTITY')
        near = [1, 2, 10, -1, -10, 100, lo, hi, lo + 1, hi - 1, 0, 1000, -1000]
        inc = self.pick([None, None, 1, 2, 10, -1, -2, hi, lo, 0 if fault == 'increment' else 1])
        if fault == 'increment':
            inc = 0
        mn = self.pick([None, None] + near)
        mx = self.pick([None, None] + near)
        st = self.pick([None, None] + near)
        step = 1 if inc is None else inc
        emin = mn if mn is not None else (1 if step > 0 else lo)
        emax = mx if mx is not None else (hi if step > 0 else -1)
        est = st if st is not None else (emin if step > 0 else emax)
        bad = not emin <= est <= emax
        # (keyword, value)
        opts = []
        for kw, v in (('START', st), ('INCREMENT', inc), ('MINVALUE', mn), ('MAXVALUE', mx)):
            if v is not None:
                t = self.integer(v)
                if t is None:
                    return None
                opts.append([kw, v, t])
        cyc = self.pick([None, 'CYCLE', 'NO CYCLE'])
        codes = None
        if fault == 'range':
            if not bad:
                return None
            codes = ('invalid_sequence_value',)
        elif bad and fault != 'increment' and fault != 'value':
            return None
        if fault == 'increment':
            for o in opts:
                if o[0] == 'INCREMENT':
                    o[2] = mark(o[2])
            codes = ('invalid_sequence_value',)
        if fault == 'value':
            if not opts:
                return None
            k = self.pick(opts)
            # all earlier values are fine, a later one is not looked at
            w = self.pick(['1.5', "'1'", 'NULL', 'TRUE', '1e0', str(hi + 1), str(lo - 1), 'f0()', '1 + 1', "DATE '2020-01-01'"])
            if w.lstrip('-').isdigit() and len(w.lstrip('-')) > self.o['max_decimal_precision']:
                return None
            if w == '1.5' and self.o['max_decimal_precision'] < 2:
                return None
            codes = ('invalid_sequence_value',) if w != 'NULL' or self.o['allow_context_independent_null'] else ('missing_context_of_null',)
            k[2] = mark(w)
            if bad and False:
                return None
        texts = []
        for kw, v, t in opts:
            texts.append(kw + ({'START': self.pick([' ', ' WITH ']), 'INCREMENT': self.pick([' ', ' BY '])}.get(kw, ' ')) + t)
        for kw, v in (('NO MINVALUE', mn), ('NO MAXVALUE', mx)):
            if v is None and self.p(.1):
                texts.append(kw)
        if cyc:
            texts.append(cyc)
        self.rng.shuffle(texts)
        text = head + (self.gap() + '(' + ' '.join(texts) + ')' if texts or self.p(.1) else '')
        if fault == 'range':
            text = mark(text)
        cycle = {'CYCLE': True, 'NO CYCLE': False, None: True if self.cycle is None else bool(self.cycle)}[cyc]
        self.note('identity ' + ('always' if always else 'by default') + (' down' if step < 0 else ''))
        return text, ['seq', '', est, step, str(emin), str(emax), cycle, False], always, codes

    TABLE_FAULTS = ['temporary', 'parameters', 'exists', 'qualified', 'duplicate column', 'second key', 'nullity', 'second default', 'unsupported', 'unsupported table', 'identity type', 'increment', 'range', 'value',
                    'default', 'literal', 'key column', 'key expression', 'key duplicate', 'key nulls', 'key collation', 'key include', 'key parameters', 'no columns', 'column key include']

    def create_table(self, fault=None):
        name = self.pick(['n', 'new_table', 'x1', 'ÄÖ'] if fault or self.p(.9) else ['public'])
        if name == 'public':
            name = 'order'
            tname = '"order"'
        elif name == 'ÄÖ':
            tname = '"ÄÖ"'
        else:
            tname = self.word(name)
        codes = None
        exists = self.p(.2)
        want = None
        empty = False
        if fault == 'exists' or fault is None and self.p(.05):
            t = self.pick([t for t in self.tables if t.schema == 's1'])
            tname = self.named('s1', t.name)
            if fault:
                exists = False
                tname = mark(tname)
                codes = ('table_already_exists',)
            else:
                exists = empty = True
        if fault == 'qualified':
            tname = mark(self.named(self.pick(['s1', 's2', 's3']), name, True))
            codes = ('unsupported_feature',)
        n = self.rng.choice([1, 2, 3, 3, 5])
        cols = []
        elements = []
        pkcol = None
        target = self.rng.randrange(n)                                    # the column which has the fault
        names = ['c%d' % i for i in range(n)]
        if self.p(.3):
            names[self.rng.randrange(n)] = self.pick(['Größe', 'select', 'A B', 'x"y'])
        tablekey = fault in ('key column', 'key expression', 'key duplicate', 'key nulls', 'key collation', 'key include', 'key parameters') or self.p(.3)
        if fault == 'second key':
            second = self.pick(['columns', 'column and table', 'tables', 'same column']) if n > 1 else self.pick(['column and table', 'tables', 'same column'])
            tablekey = second in ('tables', 'column and table')
        for i, c in enumerate(names):
            q = '"%s"' % c.replace('"', '""') if not c.isascii() or c in ('select', 'A B', 'x"y') else self.word(c)
            typ, ty = self.pick(TYPES)
            hit = i == target
            if hit and fault in ('increment', 'range', 'value'):
                typ, ty = self.pick([x for x in TYPES if x[1] in LIMITS])
            if hit and fault == 'identity type':
                typ, ty = self.pick([x for x in TYPES if x[1] not in LIMITS])
            cons = []                                                     # texts of bodies
            nullity = self.pick([None, None, 'NULL', 'NOT NULL'])
            key = False
            if pkcol is None and not tablekey and nullity != 'NULL' and self.p(.3) and fault not in ('second key', 'nullity'):
                key = True
            if hit and fault == 'second key' and second == 'same column':
                cons = ['PRIMARY KEY', mark('PRIMARY KEY')]
                nullity, pkcol, codes = None, c, ('primary_index_already_exists',)
            if fault == 'second key' and second == 'columns' and i < 2:
                cons = ['PRIMARY KEY' if i == 0 else mark('PRIMARY KEY')]
                nullity, pkcol, codes = None, c, ('primary_index_already_exists',)
            if hit and fault == 'second key' and second == 'column and table':
                cons, nullity, pkcol, codes = ['PRIMARY KEY'], None, c, ('primary_index_already_exists',)
            if key:
                pkcol = c
                cons.append(self.join('PRIMARY', 'KEY') + self.pick(['', '', '', ' INCLUDE ()', ' WITH ()']))
            if nullity:
                cons.append(nullity)
            dv, ro = None, False
            r = self.rng.random()
            body = None
            if hit and fault in ('default', 'literal', 'second default'):
                d = self.default(fault)
                if d is None:
                    return None
                body, dv, cd = 'DEFAULT' + self.gap() + d[0], d[1], d[2]
                codes = codes or cd
            elif hit and fault in ('increment', 'range', 'value'):
                for _ in range(30):
                    d = self.identity(ty, fault)
                    if d:
                        break
                else:
                    return None
                body, dv, ro, codes = d
            elif hit and fault == 'identity type':
                body, codes = mark(self.join('GENERATED', 'ALWAYS', 'AS', 'IDENTITY')), ('inconsistent_type',)
            elif r < .25:
                d = self.default(None)
                body, dv = 'DEFAULT' + self.gap() + d[0], d[1]
                self.note('default ' + dv[0])
            elif r < .5 and ty in LIMITS:
                for _ in range(30):
                    d = self.identity(ty, None)
                    if d:
                        body, dv, ro, _c = d
                        break
            if body:
                cons.append(body)
            self.rng.shuffle(cons) if not (hit and fault == 'second key') else None
            if hit and fault == 'second default':
                b2 = self.pick(['DEFAULT 1', 'GENERATED ALWAYS AS IDENTITY', 'DEFAULT NULL'])
                cons.append(mark(b2))
                codes = ('invalid_constraint',)
            if hit and fault == 'nullity':
                a, b = self.pick([('NULL', 'NOT NULL'), ('NOT NULL', 'NULL'), ('NULL', 'NULL'), ('NOT NULL', 'NOT NULL'), ('PRIMARY KEY', 'NULL'), ('NULL', 'PRIMARY KEY')])
                cons = [x for x in cons if x not in ('NULL', 'NOT NULL')]
                cons = [a] + cons + [mark(b)]
                codes = ('invalid_constraint',)
            if hit and fault == 'unsupported':
                cons.insert(self.rng.randint(0, len(cons)), mark(self.pick(['CHECK (c0)', 'CHECK (1)', 'UNIQUE', 'REFERENCES t0 (a)', 'GENERATED ALWAYS AS (1)', 'REFERENCES t0', 'UNIQUE INCLUDE (c0)', 'REFERENCES t0 ON DELETE CASCADE'])))
                codes = ('unsupported_feature',)
            if hit and fault == 'column key include':
                if pkcol is not None and not key or tablekey:
                    return None
                cons = [x for x in cons if not x.startswith('PRIMARY') and x != 'NULL']
                e, cd = self.pick([(' INCLUDE (' + mark('c0') + ')', 'unsupported_feature'), (' WITH (' + mark('p') + '=1)', 'malformed_syntax'), (' INCLUDE (' + mark('c0') + ', 1)', 'unsupported_feature')])
                cons.append('PRIMARY KEY' + e)
                pkcol = c
                codes = (cd,)
            if self.p(.1):
                cons = ['CONSTRAINT k%d ' % j + x for j, x in enumerate(cons)]
            com, desc = self.described()
            elements.append(com + self.join(q, typ, *cons))
            cols.append({'name': c, 'type': ty, 'nullable': not (nullity == 'NOT NULL' or key), 'desc': desc, 'features': ['read_only'] if ro else [], 'default': dv})
            if hit and fault == 'duplicate column':
                q2 = '"%s"' % c.replace('"', '""') if q[0] == '"' and q[1:-1] != c or not c.isascii() or c in ('select', 'A B') else self.word(c)
                elements.append(self.join(mark(q2), 'INT'))
                codes = ('column_already_exists',)
        keys = [[pkcol, 'ascendant', True]] if pkcol else []
        if tablekey:
            ks = self.rng.sample(names, self.rng.randint(1, n))
            keys, texts = [], []
            for c in ks:
                d = self.pick(['', '', ' ASC', ' DESC'])
                q = '"%s"' % c.replace('"', '""')
                if c.isascii() and c[0] == 'c' and not self.p(.2):
                    q = self.word(c)
                texts.append(q + d)
                keys.append([c, 'descendant' if d == ' DESC' else 'ascendant', True])
            k = self.rng.randrange(len(texts))
            tail = ''
            if fault == 'key column':
                texts[k], codes = mark(self.pick(['nosuch', 'a'])), MISSING
            elif fault == 'key expression':
                texts[k], codes = mark(self.pick(['1', 'f0()', 'NULL', '1 + 1'])), ('unsupported_feature', 'missing_context_of_null')
            elif fault == 'key duplicate':
                texts.append(mark(texts[k].replace(' ASC', '').replace(' DESC', '')))
                codes = ('column_already_exists',)
            elif fault == 'key nulls':
                texts[k] += ' ' + mark(self.pick(['NULLS FIRST', 'NULLS LAST']))
                codes = ('unsupported_feature',)
            elif fault == 'key collation':
                texts[k] = texts[k].replace(' ASC', '').replace(' DESC', '') + ' COLLATE ' + mark('x')
                codes = ('unsupported_feature',)
            elif fault == 'key include':
                tail, codes = ' INCLUDE (' + mark(self.word('c0')) + ')', ('unsupported_feature',)
            elif fault == 'key parameters':
                tail, codes = ' WITH (' + mark('p') + self.pick([')', ' = 1)']), ('malformed_syntax',)
            elif self.p(.1):
                tail = self.pick([' INCLUDE ()', ' WITH ()'])
            body = self.join('PRIMARY', 'KEY', '(' + ', '.join(texts) + ')') + tail
            if fault == 'second key' and second == 'column and table':
                body = mark(body)
            elements.insert(self.rng.randint(0, len(elements)), self.pick(['', '', 'CONSTRAINT pk ']) + body)
            if fault == 'second key' and second == 'tables':
                elements.append(self.pick(['', 'CONSTRAINT pk2 ']) + mark('PRIMARY KEY (c0)'))
                codes = ('primary_index_already_exists',)
            self.note('table key')
        elif pkcol:
            self.note('column key')
        else:
            self.note('no key')
        if fault == 'unsupported table':
            elements.insert(self.rng.randint(0, len(elements)), self.pick(['', 'CONSTRAINT q ']) + mark(self.pick(['CHECK (c0)', 'CHECK (1)', 'UNIQUE (c0)', 'FOREIGN KEY (c0) REFERENCES t0', 'FOREIGN KEY (c0) REFERENCES t0 (a) ON UPDATE NO ACTION'])))
            codes = ('unsupported_feature',)
        for c in cols:
            if c['name'] in [k[0] for k in keys]:
                c['nullable'] = False
            if c['default'] is None:
                c['default'] = ['imm', 'null'] if c['nullable'] else []
        if fault == 'no columns':
            elements = self.pick([[], ['PRIMARY KEY (c0)'], ['CHECK (1)']])
            codes = ('malformed_syntax',)
        params = ''
        if fault == 'parameters':
            params, codes = 'WITH (' + mark('p') + self.pick([')', ' = 1)', " = 'x', q = 2)"]), ('unsupported_feature',)
        elif self.p(.05):
            params = 'WITH ()'
        temp = ''
        if fault == 'temporary':
            temp, codes = mark('TEMPORARY'), ('unsupported_feature',)
        com, desc = self.described()
        text = '\x03' + self.join('CREATE', temp, 'TABLE', exists and 'IF NOT EXISTS', tname, '(' + self.pick(['', '', '\n']) + (',' + self.gap()).join(elements) + self.pick(['', '\n']) + ')', params) + '\x04'
        if fault == 'no columns':
            text = mark(text)
        if empty:
            want = {'k': 'empty'}
            self.note('exists already')
        elif not codes:
            want = {'k': 'create_table', 'schema': self.home, 'table': {'name': name, 'id': False, 'desc': desc, 'cols': cols},
                    'pk': {'name': '', 'table': 'new.' + name, 'id': False, 'keys': keys, 'values': [], 'features': ['primary'], 'desc': ''}}
        return Statement(com + text, want, codes)

    # -------------------------------------------------------------------------------------------- CREATE INDEX
    INDEX_FAULTS = ['include', 'predicate', 'unique', 'parameters', 'exists', 'qualified', 'table', 'key column', 'key expression', 'key duplicate', 'key nulls', 'key collation']

    def create_index(self, fault=None):
        t = self.table()
        name = self.pick(['n', 'new_index', None])
        codes = None
        iname = name and self.word(name)
        exists = self.p(.2)
        tname = self.named(t.schema, t.name)
        empty = False
        if fault == 'exists' or fault is None and self.p(.07):
            ts = [x for x in self.tables if x.schema == 's1' and x.index]
            if not ts:
                return None
            iname = self.named('s1', self.pick(ts).index)
            exists = empty = not fault
            if fault:
                iname, codes = mark(iname), ('index_already_exists',)
        if fault == 'qualified':
            iname, codes = mark(self.named(self.pick(['s1', 's2', 's3']), 'n', True)), ('unsupported_feature',)
        if fault == 'table':
            w = self.pick(['nosuch', 's1.nosuch', 'nosuch.t0'])
            tname, codes = self.missing(w)
        keys, texts = [], []
        for c in self.rng.sample(t.cols, self.rng.randint(1, len(t.cols))):
            d = self.pick(['', '', ' ASC', ' DESC'])
            q = self.word(c)
            if self.p(.1):
                q = self.word(t.name) + '.' + q
            texts.append(q + d)
            keys.append([c, 'descendant' if d == ' DESC' else 'ascendant', True])
        k = self.rng.randrange(len(texts))
        tail = []
        uni = ''
        if fault == 'key column':
            texts[k], codes = mark(self.pick(['nosuch', 'c0'])), MISSING
        elif fault == 'key expression':
            texts[k], codes = mark(self.pick(['1', 'f0()', '1 + 1'])), ('unsupported_feature',)
        elif fault == 'key duplicate':
            texts.append(mark(self.word(keys[k][0])))
            codes = ('column_already_exists',)
        elif fault == 'key nulls':
            texts[k] += ' ' + mark(self.pick(['NULLS FIRST', 'NULLS LAST']))
            codes = ('unsupported_feature',)
        elif fault == 'key collation':
            texts[k] = texts[k].replace(' ASC', '').replace(' DESC', '') + ' COLLATE ' + mark('x')
            codes = ('unsupported_feature',)
        elif fault == 'include':
            tail, codes = ['INCLUDE (' + mark(self.pick(t.cols)) + ')'], ('unsupported_feature',)
        elif fault == 'predicate':
            tail, codes = ['WHERE ' + mark(t.cols[0] + ' IS NULL')], ('unsupported_feature',)
        elif fault == 'parameters':
            tail, codes = ['WITH (' + mark('p') + self.pick([')', ' = 1)'])], ('unsupported_feature',)
        elif fault == 'unique':
            uni, codes = mark('UNIQUE'), ('unsupported_feature',)
        com, desc = self.described()
        text = '\x03' + self.join('CREATE', uni, 'INDEX', exists and 'IF NOT EXISTS', iname, 'ON', tname, '(' + ', '.join(texts) + ')', *tail) + '\x04'
        want = None
        if empty:
            want = {'k': 'empty'}
        elif not codes:
            want = {'k': 'create_index', 'index': {'name': name or '', 'table': t.full, 'id': False, 'keys': keys, 'values': [], 'features': [], 'desc': desc}}
            if t.schema == self.home:
                want['schema'] = t.schema
        return Statement(com + text, want, codes)

    # -------------------------------------------------------------------------------------------- others
    def missing(self, w, index=False):
        k = 'index_not_found' if index else 'table_not_found'
        if '.' not in w:
            return mark(w), (k, 'symbol_not_found')
        a, b = w.split('.')
        if a == 'nosuch':
            return mark(a) + '.' + b, ('schema_not_found', 'symbol_not_found')
        return a + '.' + mark(b), (k, 'symbol_not_found')

    def alter_table(self, fault=None):
        t = self.table()
        tname = self.named(t.schema, t.name)
        opt = self.p(.3)
        codes = None
        want = None
        if fault == 'missing' or fault is None and self.p(.07):
            tname, codes = self.missing(self.pick(['nosuch', 's1.nosuch', 'i0', 's2.t0']))
            opt = fault is None
            if opt:
                tname, codes = tname.replace('\x01', '').replace('\x02', ''), None
                want = {'k': 'empty'}
        head = ['ALTER', 'TABLE', opt and 'IF EXISTS', tname, 'RENAME']
        if self.p(.4):
            to = 'n'
            text = self.word('n')
            if fault == 'conflict':
                same = [x.name for x in self.tables if x.schema == t.schema]
                text, codes = mark(self.word(self.pick(same))), ('table_already_exists',)
            s = self.join(*head, 'TO', text)
            want = want or not codes and {'k': 'rename_table', 'schema': t.schema, 'target': 't:' + t.full, 'to': to}
        else:
            c = self.pick(t.cols)
            ct, to, oc = self.word(c), self.word('n'), self.p(.3)
            if fault == 'column' or fault is None and self.p(.07):
                ct, oc = 'nosuch', not fault
                if fault:
                    ct, codes = mark(ct), ('column_not_found', 'symbol_not_found')
                else:
                    want = {'k': 'empty'}
            if fault == 'conflict':
                to, codes = mark(self.word(self.pick(t.cols))), ('column_already_exists',)
            s = self.join(*head, 'COLUMN', oc and 'IF EXISTS', ct, 'TO', to)
            want = want or not codes and {'k': 'rename_column', 'table': 't:' + t.full, 'target': 'c:%s.%s' % (t.full, c), 'to': 'n'}
        if fault and not codes:
            return None
        return Statement('\x03' + s + '\x04', want or None, codes)

    def alter_index(self, fault=None):
        ts = [t for t in self.tables if (t.pk if fault == 'primary' else t.index)]
        if not ts:
            return None
        t = self.pick(ts)
        opt = self.p(.3)
        codes = want = None
        iname = self.named(t.schema, t.pk if fault == 'primary' else t.index)
        if fault == 'missing' or fault is None and self.p(.07):
            iname, codes = self.missing(self.pick(['nosuch', 's1.nosuch', 't0', 's2.i0']), True)
            opt = fault is None
            if opt:
                iname, codes, want = iname.replace('\x01', '').replace('\x02', ''), None, {'k': 'empty'}
        to = self.word('n')
        if fault == 'primary':
            to, codes = mark(to), ('unsupported_feature',)
        elif fault == 'conflict':
            same = [y for x in self.tables if x.schema == t.schema for y in (x.index, x.pk) if y]
            to, codes = mark(self.word(self.pick(same))), ('index_already_exists',)
        s = self.join('ALTER', 'INDEX', opt and 'IF EXISTS', iname, 'RENAME', 'TO', to)
        if fault and not codes:
            return None
        return Statement('\x03' + s + '\x04', want or not codes and {'k': 'rename_index', 'schema': t.schema, 'target': ('i:' + t.schema + '.' + t.index, t.full), 'to': 'n'} or None, codes)

    def drop(self, fault=None):
        t = self.table()
        index = self.p(.4)
        n = t.index if index else t.name
        if n is None:
            return None
        opt = self.p(.3)
        codes = want = None
        name = self.named(t.schema, n)
        if fault == 'missing' or fault is None and self.p(.1):
            name, codes = self.missing(self.pick(['nosuch', 's1.nosuch', 's2.t0' if not index else 's2.i0', 't0' if index else 'i0'] + ['nosuch.t0'] * bool(fault)), index)
            opt = fault is None
            if opt:
                name, codes, want = name.replace('\x01', '').replace('\x02', ''), None, {'k': 'empty'}
        b = self.pick(['', '', 'RESTRICT'])
        if fault == 'cascade':
            b, codes = mark('CASCADE'), ('unsupported_feature',)
        s = self.join('DROP', 'INDEX' if index else 'TABLE', opt and 'IF EXISTS', name, b)
        if fault and not codes:
            return None
        target = ('i:%s.%s' % (t.schema, n), t.full) if index else 't:' + t.full
        return Statement('\x03' + s + '\x04', want or not codes and {'k': 'drop_index' if index else 'drop_table', 'schema': t.schema, 'target': target} or None, codes)

    def truncate(self, fault=None):
        t = self.table()
        name = self.named(t.schema, t.name)
        codes = None
        if fault == 'missing':
            name, codes = self.missing(self.pick(['nosuch', 's1.nosuch', 'i0', 'nosuch.t0']))
        o = self.pick(['', 'RESTART IDENTITY', 'CONTINUE IDENTITY'])
        s = self.join('TRUNCATE', 'TABLE', name, o)
        if fault and not codes:
            return None
        return Statement('\x03' + s + '\x04', not codes and {'k': 'truncate_table', 'target': 't:' + t.full, 'restart': o[:1] == 'R'} or None, codes)

    ACTIONS = [('SELECT', 'select'), ('INSERT', 'insert'), ('UPDATE', 'update'), ('DELETE', 'delete')]

    def privilege(self, fault=None):
        grant = self.p(.5)
        if fault == 'all users':
            grant = True
        if self.p(.2):
            at, acts = self.pick(['ALL PRIVILEGES', 'ALL  PRIVILEGES']), ['control']
        else:
            a = [self.pick(self.ACTIONS) for _ in range(self.rng.choice([1, 1, 2, 3]))]
            at, acts = (',' + self.gap()).join(x for x, _ in a), [y for _, y in a]
        ts = [self.table() for _ in range(self.rng.choice([1, 1, 2, 3]))]
        codes = None
        texts = [self.pick(['', '', 'TABLE ']) + self.named(t.schema, t.name) for t in ts]
        if fault == 'missing':
            m, codes = self.missing(self.pick(['nosuch', 's1.nosuch', 'i0', 'nosuch.t0']))
            texts.insert(self.rng.randint(0, len(texts)), m)
        users, entries, default, seen = [], [], [], set()
        for _ in range(self.rng.choice([1, 1, 2, 3, 4])):
            r = self.rng.random()
            if r < .5:
                u = self.pick(['u1', 'u2', 'u3'])
                users.append(self.pick([u, u, '"%s"' % u]))
                if u not in seen:
                    entries.append(['specified', u, acts])
                seen.add(u)
            elif r < .7:
                users.append('PUBLIC')
                default = acts
            elif r < .85:
                if 'C' in seen:
                    continue
                seen.add('C')
                users.append('CURRENT_USER')
                entries.append(['current_user', '', acts])
            elif not grant and '*' not in seen:
                seen.add('*')
                users.append('*')
                entries.append(['all_users', '', acts])
        if fault == 'all users':
            users.insert(self.rng.randint(0, len(users)), mark('*'))
            codes = ('malformed_syntax',)
        if not users:
            return None
        el = []
        for t in ts:
            if t.full not in [e['table'][2:] for e in el]:
                el.append({'table': 't:' + t.full, 'default': default, 'entries': entries})
        s = self.join('GRANT' if grant else 'REVOKE', at, 'ON', ', '.join(texts), 'TO' if grant else 'FROM', (',' + self.gap()).join(users))
        if fault and not codes:
            return None
        return Statement('\x03' + s + '\x04', not codes and {'k': 'grant_table' if grant else 'revoke_table', 'elements': el} or None, codes)

    FORMS = {'create_table': TABLE_FAULTS, 'create_index': INDEX_FAULTS, 'alter_table': ['missing', 'column', 'conflict'], 'alter_index': ['missing', 'conflict', 'primary'], 'drop': ['missing', 'cascade'],
             'truncate': ['missing'], 'privilege': ['missing', 'all users']}

    def statement(self):
        """(form, fault, statement or None)"""
        k = self.pick(['create_table'] * 6 + ['create_index', 'create_index'] + ['alter_table', 'alter_index', 'drop', 'truncate', 'privilege'])
        fault = self.pick(self.FORMS[k]) if self.p(.4) else None
        return k, fault, getattr(self, k)(fault)
