"""Random data manipulation statements together with what they write, and with single faults together with how they are refused."""
from . import plan
from .relgen import Gen as Base, Ref, Col, Scope, is_literal, _merge, NAMES

FAULTS = ['unknown column', 'duplicate column', 'hidden column', 'too few values', 'too many values', 'unknown table', 'no primary index', 'qualified target', 'set function', 'two options',
          'unknown name', 'default', 'too many columns', 'no keys']
NO_INDEX = 'bare'         # a table without a primary index


def mark(t):
    return '\x01' + t + '\x02'


def unmark(text):
    """-> (text, (begin, end) in bytes or None)"""
    if '\x01' not in text:
        return text, None
    b = text.encode()
    i = b.index(b'\x01')
    b = b[:i] + b[i + 1:]
    j = b.index(b'\x02')
    b = b[:j] + b[j + 1:]
    return b.decode(), (i, j)


class D:
    """a statement: text, kind of write, table, keys() -> names, names of the columns, rows() -> [{column: value}]; or a fault: code and place"""

    def __init__(self, text, kind=None, table=None, keys=None, cols=None, rows=None, ordered=False, codes=None, simple=False):
        self.text, self.place = unmark(text)
        self.kind = kind
        self.table = table
        self.keys = keys
        self.cols = cols
        self.rows = rows
        self.ordered = ordered
        self.codes = codes
        self.simple = simple


class Gen(Base):
    def make_tables(self):
        Base.make_tables(self)
        if self.p(0.15):
            self.pick(self.tables).pk = []      # what CREATE TABLE makes without PRIMARY KEY: rows can be inserted, but not looked up
        return self.tables

    def catalog(self):
        return Base.catalog(self).replace('schema\ts2\n', 'table\t%s\ncol\ta\tint8\tnull\t-\t\nschema\ts2\n' % NO_INDEX, 1)

    def without_index(self):
        n = self.pick([mark(NO_INDEX), mark('s1.' + NO_INDEX)])
        return D(self.pick(['UPDATE %s SET a = 1', 'DELETE FROM %s', 'DELETE FROM %s WHERE a = 1', 'INSERT INTO %s VALUES (1)', 'INSERT INTO %s (a) SELECT 1']) % n, codes={'primary_index_not_found'})

    def without_keys(self, text):
        """the statement must be refused, since nothing says which rows are meant"""
        self.note('without keys')
        n = len(text.split()[0]) + 1
        if text.startswith('DELETE'):
            n += 5
        name = text[n:].split()[0]
        return D(text[:n] + mark(name) + text[n + len(name):], codes={'unknown', 'primary_index_not_found', 'unsupported_feature'})

    def table_name(self, t):
        # an unqualified name is searched in s1, then s2; the names differ
        return self.pick([t.name, t.schema + '.' + t.name]) if not self.behind(t) else t.schema + '.' + t.name

    def value(self, t, scope):
        """a value for a column of type t: (text, f). NULL is possible because the column gives its type"""
        if self.p(0.1):
            return 'NULL', lambda env: None
        if self.p(0.1):
            c = self.expr('b', scope)
            e = self.expr(t, scope)
            return 'CASE WHEN %s THEN %s ELSE NULL END' % (c.text, e.text), lambda env: e.f(env) if c.f(env) is True else None
        e = self.expr(t, scope)
        return e.text, e.f

    def insert(self, fault=None):
        t = self.pick(self.tables)
        opt, kind = self.pick([('', 'insert')] * 3 + [('OR IGNORE ', 'insert_skip'), ('OR REPLACE ', 'insert_overwrite')])
        vis = t.vcols()
        self.note(kind)
        r = self.rng.random()
        listed = fault in ('unknown column', 'duplicate column', 'hidden column', 'too many columns') or self.p(0.65)
        if listed:
            cols = self.rng.sample(vis, self.rng.randint(1, len(vis)))
        else:
            cols = vis
        names = [c for c, _ in cols]
        tname = self.table_name(t)
        codes = None
        if fault == 'unknown table':
            tname = self.pick([mark('nosuch'), 's1.' + mark('nosuch'), mark('nosuch') + '.t0'])
            codes = {'table_not_found', 'schema_not_found'}
        if fault == 'two options':
            opt = 'OR IGNORE ' + mark('OR REPLACE') + ' '
            return None          # the grammar has one option
        clause = list(names)
        if fault == 'unknown column':
            clause[self.rng.randrange(len(clause))] = mark(self.pick(['nosuch', 'q']))
            codes = {'column_not_found'}
        if fault == 'duplicate column':
            clause.append(mark(self.pick(names)))
            codes = {'column_already_exists'}
        if fault == 'hidden column':
            hid = [c for c, _, _, _ in t.cols if c not in dict(vis)]
            if not hid:
                return None
            clause[self.rng.randrange(len(clause))] = mark(self.pick(hid))
            codes = {'column_not_found'}
        text = 'INSERT %sINTO %s' % (opt, tname)
        if listed:
            text += ' (%s)' % ', '.join(clause)
        if fault is None and r < 0.08:
            self.note('default values')
            return D(text + ' DEFAULT VALUES', kind, t, [], [], lambda: [{}], simple=True)
        n = len(cols)
        types = [ty for _, ty in cols]
        if fault in ('too few values', 'too many values'):
            types = types[:-1] if fault == 'too few values' else types + [self.pick('isb')]
            if not types:
                return None
            codes = {'inconsistent_columns'}
        bad = None
        if r < 0.5 or fault in ('default', 'unknown name', 'set function'):
            rows = [[self.value(ty, None) for ty in types] for _ in range(self.rng.choice([1, 1, 2, 3]))]
            if fault in ('default', 'unknown name', 'set function'):
                k = self.rng.randrange(len(rows))
                j = self.rng.randrange(n)
                w = {'default': 'DEFAULT', 'unknown name': self.pick([mark('nosuch'), mark(names[j]), mark(t.name) + '.' + names[j]]), 'set function': 'COUNT(*)'}[fault]
                codes = {'default': {'missing_context_of_default_value'}, 'unknown name': {'variable_not_found', 'symbol_not_found', 'column_not_found', 'relation_not_found'},
                         'set function': {'unsupported_feature', 'invalid_aggregation_column'}}[fault]
                rows[k][j] = (w if '\x01' in w else mark(w), None)
            q = 'VALUES ' + ', '.join('(%s)' % ', '.join(x[0] for x in row) for row in rows)
            f = lambda: [dict(zip(names, [x[1]({}) for x in row])) for row in rows]
            ordered = True
            simple = '(' not in q.replace('VALUES (', '').replace('), (', '')
            self.note('insert values')
        elif fault is None and self.p(0.15) and [x for x in self.tables if sorted(y for _, y in x.vcols()) == sorted(y for _, y in vis)]:
            # all columns of a table of the same types, without those nobody sees
            src = self.pick([x for x in self.tables if sorted(y for _, y in x.vcols()) == sorted(y for _, y in vis)])
            free = list(vis)
            cols = []
            for _, ty in src.vcols():
                c = self.pick([c for c in free if c[1] == ty])
                free.remove(c)
                cols.append(c)
            if src is t and not listed:
                cols = vis
            names = [c for c, _ in cols]
            text = 'INSERT %sINTO %s' % (opt, tname) + (' (%s)' % ', '.join(names) if names != [c for c, _ in vis] or self.p(0.5) else '')
            full = '%s.%s' % (src.schema, src.name)
            q = self.pick(['SELECT * FROM %s', 'SELECT q9.* FROM %s AS q9', 'TABLE %s', 'SELECT * FROM (SELECT * FROM %s) AS q9', 'WITH q9 AS (TABLE %s) TABLE q9']) % full
            rows = src.vrows()
            f = lambda: [dict(zip(names, x)) for x in rows]
            ordered = False
            simple = False
            self.note('insert asterisk')
        else:
            qq = self.query(None, types=types)
            q = qq.text
            f = lambda: [dict(zip(names, x)) for x in qq.rows({})]
            ordered = False
            simple = False
            self.note('insert query')
        if fault in ('too few values', 'too many values'):
            q = mark(q)
        if codes:
            return D(text + ' ' + q, codes=codes)
        keys = [t.cols[k][0] for k in t.pk]
        return D(text + ' ' + q, kind, t, [c for c in names if c in keys], [c for c in names if c not in keys], f, ordered, simple=simple)

    def target(self):
        t = self.pick(self.tables)
        ref = Ref(t.name, t.schema, [])
        text = self.table_name(t)
        if self.p(0.3):
            a = self.pick(['x', 'y', 't0', 't1', 'u'])
            text += ' %s%s' % (self.pick(['', 'AS ']), a)
            ref = Ref(a, None, [])
        vis = set(t.visible())
        ids = []
        for k, (c, ty, _, _) in enumerate(t.cols):
            u = next(self.uid)
            ids.append(u)
            if k in vis:
                ref.cols.append(Col(c, ty, u))
        return t, text, Scope([ref]), lambda: [_merge({}, ids, r) for r in t.rows], ids

    def where(self, scope, fault):
        codes = None
        if fault == 'set function' and self.p(0.5):
            return ' WHERE ' + mark('COUNT(*) > 0'), None, {'unsupported_feature', 'invalid_aggregation_column'}
        if fault == 'unknown name':
            return ' WHERE %s = 0' % self.pick([mark('nosuch'), mark('nosuch') + '.a', scope.refs[0].name + '.' + mark('nosuch')]), None, {'variable_not_found', 'symbol_not_found', 'column_not_found', 'relation_not_found'}
        if self.p(0.75):
            e = self.expr('b', scope)
            return ' WHERE ' + e.text, e.f, None
        return '', lambda env: True, None

    def update(self, fault=None):
        t, text, scope, rows, ids = self.target()
        keys = [t.cols[k][0] for k in t.pk]
        kid = [ids[k] for k in t.pk]
        vis = t.vcols()
        if fault == 'unknown table':
            return D('UPDATE %s SET a = 1' % self.pick([mark('nosuch'), 's1.' + mark('nosuch'), mark('nosuch') + '.t0']), codes={'table_not_found', 'schema_not_found'})
        cols = self.rng.sample(vis, self.rng.randint(1, min(3, len(vis))))
        vals = [self.value(ty, scope) for _, ty in cols]
        targets = [c for c, _ in cols]
        sets = list(targets)
        k = self.rng.randrange(len(sets))
        codes = None
        texts = [v[0] for v in vals]
        if fault == 'unknown column':
            sets[k] = mark(self.pick(['nosuch', 'q']))
            codes = {'column_not_found'}
        elif fault == 'hidden column':
            hid = [c for c, _, _, _ in t.cols if c not in dict(vis)]
            if not hid:
                return None
            sets[k] = mark(self.pick(hid))
            codes = {'column_not_found'}
        elif fault == 'duplicate column':
            sets.append(mark(self.pick(sets)))
            texts.append('NULL')
            codes = {'column_already_exists'}
        elif fault == 'qualified target':
            sets[k] = mark(scope.refs[0].name + '.' + sets[k])
            codes = {'unsupported_feature'}
        elif fault == 'default':
            texts[k] = mark('DEFAULT')
            codes = {'missing_context_of_default_value'}
        elif fault == 'set function' and self.p(0.5):
            texts[k] = mark('COUNT(*)')
            codes = {'unsupported_feature', 'invalid_aggregation_column'}
        wt, wf, wc = self.where(scope, fault if codes is None else None)
        codes = codes or wc
        sql = 'UPDATE %s SET %s%s' % (text, ', '.join('%s = %s' % (a, b) for a, b in zip(sets, texts)), wt)
        if fault:
            return D(sql, codes=codes) if codes and '\x01' in sql else None
        if not t.pk:
            return self.without_keys(sql)
        self.note('update')

        def f():
            res = []
            for env in rows():
                if wf(env) is True:
                    res.append(([env[u] for u in kid], [v[1](env) for v in vals]))
            return res
        return D(sql, 'update', t, keys, targets, f)

    def delete(self, fault=None):
        t, text, scope, rows, ids = self.target()
        keys = [t.cols[k][0] for k in t.pk]
        kid = [ids[k] for k in t.pk]
        if fault == 'unknown table':
            return D('DELETE FROM %s' % self.pick([mark('nosuch'), 's1.' + mark('nosuch'), mark('nosuch') + '.t0']), codes={'table_not_found', 'schema_not_found'})
        wt, wf, codes = self.where(scope, fault)
        sql = 'DELETE FROM %s%s' % (text, wt)
        if fault:
            return D(sql, codes=codes) if codes else None
        if not t.pk:
            return self.without_keys(sql)
        self.note('delete')
        return D(sql, 'delete', t, keys, [], lambda: [([env[u] for u in kid], []) for env in rows() if wf(env) is True])

    def statement(self, fault=None):
        if fault == 'no primary index':
            return self.without_index()
        if fault:                # a single fault
            for t in self.tables:
                t.pk = t.pk or [0]
        if fault == 'no keys':
            t = self.pick(self.tables)
            t.pk = []
            return getattr(self, self.pick(['update', 'delete']))()
        return getattr(self, self.pick(['insert', 'insert', 'update', 'update', 'delete']))(fault)
