"""Random queries with exactly one fault, its place in the text marked."""
import re
from . import relgen
from .relgen import E, Block, Scope
from .dmlgen import mark, unmark


class Gen(relgen.Gen):
    kind = None          # the fault to be planted
    planted = False

    def chain(self, scope):
        s = scope
        while s is not None:
            yield s
            s = s.up if isinstance(s, Block) else s.parent

    def visible_names(self, scope):
        return {c.name for s in self.chain(scope) for r in s.refs for c in r.cols if c.visible}

    def visible_relations(self, scope):
        return {r.name for s in self.chain(scope) for r in s.refs}

    def visible_schemas(self, scope):
        return {r.schema for s in self.chain(scope) for r in s.refs if r.schema}

    def plant(self, text, t):
        self.planted = True
        return E(text, t, None, False)

    # ------------------------------------------------------------------ faults of expressions
    def fault_unknown_column(self, t, scope, agg):
        names = self.visible_names(scope) | self.visible_relations(scope)
        n = self.pick([n for n in relgen.NAMES + ['n1', 'n2', 'nosuch', 'k0', 's', 'hid'] if n not in names])
        return mark(n)

    def fault_unknown_qualifier(self, t, scope, agg):
        names = self.visible_names(scope) | self.visible_relations(scope)
        n = self.pick([n for n in ['t0', 't1', 't2', 'w1', 'x', 'y', 'u', 'nosuch'] if n not in names])
        return mark(n) + '.' + self.pick(relgen.NAMES)

    def fault_unknown_member(self, t, scope, agg):
        seen = set()
        opts = []
        for s in self.chain(scope):
            for r in s.refs:
                if r.name and r.name not in seen and len([x for x in s.refs if x.name == r.name]) == 1:
                    opts.append(r)
            seen |= {r.name for r in s.refs}
        if not opts:
            return None
        r = self.pick(opts)
        have = {c.name for c in r.cols}
        n = self.pick([n for n in relgen.NAMES + ['nosuch', 'hid', 'n1'] if n not in have] or ['nosuch'])
        q = r.schema + '.' if r.schema and self.p(0.3) else ''
        return q + r.name + '.' + mark(n)

    def fault_wrong_schema(self, t, scope, agg):
        opts = [r for s in self.chain(scope) for r in s.refs if r.name and (r.schema or True)]
        if not opts:
            return None
        r = self.pick(opts)
        c = self.pick([c.name for c in r.cols if c.name] or ['a'])
        # an alias has no schema, a table has only its own
        other = [s for s in ('s1', 's2') if not any(x.schema == s and x.name == r.name for y in self.chain(scope) for x in y.refs)]
        if not other:
            return None
        return self.pick(other) + '.' + mark(r.name) + '.' + c

    def fault_ambiguous(self, t, scope, agg):
        for s in self.chain(scope):
            names = [c.name for r in s.refs for c in r.cols if c.visible and c.name]
            dup = [n for n in set(names) if names.count(n) > 1]
            inner = set()
            if dup:
                dup = [n for n in sorted(dup) if n not in self.visible_relations(scope)]
                if dup:
                    return mark(self.pick(dup))
            return None
        return None

    def fault_not_grouped(self, t, scope, agg):
        if agg is None or scope is None:
            return None
        opts = [(r, c) for r in scope.refs for c in r.cols if c.visible and c.name and c.type == t and c.uid not in agg]
        self.rng.shuffle(opts)
        for r, c in opts:
            text = self.ref_text(scope, r, c)
            if text:
                return mark(text)
        return None

    def other_tables(self, text):
        """other relations with one column of numbers in place of the simplest one"""
        def other(m):
            name, column = m.group(1), m.group(2)
            forms = ['(SELECT 1) AS %s (%s)' % (name, column), '(SELECT 1 AS %s) %s' % (column, name), '(WITH w8 (%s) AS (VALUES (1)) TABLE w8) AS %s' % (column, name)]
            opts = [(t, c) for t in self.tables for c, ty in t.vcols() if ty == 'i']
            for t, c in opts:
                full = t.schema + '.' + t.name
                forms.append('(SELECT %s AS %s FROM %s) AS %s' % (c, column, full, name))
                forms.append('(SELECT %s FROM %s) AS %s (%s)' % (c, full, name, column))
                if len(t.vcols()) == 1:
                    forms.append('%s AS %s (%s)' % (full, name, column))
                elif '*' not in text.replace('COUNT(*)', '') and c == t.vcols()[0][0]:
                    forms += ['%s %s (%s)' % (full, name, ', '.join([column] + ['%s_%d' % (name, i) for i in range(1, len(t.vcols()))]))] * 4
            return self.pick(forms) if self.p(0.4) else m.group(0)
        return text and re.sub(r'\(VALUES \(\d\)\) AS (\w+) \((\w+)\)', other, text)

    def fault_unknown_function(self, t, scope, agg):
        return mark(self.pick(['nosuch', 'incr', 'gen', 'xinc']) + '(%s)' % ', '.join(self.lit(self.pick('is')).text for _ in range(self.rng.randint(0, 2))))

    def fault_arity(self, t, scope, agg):
        return mark(self.pick(['one', 'size', 'glue', 'pick3']) + '(%s)' % ', '.join('1' for _ in range(self.pick([4, 5]))))

    def fault_nested_set_function(self, t, scope, agg):
        if agg is None or t != 'i':
            return None
        x = mark(self.pick(['COUNT(*)', 'SUM(1)', 'MIN(1)', 'COUNT(DISTINCT 1)']))
        return self.pick(['MAX(%s + 1)', 'MIN(1 - %s)', 'SUM(DISTINCT %s)', 'COUNT(%s)', 'MAX(CASE WHEN TRUE THEN %s ELSE 1 END)', 'MAX(CAST(%s AS BIGINT))', 'MAX(- %s)', '1 + MAX(%s)']) % x

    def fault_set_function_here(self, t, scope, agg):
        return None

    def fault_subquery_columns(self, t, scope, agg):
        n = self.rng.randint(2, 3)
        q = self.query(self.around(scope, agg), [self.pick('isb') for _ in range(n)], single=True)
        if not q.single or not q.text:
            return None
        return mark('(' + q.text + ')')

    def fault_in_columns(self, t, scope, agg):
        q = self.select(self.around(scope, agg), [self.pick('isb') for _ in range(self.rng.randint(2, 3))])
        return mark('%s %sIN (%s)' % (self.lit('i').text, self.pick(['', '', 'NOT ']), q.text))

    def fault_quantified_columns(self, t, scope, agg):
        q = self.select(self.around(scope, agg), [self.pick('isb') for _ in range(self.rng.randint(2, 3))])
        return mark('%s %s %s (%s)' % (self.lit('i').text, self.pick(['=', '<', '<>', '<=', '>', '>=']), self.pick(['ANY', 'ALL', 'SOME']), q.text))

    def fault_unique(self, t, scope, agg):
        return self.pick(['', '', 'NOT ']) + mark('UNIQUE') + self.pick([' (SELECT 1)', ' (VALUES (1), (2))', ' (SELECT DISTINCT 1)'])

    def fault_row_comparison(self, t, scope, agg):
        a, b = self.rng.sample(['(1, 2)', '(2, 3)', 'ROW (1, 2)', '(1, 2, 3)'], 2)
        return mark(a) + ' %s ' % self.pick(['=', '<>', '<', '>=']) + b

    def fault_literal(self, t, scope, agg):
        return self.pick(['X' + mark("'0'"), mark('99999999999999999999999999999999999999999'), mark('1e9999'), 'DATE' + mark("'2001-13-01'"), 'TIMESTAMP' + mark("'x'"),
                          'TIME' + mark("'25:00:00'"), 'TIMESTAMP WITH TIME ZONE ' + mark("'2001-01-01'")])

    def fault_parameter(self, t, scope, agg):
        return mark(':' + self.pick(['nosuch', 'p9', 'h9']))

    def fault_null_default(self, t, scope, agg):
        return mark('DEFAULT')

    # ------------------------------------------------------------------ faults of queries
    def fault_set_columns(self, scope, types, single, top):
        n = self.rng.randint(1, 3)
        ns = [n, n + self.rng.randint(1, 2)]
        self.rng.shuffle(ns)
        a, b = [self.operand(scope, [self.pick('isb') for _ in range(n)]) for n in ns]
        return '%s %s%s %s' % (a.text, mark(self.pick(['UNION', 'EXCEPT', 'INTERSECT'])), self.pick(['', ' ALL', ' DISTINCT']), b.text)

    def fault_values_columns(self, scope, types, single, top):
        n = self.rng.randint(1, 4)
        types = [self.pick('isb') for _ in range(n)]
        rows = [[self.lit(t).text for t in types] for _ in range(self.rng.randint(2, 4))]
        k = self.rng.randrange(len(rows))
        if n > 1 and self.p(0.5):
            rows[k] = rows[k][:self.rng.randint(1, n - 1)]
        else:
            rows[k] = rows[k] + ['1'] * self.rng.randint(1, 2)
        v = mark('VALUES ' + ', '.join('(%s)' % ', '.join(r) for r in rows))
        return self.pick(['SELECT * FROM (%s) AS vt', '%s', 'SELECT 1 FROM (VALUES (1)) AS t (a) WHERE EXISTS (%s)', 'WITH w1 AS (%s) SELECT 1 FROM w1']) % v

    def fault_duplicate_with(self, scope, types, single, top):
        ws = ['w1 AS (SELECT 1 AS a)', mark('w1') + self.pick([' AS (SELECT 2 AS a)', ' (a) AS (VALUES (3))', ' (b, a) AS (SELECT 1, 2)', ' AS (TABLE w1)'])]
        for n in self.rng.sample(['w2', 'w3', 'w4'], self.rng.randint(0, 3)):
            ws.insert(self.rng.randint(0, len(ws)), n + ' AS (SELECT 1 AS a)')
        return 'WITH %s SELECT a FROM %s' % (', '.join(ws), self.pick(['w1', 'w1', '(SELECT 1) AS t (a)']))

    def fault_with_columns(self, scope, types, single, top):
        n, m = self.rng.sample([1, 2, 3, 4], 2)
        q = self.pick(['SELECT %s', 'VALUES (%s)', 'SELECT * FROM (VALUES (%s)) AS y', 'SELECT DISTINCT %s', 'SELECT 9 AS a, %s' if n < 4 else 'SELECT %s'])
        if '9' in q:
            n += 1
            v = ', '.join(str(i) for i in range(n - 1))
        else:
            v = ', '.join(str(i) for i in range(n))
        if n == m:
            m += 1
        w = mark('w1 (%s) AS (%s)' % (', '.join('k%d' % i for i in range(m)), q % v))
        other = self.pick(['', '', 'w0 AS (SELECT 1 AS a), '])
        return 'WITH %s%s%s %s' % (other, w, self.pick(['', ', w2 AS (TABLE w1)']), self.pick(['SELECT 1 FROM w1', 'SELECT k0 FROM w1', 'SELECT 1', 'TABLE w1']))

    def fault_order_literal(self, scope, types, single, top):
        f = self.pick(['SELECT t.a FROM (VALUES (1)) AS t (a) ORDER BY %s', 'SELECT 1 FROM (VALUES (1)) AS t (a) ORDER BY t.a, %s', 'SELECT t.a FROM (VALUES (1)) AS t (a) ORDER BY %s DESC, t.a LIMIT 1',
                       'SELECT t.a, COUNT(*) FROM (VALUES (1)) AS t (a) GROUP BY t.a ORDER BY %s'])
        return f % self.pick([mark('1'), mark("'a'"), mark('TRUE'), '(' + mark('2') + ')'])

    def fault_group_expression(self, scope, types, single, top):
        f = self.pick(['SELECT COUNT(*) FROM (VALUES (1)) AS t (a) GROUP BY %s', 'SELECT t.a FROM (VALUES (1)) AS t (a) GROUP BY t.a, %s', 'SELECT 1 FROM (VALUES (1)) AS t (a) GROUP BY %s, t.a HAVING COUNT(*) > 0'])
        return f % mark(self.pick(['t.a + 1', '1', '- t.a', 'CASE t.a WHEN 1 THEN 2 ELSE 3 END', 'CAST(t.a AS BIGINT)', "'x'"]))

    def fault_where_set_function(self, scope, types, single, top):
        c = mark(self.pick(['COUNT(*) > 1', 'MAX(t.a) = t.a', 't.a < 2 AND COUNT(*) > 0', 't.a = 1 OR NOT (MIN(t.a) IS NULL)', 'CASE WHEN COUNT(*) > 0 THEN TRUE ELSE FALSE END', 't.a IN (1, MAX(t.a))',
                            't.a BETWEEN 0 AND COUNT(t.a)', "COUNT(DISTINCT t.a) = 1", 'CAST(COUNT(*) AS VARCHAR(*)) LIKE \'%\'']))
        return self.pick(['SELECT t.a FROM (VALUES (1)) AS t (a) WHERE %s', 'SELECT COUNT(*) FROM (VALUES (1)) AS t (a) WHERE %s', 'SELECT t.a FROM (VALUES (1)) AS t (a) WHERE %s GROUP BY t.a',
                          'SELECT 1 FROM (VALUES (2)) AS u (b) WHERE EXISTS (SELECT 1 FROM (VALUES (1)) AS t (a) WHERE %s)']).replace('%s', c)

    def fault_on_set_function(self, scope, types, single, top):
        c = mark('ON ' + self.pick(['COUNT(*) > 1', 't.a = u.b AND MAX(t.a) > 0', 'MIN(u.b) = t.a', 'NOT (t.a = COUNT(u.b))', 'u.b IN (1, COUNT(*))', 'CASE WHEN COUNT(*) > 0 THEN TRUE ELSE FALSE END']))
        return 'SELECT %s FROM (VALUES (1)) AS t (a) %sJOIN (VALUES (2)) AS u (b) %s' % (self.pick(['t.a', '*', 'COUNT(*)']), self.pick(['', 'INNER ', 'LEFT ', 'RIGHT ', 'FULL OUTER ']), c)

    def fault_using(self, scope, types, single, top):
        return self.pick(['SELECT 1 FROM (VALUES (1)) AS t (a) JOIN (VALUES (2)) AS u (b) USING (%s)' % mark('a'),
                          'SELECT 1 FROM (VALUES (1)) AS t (a) JOIN (VALUES (2)) AS u (b) USING (%s)' % mark('b'),
                          'SELECT 1 FROM (VALUES (1, 2)) AS t (a, b) JOIN (VALUES (2)) AS u (b) USING (b, %s)' % mark('a')])

    def fault_using_ambiguous(self, scope, types, single, top):
        x, y, z = '(VALUES (1)) AS x (a)', '(VALUES (2, 3)) AS y (b, a)', '(VALUES (4)) AS z (a)'
        j = self.pick(['JOIN', 'LEFT JOIN', 'INNER JOIN', 'RIGHT OUTER JOIN', 'FULL JOIN'])
        return 'SELECT 1 FROM ' + self.pick(['%s JOIN %s ON TRUE %s %s USING (%%s)' % (x, y, j, z), '%s CROSS JOIN %s %s %s USING (%%s)' % (x, y, j, z),
                                             '%s %s (%s CROSS JOIN %s) USING (%%s)' % (x, j, y, z), '(SELECT 1 AS a, 2 AS a) AS u %s %s USING (%%s)' % (j, z),
                                             '%s %s (SELECT 1 AS a, 2 AS a) AS u USING (%%s)' % (z, j)]) % mark('a')

    def fault_ambiguous_member(self, scope, types, single, top):
        f = self.pick(['(SELECT 1 AS a, 2 AS a) AS z', '(SELECT * FROM (VALUES (1)) AS x (a), (VALUES (1, 2)) AS y (b, a)) AS z'])
        return self.pick(['SELECT z.%s FROM ' + f, 'SELECT 1 FROM ' + f + ' WHERE z.%s = 1', 'SELECT 1 FROM ' + f + ' ORDER BY z.%s', 'SELECT COUNT(*) FROM ' + f + ' GROUP BY z.%s']) % mark('a')

    def fault_ambiguous_relation(self, scope, types, single, top):
        f = self.pick(['(VALUES (1)) AS z (a), (VALUES (1)) AS z (a)', '(VALUES (1)) AS z (a) CROSS JOIN (VALUES (1)) AS z (b)', '(VALUES (1)) AS z (a) JOIN (VALUES (1)) AS y (b) ON TRUE JOIN (VALUES (1)) AS z (c) ON TRUE'])
        return self.pick(['SELECT %s.a FROM ' + f, 'SELECT %s.* FROM ' + f, 'SELECT 1 FROM ' + f + ' WHERE %s.a = 1', 'SELECT 1 FROM ' + f + ' WHERE EXISTS (SELECT %s.a FROM (VALUES (1)) AS q (r))']) % mark('z')

    def fault_name_clash(self, scope, types, single, top):
        """one name for two relations, at least one of them a table under its own name"""
        ctes = {n for n, _, _ in self.visible_ctes(scope)}
        a = self.pick(self.tables)
        full = lambda t: t.schema + '.' + t.name if t.name in ctes or self.behind(t) else self.pick([t.name, t.schema + '.' + t.name])
        twin = [t for t in self.tables if t.name == a.name and t is not a]
        b = self.pick(twin or self.tables)
        j = self.pick([', ', ' CROSS JOIN '])
        fs = [full(a)]
        if twin and self.p(0.5):
            fs.append(full(b))
        else:
            fs.append(self.pick([full(b) + self.pick([' AS ', ' ']) + a.name, '(VALUES (1)) AS %s (a)' % a.name, full(a), '(SELECT 1 AS a) ' + a.name]))
        self.rng.shuffle(fs)
        f = j.join(fs)
        q = mark(a.name)
        return self.pick(['SELECT %s.a FROM ' + f, 'SELECT %s.* FROM ' + f, 'SELECT 1 FROM ' + f + ' WHERE %s.a = 1', 'SELECT 1 FROM ' + f + ' WHERE EXISTS (SELECT %s.a FROM (VALUES (1)) AS q (r))',
                          'SELECT 1 FROM ' + f + ' ORDER BY %s.a', 'SELECT COUNT(*) FROM ' + f + ' GROUP BY %s.a', 'SELECT MAX(%s.a) FROM ' + f]) % q

    def fault_schema_name_clash(self, scope, types, single, top):
        """one table twice under its own name"""
        t = self.pick(self.tables)
        n = t.schema + '.' + t.name
        f = n + self.pick([', ', ' CROSS JOIN ']) + n
        return self.pick(['SELECT %s.a FROM ' + f, 'SELECT 1 FROM ' + f + ' WHERE %s.a = 1', 'SELECT 1 FROM ' + f + ' WHERE EXISTS (SELECT %s.a FROM (VALUES (1)) AS q (r))']) % (t.schema + '.' + mark(t.name))

    def fault_field(self, scope, types, single, top):
        return self.pick(['SELECT z.a.%s FROM (VALUES (1)) AS z (a)', 'SELECT 1 FROM (VALUES (1)) AS z (a) WHERE z.a.%s = 1', 'SELECT (SELECT z.a.%s FROM (VALUES (1)) AS y (b)) FROM (VALUES (1)) AS z (a)']) % mark(self.pick(['b', 'a', 'z']))

    def fault_relation_as_column(self, scope, types, single, top):
        return self.pick(['SELECT %s FROM (VALUES (1)) AS zq (a)', 'SELECT COUNT(%s) FROM (VALUES (1)) AS zq (a)', 'SELECT a FROM (VALUES (1)) AS zq (a) ORDER BY %s', 'SELECT 1 FROM (VALUES (1)) AS zq (a) GROUP BY %s']) % mark('zq')

    def fault_star_qualifier(self, scope, types, single, top):
        x = mark(self.pick(['nosuch', 'u', 'a']))
        return self.pick(['SELECT %s.* FROM (VALUES (1)) AS t (a)', 'SELECT t.a, %s.* FROM (VALUES (1)) AS t (a)', 'SELECT t.*, %s.* FROM (VALUES (1)) AS t (a)', 'SELECT DISTINCT %s.* FROM (VALUES (1)) AS t (a) LIMIT 1']) % x

    def fault_limit(self, scope, types, single, top):
        f = self.pick(['SELECT t.a FROM (VALUES (1)) AS t (a) LIMIT ', 'SELECT t.a FROM (VALUES (1)) AS t (a) ORDER BY t.a LIMIT ', 'SELECT DISTINCT t.a FROM (VALUES (1)) AS t (a) LIMIT ', 'SELECT COUNT(*) FROM (VALUES (1)) AS t (a) GROUP BY t.a LIMIT '])
        return f + self.pick([mark("'a'"), mark("'1'"), '-' + mark('1'), mark('TRUE'), mark('1.5'), mark('1e0'), mark('9999999999999999999')])

    def fault_natural(self, scope, types, single, top):
        return 'SELECT 1 FROM ' + mark('(VALUES (1)) AS t (a) NATURAL %sJOIN (VALUES (2)) AS u (a)' % self.pick(['', 'LEFT ', 'RIGHT ', 'FULL ', 'INNER ']))

    def fault_union_join(self, scope, types, single, top):
        return 'SELECT %s FROM (VALUES (1)) AS t (a) %s (VALUES (2)) AS u (b)' % (self.pick(['1', '*', 't.a']), mark('UNION JOIN'))

    def fault_corresponding(self, scope, types, single, top):
        a, b = '(VALUES (1)) AS t (a)', '(VALUES (1)) AS t (a)'
        return mark('SELECT t.a FROM %s %s%s CORRESPONDING%s SELECT t.a FROM %s' % (a, self.pick(['UNION', 'EXCEPT', 'INTERSECT']), self.pick(['', ' ALL', ' DISTINCT']), self.pick(['', ' BY (a)']), b))

    def fault_values_set_function(self, scope, types, single, top):
        x = mark(self.pick(['COUNT(*)', 'MAX(1)', '1 + COUNT(*)', 'CASE WHEN COUNT(*) > 0 THEN 1 ELSE 2 END', '- MIN(2)', 'CAST(SUM(1) AS INT)']))
        return self.pick(['VALUES (1, %s)', 'VALUES (%s)', 'VALUES (1), (%s)', 'VALUES (1, 2), (%s, 3)', 'SELECT 1 FROM (VALUES (%s)) AS y (b)', 'SELECT 1 FROM (VALUES (1), (2), (%s)) AS y (b)']) % x

    def fault_apply_set_function(self, scope, types, single, top):
        x = mark(self.pick(['MAX(t.a)', 'COUNT(*)', 't.a + COUNT(*)', 'MIN(t.a) + 1']))
        return self.pick(['SELECT 1 FROM (VALUES (1)) AS t (a) CROSS APPLY gen(%s) AS y', 'SELECT COUNT(*) FROM (VALUES (1)) AS t (a) OUTER APPLY gen(%s) AS y']) % x

    def fault_nulls(self, scope, types, single, top):
        f = self.pick(['SELECT t.a FROM (VALUES (1)) AS t (a) ORDER BY %s', 'SELECT t.a FROM (VALUES (1)) AS t (a) ORDER BY - t.a, %s', 'SELECT t.a FROM (VALUES (1)) AS t (a) ORDER BY %s, - t.a LIMIT 2'])
        return f % mark('t.a%s NULLS ' % self.pick(['', ' ASC', ' DESC']) + self.pick(['FIRST', 'LAST']))

    def fault_collate(self, scope, types, single, top):
        return "SELECT t.a FROM (VALUES ('a')) AS t (a) ORDER BY %s" % mark('t.a COLLATE c')

    def fault_recursive(self, scope, types, single, top):
        return mark('WITH RECURSIVE ' + self.pick(['w1 AS (SELECT 1 AS a) SELECT a FROM w1', 'w1 (a) AS (VALUES (1)), w2 AS (TABLE w1) SELECT a FROM w2', 'w1 (a) AS (SELECT 1 UNION ALL SELECT a + 1 FROM w1) SELECT a FROM w1']))

    def fault_group_set_function(self, scope, types, single, top):
        x = mark(self.pick(['MAX(t.a)', 'COUNT(*)', 'SUM(t.a)', 'COUNT(DISTINCT t.a)']))
        return self.pick(['SELECT 1 FROM (VALUES (1)) AS t (a) GROUP BY %s', 'SELECT t.a FROM (VALUES (1)) AS t (a) GROUP BY t.a, %s', 'SELECT COUNT(*) FROM (VALUES (1)) AS t (a) GROUP BY %s HAVING COUNT(*) > 0']) % x

    def fault_duplicate_with_column(self, scope, types, single, top):
        n = self.rng.randint(2, 5)
        names = ['a', 'b', 'c', 'd', 'e'][:n]
        i, j = sorted(self.rng.sample(range(n), 2))
        names[j] = mark(names[i])
        return 'WITH %sw1 (%s) AS (SELECT %s) %s' % (self.pick(['', '', 'w0 (a) AS (SELECT 1), ']), ', '.join(names), ', '.join(str(k) for k in range(n)), self.pick(['SELECT 1 FROM w1', 'TABLE w1', 'SELECT 2']))

    def fault_star_not_grouped(self, scope, types, single, top):
        n = self.rng.randint(2, 4)
        names = self.rng.sample(['a', 'b', 'c', 'd'], n)
        source = '(VALUES (%s)) AS zt (%s)' % (', '.join(str(i) for i in range(n)), ', '.join(names))
        tables = [t for t in self.tables if len(t.vcols()) > 1]
        if tables and self.p(0.6):
            t = self.pick(tables)
            names = [c for c, _ in t.vcols()]
            source = self.pick(['%s AS zt', '%s zt', '(SELECT * FROM %s) AS zt', '(TABLE %s) AS zt', '(SELECT zu.* FROM %s AS zu) AS zt']) % (t.schema + '.' + t.name)
            if self.p(0.3):
                source = self.pick(['%s CROSS JOIN (VALUES (1)) AS zv (%s)', '(VALUES (1)) AS zv (%s) INNER JOIN %s ON TRUE']).replace('%s)', 'zw)') % source
        keys = self.rng.sample(names, self.rng.randint(1, len(names) - 1))
        star = self.pick(['*', 'zt.*'])
        els = [star] + self.rng.sample(['COUNT(*)', 'zt.' + keys[0], 'COUNT(zt.%s)' % names[-1]], self.rng.randint(0, 2))
        self.rng.shuffle(els)
        group = ' GROUP BY ' + ', '.join('zt.' + k for k in keys)
        if self.p(0.2):
            if not any('(' in e for e in els):
                els.append('COUNT(*)')
            els = [e for e in els if e == star or '(' in e]
            group = ''
        return 'SELECT %s FROM %s%s' % (mark(', '.join(els)), source, group)

    def fault_with_outer(self, scope, types, single, top):
        """a common table reads nothing of what is around the query it belongs to"""
        w = 'WITH w9 AS (SELECT %s%s) SELECT 1 FROM w9' % (mark(self.pick(['zc', 'zz.zc'])), self.pick(['', ' + 1', ' FROM (VALUES (1)) AS zy (b)']))
        if self.p(0.3):
            w = w[:-len(' FROM w9')] + ' FROM w9, w9 AS w8'
        if self.p(0.2):
            w = 'SELECT 1 FROM (%s) AS zx' % w
        return 'SELECT 1 FROM (VALUES (0)) AS zz (zc) WHERE ' + self.pick(['EXISTS (%s)', '1 IN (%s)', '1 = (%s)', '1 = ANY (%s)']) % w

    # ------------------------------------------------------------------ faults of relations
    def fault_duplicate_correlation_column(self, scope, taken):
        n = self.rng.randint(2, 5)
        names = ['a', 'b', 'c', 'd', 'e'][:n]
        i, j = sorted(self.rng.sample(range(n), 2))
        names[j] = mark(names[i])
        return '(%s) AS zz (%s)' % (self.pick(['VALUES (%s)', 'SELECT %s', 'SELECT DISTINCT %s']) % ', '.join(str(k) for k in range(n)), ', '.join(names))

    def fault_duplicate_apply_column(self, scope, taken):
        c = self.pick(['a', 'b', 'n', 's'])
        return "(VALUES (1)) AS zz (zc) %s APPLY two(zc, 'a') AS zy (%s, %s)" % (self.pick(['CROSS', 'OUTER']), c, mark(c))

    def fault_apply_columns(self, scope, taken):
        return '(VALUES (1)) AS zz (zc) CROSS APPLY gen(zc) ' + mark('AS zy (%s)' % ', '.join('k%d' % i for i in range(self.rng.randint(4, 6))))

    def fault_apply_arity(self, scope, taken):
        return mark('(VALUES (1)) AS zz (zc) CROSS APPLY gen(%s) AS zy' % ', '.join(['zc'] * self.rng.randint(3, 5)))

    def fault_lateral(self, scope, taken):
        return mark('LATERAL (%s) AS zz (zc)' % self.pick(['SELECT 1', 'VALUES (1), (2)', 'SELECT COUNT(*) FROM (VALUES (1)) AS zy']))

    def fault_unknown_table(self, scope, taken):
        names = {n for n, _, _ in self.visible_ctes(scope)} | {t.name for t in self.tables}
        n = self.pick([n for n in ['t0', 't1', 't2', 't3', 'w1', 'w2', 'x', 'y', 'nosuch'] if n not in names])
        return mark(n)

    def fault_other_schema(self, scope, taken):
        t = self.pick(self.tables)
        other = 's1' if t.schema == 's2' else 's2'
        return other + '.' + mark(t.name) if not any(x.name == t.name and x.schema == other for x in self.tables) else None

    def fault_unknown_schema(self, scope, taken):
        return mark(self.pick(['nosuch', 's3', 'x'])) + '.' + self.pick(self.tables).name

    def fault_qualified_with(self, scope, taken):
        c = [n for n, _, _ in self.visible_ctes(scope) if not any(t.name == n for t in self.tables)]
        return self.pick(['s1', 's2']) + '.' + mark(self.pick(c)) if c else None

    def fault_correlation_columns(self, scope, taken):
        # fewer names leave the other columns out
        if self.p(0.4):
            n, m = sorted(self.rng.sample([1, 2, 3, 4], 2))
            return '(%s) %s' % (self.pick(['VALUES (%s)', 'SELECT %s']) % ', '.join(str(k) for k in range(n)), mark('AS x (%s)' % ', '.join('k%d' % i for i in range(m))))
        t = self.pick(self.tables)
        return '%s.%s %s' % (t.schema, t.name, mark('AS x (%s)' % ', '.join('k%d' % i for i in range(len(t.visible()) + self.rng.randint(1, 2)))))

    def fault_derived_outer(self, scope, taken):
        x = self.pick([mark('zc'), mark('zz') + '.zc'])
        q = self.pick(['SELECT %s', 'SELECT 1 FROM (VALUES (1)) AS zx (zb) WHERE zb = %s', 'SELECT zb FROM (VALUES (1)) AS zx (zb) ORDER BY zb + %s', 'VALUES (1), (%s)', 'SELECT COUNT(*) FROM (VALUES (1)) AS zx (zb) GROUP BY zb HAVING zb > %s',
                       'SELECT * FROM (SELECT %s) AS zw', 'SELECT 1 UNION ALL SELECT %s']) % x
        return '(VALUES (0)) AS zz (zc)' + self.pick([', (%s) AS zy', ' CROSS JOIN (%s) AS zy', ' LEFT JOIN (%s) AS zy ON TRUE']) % q

    def fault_unknown_table_function(self, scope, taken):
        return mark('(VALUES (1)) AS zz (zc) %s APPLY %s(%s) AS zy' % (self.pick(['CROSS', 'OUTER']), self.pick(['nosuch', 'inc', 'generate']), self.pick(['zc', 'zz.zc', '1', 'zc + 1'])))

    # ------------------------------------------------------------------ hooks
    def hit(self, p):
        return not self.planted and self.rng.random() < p

    def expr(self, t, scope, agg=None):
        if self.kind in EXPR and self.hit(self.rate):
            x = self.other_tables(getattr(self, 'fault_' + self.kind)(t, scope, agg))
            if x is not None and not self.planted:
                return self.plant(x, t)
        return super().expr(t, scope, agg)

    def query(self, scope, types=None, single=False, top=False):
        if self.kind in QUERY and self.hit(self.rate) and not single:
            x = self.other_tables(getattr(self, 'fault_' + self.kind)(scope, types, single, top))
            if x is not None and not self.planted:
                self.planted = True
                types = types or ['i']
                return relgen.Q(x, [('n', t) for t in types], None)
        return super().query(scope, types, single, top)

    def base(self, scope, taken):
        if self.kind in FROM and self.hit(self.rate):
            x = self.other_tables(getattr(self, 'fault_' + self.kind)(scope, taken))
            if x is not None and not self.planted:
                self.planted = True
                a = self.alias(taken)
                if 'AS ' not in x:
                    x += ' AS ' + a
                return x, [relgen.Ref(a, None, [])], lambda env: []
        return super().base(scope, taken)


EXPR = ['unknown_column', 'unknown_qualifier', 'unknown_member', 'wrong_schema', 'ambiguous', 'not_grouped', 'unknown_function', 'arity', 'nested_set_function', 'subquery_columns', 'in_columns',
        'parameter', 'null_default', 'quantified_columns', 'unique', 'row_comparison', 'literal']
QUERY = ['set_columns', 'values_columns', 'duplicate_with', 'with_columns', 'order_literal', 'group_expression', 'where_set_function', 'on_set_function', 'using', 'using_ambiguous', 'ambiguous_member', 'ambiguous_relation', 'name_clash', 'name_clash', 'schema_name_clash', 'field', 'relation_as_column', 'star_qualifier',
         'limit', 'natural', 'union_join', 'corresponding', 'values_set_function', 'apply_set_function', 'nulls', 'collate', 'recursive', 'group_set_function', 'duplicate_with_column', 'with_outer', 'star_not_grouped']
FROM = ['unknown_table', 'other_schema', 'unknown_schema', 'qualified_with', 'correlation_columns', 'derived_outer', 'unknown_table_function', 'duplicate_correlation_column', 'duplicate_apply_column',
        'apply_columns', 'apply_arity', 'lateral']
KINDS = EXPR * 2 + QUERY + FROM

# what each fault has to be refused with
CODES = {
    'unknown_column': 'variable_not_found', 'unknown_qualifier': 'symbol_not_found', 'unknown_member': 'column_not_found', 'wrong_schema': 'symbol_not_found',
    'ambiguous': 'column_ambiguous', 'not_grouped': 'invalid_aggregation_column', 'unknown_function': 'function_not_found', 'arity': 'function_not_found',
    'nested_set_function': 'unsupported_feature', 'subquery_columns': 'inconsistent_columns', 'in_columns': 'inconsistent_columns', 'parameter': 'variable_not_found',
    'null_default': 'missing_context_of_default_value', 'quantified_columns': 'inconsistent_columns', 'unique': 'unsupported_feature', 'row_comparison': 'unsupported_feature',
    'literal': 'malformed_quoted_string unsupported_decimal_value unsupported_approximate_number unsupported_string_value',
    'set_columns': 'inconsistent_columns', 'values_columns': 'inconsistent_elements', 'duplicate_with': 'view_already_exists', 'with_columns': 'inconsistent_columns',
    'order_literal': 'unsupported_feature', 'group_expression': 'unsupported_feature', 'where_set_function': 'unsupported_feature', 'on_set_function': 'unsupported_feature',
    'using_ambiguous': 'column_ambiguous', 'ambiguous_member': 'column_ambiguous', 'ambiguous_relation': 'relation_ambiguous', 'name_clash': 'relation_ambiguous', 'schema_name_clash': 'relation_ambiguous', 'field': 'unsupported_feature', 'relation_as_column': 'variable_not_found',
    'using': 'column_not_found', 'star_qualifier': 'table_not_found', 'limit': 'invalid_unsigned_integer', 'natural': 'unsupported_feature', 'union_join': 'unsupported_feature',
    'corresponding': 'unsupported_feature', 'values_set_function': 'unsupported_feature', 'apply_set_function': 'unsupported_feature', 'nulls': 'unsupported_feature',
    'collate': 'unsupported_feature', 'recursive': 'unsupported_feature', 'group_set_function': 'unsupported_feature', 'duplicate_with_column': 'column_already_exists',
    'unknown_table': 'table_not_found', 'other_schema': 'table_not_found', 'unknown_schema': 'schema_not_found', 'qualified_with': 'table_not_found',
    'correlation_columns': 'inconsistent_columns', 'derived_outer': 'symbol_not_found variable_not_found', 'unknown_table_function': 'function_not_found',
    'duplicate_correlation_column': 'column_already_exists', 'duplicate_apply_column': 'column_already_exists', 'apply_columns': 'inconsistent_columns',
    'star_not_grouped': 'invalid_aggregation_column', 'with_outer': 'variable_not_found symbol_not_found', 'apply_arity': 'function_not_found', 'lateral': 'unsupported_feature'}
# they stand for the left end of all which precedes them in the FROM clause
AROUND = {'apply_arity', 'unknown_table_function'}
# they may stand where only one table reference is allowed
UNPARSED = {'derived_outer'}
