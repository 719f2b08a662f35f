"""analyzer properties"""
import json, random, re
from . import add
from .. import sqlgen, plan, relgen, dmlgen, ddlgen, litgen, faultgen
from ..fw import Check

SWITCHES = ['lowercase_regular_identifiers', 'allow_context_independent_null', 'prefer_write_statement', 'prefer_small_integer_literals',
            'prefer_small_character_literals', 'prefer_small_binary_literals', 'prefer_small_decimal_literals', 'validate_scalar_expressions',
            'cast_literals_in_context', 'default_sequence_cycle', 'host_parameter_declaration_starts_with_colon',
            'lowercase_variable_regular_identifiers', 'lowercase_function_regular_identifiers', 'lowercase_relation_regular_identifiers',
            'lowercase_schema_regular_identifiers', 'lowercase_catalog_regular_identifiers']
# codes which tell of an internal problem of the analyzer, never of the text
INTERNAL = {'unknown'}
ASSUME = ['the analyzer is compiled against stand-ins for the takatori and yugawara libraries, which are not installed here; the stand-ins are validated by the 1229 unit tests of the repository']


class Reply:
    """the answers for the statements of one text"""

    def __init__(self, raw):
        self.raw = raw
        self.state = raw[0]
        self.results = []
        if raw[0] == 'OK':
            n = int(raw[1])
            self.results = [json.loads(x) for x in raw[2:2 + n]]
            self.dropped = [json.loads(x) for x in raw[2 + n:2 + 2 * n]]


def analyze(ctx, out, catalog, sql, opts):
    o = {'cmd': 'analyze'}
    o.update(opts)
    body = catalog + '%%\n' if not catalog.endswith('%%\n') else catalog
    r = Reply(ctx.call(o, body + sql, target='aserver'))
    if r.state not in ('OK',) and not r.state.startswith('NOPARSE'):
        out.bad('unstable:' + r.state.lower()[:20], {'DIFFER': 'analyzing the same tree again gives another result', 'OUTLIVE': 'the result changed after its inputs were destroyed',
                                                     'MODIFIED': 'the analyzer changed the syntax tree'}.get(r.state, r.state) + ': ' + ' | '.join(r.raw[1:])[:900], sql=sql, catalog=catalog, options=opts)
    for x in r.results:
        if x['kind'] == 'diagnostics' and not x['diags']:
            x['diags'] = [['nothing', 'no diagnostic at all', 0, 0]]
    return r


def switches(rng, keys=SWITCHES, p=0.3):
    return {'o.' + k: rng.randint(0, 1) for k in keys if rng.random() < p}


# ------------------------------------------------------------------------------------------------ wild texts
TYPES = ['int1', 'int2', 'int4', 'int8', 'int8', 'int8', 'float4', 'float8', 'decimal(10,2)', 'decimal(*,*)', 'decimal(38,*)', 'char(3)', 'char(*)', 'varchar(5)', 'varchar(*)', 'varchar(*)',
         'octet(3)', 'varoctet(*)', 'bit(4)', 'varbit(*)', 'boolean', 'boolean', 'date', 'time', 'timetz', 'ts', 'tstz', 'interval', 'blob', 'clob', 'unknown']


def wild_catalog(rng, relations=None):
    """a catalog of anything: (lines)"""
    out = []
    ids = [20000]

    def routines(names, schema):
        for n in names:
            for ps in ['', 'int4', 'int8', 'varchar(*)', 'int8|int8', 'varchar(*)|int4', 'int4|int4|int4', 'boolean', 'decimal(*,*)', 'unknown']:
                if rng.random() < 0.6:
                    ids[0] += 1
                    out.append('func\t%d\t%s\t%s\t%s\tscalar' % (ids[0], n, rng.choice(TYPES), ps))
                if rng.random() < 0.5:
                    ids[0] += 1
                    out.append('aggr\t%d\t%s\t%s\t%s' % (ids[0], rng.choice(['count', 'count$distinct', 'sum', 'max', 'min', 'avg', 'sum$distinct', n]), rng.choice(TYPES), ps))
                if rng.random() < 0.2:
                    ids[0] += 1
                    out.append('func\t%d\t%s\t%s\t%s\ttable' % (ids[0], n, rng.choice(['table{a:int4;b:varchar(*)}'] * 9 + ['int8']), ps))
        out.append('func\t10001\tnextval\tint8\tint8\tscalar')

    def tables(names):
        for n in names:
            out.append('table\t' + n)
            cs = rng.sample(['a', 'b', 'c', 't', 'h', 'e'], rng.randint(1, 5))
            for j, c in enumerate(cs):
                d = rng.choice(['-', '-', '-', 'seq:sq', 'func:nextval', 'imm:null', 'imm:int4:5', 'imm:char:x'])
                f = rng.choice(['', '', '', '', 'hidden', 'synthesized', 'read_only', 'hidden,synthesized']) if j else ''      # one column is visible
                out.append('col\t%s\t%s\t%s\t%s\t%s' % (c, rng.choice(TYPES), rng.choice(['null', 'notnull']), d, f))
            if rng.random() < 0.02:
                out.append('pk\t%s\t' % n)      # as CREATE TABLE does without PRIMARY KEY
            elif rng.random() < 0.85:
                out.append('pk\t%s\t%s' % (n, ','.join(c + rng.choice([':asc', ':desc']) for c in rng.sample(cs, rng.randint(1, len(cs))))))
            if rng.random() < 0.5:
                out.append('index\ti%s\t%s:desc' % (n, cs[0]))
    names = ['a', 'b', 'c', 't', 'x']
    out.append('schema\ts1')
    routines(rng.sample(names, 3), 's1')
    tables(rng.sample(relations or names, rng.randint(2, 4)))
    out.append('schema\ts')
    routines(rng.sample(names, rng.choice([0, 0, 1])), 's')
    tables(rng.sample(relations or names, rng.randint(1, 2)))
    if rng.random() < 0.95:
        out.append('path\t' + rng.choice(['s1', 's1,s', 's,s1', 's1,s']))
    out.append('default\t' + rng.choice(['s1', 's1', 's']))
    for n in rng.sample(['a', 'h', 'h1'], rng.randint(0, 2)):
        out.append('host\t%s\t%s\tnull' % (n, rng.choice(TYPES)))
    for n in rng.sample(['b', 'c', 'p1'], rng.randint(0, 2)):
        out.append('ph\t%s\t%s' % (n, rng.choice(['int4\tint4:5', 'varchar(*)\tchar:x', 'int8\tint8:-1', 'unknown\tnull', 'boolean\tbool:true', 'date\tdate:5'])))
    return '\n'.join(out) + '\n'


NAMES = ['a', 'b', 'c', 't', 'x'] * 4 + ['h', 'e', 'y', 'z', 's', 's1', 'tsurugi', 'ia', 'ib', 'A', 'B', 'T', 'count', 'sum', 'max']
KINDS = ['select'] * 6 + ['insert', 'update', 'delete'] * 2 + ['create_table'] * 4 + ['create_index', 'create_view', 'create_sequence', 'create_schema', 'alter_table', 'alter_index',
                                                                                      'drop', 'truncate', 'grant', 'revoke']


class Wild(sqlgen.Gen):
    """any statement over a few names"""

    def ident_text(self):
        r = self.rng.random()
        if r < 0.03:
            return sqlgen.Gen.ident_text(self)
        n = self.pick(NAMES)
        if r < 0.1:
            return '"%s"' % n, 'delimited'
        return n, 'regular'

    def chain(self, maxn=3, lo=1):
        if self.p(0.8):
            maxn = min(maxn, max(lo, 1 + self.p(0.3)))
        return sqlgen.Gen.chain(self, maxn, lo)


TOKEN = re.compile(r"[xX]'[^']*'|'(?:[^']|'')*'|\"[^\"]*\"|:\w+|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|\w+|<>|!=|>=|<=|\|\||\S")
ODD = ['NULL', 'DEFAULT', "X'00FF'", "X''", '1e400', '1e-400', '1.5', '.5', '99999999999999999999', '9223372036854775808', '170141183460469231731687303715884105728', "DATE '2020-02-30'",
       "DATE '2024-02-29'", "TIME '25:00:00'", "TIMESTAMP '2020-01-01 00:00:00.123456789012'", "TIMESTAMP WITH TIME ZONE '2020-01-01 00:00:00+25:00'", "INTERVAL '1' DAY", '-9223372036854775808',
       'TRUE', 'UNKNOWN', ':h1', ':p1', '*', 'COUNT(*)', 'MAX(a)', '(SELECT 1)', '(SELECT a FROM t0)', 'EXISTS (SELECT 1)', '(a, b)', 'ROW(1, 2)', 'a', 't0.a', 'x.y.z', 's1.t0.a', 'CAST(a AS DATE)', 'CAST(a AS BIT(0))', 'CAST(a AS BIT(*))', 'CAST(a AS BINARY(*))', 'CAST(a AS INT(0))', 'CAST(a AS CHAR(*))', "TIMESTAMP '2020-01-01 00:00:00+09:00'", "TIME '00:00:00+09:00'", "TIMESTAMP WITH TIME ZONE '2020-01-01 00:00:00'", 'EXTRACT(YEAR FROM a)', '(SELECT 1, 2)', "'a' COLLATE x",
       "CAST('x' AS DECIMAL(3,5))", 'CAST(1 AS VARCHAR(0))', 'a IN (1, 2)', 'a BETWEEN 1 AND b', 'CASE a WHEN 1 THEN b END', 'NULLIF(a, b)', 'COALESCE(a, 1)', 'nosuch(a)', 'mod(a, 2)', 'DISTINCT', 'ALL', 'NOT',
       'LEFT', 'FULL', 'UNION', 'EXCEPT ALL', 'ORDER BY', 'GROUP BY', 'HAVING', 'WHERE', 'LIMIT', 'USING (a)', 'NATURAL', 'IS NULL', 'LIKE', 'CORRESPONDING', 'CORRESPONDING BY (a)', 'NULLS FIRST', 'COLLATE x', 'SIMILAR TO', 'OUTER APPLY', 'CROSS APPLY', 'CROSS JOIN', 'ONLY', 'UNNEST(a)', 'SYMMETRIC', 'ESCAPE', 'RECURSIVE', 'ANY', 'IS TRUE', 'OVERLAPS', 'NEW', 'BIT_LENGTH(a)', 'SUM(a, b)', 'COUNT(DISTINCT a)', 'CURRENT_DATE', 'CURRENT_TIMESTAMP', 'FETCH FIRST', 'LIMIT :h1', '||', '+', '-', '/', '%', 'AND', 'OR', '(', ')', ',']

CASTS = ['INT', 'BIGINT', 'INT(0)', 'INT(1)', 'INT(64)', 'BIGINT(0)', 'BINARY(0)', 'BINARY(3)', 'VARBINARY(0)', 'VARBINARY(*)', 'CHAR(0)', 'CHAR(3)', 'VARCHAR(0)', 'VARCHAR(*)', 'BIT', 'FLOAT(0)', 'FLOAT(24)', 'FLOAT(53)', 'FLOAT(54)',
         'REAL', 'DOUBLE', 'DECIMAL', 'DECIMAL(0)', 'DECIMAL(38)', 'DECIMAL(39)', 'DECIMAL(3,4)', 'DECIMAL(*,*)', 'DECIMAL(*,3)', 'DATE', 'TIME', 'TIME WITH TIME ZONE', 'TIMESTAMP', 'TIMESTAMP WITH TIME ZONE', 'INTERVAL DAY',
         'BOOLEAN', 'BLOB', 'CLOB', 'TEXT', 'INT ARRAY', 'ROW (a INT)', 'nosuch', 's1.t0', 'TINYINT(0)', 'SMALLINT', 'NCHAR(3)', 'VARCHAR']
ODD_DEFINITIONS = ['PRIMARY KEY', 'NOT NULL', 'DEFAULT 1', 'DEFAULT NULL', 'DEFAULT CAST(1 AS INT)', 'GENERATED ALWAYS AS IDENTITY', 'GENERATED BY DEFAULT AS IDENTITY (START 1 INCREMENT -1)', 'START 5', 'INCREMENT BY 0',
                   'MINVALUE 9223372036854775807', 'MAXVALUE -9223372036854775808', 'CYCLE', 'CHECK (1)', 'UNIQUE', 'REFERENCES t0', 'IF EXISTS', 'IF NOT EXISTS', 'CASCADE', 'RESTRICT', 'RESTART IDENTITY', 'INCLUDE (a)', 'WITH (a = 1)',
                   'DECIMAL(5,2)', 'VARCHAR(0)', 'BIT(0)', 'BIT(*)', 'BIT VARYING(0)', 'BINARY(0)', 'BINARY(*)', 'INT(0)', 'CHAR(0)', 'NULL NOT NULL', 'NOT NULL NULL', 'PRIMARY KEY PRIMARY KEY', 'DEFAULT f1(1)', 'DEFAULT a',  'INT(9)', 'FLOAT(99)', 'CHAR(*)', 'DECIMAL(*,*)', 'VARBINARY(3)', 'TABLE', 'INDEX', 'PUBLIC', 'CURRENT_USER', 'ALL PRIVILEGES', '/** d */', '/** a\n * b\n */', 'TEMPORARY', 'INT', 'BIGINT']


def mutate(rng, sql, odd=ODD):
    toks = TOKEN.findall(sql)
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        if not toks:
            break
        k = rng.randrange(len(toks))
        r = rng.random()
        if r < 0.3:
            same = [t for t in toks if t[0].isalpha() == toks[k][0].isalpha()]
            toks[k] = rng.choice(same)
        elif r < 0.6:
            vals = [j for j, t in enumerate(toks) if t[0].isdigit() or t[0] in "'\":xXabcde" and len(t) < 5]
            if vals:
                toks[rng.choice(vals)] = rng.choice(odd)
        elif r < 0.7:
            toks[k] = rng.choice(odd)
        elif r < 0.8:
            del toks[k]
        elif r < 0.9:
            toks.insert(k, rng.choice(odd))
        else:
            j = rng.randrange(len(toks))
            toks[k], toks[j] = toks[j], toks[k]
    s = ' '.join(toks)
    return s.replace('. *', '.*')


def wild_input(rng):
    """(catalog, text, options): some text about some catalog"""
    r = rng.random()
    opts = switches(rng)
    if rng.random() < 0.1:
        opts['o.system_zone_offset'] = rng.choice([-1439, -60, 0, 1, 540, 1439])
    if rng.random() < 0.1:
        opts['o.default_decimal_precision'] = rng.choice(['*', 1, 18, 38])
    if r < 0.05:
        cat = wild_catalog(rng, ['t0', 't1', 't2', 'a'])
        o = lambda: rng.choice(ODD)
        return cat, rng.choice([lambda: 'SELECT %s FROM t0' % o(), lambda: 'SELECT %s, a FROM t0' % o(), lambda: 'SELECT a FROM t0 %s t1' % o(), lambda: 'SELECT a FROM t0 WHERE %s' % o(),
                                lambda: 'SELECT %s %s %s FROM t0' % (o(), rng.choice(['=', '+', 'IN', 'LIKE', 'IS', '||', 'AND']), o()), lambda: 'SELECT f0(%s, %s) FROM t0' % (o(), o()),
                                lambda: 'SELECT CAST(%s AS %s) FROM t0' % (o(), rng.choice(CASTS)), lambda: 'INSERT INTO t0 VALUES (%s, %s)' % (o(), o()), lambda: 'UPDATE t0 SET a = %s WHERE %s' % (o(), o()),
                                lambda: 'CREATE TABLE z (a %s %s, b %s)' % (rng.choice(CASTS), ' '.join(rng.choice(ODD_DEFINITIONS) for _ in range(rng.randint(0, 3))), rng.choice(CASTS)),
                                lambda: 'CREATE TABLE z (a INT %s (%s))' % (rng.choice(['GENERATED ALWAYS AS IDENTITY', 'DEFAULT']), ' '.join(rng.choice(['START', 'MINVALUE', 'MAXVALUE', 'INCREMENT', '']) + ' ' + o() for _ in range(rng.randint(1, 2))))])(), opts
    if r < 0.15:
        g = faultgen.Gen(rng, fuel=rng.choice([3, 5, 10, 20]))
        g.make_tables()
        g.make_parameters()
        g.budget = 10 ** 9
        g.kind = rng.choice(faultgen.KINDS)
        g.rate = rng.choice([.2, .5])
        q = g.query(None, top=True)
        sql = faultgen.unmark(q.text)[0]
        return g.catalog(), mutate(rng, sql) if rng.random() < 0.25 else sql, opts
    if r < 0.48:
        g = Wild(rng, fuel=rng.choice([3, 6, 10, 20, 50, 100]))
        g.unit(1, 3, KINDS)
        rd = sqlgen.Rendering(g.out, rng, 'wild', 0.02)
        sql = rd.data()
        sql = sql if isinstance(sql, str) else sql.decode('latin-1')
        return wild_catalog(rng), sql, opts
    if rng.random() < 0.2:
        opts.update(('o.' + k, v) for k, v in litgen.options(rng)[0].items())
    if r < 0.65:
        kind = rng.random()
        if kind < 0.5:
            g = ddlgen.Gen(rng)
            st = g.statement()[2]
            opts.update(('o.' + k, v) for k, v in g.given.items())
            if st is None:
                return wild_input(rng)
            cat, sql = g.catalog, st.text
        else:
            g = dmlgen.Gen(rng, fuel=rng.choice([3, 10, 20]))
            g.make_tables()
            g.make_parameters()
            g.budget = 10 ** 9
            st = (g.statement(rng.choice(dmlgen.FAULTS)) if rng.random() < 0.4 else None) or g.statement(None)
            cat, sql = g.catalog(), dmlgen.unmark(st.text)[0]
        if rng.random() < 0.2:
            cat = wild_catalog(rng, ['t0', 't1', 't2', 'a'])
        if rng.random() < 0.6:
            sql = mutate(rng, sql, ODD + ODD_DEFINITIONS if kind < 0.5 else ODD)
        return cat, sql.encode().decode('latin-1'), opts
    g = relgen.Gen(rng, fuel=rng.choice([3, 10, 20]))
    g.make_tables()
    g.make_parameters()
    g.budget = 10 ** 9
    q = g.query(None, top=True)
    if r < 0.75:
        return wild_catalog(rng, ['t0', 't1', 't2', 'a']), mutate(rng, q.text), opts
    return g.catalog(), mutate(rng, q.text), opts


# ------------------------------------------------------------------------------------------------ P19 totality, P20 honesty, P21 well-formed plans
def size(x):
    return len(x['graph']) if x['kind'] == 'plan' else 1


def robust(ctx, rng, out, i):
    cat, sql, opts = wild_input(rng)
    n = len(sql.encode('latin-1'))
    r = analyze(ctx, out, cat, sql, opts)
    if r.state.startswith('NOPARSE'):
        out.count['texts with syntax errors'] += 1
        return
    for x in r.results:
        out.count['analyzed statements'] += 1
        out.count['results: ' + x['kind']] += 1
        if x['valid'] != (x['kind'] in ('plan', 'statement')):
            out.bad('validity', 'the result says it is %svalid and holds %s' % ('' if x['valid'] else 'not ', x['kind']), sql=sql, catalog=cat, options=opts)
        if x['kind'] == 'diagnostics':
            if x['diags'][0][0] == 'nothing':
                out.bad('no-diagnostic', 'neither a result nor a diagnostic', sql=sql, catalog=cat, options=opts)
            for code, msg, b, e in x['diags']:
                out.seen['code'].add(code)
                if code in INTERNAL and not re.search(r'^pk\t\w+\t$', cat, re.M):      # a primary index without keys is reported so
                    out.bad('internal', 'an internal problem was reported: %s %s' % (code, msg), sql=sql, catalog=cat, options=opts)
                if not msg:
                    out.bad('empty-message', 'a diagnostic %s without message' % code, sql=sql, catalog=cat, options=opts)
                if b is not None and not (0 <= b <= e <= n):
                    out.bad('region', 'diagnostic %s refers to %s-%s of %d bytes' % (code, b, e, n), sql=sql, catalog=cat, options=opts)
        out.ok((x['kind'], re.sub(r'\d+', '0', json.dumps(x))[:4000]))
    out.sample(sql)


def honest(ctx, rng, out, i):
    cat, sql, opts = wild_input(rng)
    r = analyze(ctx, out, cat, sql, dict(opts, again=0))
    if r.state != 'OK':
        return
    for x, d in zip(r.results, r.dropped):
        if x['kind'] == 'diagnostics':
            out.count['refused statements'] += 1
            out.ok(json.dumps(x['diags'])[:400])
            continue
        out.count['accepted statements'] += 1
        if d:
            out.bad('dropped:' + d[0][0], 'a result was given although a problem was reported: %s' % d[0], sql=sql, catalog=cat, options=opts)
        out.ok(re.sub(r'\d+', '0', json.dumps(x))[:4000])
    out.sample(sql)


def wellformed(ctx, rng, out, i):
    if rng.random() < 0.5:
        cat, sql, opts = wild_input(rng)
    else:
        g, q, cat, opts = query_input(rng, rng.choice([5, 20, 40, 80]))
        sql = q.text
    r = analyze(ctx, out, cat, sql, dict(opts, again=0, dropped=0))
    if r.state != 'OK':
        return
    for x in r.results:
        if x['kind'] != 'plan':
            continue
        c = plan.check(x['graph'], len(sql))
        for k, m in c.bad[:1]:
            out.bad('plan:' + k, m, sql=sql, catalog=cat, options=opts)
        for op in x['graph']:
            out.count['operators'] += 1
            out.seen['operator'].add(op['k'] + ':' + str(op.get('kind', '')))
        out.ok(re.sub(r'"r":\[[^]]*\]|\[\d+, \d+\]', '', json.dumps(x['graph'])))
        out.sample(sql)


# ------------------------------------------------------------------------------------------------ P22 meaning of queries
def query_input(rng, fuel):
    g = relgen.Gen(rng, fuel=fuel)
    g.make_tables()
    g.make_parameters()
    g.budget = 200000
    q = g.query(None, top=True)
    opts = {'o.allow_context_independent_null': 1}
    opts.update(switches(rng, SWITCHES_QUERY))
    return g, q, g.catalog(), opts


SWITCHES_QUERY = [s for s in SWITCHES if s not in ('allow_context_independent_null', 'host_parameter_declaration_starts_with_colon')]


def judge(out, g, q, cat, opts, x, prefix=''):
    """compares what a plan computes with what the query means. True: compared"""
    def bad(key, msg):
        out.bad(prefix + key, msg, sql=q.text, catalog=cat, options=opts, tables=repr(g.data()))
    if not x['valid']:
        bad('refused:' + x['diags'][0][0], 'a valid query was refused: %s' % (x['diags'][0],))
        return False
    c = plan.check(x['graph'], len(q.text))
    if c.bad:
        bad('plan:' + c.bad[0][0], c.bad[0][1])
        return False
    try:
        want = q.rows({}) if q.order is None else q.order({})
    except plan.Runtime:
        out.count['too large'] += 1
        return False
    ex = plan.Executor(g.data(), relgen.FN, relgen.AGG, relgen.TFN, {n: v for n, (t, ty, v) in g.host.items()}, 400000)
    try:
        names, rows = ex.plan(x['graph'])
    except plan.Runtime as e:
        if str(e) == 'budget':
            out.count['too large'] += 1
            return False
        bad('runtime', 'the plan cannot be executed: %s' % e)
        return False
    if [n or None for n in names] != [n for n, _ in q.cols]:
        bad('column-names', 'the result columns are called %s instead of %s' % (names, [n for n, _ in q.cols]))
        return False
    msg = relgen.compare(q, want, rows)
    if msg:
        bad('rows', 'the plan computes other rows: ' + msg)
        return False
    out.count['rows compared'] += len(rows)
    out.count['queries with rows'] += bool(rows)
    return True


def meaning(ctx, rng, out, i):
    g, q, cat, opts = query_input(rng, rng.choice([5, 10, 20, 40, 80]))
    r = analyze(ctx, out, cat, q.text, dict(opts, again=0, dropped=0))
    if r.state.startswith('NOPARSE'):
        out.bad('rejected', 'a valid query was not parsed: ' + r.state, sql=q.text)
        return
    if not r.results:
        return
    if judge(out, g, q, cat, opts, r.results[0]):
        out.seen['feature'] |= set(g.features)
        out.ok(re.sub(r"\d+|'[^']*'", '0', q.text))
        out.sample(q.text)


def meaning_probes(ctx, out):
    """RIGHT and FULL JOIN USING, a known finding; only this may differ"""
    cat = 'schema\ts1\ntable\tt\ncol\ta\tint8\tnull\t-\t\ncol\tb\tint8\tnull\t-\t\npk\tt\ta:asc\ntable\tu\ncol\ta\tint8\tnull\t-\t\ncol\tc\tint8\tnull\t-\t\npk\tu\ta:asc\npath\ts1\ndefault\ts1\n'
    tables = {'s1.t': [{'a': 1, 'b': 10}, {'a': 2, 'b': 20}], 's1.u': [{'a': 2, 'c': 200}, {'a': 3, 'c': 300}]}
    for kind, want in (('RIGHT', [(2, 20, 200), (3, None, 300)]), ('FULL', [(1, 10, None), (2, 20, 200), (3, None, 300)])):
        sql = 'SELECT * FROM t %s JOIN u USING (a)' % kind
        r = analyze(ctx, out, cat, sql, {})
        x = r.results[0]
        ex = plan.Executor(tables, {}, {}, {}, {}, 1000)
        names, rows = ex.plan(x['graph'])
        rows = sorted(map(tuple, rows), key=str)
        known = sorted([(None if a == 3 else a, b, c) for a, b, c in want], key=str)
        out.ok(sql)
        if rows == known:
            out.bad('using-%s-join' % kind.lower(), 'the common column of a %s JOIN USING is the one of the left side, NULL for rows which only the right side has' % kind, sql=sql)
        elif rows != sorted(want, key=str):
            out.bad('rows', '%s: got %s' % (sql, rows), sql=sql)


T = ('aserver',)
add(Check('P19', robust, 48000, 400000, 'one evaluation is the analysis of one statement; two are distinct if their results differ in more than numbers', targets=T, minimum=8000, assumptions=ASSUME))
add(Check('P20', honest, 60000, 400000, 'one evaluation is the analysis of one statement; two are distinct if their results differ in more than numbers', targets=T, minimum=8000, assumptions=ASSUME))
add(Check('P21', wellformed, 10000, 300000, 'one evaluation is one plan checked; two are distinct if their plans differ in more than positions', targets=T, minimum=3000, assumptions=ASSUME))
add(Check('P22', meaning, 12000, 400000, 'one evaluation is one query whose plan was executed and compared; two are distinct if their texts differ in more than literals', targets=T, probes=meaning_probes,
          minimum=8000, assumptions=ASSUME))
