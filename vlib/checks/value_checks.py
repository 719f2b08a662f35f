"""literals and data types: what they denote"""
import re
from . import add
from .. import litgen
from ..fw import Check
from .analyzer_checks import analyze, ASSUME, T

COLUMNS = ['int1', 'int2', 'int4', 'int8', 'float4', 'float8', 'decimal(10,2)', 'decimal(*,*)', 'decimal(38,0)', 'char(3)', 'varchar(*)', 'varchar(1)', 'varchar(5)', 'octet(3)', 'varoctet(*)', 'varoctet(2)', 'boolean',
           'date', 'time', 'ts', 'tstz', 'blob', 'clob']
SETTINGS = ['imm:null', 'imm:int4:5', 'imm:int8:-7', 'imm:char:x', 'imm:bool:true']


def catalog(rng):
    """one table u (k int8, c T, d T): (lines, type of c, type of d, default of d)"""
    c, d = rng.choice(COLUMNS), rng.choice(COLUMNS)
    v = rng.choice(SETTINGS)
    s = '\n'.join(['schema\ts', 'table\tu', 'col\tk\tint8\tnotnull\t-\t', 'col\tc\t%s\tnull\t-\t' % c, 'col\td\t%s\tnull\t%s\t' % (d, v), 'pk\tu\tk:asc',
                   'func\t20001\tf\tint8\tunknown\tscalar', 'path\ts', 'default\ts']) + '\n'
    return s, c, d, v[4:]


def nodes(x, parent=None):
    """all (node, parent) in the tree of a result"""
    if isinstance(x, dict):
        for v in x.values():
            yield from nodes(v, parent)
    elif isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in ('imm', 'cast'):
            yield x, parent
            parent = x
        else:
            parent = parent if not (x and isinstance(x[0], str)) else x
        for v in x:
            yield from nodes(v, parent)


def literals(ctx, rng, out, i):
    given, o = litgen.options(rng)
    cat, ct, dt, dv = catalog(rng)
    r = rng.random()
    if r < 0.12:
        t, m = rng.choice([('NULL', 'null'), ('null', 'null'), ('DEFAULT', 'default')])
    else:
        t, m = litgen.literal(rng, o)
    where = rng.choice(['select', 'select', 'values', 'condition', 'order', 'call', 'subquery', 'insert', 'insert', 'insert2', 'update', 'update', 'update case', 'insert query', 'cast'])
    kt = None                                                       # the type of the context
    if where == 'insert':
        a, b = rng.choice([('INSERT INTO u (k, c) VALUES (1, ', ')'), ('INSERT INTO s.u (c, k) VALUES (', ', 1)'), ('INSERT INTO u (k, c, d) VALUES (1, ', ", NULL), (2, NULL, NULL)")])
        kt = ct
    elif where == 'insert2':
        a, b, kt = 'INSERT INTO u VALUES (1, NULL, ', ')', dt
    elif where == 'update':
        (a, b), kt = rng.choice([('UPDATE u SET c = ', ''), ('UPDATE u SET d = NULL, c = (', ')'), ('UPDATE s.u SET c = ', ' WHERE k = 1')]), ct
    elif where == 'update case':
        a, b, kt = rng.choice([('UPDATE u SET c = CASE WHEN k = 1 THEN ', ' ELSE NULL END', ct), ('UPDATE u SET c = CASE k WHEN 1 THEN NULL ELSE ', ' END', ct), ('UPDATE u SET c = NULL, d = (CASE WHEN TRUE THEN NULL WHEN FALSE THEN (', ') END)', dt)])
        if m == 'default':
            return
    else:
        a, b = {'select': ('SELECT ', rng.choice([' AS x', '', ' x FROM u'])), 'values': ('VALUES (1, ', ')'), 'condition': ('SELECT k FROM u WHERE (c) = ', ''), 'order': ('SELECT k FROM u ORDER BY f(', ')'),
                'call': ('SELECT f(', ') FROM u'), 'subquery': ('SELECT (SELECT ', ')'), 'insert query': ('INSERT INTO u (k, c) SELECT k, ', ' FROM u'), 'cast': ('SELECT CAST(', ' AS VARCHAR(*))')}[where]
        if m == 'default' and where == 'condition':
            return
    sql = a + t + b
    base = len(a)

    def bad(key, msg):
        out.bad(key, msg, sql=sql, catalog=cat, options=given)
    r = analyze(ctx, out, cat, sql, dict({'o.' + k: v for k, v in given.items()}, again=0, dropped=0))
    if r.state != 'OK':
        if r.state.startswith('NOPARSE'):
            bad('rejected', 'not parsed: ' + r.state)
        return
    x = r.results[0]
    if m == 'null':
        if kt is None and not o['allow_context_independent_null']:
            m = litgen.Refused('missing_context_of_null', 0, len(t))
        else:
            m = litgen.Value('null', kt or 'unknown')
    elif m == 'default':
        m = litgen.Refused('missing_context_of_default_value', 0, len(t))
    refusals = [m] if isinstance(m, litgen.Refused) else [m.may_refuse] if m.may_refuse else []
    if x['kind'] == 'diagnostics':
        c, msg, b0, e0 = x['diags'][0]
        for f in refusals:
            if c == f.code:
                if (b0, e0) != (base + f.begin, base + f.end):
                    bad('place', 'the literal stands at %s, and was reported at %s' % ((base + f.begin, base + f.end), (b0, e0)))
                    return
                out.seen['refused'].add(c)
                out.ok('refused ' + c + where)
                return
        # the literal may be fine and not fit its place
        if c == 'missing_context_of_null' and not o['allow_context_independent_null'] and 'NULL' in a + b:
            return
        if isinstance(m, litgen.Value) and c in ('inconsistent_type', 'function_not_found', 'inconsistent_elements') and where in ('call', 'order', 'condition', 'update case', 'insert'):
            out.count['literals which do not fit'] += 1
            return
        bad('refused:' + c, 'a valid literal was refused: %s' % x['diags'][0])
        return
    if isinstance(m, litgen.Refused):
        bad('accepted', 'an invalid literal was accepted')
        return
    region = [base + m.begin, base + len(t)]
    found = [(n, p) for n, p in nodes(x) if n[0] == 'imm' and n[1] == region]
    if len(found) != 1:
        bad('lost', 'the literal at %s stands %d times in the result' % (region, len(found)))
        return
    n, p = found[0]
    if n[2] != m.value:
        bad('value', '%r stands for %s instead of %s' % (t, n[2], m.value))
        return
    if n[3] != m.type:
        k = 'octet' if m.value.startswith('octet') and re.fullmatch(r'varoctet\(%d\)' % (len(m.value) // 2 - 3), n[3]) and m.type == 'varoctet(*)' else None
        bad('small-binary-literal' if k else 'type', '%r is of type %s instead of %s' % (t, n[3], m.type))
        if not k:
            return
    # the context converts it
    cast = p is not None and p[0] == 'cast' and p[1] == region
    if where == 'cast':
        cast = False
    want = kt is not None and bool(o['cast_literals_in_context']) and n[3] != kt
    if want != cast or cast and (p[2] != kt or p[3] != 'error'):
        bad('conversion', '%r of type %s in a context of type %s is %s' % (t, n[3], kt, 'converted to %s (%s)' % tuple(p[2:4]) if cast else 'not converted'))
        return
    out.seen['type'].add(re.sub(r'\d+', 'n', n[3]) if n[3][:3] not in ('int', 'flo') else n[3])
    out.seen['place'].add(where)
    out.ok((re.sub(r'\d', '0', n[2])[:60], n[3], where))
    out.sample(sql[:200])


def types(ctx, rng, out, i):
    given, o = litgen.options(rng)
    cat, ct, dt, dv = catalog(rng)
    t, m = litgen.a_type(rng, o)
    if rng.random() < 0.5:
        a, b, k = 'SELECT ' + rng.choice(['', '1, ']) + 'CAST(' + rng.choice(['NULL', 'k', "'a'"]) + ' AS ', ') FROM u', 'cast'
        given['allow_context_independent_null'] = 1
    else:
        a, b, k = rng.choice(['CREATE TABLE n (a ', 'CREATE TABLE n (b INT PRIMARY KEY, a ']), rng.choice([')', ' NOT NULL)', ' NULL, c INT)']), 'column'
    sql = a + t + b

    def bad(key, msg):
        out.bad('types:' + key, msg, sql=sql, catalog=cat, options=given)
    r = analyze(ctx, out, cat, sql, dict({'o.' + q: v for q, v in given.items()}, again=0, dropped=0))
    if r.state != 'OK':
        if r.state.startswith('NOPARSE'):
            bad('rejected', 'not parsed: ' + r.state)
        return
    x = r.results[0]
    if x['kind'] == 'diagnostics':
        c, msg, b0, e0 = x['diags'][0]
        if c == 'invalid_type_length' and 'INT' in a and 'ecimal' not in msg and b0 < len(a):
            return
        if not isinstance(m, litgen.Refused):
            bad('refused:' + c, 'a valid type was refused: %s' % x['diags'][0])
        elif c != m.code:
            bad('code', 'it was refused as %s, not as %s' % (x['diags'][0], m.code))
        elif (b0, e0) != (len(a) + m.begin, len(a) + m.end):
            bad('place', 'it should be refused at %s, not at %s' % ((len(a) + m.begin, len(a) + m.end), x['diags'][0]))
        else:
            out.seen['refused type'].add(c)
            out.ok('type ' + t)
        return
    if isinstance(m, litgen.Refused):
        bad('accepted', 'an invalid type was accepted')
        return
    if k == 'cast':
        got = [n[2] for n, p in nodes(x) if n[0] == 'cast']
        got = got[0] if got else None
    else:
        got, = [c['type'] for c in x['st']['table']['cols'] if c['name'] == 'a']
    if got != m:
        bad('type', '%s is %s instead of %s' % (t, got, m))
        return
    out.seen['written type'].add(re.sub(r'\d+', 'n', t))
    out.ok((t, m, k))


def case(ctx, rng, out, i):
    (types if rng.random() < 0.3 else literals)(ctx, rng, out, i)


add(Check('P24', case, 24000, 600000, 'one evaluation is one literal or data type whose meaning (or refusal) was compared; two are distinct if value shape, type or place differ', targets=T, minimum=12000, assumptions=ASSUME))
