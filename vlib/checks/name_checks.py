"""names: which declaration a name (of a table, an index, a column, a variable, a function, a parameter) denotes"""
import re
from collections import Counter
from . import add
from .. import namegen
from ..fw import Check
from .analyzer_checks import analyze, ASSUME, T


def walk(x, out):
    """collects what a result mentions"""
    if isinstance(x, dict):
        if x.get('k') == 'scan':
            out['src'].append(x['src'])
            out['columns'].update({v: c for c, v in x['cols']})
            return
        for k, y in x.items():
            if k in ('target', 'dst', 'table') and isinstance(y, str):
                out[k].append(y)
            walk(y, out)
    elif isinstance(x, list):
        if len(x) > 2 and x[0] == 'var' and isinstance(x[2], str):
            out['vars'].append(x[2])
        elif len(x) > 3 and x[0] == 'imm' and isinstance(x[2], str):
            out['values'].append(x[2])
        for y in x:
            walk(y, out)
    elif isinstance(x, str) and re.fullmatch(r'[^#:]*#\d{5}', x):
        out['fns'].append(x)


def mentions(x):
    out = {'src': [], 'columns': {}, 'target': [], 'dst': [], 'table': [], 'vars': [], 'values': [], 'fns': []}
    walk(x.get('graph') or x.get('st'), out)
    return out


def refused(x, codes, sql, place, wide):
    """what is wrong with a refusal, or None"""
    if x['kind'] != 'diagnostics':
        return 'accepted', 'it denotes nothing, and was accepted'
    c, msg, b, e = x['diags'][0]
    if c not in codes:
        return 'code', '%s was refused as %s, not as %s' % (place, x['diags'][0], sorted(codes))
    k = sql.index('\x01')
    if wide and b <= k < k + len(place) <= e and b > 10:
        return None             # the whole APPLY
    if not (k <= b < e <= k + len(place)):
        return 'place', '%s stands at %d-%d, and was reported at %s' % (place, k, k + len(place), x['diags'][0])
    return None


def case(ctx, rng, out, i):
    g = namegen.Gen(rng)
    r = rng.random()
    tables = r < .35            # statements about tables and indices
    columns = r < .1            # the columns they write
    for _ in range(8):
        g.seen = set()
        frame = uses = hit = None
        try:
            if columns:
                form, marked, hit, codes, place = g.column_statement()
            elif tables:
                form, marked, hit, codes, place = g.table_statement()
            else:
                form, place, frame, uses, codes = g.expression_statement()
                marked = frame % ('\x01' + place)
        except ValueError:
            continue
        if (hit if tables else uses) is not None or rng.random() < .3:
            break
    else:
        return
    sql = marked.replace('\x01', '')
    cat = g.catalog()

    def bad(key, msg):
        out.bad('%s:%s' % (form.replace(' ', '-'), key), msg, sql=sql, catalog=cat, options=g.given)
    r = analyze(ctx, out, cat, sql, dict({'o.' + k: v for k, v in g.given.items()}, again=0, dropped=0))
    if r.state != 'OK':
        if r.state.startswith('NOPARSE'):
            bad('rejected', 'it was not parsed: ' + r.state)
        return
    x = r.results[0]
    shape = re.sub(r'\d+', '0', sql) + '|' + ','.join(s.name for s in g.path) + '|' + ''.join(str(v) for v in g.given.values())
    if hit is None if tables else uses is None:
        d = refused(x, codes, marked, place, ' APPLY ' in sql)
        if d:
            bad(*d)
        else:
            out.seen['refusal'].add('%s %s' % (form, x['diags'][0][0]))
            out.count['refused'] += 1
            out.ok(shape)
        return
    if not x['valid']:
        bad('refused:' + x['diags'][0][0], '%s denotes %s, and was refused: %s' % (place, hit if tables and isinstance(hit, str) else (hit[0].name, hit[1]) if tables else uses, x['diags'][0]))
        return
    m = mentions(x)
    if columns:
        w = x.get('st') or next(o for o in x['graph'] if o['k'] == 'write')
        got = [c if isinstance(c, str) else c[1] for c in w['cols'] + (w.get('keys', []) if form.startswith('INSERT') else [])]
        if hit not in got or form.startswith('UPDATE') and got != [hit]:
            bad('other', '%s denotes %s, not %s' % (place, hit, got))
            return
    elif tables:
        if hit == 'query':
            ok, got = not m['src'], m['src']
        else:
            full = '%s.%s' % (hit[0].name, hit[1])
            got = {'INSERT': m['dst'], 'TRUNCATE': m['target'], 'DROP TABLE': m['target'], 'GRANT': m['table'], 'REVOKE': m['table'], 'DROP INDEX': m['target']}.get(form, m['src'] + m['dst'])
            if form == 'DROP INDEX':
                ok = got == ['i:%s@%s.%s' % (full, hit[0].name, hit[0].indices[hit[1]])]
            else:
                ok = bool(got) and set(got) <= {full, 't:' + full, 'i:%s.pk %s@%s' % (hit[0].name, hit[1], full)}
        if not ok:
            bad('other', '%s denotes %s, not %s' % (place, hit if hit == 'query' else full, got))
            return
    else:
        if g.named is not None and x['graph'][-1]['cols'][0][1] != g.named:
            bad('column-name', 'the column of %s is named %s, not %s' % (place, x['graph'][-1]['cols'][0][1], g.named))
            return
        want = Counter(u for u in uses if '#' in u)
        if Counter(f for f in m['fns'] if f != 'tfn#99999') != want:
            bad('function', '%s calls %s, not %s' % (place, dict(want), m['fns']))
            return
        want = Counter(u for u in uses if u[:2] in ('x:', 'h:'))
        got = Counter(v for v in m['vars'] if v[:2] in ('x:', 'h:'))
        if got != want and not g.aggregate:
            bad('variable', '%s reads %s, not %s' % (place, dict(want), dict(got)))
            return
        want = Counter(u[6:] for u in uses if u.startswith('value '))
        got = Counter(v for v in m['values'] if v in namegen.VALUES.values() or re.fullmatch('int4:[0-9]', v))
        if got != want:
            bad('value', '%s stands for %s, not %s' % (place, dict(want), dict(got)))
            return
        if m['columns'] and not g.aggregate and form not in ('group', 'order', 'condition'):
            want = Counter(u[7:] for u in uses if u.startswith('column '))
            got = Counter(m['columns'][v].rsplit('.', 1)[1] for v in m['vars'] if v in m['columns'])
            if want - got if form in ('delete', 'update') else got != want:      # the keys are read too
                bad('column', '%s reads the columns %s, not %s' % (place, dict(want), dict(got)))
                return
    out.seen['form'].add(form)
    out.count['resolved'] += 1
    out.count['names and functions'] += 1 if tables else len(uses)
    out.seen['feature'] |= g.seen
    out.ok(shape)
    out.sample(sql[:300])


add(Check('P27', case, 24000, 600000, 'one evaluation is one statement whose names were resolved (or refused) as the rules say; two are distinct if their texts (except digits), search paths or options differ', targets=T, minimum=12000, assumptions=ASSUME))
