"""data manipulation: what a statement writes"""
import re
from collections import Counter
from . import add
from .. import plan, relgen, dmlgen
from ..fw import Check
from .analyzer_checks import analyze, switches, SWITCHES, ASSUME, T

SW = [s for s in SWITCHES if s not in ('allow_context_independent_null', 'host_parameter_declaration_starts_with_colon')]


def executor(g):
    return plan.Executor(g.data(), relgen.FN, relgen.AGG, relgen.TFN, {n: v for n, (t, ty, v) in g.host.items()}, 400000)


def target(dst):
    """the table of the primary index which is written to"""
    k, _, t = dst.partition('@')
    assert k == 'i:' + t, dst
    return t


def written(g, x):
    """what a result writes: (kind, table, key columns, other columns, [values])"""
    ex = executor(g)
    if x['kind'] == 'plan':
        ex.plan(x['graph'])
        (kind, dst, keys, cols, rows), = ex.writes
        dst = target(dst)
        n = lambda cs: [c.rsplit('.', 1)[1] for c in cs]
        assert all(c.rsplit('.', 1)[0] == dst for c in keys + cols), (dst, keys, cols)
        return kind, dst, n(keys), n(cols), rows
    st = x['st']
    return st['kind'], target(st['dst']), None, [c.rsplit('.', 1)[1] for c in st['cols']], [tuple(ex.ev(e, {}) for e in r) for r in st['rows']]


def effect(ctx, rng, out, i):
    g = dmlgen.Gen(rng, fuel=rng.choice([3, 5, 10, 20, 40]))
    g.make_tables()
    g.make_parameters()
    g.budget = 200000
    fault = rng.choice(dmlgen.FAULTS) if rng.random() < 0.25 else None
    d = g.statement(fault)
    if d is None:
        return
    opts = {'o.allow_context_independent_null': 1}
    opts.update(switches(rng, SW))
    if rng.random() < 0.5:
        opts['o.prefer_write_statement'] = rng.randint(0, 1)
    cat = g.catalog()

    def bad(key, msg):
        out.bad(key, msg, sql=d.text, catalog=cat, options=opts, tables=repr(g.data()))
    r = analyze(ctx, out, cat, d.text, dict(opts, again=0, dropped=0))
    if r.state != 'OK':
        if r.state.startswith('NOPARSE'):
            bad('rejected', 'a valid statement was not parsed: ' + r.state)
        return
    x = r.results[0]
    if d.codes:
        fault = fault or 'no keys'
        out.count['refused statements'] += 1
        if x['kind'] != 'diagnostics':
            bad('accepted:' + fault.replace(' ', '-'), 'a statement with a fault (%s) was accepted' % fault)
        elif x['diags'][0][0] not in d.codes:
            bad('code:' + fault.replace(' ', '-'), 'a statement with a fault (%s) was refused as %s' % (fault, x['diags'][0]))
        elif tuple(x['diags'][0][2:]) != d.place:
            bad('place:' + fault.replace(' ', '-'), 'the fault (%s) stands at %s, and was reported at %s' % (fault, d.place, x['diags'][0]))
        else:
            out.seen['fault'].add(fault + '/' + d.text[:6])
            out.ok(re.sub(r"\d+|'[^']*'", '0', d.text))
        return
    if not x['valid']:
        bad('refused:' + x['diags'][0][0], 'a valid statement was refused: %s' % (x['diags'][0],))
        return
    if x['kind'] == 'plan':
        c = plan.check(x['graph'], len(d.text))
        if c.bad:
            bad('plan:' + c.bad[0][0], c.bad[0][1])
            return
    try:
        want = d.rows()
    except plan.Runtime:
        out.count['too large'] += 1
        return
    try:
        kind, dst, keys, cols, rows = written(g, x)
    except plan.Runtime as e:
        if str(e) == 'budget':
            out.count['too large'] += 1
        else:
            bad('runtime', 'the plan cannot be executed: %s' % e)
        return
    except (ValueError, AssertionError) as e:
        bad('writes', 'the plan does not write once to one table: %s' % e)
        return
    table = d.table.schema + '.' + d.table.name
    if (kind, dst) != (d.kind, table):
        bad('kind', 'it does %s on %s instead of %s on %s' % (kind, dst, d.kind, table))
        return
    if d.kind in ('update', 'delete'):
        if keys != d.keys or cols != d.cols:
            bad('columns', 'it looks rows up by %s and writes %s instead of %s and %s' % (keys, cols, d.keys, d.cols))
            return
        want = [tuple(k) + tuple(v) for k, v in want]
    elif keys is None:
        if cols != [c for c in (list(want[0]) if want else cols)]:
            bad('columns', 'it writes %s instead of %s' % (cols, list(want[0])))
            return
        want = [tuple(w.values()) for w in want]
    else:
        if keys != d.keys or cols != d.cols:
            bad('columns', 'it writes keys %s and columns %s instead of %s and %s' % (keys, cols, d.keys, d.cols))
            return
        want = [tuple(w[c] for c in keys + cols) for w in want]
    t = relgen.tag
    a, b = list(map(t, want)), list(map(t, rows))
    if d.ordered and a != b or Counter(a) != Counter(b):
        bad('rows', 'it writes %s instead of %s' % (rows[:6], want[:6]))
        return
    if x['kind'] == 'statement' and "'graph':" in repr(x['st']):
        bad('form', 'a statement without a plan holds a subquery')
        return
    # an insertion of plain values becomes a statement if that is preferred
    if d.kind.startswith('insert') and d.simple:
        if (x['kind'] == 'statement') != bool(opts.get('o.prefer_write_statement', 1)):
            bad('form', 'an insertion of plain values became a %s' % x['kind'])
            return
    out.count['rows written'] += len(rows)
    out.seen['form'].add(kind + '/' + x['kind'])
    out.seen['feature'] |= set(g.features)
    out.ok(re.sub(r"\d+|'[^']*'", '0', d.text))
    out.sample(d.text)


add(Check('P26', effect, 16000, 400000, 'one evaluation is one statement whose effect (or refusal) was compared; two are distinct if their texts differ in more than literals', targets=T, minimum=7000, assumptions=ASSUME))
