"""faulty queries: refused, for the right reason, at the right place"""
import re
from . import add
from .. import faultgen
from ..fw import Check
from .analyzer_checks import analyze, switches, SWITCHES, ASSUME, T

SW = [s for s in SWITCHES if s not in ('allow_context_independent_null', 'host_parameter_declaration_starts_with_colon')]


def refused(ctx, rng, out, i):
    g = faultgen.Gen(rng, fuel=rng.choice([3, 5, 10, 20, 40]))
    g.make_tables()
    g.make_parameters()
    g.budget = 200000
    g.kind = kind = rng.choice(faultgen.KINDS)
    g.rate = rng.choice([.05, .2, .5])
    q = g.query(None, top=True)
    text, place = faultgen.unmark(q.text)
    if place is None:
        return
    opts = {'o.allow_context_independent_null': 1}
    opts.update(switches(rng, SW))
    cat = g.catalog()

    def bad(key, msg):
        out.bad(kind + ':' + key, msg, sql=text, catalog=cat, options=opts, fault=kind, place=list(place))
    r = analyze(ctx, out, cat, text, dict(opts, again=0, dropped=0))
    if r.state != 'OK':
        if r.state.startswith('NOPARSE') and kind not in faultgen.UNPARSED:
            bad('rejected', 'not parsed: ' + r.state)
        return
    x = r.results[0]
    if x['kind'] != 'diagnostics':
        bad('accepted', 'a query with a fault (%s) was accepted' % kind)
        return
    code, msg, begin, end = x['diags'][0]
    if code not in faultgen.CODES[kind].split():
        bad('code', 'a query with a fault (%s) was refused as %s (%s)' % (kind, code, msg))
    elif (begin, end) != place and not (kind in faultgen.AROUND and begin <= place[0] and end == place[1]):
        bad('place', 'the fault (%s) stands at %s (%s), and was reported at %s (%s)' % (kind, place, text.encode()[place[0]:place[1]], (begin, end), text.encode()[begin:end]))
    else:
        out.seen['fault'].add(kind + ' ' + code)
        out.ok(re.sub(r"\d+|'[^']*'", '0', text))
        out.sample(kind + ': ' + text[:300])


def probes(ctx, out):
    """ORDER BY of DISTINCT queries, a known finding"""
    cat = 'schema\ts1\ntable\tt\ncol\ta\tint8\tnotnull\t-\t\ncol\tb\tint8\tnull\t-\t\npk\tt\ta:asc\npath\ts1\ndefault\ts1\n'
    for sql, legal in (('SELECT DISTINCT b FROM t ORDER BY b', True), ('SELECT DISTINCT b FROM t ORDER BY a', False)):
        x = analyze(ctx, out, cat, sql, {}).results[0]
        out.ok(sql)
        if legal and x['kind'] != 'plan':
            out.bad('distinct:refused', '%s was refused: %s' % (sql, x['diags']), sql=sql, catalog=cat)
        if not legal and x['kind'] == 'plan':
            out.bad('distinct-order', '%s is accepted, and its rows are in the order of whichever of the equal rows was kept' % sql, sql=sql, catalog=cat)


add(Check('P23', refused, 36000, 300000, 'one evaluation is one query with one fault whose refusal (reason and place) was compared; two are distinct if their texts differ in more than literals', targets=T, probes=probes, minimum=5000, assumptions=ASSUME))
