"""P29: what a host gives to the analyzer and gets from it"""
import json
import re
from . import add
from ..fw import Check
from .analyzer_checks import analyze, query_input, wild_catalog, wild_input, ASSUME, T
from .. import ddlgen


def without_extents(x, key=None):
    """a result without what only the text tells"""
    if isinstance(x, dict):
        return {k: None if k in ('r', 'desc') else without_extents(v, k) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) == 2 and all(type(v) is int for v in x) and key != 'outs' and key != 'in':
            return None
        if key == 'diags':
            return [[d[0], d[1]] for d in x]
        return [without_extents(v) for v in x]
    return x


def entries(ctx, rng, out):
    r = rng.random()
    if r < .5:
        cat, sql, opts = wild_input(rng)
    elif r < .7:
        g = ddlgen.Gen(rng)
        st = g.statement()[2]
        if st is None:
            return
        cat, sql, opts = g.catalog, st.text.encode().decode('latin-1'), {'o.' + k: v for k, v in g.given.items()}
    else:
        g, q, cat, opts = query_input(rng, rng.choice([3, 10, 30]))
        sql = q.text
    cat = cat if cat.endswith('%%\n') else cat + '%%\n'
    o = {'cmd': 'analyze', 'entry': 1, 'again': 0}
    o.update(opts)
    raw = ctx.call(o, cat + sql, target='aserver')

    def bad(key, msg):
        out.bad(key, msg, sql=sql, catalog=cat, options=opts)
    if raw[0] != 'ENTRY':
        if not raw[0].startswith('NOPARSE'):
            bad('entry-state', str(raw)[:600])
        return
    n = int(raw[1])
    v = [raw[2 + k * n:2 + k * n + n] for k in range(5)]
    for a, b in zip(v[0], v[1]):
        if a != b:
            bad('entry-document', 'the result depends on the entry point: %s | %s' % (a[:600], b[:600]))
    for with_text, no_text, what in ((v[0], v[2], 'with parameters'), (v[3], v[4], 'without parameters')):
        for a, b in zip(with_text, no_text):
            x, y = json.loads(a), json.loads(b)
            if '"desc"' in b and re.search(r'"desc":"[^"]', b):
                bad('no-text-description', 'a description without a text: ' + b[:900])
            c, d = without_extents(x), without_extents(y)
            if c != d:
                bad('no-text', 'the result depends on whether the text is given (%s): %s | %s' % (what, json.dumps(c)[:800], json.dumps(d)[:800]))
            out.count['results without text'] += 1
    for b in v[3] + v[4]:
        if re.search(r'"h:', b):
            bad('no-parameters', 'a parameter was found which nobody declared: ' + b[:900])
    for a in v[0]:
        out.ok(re.sub(r'\d+', '0', a)[:2000])
        out.count['entry points'] += 1
    out.sample(sql[:300])


def host(ctx, rng, out):
    cat = wild_catalog(rng)
    seed = rng.randint(1, 10 ** 9)
    raw = ctx.call({'cmd': 'host', 'seed': seed}, cat + '%%\n', target='aserver')
    if raw[0] != 'OK':
        out.bad('host', str(raw)[:600], seed=seed, catalog=cat)
        return
    out.count['checks of options, parameter tables and results'] += int(raw[1])
    out.count['operations'] += int(raw[2])
    for b in raw[3:]:
        out.bad(b.split(':')[0], b, seed=seed, catalog=cat)
    out.ok(('host', seed))


def case(ctx, rng, out, i):
    if i % 10 == 0:
        host(ctx, rng, out)
    else:
        entries(ctx, rng, out)


add(Check('P29', case, 6000, 100000, 'one evaluation is one statement analyzed through all entry points, with and without its text and parameters, or a random sequence of about 160 operations on options, parameter tables and results; two are distinct if the results or the seeds differ', targets=T, minimum=2500, assumptions=ASSUME))
