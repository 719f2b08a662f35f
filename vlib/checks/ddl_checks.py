"""definitions: what a data definition statement defines"""
import re
from . import add
from .. import ddlgen
from ..fw import Check
from .analyzer_checks import analyze, ASSUME, T


def differs(want, got, at=''):
    """where two results differ"""
    if isinstance(want, tuple):
        want = want[0] if isinstance(got, str) and got == want[0] else list(want)
        if isinstance(got, str) and isinstance(want, list):
            want = '@'.join([want[0], 't:' + want[1]]) if '@t:' in got else want[0] + '@' + want[1]
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return at + '.' + k, want[k], None
            d = differs(want[k], got[k], at + '.' + k)
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        for i, (a, b) in enumerate(zip(want, got)):
            d = differs(a, b, at + '[]')
            if d:
                return d
        return None
    if type(want) is bool or type(got) is bool:
        return None if want is got else (at, want, got)
    return None if want == got else (at, want, got)


def utf8(x):
    """the answers come as bytes"""
    if isinstance(x, str):
        try:
            return x.encode('latin-1').decode()
        except UnicodeError:
            return x
    if isinstance(x, list):
        return [utf8(y) for y in x]
    if isinstance(x, dict):
        return {k: utf8(v) for k, v in x.items()}
    return x


def casts(ctx, rng, out):
    """DEFAULT with an explicit cast: the value is the one of the cast"""
    cat = 'schema\ts1\npath\ts1\ndefault\ts1\n'
    for t, v in (("DEFAULT CAST(1.9 AS INT)", "decimal:19E-1"), ("DEFAULT CAST('7' AS INT)", "char:7")):
        sql = 'CREATE TABLE n (a DECIMAL(5,2) %s)' % t
        r = analyze(ctx, out, cat, sql, {'again': 0, 'dropped': 0})
        if r.state == 'OK' and r.results[0]['valid']:
            d = r.results[0]['st']['table']['cols'][0]['default']
            if d == ['imm', v]:
                out.bad('default-explicit-cast', '%s defines the default %s: the cast is gone' % (t, d), sql=sql, catalog=cat)


def case(ctx, rng, out, i):
    if i == 0:
        casts(ctx, rng, out)
        return
    g = ddlgen.Gen(rng)
    form, fault, st = g.statement()
    if st is None:
        return
    sql = st.text.encode().decode('latin-1') + rng.choice(['', ';', '\n'])
    what = form + (':' + fault.replace(' ', '-') if fault else '')

    def bad(key, msg):
        out.bad(what + ':' + key, msg, sql=sql, catalog=g.catalog, options=g.given)
    r = analyze(ctx, out, g.catalog, sql, dict({'o.' + k: v for k, v in g.given.items()}, again=0, dropped=0))
    if r.state != 'OK':
        if r.state.startswith('NOPARSE'):
            bad('rejected', 'it was not parsed: ' + r.state)
        return
    x = utf8(r.results[0])
    shape = re.sub(r"\d+|'[^']*'|/\*.*?\*/|--.*", '0', sql, flags=re.S)
    if st.codes:
        if x['kind'] != 'diagnostics':
            bad('accepted', 'a statement with a fault (%s) was accepted' % fault)
            return
        c, msg, b, e = x['diags'][0]
        if c not in st.codes:
            bad('code', 'a statement with a fault (%s) was refused as %s, not as %s' % (fault, x['diags'][0], sorted(st.codes)))
        elif (b, e) != st.place:
            bad('place', 'the fault (%s) stands at %s, and was reported at %s' % (fault, st.place, x['diags'][0]))
        else:
            out.seen['refusal'].add('%s %s %s' % (form, fault, c))
            out.ok(shape)
        return
    if x['kind'] != 'statement':
        bad('refused:' + (x['diags'][0][0] if x['kind'] == 'diagnostics' else x['kind']), 'a valid statement was refused: %s' % (x['diags'][0] if x['kind'] == 'diagnostics' else x['kind']))
        return
    got = x['st']
    if st.want['k'] == 'empty' != got['k']:
        bad('empty', 'it does %s instead of nothing' % got['k'])
        return
    d = differs(dict(st.want, r=list(st.extent)), got)
    if d:
        bad('differs' + re.sub(r'\W+', '-', d[0]), 'it defines %s = %r instead of %r' % (d[0], d[2], d[1]))
        return
    out.seen['form'].add(got['k'])
    out.seen['feature'] |= g.features
    out.ok(shape)
    out.sample(sql[:300])


add(Check('P25', case, 24000, 600000, 'one evaluation is one definition whose meaning (or refusal) was compared; two are distinct if their texts differ in more than literals and comments', targets=T, minimum=12000, assumptions=ASSUME))
