"""syntax tree properties: clone, equality, serialization, tables, dispatch, concurrency"""
import json, os, random, re, struct, subprocess
from . import add
from .. import sqlgen, client
from ..fw import Check
from .parser_checks import gen, ASM, mutate_bytes
from .common import classes


# ------------------------------------------------------------------------------------------------ P14 clone, P15 equality
def laws(which):
    def case(ctx, rng, out, i):
        g, sts, rd, ex = gen(rng, fuel=rng.choice([10, 40, 40, 80]), hi=3, comments=0.05, wide=rng.choice([1, 1, 1, 1, 2, 8]))
        r = ctx.call({'cmd': 'laws', 'seed': rng.randint(1, 10 ** 9), 'muts': 400, 'enrich': rng.choice([0, 1, 4, 10])}, rd.text)
        if r[0] == 'NOPARSE':
            out.bad('rejected', 'valid text was not accepted', text=rd.text)
            return
        checks, clones, muts, pairs = map(int, r[1].split())
        out.count['comparisons'] += checks
        out.count['clones'] += clones
        out.count['single-field changes'] += muts
        out.count['pairs'] += pairs
        for s in r[2].split():
            out.seen['field/change'].add(s)
        for b in r[3:]:
            # failures about copies belong to one property, failures about comparing to the other
            copy = ('clone' in b or 'move' in b or 'cloning' in b) and 'not equal' not in b
            if b.startswith('harness'):
                raise RuntimeError(b)
            if copy == (which == 'clone'):
                key = b.split(':')[0].replace(' ', '-')
                cls = b.split(':', 1)[1].strip().split(' ')[0] if ':' in b and ('clone' in b.split(':')[0] or 'itself' in b) else ''
                out.bad((key + (':' + cls if cls else ''))[:100], b[:900], text=rd.text)
                return
        out.ok(ex.structure())
        out.sample(rd.text)
    return case


# ------------------------------------------------------------------------------------------------ P16 serialization
# fields which the serialized form leaves out on purpose (implied by the rest)
OMIT = {'literal.numeric.value_kind', 'literal.string.value_kind', 'literal.datetime.value_kind', 'statement.drop_statement.statement_kind',
        'statement.privilege_user.authorization_identifier',
        'type.character_string.type_kind', 'type.character_string.is_varying', 'type.character_string.is_flexible_length', 'type.octet_string.is_varying',
        'type.octet_string.is_flexible_length', 'type.bit_string.is_flexible_length', 'type.bit_string.is_varying', 'type.decimal.type_kind',
        'type.decimal.is_flexible_precision', 'type.decimal.is_flexible_scale', 'type.datetime.type_kind', 'type.collection.is_flexible_length',
        'statement.expression_constraint.constraint_kind', 'statement.simple_constraint.constraint_kind', 'type.binary_numeric.type_kind',
        'type.binary_numeric.is_flexible_precision'}
UNBOUND = 18446744073709551615
ENUM = {'true_': 'TRUE', 'false_': 'FALSE', 'year_to_month': 'year to month', 'year_to_day': 'year to day', 'year_to_hour': 'year to hour',
        'year_to_minute': 'year to minute', 'year_to_second': 'year to second'}


def enum_text(path, v):
    if v in ENUM:
        return ENUM[v]
    if path == 'literal.boolean.value':
        return v.upper()
    return v.rstrip('_')


def jdiff(v, j, path, seen, rd):
    """first difference between an expected value and its serialized form, or None"""
    if v is None:
        return None if j is None else (path, 'null', j)
    if isinstance(v, sqlgen.N):
        isnode, fs = sqlgen.TABLE[v.cls]
        if not isinstance(j, dict):
            return (path, 'an object', j)
        keys = set(j)
        if isnode:
            if j.get('node_kind') != v.tag.rstrip('_'):
                return (v.cls + '.node_kind', v.tag, j.get('node_kind'))
            keys.discard('node_kind')
        for f, x in zip(fs, v.vals):
            p = v.cls + '.' + f
            if f not in j:
                empty = isinstance(x, sqlgen.N) or x is not None
                if p in OMIT and not (p == 'statement.privilege_user.authorization_identifier' and x is not None):
                    continue
                return (p, 'the field', 'nothing')
            keys.discard(f)
            seen.add(p)
            d = jdiff(x, j[f], p, seen, rd)
            if d:
                return d
        if keys:
            return (v.cls, 'no other field', sorted(keys))
        return None
    if isinstance(v, sqlgen.R):
        return jdiff(v.v, j, path, seen, rd)
    if isinstance(v, dict):
        return None if j == v else (path, v, j)
    if isinstance(v, sqlgen.Desc):
        at = rd.description(v.tok)
        want = None if at == '~' else dict(zip(('begin', 'end'), map(int, at.split('-'))))
        return None if j == want else (path, want, j)
    if isinstance(v, sqlgen.Sym):
        return None if j == enum_text(path, str(v)) else (path, str(v), j)
    if isinstance(v, bool):
        return None if j is v else (path, v, j)
    if isinstance(v, int):
        if v == UNBOUND:
            return None if j in ('*', v) else (path, '*', j)
        return None if j == v and not isinstance(j, bool) else (path, v, j)
    if isinstance(v, str):
        return None if j == v else (path, v, j)
    if isinstance(v, list):
        if not isinstance(j, list) or len(j) != len(v):
            return (path, 'a list of %d' % len(v), j)
        for a, b in zip(v, j):
            d = jdiff(a, b, path, seen, rd)
            if d:
                return d
        return None
    if isinstance(v, sqlgen.PH):
        return None if j == v.index else (path, v.index, j)
    return (path, '?', type(v))


TOKEN = re.compile(r'"((?:[^"\\]|\\.)*)"|(@\d+-\d+)|(~)|([\w:]+)|([\[\]{},;])')


def undump(s):
    """the tree which a full dump of the harness shows"""
    toks = TOKEN.findall(s)
    at = 0

    def take():
        nonlocal at
        at += 1
        return toks[at - 1]

    def value():
        text, extent, nothing, word, mark = take()
        if extent:
            return dict(zip(('begin', 'end'), map(int, extent[1:].split('-'))))
        if nothing:
            return None
        if word:
            if at < len(toks) and toks[at][4] == '{':
                cls, _, tag = word.rpartition(':') if not word.rpartition(':')[0].endswith(':') else (word, '', '')
                cls = (cls or word).replace('::', '.')
                take()
                return sqlgen.N(cls, tag, seq('}'), None)
            if word.isdigit():
                return int(word)
            return {'true': True, 'false': False}.get(word, sqlgen.Sym(word))
        if mark == '[':
            return seq(']')
        return re.sub(r'\\x(..)', lambda m: chr(int(m.group(1), 16)), text)

    def seq(end):
        r = []
        while toks[at][4] != end:
            if toks[at][4] in (',', ';'):
                take()
                continue
            r.append(value())
        take()
        return r

    return value()


def p16_changed(ctx, rng, out):
    """trees with parts and values which no text gives"""
    g, sts, rd, ex = gen(rng, comments=0.05)
    r = ctx.call({'cmd': 'jsonmut', 'seed': rng.randint(1, 10 ** 9), 'muts': rng.choice([1, 4, 12])}, rd.text)
    if r[0] != 'OK':
        out.bad('outcome:' + r[0], 'serializing a tree: ' + r[0], text=rd.text)
        return
    for k in range(1, len(r), 4):
        try:
            j, j2 = json.loads(r[k + 1]), json.loads(r[k + 2])
        except ValueError as e:
            out.bad('not-json', 'the serialized form is malformed: %s: %s' % (e, r[k + 1][:300]), text=rd.text, changes=r[k + 3])
            return
        if j != j2:
            out.bad('node-output', 'a statement written as a node differs from the statement', text=rd.text, changes=r[k + 3])
            return
        d = jdiff(undump(r[k]), j, 'statement', out.seen['fields compared'], rd)
        if d:
            out.bad('field:' + d[0], 'serialized %s: expected %s, got %s' % (d[0], d[1], str(d[2])[:200]), text=rd.text, changes=r[k + 3])
            return
        out.count['changed trees'] += 1
        for x in r[k + 3].split():
            out.seen['changes serialized'].add(x)
        out.ok(r[k + 1])


def p16(ctx, rng, out, i):
    if i % 4 == 3:
        p16_changed(ctx, rng, out)
        return
    for _ in range(3):
        g, sts, rd, ex = gen(rng, comments=rng.choice([0, 0.03, 0.2]))
        r = ctx.call({'cmd': 'json'}, rd.text)
        if r[0] != 'OK':
            out.bad('outcome:' + r[0], 'serializing a tree: ' + r[0], text=rd.text)
            return
        try:
            j = json.loads(r[1])
            singles = [json.loads(x) for x in r[2:]]
        except ValueError as e:
            out.bad('not-json', 'the serialized form is malformed: %s: %s' % (e, r[1][:300]), text=rd.text)
            return
        if not isinstance(j, dict) or 'statements' not in j:
            out.bad('unit', 'no statements in the serialized unit: %s' % r[1][:200], text=rd.text)
            return
        d = jdiff(sts, j['statements'], 'statements', out.seen['fields compared'], rd)
        if not d and j.get('comments') != [{'begin': b, 'end': e} for b, e in rd.comments]:
            d = ('comments', rd.comments, j.get('comments'))
        if not d and j.get('document') != 'L':
            d = ('document', 'L', j.get('document'))
        if d:
            out.bad('field:' + d[0], 'serialized %s: expected %s, got %s' % (d[0], d[1], str(d[2])[:200]), text=rd.text)
            return
        if singles != j['statements']:
            out.bad('node-output', 'a statement written on its own differs from the unit', text=rd.text)
            return
        out.ok(r[1])
        if rng.random() < 0.02:
            out.sample(rd.text)


# ------------------------------------------------------------------------------------------------ P17 names and dispatch
NAMES = {('mizugaki::ast::literal::boolean_kind', 'unknown'): 'UNKNOWN'}


def p17(ctx, rng, out, i):
    if i % 8 == 0:
        r = ctx.call({'cmd': 'objects', 'seed': rng.randint(1, 10 ** 9)}, '')
        out.count['object checks'] += int(r[1])
        for b in r[2:]:
            out.bad(b.split(':')[0], b)
            return
        out.ok(('objects', i))
        return
    g, sts, rd, ex = gen(rng)
    r = ctx.call({'cmd': 'dispatch'}, rd.text)
    if r[0] == 'NOPARSE':
        out.bad('rejected', 'valid text was not accepted', text=rd.text)
        return
    out.count['dispatches'] += 2 * int(r[1])
    for c in r[2].split():
        out.seen['classes dispatched'].add(c)
    for b in r[3:]:
        out.bad(b.split(':')[0].replace(' ', '-'), b, text=rd.text)
        return
    out.ok(ex.structure())


def p17_probes(ctx, out):
    r = ctx.call({'cmd': 'enums'}, '')
    by = {}
    for x in r[1:]:
        e, idx, name, s, o = x.split('\t')
        want = NAMES.get((e, name)) or ENUM.get(name) or name.rstrip('_')
        if s != want:
            out.bad('name:%s::%s' % (e, name), '%s::%s is called %r, not %r' % (e, name, s, want))
        if o != s:
            out.bad('output:%s::%s' % (e, name), '%s::%s is written as %r' % (e, name, o))
        if s in by.setdefault(e, {}):
            out.bad('same-name:' + e, '%s: two values are called %r' % (e, s))
        by[e][s] = name
        out.ok((e, name))
        out.seen['enumerations'].add(e)


# ------------------------------------------------------------------------------------------------ P18 threads
def concurrent(ctx, out, target, args, data, **what):
    """the lines a ThreadSanitizer program prints about the input, or None if it reported something"""
    env = dict(os.environ, TSAN_OPTIONS='exitcode=66:halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1')
    for attempt in range(4):
        try:
            p = subprocess.run([ctx.exes[target]] + [str(a) for a in args], input=data, capture_output=True, timeout=240, env=env)
        except subprocess.TimeoutExpired:
            if attempt:
                out.bad('timeout', 'concurrent use did not end, twice', **what)
                return None
            continue
        if b'unexpected memory mapping' in p.stderr:
            continue
        break
    else:
        raise RuntimeError('ThreadSanitizer does not run here: ' + p.stderr.decode('latin-1')[:500])
    err = p.stderr.decode('latin-1', 'replace')
    if p.returncode == 66 or 'ThreadSanitizer' in err:
        m = re.search(r'SUMMARY: ThreadSanitizer: ([^\n]*)', err)
        out.bad('race:' + re.sub(r'\S*/', '', m.group(1) if m else 'report').replace(' ', '-')[:90], err[:2500], **what)
        return None
    if p.returncode != 0:
        out.bad('crash:threads', 'the concurrent run ended with %d: %s' % (p.returncode, err[:1500]), **what)
        return None
    return p.stdout.decode('latin-1').splitlines()


def p18(ctx, rng, out, i):
    texts = []
    for _ in range(25):
        g, sts, rd, ex = gen(rng, fuel=rng.choice([10, 30, 60]))
        t = rd.text
        if rng.random() < 0.35:
            t = mutate_bytes(rng, t)
        texts.append(t.encode('latin-1'))
    data = b''.join(struct.pack('<I', len(t)) + t for t in texts)
    nt = rng.choice([2, 4, 6])
    lines = concurrent(ctx, out, 'threads', [nt, rng.randint(1, 10 ** 6), 4], data, texts=[t.decode('latin-1') for t in texts])
    if lines is None:
        return
    a = list(map(int, lines[0].split()))
    for k, v in zip(('parses', 'clones', 'comparisons', 'serializations', 'parses of one text at the same time', 'shared trees'), a):
        out.count[k] += v
    for b in lines[1:]:
        out.bad('concurrent-result', b)
        return
    out.ok((i, nt, len(data)))


def reg(pid, case, quick, thorough, rule, **kw):
    add(Check(pid, case, quick, thorough, rule, assumptions=ASM, **kw))


reg('P14', laws('clone'), 1200, 30000, 'distinct = different trees; every sub-node cloned and move-cloned, every clone changed field by field')
reg('P15', laws('equality'), 1200, 30000, 'distinct = different trees; every single-field change of a copy must be seen (or, for extents, ignored) by equality in both directions')
reg('P16', p16, 10000, 80000, 'distinct = different serialized units, compared field by field with the generated tree')
reg('P17', p17, 6000, 30000, 'distinct = enumerators, trees whose every node was dispatched, rounds of object checks', probes=p17_probes)
reg('P18', p18, 200, 1000, 'distinct = concurrent runs (2-6 threads, 25 texts, 4 rounds) under ThreadSanitizer', targets=('threads',), minimum=20)
