"""parser properties: totality, lexical rules, trees, extents, diagnostics, limits"""
import random, re
from . import add
from .. import sqlgen
from ..fw import Check
from ..keywords import KEYWORDS, CONTEXTUAL
from .common import (conform, classes, parse, canon, merges, tokens, SYMBOLS, NEVER, label_of, candidates, Res, unesc, first_diff)

KW = sorted(KEYWORDS)
VOCAB = [w for w in KW if w != '_'] + [v for k, v in SYMBOLS.items() if k not in KEYWORDS] + ['&', '^', '_', '|', '{', '}', ':']


def gen(rng, fuel=None, **kw):
    if fuel is None:
        r = rng.random()
        fuel = 8 if r < 0.2 else 40 if r < 0.75 else 100 if r < 0.95 else 300
    if 'wide' not in kw:
        r = rng.random()
        if r < 0.06:
            kw['wide'] = 2 if r < 0.025 else 8 if r < 0.05 else 32 if r < 0.058 else 200
    return sqlgen.generate(rng, fuel=fuel, **kw)


# ------------------------------------------------------------------------------------------------ P01 totality
CODES = {'unknown', 'system', 'syntax_error', 'unsupported_feature', 'invalid_character', 'invalid_token', 'unexpected_token', 'unexpected_eof',
         'exceed_number_of_elements'}
JUNK = ['\x00', '\x80', '\xff', '\xc3', '\xe3\x81', '\xf0\x9f\x98', '\xc3\xa9', '\xe3\x81\x82', "'", '"', '/*', '*/', '--', '\n', '\r', '\\', ';', '(', ')',
        '?', ':a', '__', '"__a"', '$', '#', '`', '~', '!', '@', '<@', '\x7f', '\x1b', 'X\'', "x'zz'", '1e', '1e+', '1.', '.5', '1.5.5', '0' * 40, 'e' * 40]


def mutate_bytes(rng, s):
    b = list(s)
    for _ in range(1 + int(rng.random() * 4)):
        i = int(rng.random() * (len(b) + 1))
        r = rng.random()
        if r < 0.3:
            b[i:i] = list(rng.choice(JUNK))
        elif r < 0.5 and b:
            del b[i:i + 1 + int(rng.random() * 6)]
        elif r < 0.7 and i < len(b):
            b[i] = chr(int(rng.random() * 256))
        elif r < 0.85 and b:
            j = int(rng.random() * len(b))
            b[i:i] = b[j:j + int(rng.random() * 30)]
        else:
            b = b[:i]
    return ''.join(b)


def mutate_tokens(rng, ts):
    ts = list(ts)
    for _ in range(1 + int(rng.random() * 3)):
        i = int(rng.random() * (len(ts) + 1))
        r = rng.random()
        if r < 0.3:
            ts.insert(i, rng.choice(VOCAB))
        elif r < 0.5 and i < len(ts):
            del ts[i]
        elif r < 0.75 and i < len(ts):
            ts[i] = rng.choice(VOCAB)
        elif r < 0.9 and i + 1 < len(ts):
            ts[i], ts[i + 1] = ts[i + 1], ts[i]
        elif ts:
            j = int(rng.random() * len(ts))
            k = j + int(rng.random() * 12)
            ts[i:i] = ts[j:k]
    return ts


NESTS = [('(', ')', '1', 'SELECT %s'), ('- ', '', '1', 'SELECT %s'), ('NOT ', '', 'TRUE', 'SELECT %s'), ('(SELECT ', ')', '1', 'SELECT %s'),
         ('CASE WHEN TRUE THEN ', ' END', '1', 'SELECT %s'), ('f(', ')', 'x', 'SELECT %s'), ('a + (', ')', '1', 'SELECT %s'),
         ('CAST(', ' AS INT)', '1', 'SELECT %s'), ('ABS(', ')', 'x', 'SELECT %s'), ('COALESCE(1, ', ')', 'x', 'SELECT %s'),
         ('(SELECT * FROM ', ') t', 't', 'SELECT * FROM %s'), ('((', '))', 'VALUES (1)', '%s'), ('a IN (1, ', ')', '2', 'DELETE FROM t WHERE %s'),
         ('x.', '', 'y', 'SELECT %s'), ('a || ', '', 'b', 'SELECT %s'), ('TRIM(', ')', 'x', 'SELECT %s'), ('ROW(', ')', '1', 'SELECT %s'),
         ('SELECT 1 UNION ', '', 'SELECT 2', '%s'), ('EXISTS (SELECT * FROM t WHERE ', ')', 'TRUE', 'SELECT * FROM t WHERE %s'),
         ('a[', ']', '1', 'SELECT %s'), ('t CROSS JOIN ', '', 'u', 'SELECT * FROM %s'), ('t JOIN (', ') ON TRUE', 'u', 'SELECT * FROM %s'),
         ('WITH a AS (', ') SELECT * FROM a', 'SELECT 1', '%s'), ('ROW(f ', ')', 'INT', 'CREATE TABLE t (c %s)')]


def total_text(rng):
    """(text, class of input)"""
    r = rng.random()
    if r < 0.06:
        n = int(rng.random() * 80)
        return ''.join(chr(int(rng.random() * 256)) for _ in range(n)), 'random bytes'
    if r < 0.1:
        return ''.join(rng.choice(JUNK + VOCAB + [' ']) for _ in range(int(rng.random() * 40))), 'random tokens glued'
    if r < 0.2:
        return ' '.join(rng.choice(VOCAB) for _ in range(int(rng.random() * 25))), 'random tokens'
    if r < 0.3:
        o, c, x, f = rng.choice(NESTS)
        n = rng.choice([1, 2, 5, 20, 60, 120])
        t = f % (o * n + x + c * n)
        if rng.random() < 0.3:
            t = mutate_bytes(rng, t)
        return t, 'nested'
    if r < 0.34:
        n = rng.choice([1000, 16383, 16384, 16385, 20000, 32768, 70000])
        k = rng.choice(['ident', 'delim', 'str', 'num', 'cmt', 'line', 'hex', 'ws', 'openstr', 'opencmt', 'semi', 'list', 'nul', 'utf', 'glue'])
        t = {'ident': 'SELECT a' + 'b' * n, 'delim': 'SELECT "' + 'b' * n + '"', 'str': "SELECT '" + 'b' * n + "'", 'num': 'SELECT ' + '9' * n,
             'cmt': '/*' + 'c' * n + '*/ SELECT 1', 'line': '--' + 'c' * n + '\nSELECT 1', 'hex': "SELECT X'" + 'ab' * n + "'",
             'ws': ' ' * n + 'SELECT' + '\n' * n + '1', 'openstr': "SELECT '" + 'b' * n, 'opencmt': 'SELECT /*' + '*' * n, 'semi': ';' * min(n, 16384),
             'list': 'SELECT ' + ', '.join(['1'] * min(n // 8, 3000)), 'nul': "SELECT '" + '\0' * min(n, 3000) + "'", 'utf': "SELECT '" + '\xe3\x81\x82' * (n // 3) + "'",
             'glue': 'SELECT ' + '/*x*/' * (n // 8) + '1'}[k]
        if rng.random() < 0.3:
            t = mutate_bytes(rng, t)
        return t, 'huge ' + k
    g, sts, rd, ex = gen(rng, fuel=rng.choice([5, 20, 60]))
    if r < 0.5:
        return rd.text, 'valid'
    if r < 0.75:
        return mutate_bytes(rng, rd.text), 'bytes changed'
    ts = mutate_tokens(rng, tokens(g))
    return rng.choice([' ', '  ', '\n']).join(ts), 'tokens changed'


def total_opts(rng):
    o = {}
    r = rng.random()
    if r < 0.35:
        o['me'] = rng.choice([0, 1, 2, 5, 1000])
    if rng.random() < 0.15:
        o['nl'] = rng.choice([1, 2, 5, 20, 100000])
    if rng.random() < 0.15:
        o['dl'] = rng.choice([1, 2, 5, 20, 100000])
    if rng.random() < 0.2:
        o['dc'] = 0
    if rng.random() < 0.15:
        o['el'] = ','.join('%s:%d' % (k, rng.randint(1, 5)) for k in rng.sample(ELEMENT_KINDS, 3))
    return o


ELEMENT_KINDS = ['statement', 'schema_element_definition', 'table_element_definition', 'column_constraint_definition', 'column_reference',
                 'storage_parameter', 'set_clause', 'with_element', 'select_element', 'table_reference', 'grouping_element', 'ordering_element',
                 'field_definition', 'row_expression', 'scalar_expression', 'when_clause', 'string_literal_concatenation', 'privilege_action',
                 'privilege_object', 'privilege_user']


def check_result_shape(out, r, text, loc='L'):
    n = len(text)
    if r.state not in ('OK', 'ERR'):
        out.bad('outcome:' + r.state, 'a result must hold either a tree or a diagnostic: ' + r.brief(), text=text)
        return False
    if r.location != loc:
        out.bad('document', 'the result refers to another document: %r' % r.location, text=text)
        return False
    if r.ok:
        for x in r.regions + r.descs + r.comments:
            if x != '~':
                b, e = map(int, x.split('-'))
                if not 0 <= b <= e <= n:
                    out.bad('extent-out-of-range', 'extent %s of a text of %d bytes' % (x, n), text=text)
                    return False
        return True
    sp = r.span()
    if r.code not in CODES or r.code == 'unknown':
        out.bad('code', 'unexpected diagnostic code %s' % r.code, text=text)
        return False
    if not r.message:
        out.bad('message', 'empty diagnostic message (%s)' % r.code, text=text)
        return False
    if sp is None or not 0 <= sp[0] <= sp[1] <= n:
        out.bad('diagnostic-extent', 'diagnostic extent %s of a text of %d bytes' % (r.region, n), text=text)
        return False
    if unesc(r.contents) != text[sp[0]:sp[1]]:
        out.bad('diagnostic-contents', 'diagnostic shows %r for extent %s' % (r.contents[:80], r.region), text=text)
        return False
    return True


def p01(ctx, rng, out, i):
    if i % 8 == 7:
        # one parser, many texts
        ts = []
        while len(ts) < 12:
            t = total_text(rng)[0]
            if len(t) < 3000:
                ts.append(t)
        raw = ctx.call({'cmd': 'seq', 'lens': ','.join(str(len(t)) for t in ts), 'seed': rng.randint(1, 10 ** 9)}, ''.join(ts))
        if raw[0] != 'OK':
            out.bad('parser-keeps-state' if raw[0] == 'DIFFER' else 'result-not-kept', 'a parser gives another result than a new one, or a result changes later: %s' % ' '.join(raw[1:])[:600], text=''.join(ts))
            return
        out.count['parses by used parsers'] += int(raw[1])
        out.ok(('seq', tuple(ts)))
        return
    for _ in range(10):
        text, cls = total_text(rng)
        o = total_opts(rng)
        raw = ctx.call(dict(o, cmd='twice'), text)
        if raw[0] == 'DIFFER':
            out.bad('not-repeatable', 'one parser gives two results for one text: %s' % ' '.join(raw[1:])[:300], text=text)
            return
        r = Res(raw)
        if not check_result_shape(out, r, text):
            return
        out.count['input ' + cls] += 1
        out.count['accepted' if r.ok else 'refused ' + r.code] += 1
        out.ok(('ok', r.structure) if r.ok else (r.code, r.message, r.region))
        if r.ok:
            out.sample('accepted: ' + text[:80])


def p01_probes(ctx, out):
    # very deep inputs: the tree is built, limited and destroyed recursively
    for name, (o, c, x, f) in (('concatenation', NESTS[14]), ('prefix-not', NESTS[2])):
        n = 400000
        try:
            r = ctx.call({'cmd': 'accept', 'dl': 100}, f % (o * n + x + c * n))
            out.count['deep inputs answered'] += 1
        except Exception as e:
            from ..client import Crash
            if isinstance(e, Crash) and ('stack-overflow' in str(e) or e.rc in (-11, 99)):
                out.bad('deep-nesting-' + name, 'stack overflow on %d nested elements, tree_depth_limit=100' % n)
                ctx.drop()
            else:
                raise
        out.evals += 1


# ------------------------------------------------------------------------------------------------ P02 lexical rules
BADCH = [chr(c) for c in list(range(0, 9)) + list(range(14, 32)) + [0x7f]] + list('$#~`\\!@"') + ['\xc3\xa9', '\xe3\x81\x82', '\xf0\x9f\x98\x80', '\xce\xb1'] \
    + [chr(c) for c in (0x80, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xe3, 0xf0, 0xf5, 0xff)]


def p02(ctx, rng, out, i):
    k = i % 6
    if k in (0, 1):
        # trivia and letter case never matter
        g, sts, rd, ex = gen(rng, comments=rng.choice([0.0, 0.1, 0.4]))
        if conform(ctx, out, rd, ex, ('struct', 'comments')) is None:
            return
        out.ok(('tree', rd.text))
        rd2 = sqlgen.Rendering(g.out, rng, 'wild', 0.3)
        if conform(ctx, out, rd2, ex, ('struct', 'comments'), what='rendered again: ') is None:
            return
        out.ok(('tree', rd2.text))
        out.sample(rd.text)
        return
    if k == 2:
        # words
        for _ in range(8):
            w = rng.choice(KW)
            t = ''.join(c.lower() if rng.random() < 0.5 else c for c in w)
            r = rng.random()
            if r < 0.5:
                want = (t, 'regular') if w in CONTEXTUAL else None
            elif r < 0.65:
                want = (t, 'delimited')
                t = '"' + t + '"'
            else:
                t = rng.choice([t + rng.choice(['x', '_', '0', 'S']), rng.choice(['x', '_', 'a']) + t])
                want = (t, 'regular')
                if t.startswith('__') or t.upper() in KEYWORDS:
                    continue
            word_case(ctx, out, rng, t, want, w)
        return
    if k == 3:
        # identifiers
        for _ in range(8):
            r = rng.random()
            if r < 0.35:
                n = rng.choice([1, 2, 3, 8, 40, 300])
                t = rng.choice('abzAZ_') + ''.join(rng.choice('abczABCZ0129_') for _ in range(n))
                if t.upper() in KEYWORDS:
                    continue
                want = (t, 'regular')
                if t.startswith('__'):
                    want = '__'
            elif r < 0.8:
                body = ''.join(rng.choice(['a', 'B', '0', '_', ' ', "'", '""', '.', '--', '/*', ';', '\xe3\x81\x82', '\xff', '\\', '%']) for _ in range(rng.randint(1, 9)))
                t = '"' + body + '"'
                want = (body.replace('""', '"'), 'delimited')
                if body.startswith('__'):
                    want = '__'
            else:
                t = rng.choice(['__', '__a', '___', '__0', '"__"', '"__a b"', '"___"'])
                want = '__'
            if want == '__':
                pre, post = rng.choice([('DROP TABLE ', ''), ('SELECT ', ' FROM t'), ('SELECT a.', ''), ('CREATE TABLE t (', ' INT)')])
                res = parse(ctx, pre + t + post)
                if res.ok or res.code != 'invalid_token' or res.span() != (len(pre), len(pre) + len(t)):
                    out.bad('reserved-identifier', 'identifier %r must be refused where it is: %s' % (t, res.brief()), text=pre + t + post)
                    return
                out.ok(('__', t, pre))
            else:
                word_case(ctx, out, rng, t, want, t)
        return
    # bad characters and unclosed things at a random place in a valid text
    g, sts, rd, ex = gen(rng, fuel=25, hi=2)
    ts = tokens(g)
    for _ in range(6):
        j = rng.randint(0, len(ts))
        text, spans = canon(ts[:j])
        text = text + ' ' if text else ''
        at = len(text)
        tail = ' '.join(ts[j:])
        if k == 4:
            c = rng.choice(BADCH)
            sep = ' ' if c != '"' else ' '
            if c == '"' and '"' in tail or (ord(c[-1]) >= 0xc2 and len(c) == 1):
                tail = ''
            full = text + c + ' ' + tail
            res = parse(ctx, full)
            if res.ok or res.code != 'invalid_character' or res.span() != (at, at + len(c)):
                out.bad('bad-character', 'character %r at %d must be refused where it is: %s' % (c, at, res.brief()), text=full)
                return
            want = 'U+%04X' % ord(c) if ord(c[0]) < 0x20 else c
            if want not in res.message:
                out.bad('bad-character-message', 'message about %r: %s' % (c, res.message), text=full)
                return
            out.ok(('char', c, j, full))
            out.seen['bad characters'].add(c)
        else:
            r = rng.random()
            if r < 0.5:
                body = ''.join(rng.choice(['a', '*', '/', '\n', '/*', "'", '--', ' ']) for _ in range(rng.randint(0, 8))).replace('*/', '*')
                if body.startswith('/'):
                    body = ' ' + body
                if body.endswith('*'):
                    body += ' '
                full = text + '/*' + body
                res = parse(ctx, full)
                if '*/' in '/*'[1:] + body or res.ok or res.code != 'unexpected_eof' or res.span() != (at, at + 2):
                    if '*/' in body:
                        continue
                    out.bad('unclosed-comment', 'an unclosed comment at %d must be reported there: %s' % (at, res.brief()), text=full)
                    return
                out.ok(('comment', full))
            else:
                body = ''.join(rng.choice(['a', ' ', '\n', '"', '--', '/*', ';', "''"]) for _ in range(rng.randint(0, 8)))
                full = text + "'" + body
                # an odd number of quotes: the last literal is open; earlier pairs are literals of their own
                if "''" in body:
                    continue
                res = parse(ctx, full)
                if res.ok or res.code != 'unexpected_token' or res.span() != (at, at + 1):
                    out.bad('unclosed-string', 'an unclosed string at %d must be reported there: %s' % (at, res.brief()), text=full)
                    return
                out.ok(('string', full))


def word_case(ctx, out, rng, t, want, w):
    """the word t stands where only an identifier may; want = (text, kind) or None when it must be refused"""
    form = rng.randrange(4)
    pre, post = [('DROP TABLE ', ''), ('CREATE TABLE t (', ' INT)'), ('ALTER TABLE t RENAME COLUMN a TO ', ''), ('TRUNCATE TABLE s.', ' CONTINUE IDENTITY')][form]
    if form == 1 and want is None and w in ('CONSTRAINT', 'UNIQUE', 'PRIMARY', 'FOREIGN', 'CHECK'):
        pre, post, form = 'DROP TABLE ', '', 0
    if form == 0 and want is None and w == 'IF':
        return
    text = pre + t + post
    r = parse(ctx, text)
    if want is None:
        if r.ok or r.code != 'unexpected_token' or r.span() != (len(pre), len(pre) + len(t)):
            out.bad('keyword', 'reserved word %r must not be an identifier: %s' % (t, r.brief()), text=text)
            return
        out.seen['words refused'].add(w)
    else:
        node = 'simple:simple{%s;%s}' % (sqlgen.quote(want[0]), want[1])
        if not r.ok or node not in r.structure:
            out.bad('identifier', 'identifier %r must be read as %s: %s' % (t, node, r.brief()), text=text)
            return
        b, e = len(pre), len(pre) + len(t)
        if '%d-%d' % (b, e) not in r.regions:
            out.bad('identifier-extent', 'identifier %r has no extent %d-%d' % (t, b, e), text=text)
            return
        out.seen['words accepted'].add(t.upper())
    out.ok((form, t))


def p02_probes(ctx, out):
    # every word of the language, in every letter case form
    for w in KW:
        for t in (w, w.lower(), w.title()):
            for tt, want in ((t, (t, 'regular') if w in CONTEXTUAL else None), ('"' + t + '"', (t, 'delimited')), (t + 'q', (t + 'q', 'regular'))):
                if tt == '_q':
                    want = ('_q', 'regular')
                if (tt.upper() in KEYWORDS and want and want[1] == 'regular' and tt.upper() not in CONTEXTUAL):
                    continue
                word_case(ctx, out, random.Random(len(w)), tt, want, w)
    # a comment between the parts of a compound token
    for key, a, b in (('comment-inside-dot-asterisk', 'SELECT t./**/* FROM t', 'SELECT t.* FROM t'),
                      ('comment-inside-outer-apply', 'SELECT * FROM t OUTER/**/APPLY f(1) AS r', 'SELECT * FROM t OUTER APPLY f(1) AS r'),
                      ('comment-inside-union-join', 'SELECT * FROM t UNION/**/JOIN u', 'SELECT * FROM t UNION JOIN u')):
        x, y = parse(ctx, a), parse(ctx, b)
        out.evals += 1
        if not y.ok:
            out.bad('compound', 'must be accepted: ' + b, text=b)
        elif not x.ok or x.structure != y.structure:
            out.bad(key, 'a comment inside a compound token changes the meaning: %s: %s' % (a, x.brief()), text=a)


# ------------------------------------------------------------------------------------------------ P03-P07 trees
def tree_check(kinds, comments=0.03, **kw):
    def case(ctx, rng, out, i):
        for k in range(4):
            many = {'lo': 200, 'hi': 800, 'fuel': 30} if i % 1500 == 7 and k == 3 else {}     # a long script
            g, sts, rd, ex = gen(rng, kinds=kinds, comments=comments, **dict(kw, **many))
            if conform(ctx, out, rd, ex, ('struct',)) is None:
                return
            classes(out, ex)
            out.ok(ex.structure())
            if rng.random() < 0.02:
                out.sample(rd.text)
    return case


SIZED = ['CHAR(%s)', 'CHARACTER VARYING(%s)', 'VARCHAR(%s)', 'DECIMAL(%s)', 'DECIMAL(%s, 3)', 'NUMERIC(5, %s)', 'FLOAT(%s)', 'BINARY(%s)', 'VARBINARY(%s)', 'INT(%s)']
SIZED_IN = ['CREATE TABLE t (a %s)', 'SELECT CAST(a AS %s)', 'CREATE SEQUENCE s AS %s', "SELECT CAST(NULL AS ROW(x INT, y %s))"]
MARK = 77123


def p04_sizes(ctx, rng, out):
    """sizes up to the largest one are kept, larger ones are refused where they stand; one after the other in the same process"""
    for _ in range(4):
        a, b = (rng.choice(SIZED_IN) % rng.choice(SIZED)).split('%s')
        v = rng.choice([0, 1, 9, 10, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 10 ** 20, 10 ** 40, rng.getrandbits(64), rng.getrandbits(66)])
        t = rng.choice(['', '', '0', '000', '0' * 30]) + str(v)
        text = a + t + b
        m = parse(ctx, a + str(MARK) + b)
        r = parse(ctx, text)
        if not m.ok:
            out.bad('size-form', 'a size is not accepted: %s' % m.brief(), text=a + str(MARK) + b)
            return
        if v >= 2 ** 64 - 1:
            if r.ok or r.code != 'invalid_token' or r.span() != (len(a), len(a) + len(t)):
                out.bad('size-range', 'size %s is out of range: %s' % (t, r.brief()), text=text)
                return
            out.count['sizes refused'] += 1
        else:
            if not r.ok or m.structure.count(str(MARK)) != 1 or r.structure != m.structure.replace(str(MARK), str(v)):
                out.bad('size-value', 'size %s is not kept: %s' % (t, r.brief()), text=text)
                return
            out.count['sizes kept'] += 1
        out.ok(text)


def p04(ctx, rng, out, i):
    P04_TREES(ctx, rng, out, i)
    if i % 4 == 0:
        p04_sizes(ctx, rng, out)


P04_TREES = tree_check(['xtype', 'xlit'], fuel=None)


# ------------------------------------------------------------------------------------------------ P08 extents
def p08(ctx, rng, out, i):
    for _ in range(4):
        g, sts, rd, ex = gen(rng, comments=rng.choice([0, 0.05, 0.2]), hi=4)
        r = conform(ctx, out, rd, ex, ('regions',))
        if r is None:
            return
        for lab, sp in ex.r:
            if rd.region(sp) is not None:
                out.seen['parts with an exact extent'].add(lab)
        out.ok((rd.text,))
        out.sample(rd.text)


# ------------------------------------------------------------------------------------------------ P09 error position
# tokens which are never followed by themselves, and pairs which never stand side by side
TWICE = {',', '.', ';;', '=', '<', '>', '<=', '>=', '<>', '!=', '||', '%', '/', '::', '->', 'AND', 'OR', 'SELECT', 'FROM', 'WHERE', 'SET', 'VALUES',
         'INTO', 'BY', 'AS', 'ON', 'THEN', 'ELSE', 'WHEN', 'JOIN', 'HAVING', 'GROUP', 'ORDER', 'LIMIT', 'IN', 'LIKE', 'BETWEEN', 'IS',
         'UNION', 'EXCEPT', 'INTERSECT', 'TABLE', 'CREATE', 'DROP', 'UPDATE', 'DELETE', 'INSERT', 'USING', 'CROSS', 'INNER', 'NATURAL', 'WITH',
         'REFERENCES', 'PRIMARY', 'FOREIGN', 'GRANT', 'REVOKE', 'TO'}
PAIRS = [(',', ')'), ('(', ','), (',', ','), (',', ']'), ('[', ','), ('=', ')'), ('AND', ')'), ('OR', ')'), ('.', ')'), ('.', ','), ('AS', ')'), ('AS', ','),
         ('FROM', ','), ('BY', ','), ('SET', ','), ('VALUES', ','), ('AND', ','), ('WHERE', ','), ('ON', ','), ('::', '('), ('->', '('),
         (',', 'FROM'), (',', 'WHERE'), ('+', ')'), ('/', ')'), ('||', ')'), ('=', ','), ('IN', ')'), ('FROM', 'WHERE'), ('WHERE', ')')]


def tail_garbage(rng):
    r = rng.random()
    if r < 0.3:
        return ''
    if r < 0.6:
        return ' ' + ' '.join(rng.choice(VOCAB) for _ in range(rng.randint(1, 6)))
    if r < 0.8:
        return ' ' + rng.choice(["'", '"', '/* open', '\xff\x00', '__x', '$$$', '-- c', ')))))', ';;;;'])
    return '\n' + ''.join(chr(int(rng.random() * 256)) for _ in range(rng.randint(1, 20)))


SEQ = {'type': [('', 'AS', ' INT'), ('', 'AS', ' BIGINT')], 'owner': [('OWNED ', 'BY', ' a.b'), ('OWNED ', 'BY', ' c')],
       'initial_value': [('', 'START', ' WITH 1'), ('', 'START', ' 2'), ('', 'START', ' -3')],
       'increment_value': [('', 'INCREMENT', ' BY 1'), ('', 'INCREMENT', ' +2')],
       'max_value': [('', 'MAXVALUE', ' 9'), ('NO ', 'MAXVALUE', '')], 'min_value': [('', 'MINVALUE', ' -9'), ('NO ', 'MINVALUE', '')],
       'cycle': [('', 'CYCLE', ''), ('NO ', 'CYCLE', '')]}
NOTYPE = ['1', "'x'", 'f(1)', 'a[1]', '(1+2)', 'CAST(a AS INT)', ':h', '?', '(SELECT 1)', '1.5', 'NULL', 'a.b[1]', 'COUNT(a)', 'TRUE', 'a::f(1)', 'ABS(a)', 'CASE WHEN a THEN b END']


def refusal(rng):
    """a text which fits the grammar but is refused by a further rule: (before, refused part, after, part of the message)"""
    r = rng.randrange(3)
    if r == 0:
        table = rng.random() < 0.4
        kinds = [k for k in SEQ if not table or k not in ('type', 'owner')]
        opts = rng.sample(kinds, rng.randint(1, len(kinds)))
        twice = rng.choice(opts)
        o = [''.join(rng.choice(SEQ[k])) for k in opts]
        a, b, c = rng.choice(SEQ[twice])
        more = [k for k in kinds if k not in opts and rng.random() < 0.4]
        after = c + ''.join(' ' + ''.join(rng.choice(SEQ[k])) for k in more)
        if table:
            head = 'CREATE TABLE t (a INT GENERATED %s AS IDENTITY (' % rng.choice(['ALWAYS', 'BY DEFAULT'])
            after += ')' + rng.choice(['', ', b INT', ' NOT NULL']) + ')'
        else:
            head = 'CREATE SEQUENCE s '
        return head + ' '.join(o) + ' ' + a, b, after, twice
    if r == 1:
        while True:
            g, _s, _r, _e = gen(rng, fuel=rng.choice([5, 15, 40]), kinds=['select'], hi=1)
            q, _x = canon(tokens(g))
            q = q.rstrip('; ')
            if q:
                break
        if not q.startswith('WITH'):
            q = 'WITH %s AS (SELECT 1) ' % rng.choice(['a', 'b (x)']) + q
        n = rng.choice([0, 0, 1, 3])
        head = rng.choice(['', 'SELECT 1 UNION ', 'INSERT INTO t ', 'CREATE VIEW v AS ', 'SELECT a FROM t WHERE x IN (SELECT 1 EXCEPT ALL ', 'WITH q AS (SELECT 1) SELECT 2 INTERSECT '])
        return head + '(' * (n + 1), q, ')' * (n + 1) + (')' if '(SELECT 1 EXCEPT' in head else ''), 'WITH'
    q = rng.choice(NOTYPE)
    head = rng.choice(['SELECT ', 'SELECT a, ', 'UPDATE t SET x = 1 + ', 'SELECT * FROM t WHERE (', 'INSERT INTO t VALUES (1, '])
    tail = '::%s(%s)' % (rng.choice(['f', '"F"']), rng.choice(['', '1', 'a, b']))
    return head, q, tail + (')' if head.endswith('(') or 'VALUES' in head else ''), 'type'


def p09(ctx, rng, out, i):
    if rng.random() < 0.3:
        a, b, c, m = refusal(rng)
        pre = rng.choice(['', '', ';', 'SELECT 1; ', '/* x */ '])
        text = pre + a + b + c + rng.choice(['', ';', '; SELECT 1', ' -- x', '\n'])
        at = (len(pre + a), len(pre + a + b))
        r = parse(ctx, text, me=rng.choice([0, 5, 1000]))
        if r.ok or r.code != 'syntax_error' or r.span() != at or m not in r.message:
            out.bad('refusal:' + m, '%r must be refused at %d-%d: %s' % (b, at[0], at[1], r.brief()), text=text)
            return
        out.count['refused by a further rule'] += 1
        out.ok(text)
    g, sts, rd, ex = gen(rng, fuel=rng.choice([10, 30, 60]), hi=2)
    ts = tokens(g)
    for _ in range(5):
        mode = rng.randrange(5)
        j = rng.randint(0, len(ts))
        if mode == 0:
            # a token of no use anywhere
            ins = rng.choice(NEVER)
            what = 'never used token'
        elif mode == 1:
            c = [k for k in range(1, len(ts) + 1) if ts[k - 1].upper() in TWICE and g.out[k - 1].kind != 'id']
            if not c:
                continue
            j = rng.choice(c)
            ins = ts[j - 1]
            what = 'repeated token'
        elif mode == 2:
            c = [(k, b) for k in range(1, len(ts) + 1) for a, b in PAIRS if ts[k - 1].upper() == a and g.out[k - 1].kind != 'id']
            if not c:
                continue
            j, ins = rng.choice(c)
            what = 'impossible pair'
        elif mode == 3:
            # a valid beginning: fine, or the end of the text is what is wrong
            text, spans = canon(ts[:j])
            text += rng.choice(['', ' ', '\n', ' -- x', ' /* x */'])
            r = parse(ctx, text, me=1000)
            if not r.ok and (r.code != 'unexpected_eof' or r.span() != (len(text), len(text))):
                out.bad('prefix', 'the beginning of a valid text fails before its end: %s' % r.brief(), text=text)
                return
            out.count['prefix accepted' if r.ok else 'prefix unfinished'] += 1
            out.ok(text)
            continue
        else:
            # anything: the reported token must really be the first which cannot follow
            mt = mutate_tokens(rng, ts)
            if any(merges(a, b) for a, b in zip(mt, mt[1:])):
                continue
            text, spans = canon(mt)
            r = parse(ctx, text, me=1000)
            if r.ok:
                out.count['changed, still valid'] += 1
                continue
            if r.code not in ('unexpected_token', 'unexpected_eof'):
                continue
            sp = r.span()
            if r.code == 'unexpected_eof':
                if sp != (len(text), len(text)):
                    out.bad('eof-position', 'end of text reported at %s of %d' % (r.region, len(text)), text=text)
                    return
                out.ok(text)
                continue
            if sp not in spans:
                out.bad('error-not-a-token', 'the reported extent %s is not a token' % r.region, text=text)
                return
            if '"%s"' % text[sp[0]:sp[1]] not in r.message:
                out.bad('error-message', 'the message does not show the token: %s' % r.message[:200], text=text)
                return
            k = spans.index(sp)
            pre = text[:sp[0]]
            q = parse(ctx, pre, me=1000)
            # (an action may refuse the shorter text as a whole, e.g. an option given twice, once its end is known)
            if not (q.ok or q.code in ('unexpected_eof', 'syntax_error', 'unsupported_feature')):
                out.bad('error-too-late', 'the text before the reported token is wrong by itself: %s' % q.brief(), text=text)
                return
            full = text[:sp[1]] + tail_garbage(rng)
            if merges(mt[k], 'JOIN') or merges(mt[k], 'APPLY') or merges(mt[k], '*'):
                full = text[:sp[1]]
            q = parse(ctx, full, me=1000)
            if q.raw[:4] != r.raw[:4]:
                out.bad('depends-on-rest', 'the diagnostic depends on what follows the error: %s / %s' % (r.brief(), q.brief()), text=full)
                return
            out.count['changed text refused'] += 1
            out.ok(text)
            continue
        seq = ts[:j] + [ins]
        if j and merges(ts[j - 1], ins):
            continue
        text, spans = canon(seq)
        at = spans[-1]
        rest = ts[j:]
        if ins == ':' or ins.upper() in ('UNION', 'OUTER', '.'):
            rest = []
        full = text + rng.choice([' ' + ' '.join(rest), tail_garbage(rng)]) if rest else text
        opts = {'me': rng.choice([0, 5, 1000])}
        r = parse(ctx, full, **opts)
        if r.ok or r.code != 'unexpected_token' or r.span() != at:
            out.bad('error-position:' + what.replace(' ', '-'), '%s %r must be refused at %d-%d: %s' % (what, ins, at[0], at[1], r.brief()), text=full)
            return
        if '"%s"' % ins not in r.message:
            out.bad('error-message', 'the message does not show the token: %s' % r.message[:200], text=full)
            return
        out.count[what] += 1
        out.ok(full)
        out.sample('%s -> %s' % (full[-80:], r.region))


# ------------------------------------------------------------------------------------------------ P10 expected tokens
LABELS = [w for w in KW if w != '_' and w != 'OUTER APPLY'] + [k for k in SYMBOLS if k not in KEYWORDS]


def p10(ctx, rng, out, i):
    g, sts, rd, ex = gen(rng, fuel=rng.choice([10, 30, 60]), hi=2)
    ts = tokens(g)
    for _ in range(3):
        j = rng.randint(0, len(ts))
        pre, _s = canon(ts[:j])
        pre = pre + ' ' if pre else ''
        full = pre + '^'
        r = parse(ctx, full, me=1000)
        if r.ok or r.code != 'unexpected_token' or r.span() != (len(pre), len(pre) + 1):
            out.bad('probe', 'the probe token must be refused: %s' % r.brief(), text=full)
            return
        c = candidates(r.message)
        if c is None or c[1] or not c[0]:
            out.bad('list', 'no complete list of expected tokens: %s' % r.message[:300], text=full)
            return
        names = c[0]
        ns = set(names)
        if len(ns) != len(names):
            out.bad('list-twice', 'a token is listed twice: %s' % r.message[:400], text=full)
            return
        # what really follows must be listed
        nxt = label_of(g.out[j]) if j < len(ts) else '<END_OF_FILE>'
        if nxt not in ns and not (nxt in CONTEXTUAL and '<identifier>' in ns):
            out.bad('list-incomplete', 'the valid next token %s is not listed: %s' % (nxt, r.message[:400]), text=full)
            return
        # identifiers stand for all the words which may be used as one
        if '<identifier>' in ns and (ns & set(CONTEXTUAL) or '<delimited-identifier>' in ns):
            out.bad('list-collapse', 'identifiers are listed together with words they include: %s' % r.message[:400], text=full)
            return
        eof = parse(ctx, pre, me=1000)
        if eof.ok != ('<END_OF_FILE>' in ns):
            out.bad('list-eof', 'end of text is %slisted but is %saccepted' % ('' if not eof.ok else 'not ', '' if eof.ok else 'not '), text=pre)
            return
        last = ts[j - 1] if j else ''
        pick = rng.sample(names, min(4, len(names))) + rng.sample(LABELS, 6)
        if '<identifier>' in ns:
            pick.append(rng.choice(CONTEXTUAL))
        for lab in pick:
            if lab == '<END_OF_FILE>':
                continue
            s = SYMBOLS.get(lab, lab)
            if last and merges(last, s.split()[0]) or (last == '.' and s.startswith('.')) or (last == '.' and s == '*'):
                continue
            t = pre + s
            q = parse(ctx, t, me=0)
            refused_here = not q.ok and q.code == 'unexpected_token' and q.span() == (len(pre), len(pre) + len(s))
            listed = lab in ns or ('<identifier>' in ns and (lab in CONTEXTUAL or lab == '<delimited-identifier>'))
            if listed and refused_here:
                out.bad('listed-refused', 'token %s is listed but refused: %s' % (lab, r.message[:400]), text=t)
                return
            if not listed and not refused_here:
                out.bad('unlisted-accepted', 'token %s is not listed but not refused either (%s): %s' % (lab, q.brief(), r.message[:400]), text=t)
                return
            out.seen['tokens tried'].add(lab)
            out.count['listed and accepted' if listed else 'unlisted and refused'] += 1
        # the limit cuts the same list
        n = rng.choice([0, 1, 2, 3, 5, len(names), max(1, len(names) - 1), len(names) + 1])
        q = parse(ctx, full, me=n)
        d = candidates(q.message)
        if n == 0:
            if d is not None:
                out.bad('limit-zero', 'candidates are shown although disabled: %s' % q.message[:200], text=full)
                return
        elif d is None or d[0] != names[:n] or d[1] != (len(names) > n):
            out.bad('limit', 'at most %d of %d candidates: %s' % (n, len(names), q.message[:300]), text=full)
            return
        out.ok(tuple(names))
        out.sample('%s -> %d candidates' % (pre[-60:], len(names)))


# ------------------------------------------------------------------------------------------------ P11 comments, descriptions, placeholders
def p11(ctx, rng, out, i):
    g, sts, rd, ex = gen(rng, kinds=rng.choice([None, DDL]), comments=rng.choice([0.1, 0.3, 0.7]), hi=rng.choice([4, 4, 12]))
    if conform(ctx, out, rd, ex, ('desc', 'comments')) is None:
        return
    out.ok(('d', rd.text))
    r = parse(ctx, rd.text, dc=0)
    if not r.ok or any(x != '~' for x in r.descs) or r.comments != ['%d-%d' % x for x in rd.comments]:
        out.bad('disabled', 'with description comments disabled: %s' % r.brief(), text=rd.text)
        return
    g, sts, rd, ex = gen(rng, fuel=rng.choice([20, 60, 150]) if rng.random() < 0.99 else 2500, ph=0.3, **({} if rng.random() < 0.97 else {'wide': 32}), kinds=['select', 'insert', 'update', 'xexpr', 'delete'], hi=3)
    r = conform(ctx, out, rd, ex, ('struct',))
    if r is None:
        return
    out.count['placeholders numbered'] += len(g.phs)
    out.ok(('p', rd.text) if g.phs else None)
    if rng.random() < 0.02:
        out.sample(rd.text)


DDL = ['create_table', 'create_table', 'create_index', 'create_view', 'create_sequence', 'create_schema', 'xtype']


# ------------------------------------------------------------------------------------------------ P12 element limits
def p12(ctx, rng, out, i):
    g, sts, rd, ex = gen(rng, fuel=rng.choice([30, 80, 200]), hi=rng.choice([2, 6]), wide=rng.choice([1, 2, 3]),
                         kinds=rng.choice([None, None, ['create_schema'], ['grant', 'revoke'], ['create_table'], ['select', 'xlit'], ['update', 'create_index']]))
    kinds = sorted({k for k, ev in g.lists if ev})
    for _ in range(4):
        lim = {}
        for k in rng.sample(ELEMENT_KINDS, 2) + ([rng.choice(kinds)] if kinds else []):
            m = max([n for kk, ev in g.lists if kk == k for n, _a, _b in ev] or [1])
            lim[k] = rng.choice([1, max(1, m - 1), m, m + 1, 2, max(m, big_limit(rng))])
        first = None
        for order, (k, ev) in enumerate(g.lists):
            if k in lim:
                for n, sp, end in ev:
                    if n > lim[k]:
                        c = (end, order, n)
                        if first is None or c < first[0]:
                            first = (c, k, sp)
                        break
        r = parse(ctx, rd.text, el=','.join('%s:%d' % kv for kv in lim.items()))
        if first is None:
            if not r.ok or r.structure != ex.structure():
                out.bad('limit-too-strict', 'limits %s are kept but: %s' % (lim, r.brief()), text=rd.text)
                return
            out.count['within the limits'] += 1
        else:
            _c, k, sp = first
            want = rd.region(sp)
            if r.ok or r.code != 'exceed_number_of_elements':
                out.bad('limit-ignored:' + k, 'limit %s=%d is exceeded at %s but: %s' % (k, lim[k], want, r.brief()), text=rd.text)
                return
            if r.region != want:
                out.bad('limit-position:' + k, 'limit %s=%d is exceeded at %s, reported at %s' % (k, lim[k], want, r.region), text=rd.text)
                return
            if k not in r.message or not re.search(r'\b%d\b' % lim[k], r.message):
                out.bad('limit-message', 'limit %s=%d: %s' % (k, lim[k], r.message), text=rd.text)
                return
            out.seen['kinds over their limit'].add(k)
            out.count['over a limit'] += 1
        out.ok((rd.text, tuple(lim.items())))


def p12_final(out, tier):
    pass


BIG = [10 ** 9, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]  # limits far above any text, also those a narrower type takes for small


def big_limit(rng):
    return rng.choice(BIG) if rng.random() < 0.3 else (1 << rng.choice([8, 16, 16, 31, 32, 32])) * rng.choice([1, 1, 2, 255]) + rng.choice([0, 1, 2, 3])


# ------------------------------------------------------------------------------------------------ P13 tree limits
def p13(ctx, rng, out, i):
    g, sts, rd, ex = gen(rng, hi=4)
    n, d = ex.nodes, ex.depth
    for _ in range(6):
        big = max(big_limit(rng), 10 * n)
        nl = rng.choice([0, 0, big, n, n - 1, n + 1, 1, rng.randint(1, n + 2) if n else 1])
        dl = rng.choice([0, 0, big, d, d - 1, d + 1, 1, rng.randint(1, d + 2) if d else 1])
        nl, dl = max(nl, 0), max(dl, 0)
        r = parse(ctx, rd.text, nl=nl, dl=dl)
        over = (nl and n > nl) or (dl and d > dl)
        if over:
            if r.ok or r.code != 'exceed_number_of_elements':
                out.bad('limit-ignored', '%d nodes, depth %d, limits %d and %d: %s' % (n, d, nl, dl, r.brief()), text=rd.text)
                return
            places = {rd.region(sp) for _l, sp in ex.r}
            empty = r.region == '~' or len(set(r.region.split('-'))) == 1
            if r.region not in places and None not in places and not ('ZERO' in places and empty):
                out.bad('limit-position', 'the reported extent %s is no node' % r.region, text=rd.text)
                return
            if not (nl and n > nl) and not re.search(r'depth=%d\b' % (dl + 1), r.message) or not (dl and d > dl) and not re.search(r'count=%d\b' % (nl + 1), r.message):
                out.bad('limit-message', '%d nodes, depth %d, limits %d and %d: %s' % (n, d, nl, dl, r.message), text=rd.text)
                return
            out.count['over a limit'] += 1
        else:
            if not r.ok or r.structure != ex.structure():
                out.bad('limit-too-strict', '%d nodes, depth %d, limits %d and %d: %s' % (n, d, nl, dl, r.brief()), text=rd.text)
                return
            want = (n, d) if nl or dl else (0, 0)
            if (r.count, r.depth) != want:
                out.bad('metrics', 'expected %d nodes and depth %d, reported %d and %d' % (want + (r.count, r.depth)), text=rd.text)
                return
            out.count['measured' if nl or dl else 'measuring disabled'] += 1
        out.ok((rd.text, nl, dl))
    out.sample('%d nodes, depth %d: %s' % (n, d, rd.text[:100]))
    classes(out, ex)


T = 'Each text is generated together with the tree it must parse to; the parser under AddressSanitizer/UBSan parses it and an independent dumper compares. '
ASM = ['the stand-in headers in /verif/shim for the takatori library behave like the real ones', 'one build configuration (clang 18, -O1, ASan+UBSan)']


def reg(pid, case, quick, thorough, rule, **kw):
    add(Check(pid, case, quick, thorough, rule, assumptions=ASM, **kw))


reg('P01', p01, 3000, 60000, 'distinct = different outcomes (tree, or code+message+position); every input is parsed twice, through both entry points, under sanitizers', probes=p01_probes)
reg('P02', p02, 24000, 200000, 'distinct = different texts or (position, word) pairs with a predicted reading', probes=p02_probes)
reg('P03', tree_check(['xexpr', 'xexpr', 'select'], fuel=None), 12000, 100000, T + 'distinct = different trees')
reg('P04', p04, 12000, 100000, T + 'distinct = different trees')
reg('P05', tree_check(['select'], fuel=None), 12000, 100000, T + 'distinct = different trees')
reg('P06', tree_check(['insert', 'insert', 'update', 'delete'], fuel=None), 12000, 100000, T + 'distinct = different trees')
reg('P07', tree_check(['create_table', 'create_table', 'create_table', 'create_index', 'create_view', 'create_sequence', 'create_sequence', 'create_schema', 'alter_table', 'alter_index', 'drop', 'truncate',
                       'grant', 'revoke', 'empty'], fuel=None, hi=5), 12000, 100000, T + 'distinct = different trees')
reg('P08', p08, 12000, 100000, T + 'distinct = different texts whose every part with a specified extent was compared')
reg('P09', p09, 12000, 100000, 'distinct = different erroneous texts whose error position was predicted, or beginnings of valid texts')
reg('P10', p10, 8000, 60000, 'distinct = different complete candidate lists')
reg('P11', p11, 12000, 100000, 'distinct = different texts whose comments, descriptions or placeholder numbers were compared')
reg('P12', p12, 12000, 100000, 'distinct = different (text, limits) pairs with predicted outcome')
reg('P13', p13, 12000, 100000, 'distinct = different (text, limits) pairs with predicted outcome')
