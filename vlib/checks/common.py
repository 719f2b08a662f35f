import random
from .. import sqlgen


def unesc(s):
    """undoes the harness' escaping"""
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == 'x':
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


class Res:
    """a parse result"""

    def __init__(self, r):
        self.raw = r
        self.state = r[0]
        self.ok = r[0] == 'OK'
        if self.ok:
            self.structure = r[1]
            if len(r) > 2:
                self.regions = r[2].split()
                self.descs = r[3].split()
                self.comments = r[4].split()
                a = r[5].split()
                self.count, self.depth, self.nodes = int(a[0]), int(a[1]), int(a[2])
                self.location = r[6]
        elif r[0] == 'ERR':
            self.code = r[1]
            self.region = r[2]
            self.message = unesc(r[3])
            if len(r) > 4:
                self.location = r[4]
                self.contents = r[5]

    def span(self):
        if self.region == '~':
            return None
        b, e = self.region.split('-')
        return int(b), int(e)

    def brief(self):
        return ' '.join(self.raw[:4])[:400]


def parse(ctx, text, **opts):
    return Res(ctx.call(opts, text))


def first_diff(got, exp):
    k = next((j for j, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(exp), len(got)))
    return 'expected ...%s... got ...%s...' % (exp[max(0, k - 60):k + 60], got[max(0, k - 60):k + 60])


def conform(ctx, out, rd, ex, parts, opts=None, what=''):
    """parses a generated text and compares the aspects in `parts` with the expectation. True if fine"""
    r = parse(ctx, rd.text, **(opts or {}))
    if not r.ok:
        out.bad('rejected:' + getattr(r, 'code', r.state), '%svalid text was not accepted: %s' % (what, r.brief()), text=rd.text)
        return None
    fine = True
    if 'struct' in parts:
        exp = ex.structure()
        if r.structure != exp:
            out.bad('structure', '%sthe tree differs: %s' % (what, first_diff(r.structure, exp)), text=rd.text)
            fine = False
    if 'regions' in parts:
        if len(r.regions) != len(ex.r):
            if 'struct' not in parts:
                out.bad('structure', 'the tree has another shape', text=rd.text)
            fine = False
        else:
            for (lab, sp), x in zip(ex.r, r.regions):
                want = rd.region(sp)
                if want is None or want == x:
                    continue
                if want == 'ZERO' and (x == '~' or x.split('-')[0] == x.split('-')[1]):
                    continue
                w = '(nothing)' if want == 'ZERO' else rd.text[int(want.split('-')[0]):int(want.split('-')[1])]
                g = '(none)' if x == '~' else rd.text[int(x.split('-')[0]):int(x.split('-')[1])]
                out.bad('region:' + lab, 'extent of %s: expected %s %r, got %s %r' % (lab, want, w, x, g), text=rd.text)
                fine = False
                break
            out.count['extents compared'] += len(ex.r)
    if 'desc' in parts:
        want = [rd.description(x.tok) for x in ex.d]
        if want != r.descs:
            out.bad('description', 'description comments: expected %s, got %s' % (want, r.descs), text=rd.text)
            fine = False
        out.count['declarations compared'] += len(want)
        out.count['descriptions found'] += sum(1 for x in want if x != '~')
    if 'comments' in parts:
        want = ['%d-%d' % x for x in rd.comments]
        if want != r.comments:
            out.bad('comments', 'comments: expected %s, got %s' % (want, r.comments), text=rd.text)
            fine = False
        out.count['comments compared'] += len(want)
    return r if fine else None


def classes(out, ex, label='node kinds seen'):
    for lab, _ in ex.r:
        out.seen[label].add(lab)


def canon(texts):
    """token texts with single blanks; returns (text, [(b, e)])"""
    pos = 0
    spans = []
    parts = []
    for t in texts:
        if parts:
            parts.append(' ')
            pos += 1
        spans.append((pos, pos + len(t)))
        parts.append(t)
        pos += len(t)
    return ''.join(parts), spans


def merges(a, b):
    """would two tokens, separated by a blank, be read as one?"""
    a, b = a.upper(), b.upper()
    return (a, b) in (('UNION', 'JOIN'), ('OUTER', 'APPLY'), ('.', '*'))


def tokens(g):
    return [t.text for t in g.out]


SYMBOLS = {'(': '(', ')': ')', '*': '*', '+': '+', ',': ',', '-': '-', '.': '.', '/': '/', ';': ';', '<': '<', '=': '=', '>': '>', '?': '?',
           '[': '[', ']': ']', '<>': '<>', '!=': '!=', '>=': '>=', '<=': '<=', '||': '||', '->': '->', '::': '::', '%': '%',
           '<@': '<@', '@>': '@>', '&&': '&&', '. *': '.*', 'UNION JOIN': 'UNION JOIN', 'OUTER APPLY': 'OUTER APPLY',
           '<identifier>': 'zz', '<delimited-identifier>': '"zz"', '<unsigned-integer>': '1', '<exact-numeric-literal>': '1.5',
           '<approximate-numeric-literal>': '1e5', '<character-string-literal>': "'s'", '<hex-string-literal>': "X'00'",
           '<host-parameter-name>': ':zz'}
# tokens the language knows but never uses
NEVER = ['&', '^', '_', '|', '{', '}', ':', 'ADMIN', 'ALIAS', 'ARE', 'ASSERTION', 'CALL', 'CLASS', 'CLOSE', 'COMMIT', 'CONNECT',
         'CONSTRAINTS', 'DEALLOCATE', 'DECLARE', 'DETERMINISTIC', 'DISCONNECT', 'DYNAMIC', 'EACH', 'EXEC', 'EXECUTE', 'EXTERNAL',
         'FETCH', 'FUNCTION', 'GET', 'GLOBAL', 'INDICATOR', 'INOUT', 'MATCH', 'MODIFIES', 'MODULE', 'NATIONAL', 'NCHAR', 'NCLOB',
         'NONE', 'OLD', 'OPEN', 'PARAMETER', 'PREPARE', 'PROCEDURE', 'REF', 'REFERENCING', 'RESULT', 'RETURN', 'RETURNS', 'ROLE',
         'ROLLBACK', 'ROLLUP', 'ROWS', 'SAVEPOINT', 'SCOPE', 'SEARCH', 'SPECIFIC', 'SQLEXCEPTION', 'SQLSTATE', 'SQLWARNING',
         'STATIC', 'SYSTEM_USER', 'TRANSLATION', 'TRIGGER', 'USER', 'WHENEVER']


def label_of(tok):
    """the name a diagnostic uses for a generated token"""
    t, k = tok.text, tok.kind
    if k == 'kw' or k == 'sym':
        return t.upper()
    if k == 'id':
        if t.startswith('"'):
            return '<identifier>'
        return '<identifier>'
    if k == 'host':
        return '<host-parameter-name>'
    if k == 'ph':
        return '?'
    if k == 'str':
        return '<hex-string-literal>' if t[0] in 'xX' else '<character-string-literal>'
    if k == 'num':
        if 'e' in t.lower():
            return '<approximate-numeric-literal>'
        if '.' in t:
            return '<exact-numeric-literal>'
        return '<unsigned-integer>'
    if k == 'multi':
        return t.upper()
    return None


def candidates(msg):
    """(list, truncated) of a diagnostic message, or None"""
    k = msg.rfind('expected one of {')
    if k < 0:
        return None
    body = msg[k + len('expected one of {'):]
    if not body.endswith('}'):
        return None
    body = body[:-1]
    if not body:
        return [], False
    xs = body.split(', ')
    if xs[-1] == '...':
        return xs[:-1], True
    return xs, False
