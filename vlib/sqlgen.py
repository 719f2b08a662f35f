"""Random SQL generator that emits, for every sentence, the syntax tree it must parse to.

The generator walks the language top-down.  It appends tokens to a list while it builds the expected
tree, so expected structure and expected source extents come out of the *derivation*, never out of the
parser under test.  Text is latin-1: one character is one byte, offsets are byte offsets.
"""
import os, random
from .keywords import KEYWORDS, CONTEXTUAL

HERE = os.path.dirname(os.path.abspath(__file__))


def _load_table():
    import re
    t = {}
    for line in open(os.path.join(HERE, '..', 'harness', 'dump_table.inc')):
        m = re.match(r'([EN])\((\w+)::(\w+)(<[\w:]+>)?, (\w+)(.*)\)$', line.strip())
        if m:
            fields = [x.strip() for x in m.group(6).split(',') if x.strip()]
            t[m.group(2) + '.' + m.group(5)] = (m.group(1) == 'N', fields)
    return t


TABLE = _load_table()


class Tok:
    __slots__ = ('text', 'kind', 'b', 'e', 'out')

    def __init__(self, text, kind):
        self.text = text
        self.kind = kind   # kw sym id str num multi(host)
        self.b = self.e = -1
        self.out = None


class Sym(str):
    """enum constant or other bare word"""
    __slots__ = ()


class R:
    """a leaf which carries its own source extent"""
    __slots__ = ('v', 'span')

    def __init__(self, v, span):
        self.v = v
        self.span = span


ANY = 'ANY'          # extent not specified
ZERO = 'ZERO'        # empty extent (or none)


class Desc:
    __slots__ = ('tok', 'enabled')

    def __init__(self, tok):
        self.tok = tok


class PH:
    __slots__ = ('tok', 'index')

    def __init__(self, tok):
        self.tok = tok
        self.index = 0


class N:
    __slots__ = ('cls', 'tag', 'vals', 'span')

    def __init__(self, cls, tag, vals, span):
        self.cls = cls
        self.tag = tag
        self.vals = vals
        self.span = span

    def get(self, f):
        return self.vals[TABLE[self.cls][1].index(f)]

    def set(self, f, v):
        self.vals[TABLE[self.cls][1].index(f)] = v


_missing = object()


def nd(cls, span, tag=None, **kw):
    isnode, fields = TABLE[cls]
    vals = []
    for f in fields:
        v = kw.pop(f, _missing)
        if v is _missing:
            raise KeyError('%s.%s' % (cls, f))
        vals.append(v)
    if kw:
        raise KeyError('%s: %s' % (cls, list(kw)))
    if isnode and tag is None:
        tag = cls.split('.')[1]
    return N(cls, tag, vals, span)


_Q = {}
for _i in range(256):
    _c = chr(_i)
    _Q[_c] = '\\x%02x' % _i if (_i < 0x20 or _i >= 0x7f or _c in '"\\') else _c


def quote(s):
    return '"' + ''.join(_Q[c] for c in s) + '"'


class Expect:
    """flattened expectation, comparable with the harness' dump streams"""

    def __init__(self):
        self.s = []
        self.r = []        # (label, span)
        self.d = []        # Desc objects
        self.nodes = 0
        self.depth = 0
        self._at = 0

    def put(self, v, label=''):
        s = self.s
        if v is None:
            s.append('~')
        elif isinstance(v, N):
            isnode, fields = TABLE[v.cls]
            name = v.cls.split('.')[1]
            if isnode:
                self.nodes += 1
                self._at += 1
                if self._at > self.depth:
                    self.depth = self._at
                s.append(name + ':' + v.tag)
            else:
                s.append(name)
            self.r.append((name, v.span))
            s.append('{')
            first = True
            for f, x in zip(fields, v.vals):
                if not first:
                    s.append(';')
                first = False
                self.put(x, name + '.' + f)
            s.append('}')
            if isnode:
                self._at -= 1
        elif isinstance(v, R):
            self.r.append((label, v.span))
            self.put(v.v, label)
        elif isinstance(v, bool):
            s.append('true' if v else 'false')
        elif isinstance(v, int):
            s.append(str(v))
        elif isinstance(v, Sym):
            s.append(v)
        elif isinstance(v, str):
            s.append(quote(v))
        elif isinstance(v, list):
            s.append('[')
            first = True
            for x in v:
                if not first:
                    s.append(',')
                first = False
                self.put(x, label + '[]')
            s.append(']')
        elif isinstance(v, PH):
            s.append(str(v.index))
        elif isinstance(v, Desc):
            self.d.append(v)
        else:
            raise TypeError(type(v))

    def structure(self):
        return ''.join(self.s)


_SYMCH = set('<>=!|&-+*/.:@%^')
_WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_\'"')


def need_space(p, n):
    """must two adjacent token texts be separated?"""
    a, b = p[-1], n[0]
    if a in _WORD and b in _WORD:
        return True
    if a in _SYMCH and b in _SYMCH:
        return True
    if a in '.:' and b in _WORD or (a in _WORD and b in '.:'):
        # 1 . x / x :: T / host parameters
        if a == '.' and b.isalpha() or (b == '.' and (a.isalpha() or a in '_"') and not p[0].isdigit()):
            return False
        return True
    return False


IDS = ['a', 'b', 'c', 'x', 'y', 'z', 't', 'c1', 'c2', 't0', 't1', 'abc', 'foo', '_a', '_0', 'A', 'Bc', 'ID', 'k9', 'n_m_',
       'selects', 'select_', 'xinto', 'fromage', 'e', 'E1', 'x1', 'nullx', 'trueness', 'or_', 'a_very_long_identifier_name_0123456789']
UTF8 = ['\xc3\xa9', '\xe3\x81\x82', '\xf0\x9f\x98\x80', '\xce\xb1']


class Gen:
    def __init__(self, rng, fuel=60, ctx_ident=0.03, subquery=0.06, ph=0.0, wide=1):
        self.rng = rng
        self.out = []
        self.fuel = fuel
        self.ctx = ctx_ident
        self.subq = subquery
        self.phs = []
        self.lists = []       # (element kind, [(size, span of the separator or the element, number of tokens then)])
        self.wide = wide
        self.php = ph
        self.deep = 0 if rng.random() < 0.95 else 60
        self.depth = 0

    # ---- token emission
    def mark(self):
        return len(self.out)

    def since(self, m):
        if len(self.out) <= m:
            return ZERO
        return (self.out[m], self.out[-1])

    def kw(self, *ws):
        m = len(self.out)
        for w in ws:
            self.out.append(Tok(w, 'kw'))
        return (self.out[m], self.out[-1])

    def sym(self, s):
        t = Tok(s, 'sym')
        self.out.append(t)
        return (t, t)

    def tok(self, s, kind):
        t = Tok(s, kind)
        self.out.append(t)
        return (t, t)

    def p(self, pr):
        return self.rng.random() < pr

    def pick(self, xs):
        return xs[int(self.rng.random() * len(xs))]

    def many(self, lo, hi):
        if self.fuel <= 0:
            return lo
        n = lo
        if self.wide > 1:
            hi *= self.wide
            if self.rng.random() < 0.15:
                self.fuel -= 2
                return self.rng.randint(lo, hi)
        while n < hi and self.rng.random() < (0.45 if self.wide == 1 else 0.8):
            n += 1
        return n

    # list with element kind accounting. item() emits one element; kind is the element kind; anchor: 'sep' | 'elem'
    def seplist(self, kind, n, item, sep=','):
        res = []
        ev = []
        for i in range(n):
            st = None
            if i:
                st = self.sym(sep) if sep else None
            m = self.mark()
            res.append(item())
            if i:
                ev.append((i + 1, st if sep else self.since(m), len(self.out)))
        self.lists.append((kind, ev))
        return res

    # ---- identifiers
    def ident_text(self):
        r = self.rng.random()
        if r < self.ctx:
            w = self.pick(CONTEXTUAL)
            return self.rcase(w), 'regular'
        if r < 0.12:
            return self.delimited(), 'delimited'
        if r < 0.8:
            return self.pick(IDS), 'regular'
        while True:
            n = self.rng.randint(1, 14) if self.rng.random() < 0.98 else self.rng.choice([30, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600])
            s = self.pick('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
            s += ''.join(self.pick('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_') for _ in range(n - 1))
            if s.upper() in KEYWORDS or s.startswith('__') or s == '_':
                continue
            return s, 'regular'

    def rcase(self, w):
        return ''.join(c.lower() if self.rng.random() < 0.5 else c for c in w)

    def delimited(self):
        while True:
            n = self.rng.randint(1, 8) if self.rng.random() < 0.97 else self.rng.randint(20, 300)
            body = ''
            for _ in range(n):
                r = self.rng.random()
                if r < 0.15:
                    body += '""'
                elif r < 0.25:
                    body += self.pick(UTF8)
                elif r < 0.35:
                    body += self.pick([' ', "'", '.', '--', '/*', '*/', ';', '(', '\\', '?', '%'])
                else:
                    body += self.pick('abcXYZ019_')
            if body.startswith('__'):
                continue
            return '"' + body + '"'

    def ident(self):
        text, kind = self.ident_text()
        sp = self.tok(text, 'id')
        v = text
        if kind == 'delimited':
            v = text[1:-1].replace('""', '"')
        return nd('name.simple', sp, identifier=v, identifier_kind=Sym(kind))

    def chain(self, maxn=3, lo=1):
        m = self.mark()
        x = self.ident()
        n = lo
        while n < maxn and self.p(0.18):
            n += 1
        if n > 2 and maxn == 3 and self.p(0.1):
            n = self.rng.randint(3, 12)
        for _ in range(n - 1):
            self.sym('.')
            l = self.ident()
            x = nd('name.qualified', self.since(m), qualifier=x, last=l)
        return x

    def cols(self, hi=4):
        """'(' column_name_list ')'"""
        self.sym('(')
        r = self.seplist('column_reference', self.many(1, hi), self.ident)
        self.sym(')')
        return r

    # ---- literals
    def string_text(self, maxlen=10):
        n = self.rng.randint(0, maxlen) if self.rng.random() < 0.97 else self.rng.randint(20, 300)
        s = ''
        for _ in range(n):
            r = self.rng.random()
            if r < 0.1:
                s += "''"
            elif r < 0.2:
                s += self.pick(UTF8)
            elif r < 0.35:
                s += self.pick(['"', '--', '/*', '*/', ';', '\n', '\t', '\\', '?', '%', '_', '\x01', '\x00', '\r\n'])
            else:
                s += self.pick('abcXYZ 019')
        return "'" + s + "'"

    def digits(self, lo=1, hi=6):
        n = self.rng.randint(lo, hi)
        if hi == 6 and self.rng.random() < 0.04:
            n = self.rng.choice([9, 10, 11, 18, 19, 20, 21, 38, 39, 40, 77, 200])
        return ''.join(self.pick('0123456789') for _ in range(n))

    def concat(self):
        n = 0
        if self.p(0.12):
            n = self.rng.randint(1, 3) if self.rng.random() < 0.97 else self.rng.randint(4, 70)
        ev = []
        res = []
        for i in range(n):
            t = self.string_text(5)
            sp = self.tok(t, 'str')
            res.append(R(t, sp))
            ev.append((i + 1, sp, len(self.out)))
        self.lists.append(('string_literal_concatenation', ev))
        return res

    def uint_lit(self):
        m = self.mark()
        t = self.digits()
        sp = self.tok(t, 'num')
        return nd('literal.numeric', self.since(m), 'exact_numeric', value_kind=Sym('exact_numeric'), sign=None, unsigned_value=R(t, ANY))

    def tz_opt(self):
        r = self.rng.random()
        if r < 0.5:
            return None
        if r < 0.75:
            return R(True, self.kw('WITH', 'TIME', 'ZONE'))
        return R(False, self.kw('WITHOUT', 'TIME', 'ZONE'))

    def truth(self):
        m = self.mark()
        w = self.pick(['TRUE', 'FALSE', 'UNKNOWN', 'NULL'])
        self.kw(w)
        if w == 'NULL':
            return nd('literal.special', self.since(m), 'null')
        return nd('literal.boolean', self.since(m), 'boolean', value=Sym({'TRUE': 'true_', 'FALSE': 'false_', 'UNKNOWN': 'unknown'}[w]))

    def literal(self):
        m = self.mark()
        r = self.rng.random()
        if r < 0.3:
            return self.uint_lit()
        if r < 0.38:
            t = self.digits() + '.' + self.digits()
            sp = self.tok(t, 'num')
            return nd('literal.numeric', self.since(m), 'exact_numeric', value_kind=Sym('exact_numeric'), sign=None, unsigned_value=R(t, ANY))
        if r < 0.45:
            t = self.digits() + ('.' + self.digits() if self.p(0.5) else '') + self.pick('eE') + self.pick(['', '+', '-']) + self.digits(1, 3)
            sp = self.tok(t, 'num')
            return nd('literal.numeric', self.since(m), 'approximate_numeric', value_kind=Sym('approximate_numeric'), sign=None, unsigned_value=R(t, ANY))
        if r < 0.62:
            t = self.string_text()
            sp = self.tok(t, 'str')
            c = self.concat()
            return nd('literal.string', self.since(m), 'character_string', value_kind=R(Sym('character_string'), ANY), value=R(t, sp), concatenations=c)
        if r < 0.67:
            body = "'" + ''.join(self.pick('0123456789abcdefABCDEF') for _ in range(self.rng.randint(0, 4) * 2)) + "'"
            sp = self.tok(self.pick('xX') + body, 'str')
            c = self.concat()
            tk = sp[0]
            return nd('literal.string', self.since(m), 'hex_string', value_kind=R(Sym('hex_string'), ('sub', tk, 0, 1)), value=R(body, ('sub', tk, 1, None)), concatenations=c)
        if r < 0.71:
            k = self.kw('DATE')
            t = self.string_text()
            sp = self.tok(t, 'str')
            return nd('literal.datetime', self.since(m), 'date', value_kind=R(Sym('date'), k), value=R(t, sp))
        if r < 0.77:
            w = self.pick(['TIME', 'TIMESTAMP'])
            k = self.kw(w)
            z = self.tz_opt()
            reg = self.since(m)
            t = self.string_text()
            sp = self.tok(t, 'str')
            kind = w.lower() + ('_with_time_zone' if z and z.v else '')
            return nd('literal.datetime', self.since(m), kind, value_kind=R(Sym(kind), reg), value=R(t, sp))
        if r < 0.81:
            self.kw('INTERVAL')
            s = None
            if self.p(0.4):
                c = self.pick('+-')
                s = R(Sym('plus' if c == '+' else 'minus'), self.sym(c))
            t = self.string_text()
            sp = self.tok(t, 'str')
            return nd('literal.interval', self.since(m), 'interval', sign=s, value=R(t, sp))
        if r < 0.95:
            return self.truth()
        if r < 0.98:
            self.kw('ARRAY')
            self.sym('[')
            self.sym(']')
            return nd('literal.special', self.since(m), 'empty')
        self.kw('DEFAULT')
        return nd('literal.special', self.since(m), 'default_')

    # ---- types
    def size_tok(self):
        t = self.digits(1, 4)
        if self.p(0.04):
            t = str(self.pick([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2]))
        if self.p(0.1):
            t = '0' * self.rng.randint(1, 3) + t
        return R(int(t), self.tok(t, 'num'))

    def size_flex(self):
        if self.p(0.3):
            return R(18446744073709551615, self.sym('*'))
        return self.size_tok()

    def flex(self, v):
        return v is not None and v.v == 18446744073709551615

    def data_type(self):
        m = self.mark()
        x = self.data_type_base()
        while self.p(0.08):
            if self.p(0.5):
                self.kw('ARRAY')
            self.sym('[')
            s = self.size_flex() if self.p(0.6) else None
            self.sym(']')
            x = nd('type.collection', self.since(m), 'collection', element=x, is_flexible_length=self.flex(s), length=s)
        return x

    def data_type_base(self):
        self.fuel -= 1
        m = self.mark()
        r = int(self.rng.random() * 24)
        simple = lambda k: nd('type.simple', self.since(m), k)
        if r == 0:
            k = self.kw(self.pick(['CHARACTER', 'CHAR']))
            s = None
            if self.p(0.5):
                self.sym('(')
                s = self.size_tok()
                self.sym(')')
            return nd('type.character_string', self.since(m), 'character', type_kind=R(Sym('character'), k), is_varying=False, is_flexible_length=self.flex(s), length=s)
        if r == 1:
            k = self.kw(*self.pick([['CHARACTER', 'VARYING'], ['CHAR', 'VARYING'], ['VARCHAR']]))
            s = None
            if self.p(0.6):
                self.sym('(')
                s = self.size_flex()
                self.sym(')')
            return nd('type.character_string', self.since(m), 'character_varying', type_kind=R(Sym('character_varying'), k), is_varying=True, is_flexible_length=self.flex(s), length=s)
        if r == 2:
            k = self.kw('BINARY')
            s = None
            if self.p(0.5):
                self.sym('(')
                s = self.size_tok()
                self.sym(')')
            return nd('type.octet_string', self.since(m), 'octet', type_kind=R(Sym('octet'), k), is_varying=False, is_flexible_length=self.flex(s), length=s)
        if r == 3:
            k = self.kw(*self.pick([['BINARY', 'VARYING'], ['VARBINARY']]))
            s = None
            if self.p(0.6):
                self.sym('(')
                s = self.size_flex()
                self.sym(')')
            return nd('type.octet_string', self.since(m), 'octet_varying', type_kind=R(Sym('octet_varying'), k), is_varying=True, is_flexible_length=self.flex(s), length=s)
        if r in (4, 5):
            w = self.pick(['DECIMAL', 'DEC', 'NUMERIC'])
            k = self.kw(w)
            pr = sc = None
            if self.p(0.7):
                self.sym('(')
                pr = self.size_flex()
                if self.p(0.6):
                    self.sym(',')
                    sc = self.size_flex()
                self.sym(')')
            kind = 'numeric' if w == 'NUMERIC' else 'decimal'
            return nd('type.decimal', self.since(m), kind, type_kind=R(Sym(kind), k), is_flexible_precision=self.flex(pr), is_flexible_scale=self.flex(sc), precision=pr, scale=sc)
        if r in (6, 7):
            k = self.kw(self.pick(['INT', 'INTEGER']))
            if self.p(0.4):
                self.sym('(')
                s = self.size_tok()
                self.sym(')')
                return nd('type.binary_numeric', self.since(m), 'binary_integer', type_kind=R(Sym('binary_integer'), k), is_flexible_precision=self.flex(s), precision=s)
            return simple('integer')
        if r == 8:
            w, k = self.pick([('TINYINT', 'tiny_integer'), ('SMALLINT', 'small_integer'), ('BIGINT', 'big_integer'), ('REAL', 'real')])
            self.kw(w)
            return simple(k)
        if r == 9:
            k = self.kw('FLOAT')
            if self.p(0.4):
                self.sym('(')
                s = self.size_tok()
                self.sym(')')
                return nd('type.binary_numeric', self.since(m), 'binary_float', type_kind=R(Sym('binary_float'), k), is_flexible_precision=self.flex(s), precision=s)
            return simple('float_')
        if r == 10:
            self.kw('DOUBLE')
            if self.p(0.5):
                self.kw('PRECISION')
            return simple('double_precision')
        if r == 11:
            self.kw('BOOLEAN')
            return simple('boolean')
        if r == 12:
            self.kw('DATE')
            return simple('date')
        if r in (13, 14):
            w = self.pick(['TIME', 'TIMESTAMP'])
            k = self.kw(w)
            z = self.tz_opt()
            return nd('type.datetime', self.since(m), w.lower(), type_kind=R(Sym(w.lower()), k), has_time_zone=z)
        if r == 15:
            self.kw('INTERVAL')
            return nd('type.interval', self.since(m), 'interval')
        if r == 16:
            self.kw(*self.pick([['BLOB'], ['BINARY', 'LARGE', 'OBJECT']]))
            return simple('binary_large_object')
        if r == 17:
            self.kw(*self.pick([['CLOB'], ['CHAR', 'LARGE', 'OBJECT'], ['CHARACTER', 'LARGE', 'OBJECT']]))
            return simple('character_large_object')
        if r == 18 and self.fuel > 0:
            self.kw('ROW')
            self.sym('(')

            def fd():
                fm = self.mark()
                n = self.ident()
                t = self.data_type()
                c = self.collate_opt()
                return nd('type.field_definition', self.since(fm), name=n, type=t, collation=c)
            es = self.seplist('field_definition', self.many(1, 3), fd)
            self.sym(')')
            return nd('type.row', self.since(m), 'row', elements=es)
        n = self.chain()
        return nd('type.user_defined', self.since(m), 'user_defined', name=n)

    def collate_opt(self, pr=0.1):
        if self.p(pr):
            self.kw('COLLATE')
            return self.chain(2)
        return None

    # ---- expressions
    def vlist(self, lo=1, hi=4):
        return self.seplist('scalar_expression', self.many(lo, hi), self.vexpr)

    def slist(self, lo=1, hi=4):
        return self.seplist('scalar_expression', self.many(lo, hi), self.scalar)

    def args(self):
        """'(' sql_argument_list_opt ')'"""
        self.sym('(')
        n = self.many(0, 3)
        r = self.seplist('scalar_expression', n, self.sql_argument)
        self.sym(')')
        return r

    def sql_argument(self):
        m = self.mark()
        e = self.vexpr()
        if self.p(0.1):
            self.kw('AS')
            t = self.data_type()
            return nd('scalar.cast_expression', self.since(m), operator_kind=R(Sym('generalize'), ANY), operand=e, type=t)
        return e

    def vexpr(self):
        self.fuel -= 1
        if self.fuel <= 0 or self.depth > 14 + self.deep:
            return self.primary()
        self.depth += 1
        try:
            r = self.rng.random()
            if r < 0.3:
                return self.e_or()
            if r < 0.55:
                return self.scalar()
            return self.primary()
        finally:
            self.depth -= 1

    def e_or(self):
        m = self.mark()
        x = self.e_and()
        while self.fuel > 0 and self.p(0.22):
            o = self.kw('OR')
            y = self.e_and()
            x = nd('scalar.binary_expression', self.since(m), operator_kind=R(Sym('or_'), o), left=x, right=y)
        return x

    def e_and(self):
        m = self.mark()
        x = self.e_not()
        while self.fuel > 0 and self.p(0.25):
            o = self.kw('AND')
            y = self.e_not()
            x = nd('scalar.binary_expression', self.since(m), operator_kind=R(Sym('and_'), o), left=x, right=y)
        return x

    def e_not(self):
        m = self.mark()
        if self.p(0.15):
            o = self.kw('NOT')
            x = self.e_not()
            return nd('scalar.unary_expression', self.since(m), operator_kind=R(Sym('not_'), o), operand=x)
        return self.e_is()

    def e_is(self):
        m = self.mark()
        x = self.predicate()
        if self.p(0.12):
            m2 = self.mark()
            self.kw('IS')
            k = 'is'
            if self.p(0.5):
                self.kw('NOT')
                k = 'is_not'
            op = R(Sym(k), self.since(m2))
            lm = self.mark()
            l = self.truth()
            le = nd('scalar.literal_expression', self.since(lm), value=l)
            x = nd('scalar.binary_expression', self.since(m), operator_kind=op, left=x, right=le)
        return x

    COMP = [('=', 'equals'), ('<>', 'not_equals'), ('!=', 'not_equals_alternative'), ('<', 'less_than'), ('>', 'greater_than'),
            ('<=', 'less_than_or_equals'), ('>=', 'greater_than_or_equals')]
    XCOMP = [('<@', 'contains'), ('@>', 'is_contained_by'), ('&&', 'have_elements_in_common')]

    def not_opt(self):
        if self.p(0.4):
            return R(True, self.kw('NOT'))
        return R(False, ANY)

    def subquery(self):
        """'(' query_expression ')'"""
        self.sym('(')
        q = self.query_expression()
        self.sym(')')
        return q

    def predicate(self):
        m = self.mark()
        self.fuel -= 1
        r = self.rng.random()
        if self.fuel <= 0:
            return self.row_value()
        if r < 0.05:
            w = self.pick(['EXISTS', 'UNIQUE'])
            o = self.kw(w)
            q = self.subquery()
            return nd('scalar.table_predicate', self.since(m), operator_kind=R(Sym(w.lower()), o), operand=q)
        x = self.row_value()
        if r < 0.32:
            s, k = self.pick(self.COMP)
            o = R(Sym(k), self.sym(s))
            y = self.row_value()
            return nd('scalar.comparison_predicate', self.since(m), operator_kind=o, left=x, right=y)
        if r < 0.38:
            s, k = self.pick(self.XCOMP)
            o = R(Sym(k), self.sym(s))
            y = self.row_value()
            return nd('scalar.binary_expression', self.since(m), operator_kind=o, left=x, right=y)
        if r < 0.42:
            s, k = self.pick(self.COMP)
            o = R(Sym(k), self.sym(s))
            w = self.pick(['ALL', 'SOME', 'ANY'])
            q = R(Sym(w.lower()), self.kw(w))
            y = self.subquery()
            return nd('scalar.quantified_comparison_predicate', self.since(m), operator_kind=o, quantifier=q, left=x, right=y)
        if r < 0.5:
            n = self.not_opt()
            self.kw('BETWEEN')
            s = None
            if self.p(0.4):
                w = self.pick(['ASYMMETRIC', 'SYMMETRIC'])
                s = R(Sym(w.lower()), self.kw(w))
            y = self.row_value()
            self.kw('AND')
            z = self.row_value()
            return nd('scalar.between_predicate', self.since(m), target=x, left=y, right=z, operator_kind=s, is_not=n)
        if r < 0.57:
            n = self.not_opt()
            self.kw('IN')
            tm = self.mark()
            if self.p(0.35):
                q = self.subquery()
            else:
                self.sym('(')
                l = self.vlist()
                self.sym(')')
                q = nd('query.table_value_constructor', self.since(tm), elements=l)
            return nd('scalar.in_predicate', self.since(m), left=x, right=q, is_not=n)
        if r < 0.65:
            n = self.not_opt()
            if self.p(0.5):
                o = R(Sym('like'), self.kw('LIKE'))
            else:
                o = R(Sym('similar_to'), self.kw('SIMILAR', 'TO'))
            y = self.row_value()
            e = None
            if self.p(0.4):
                self.kw('ESCAPE')
                e = self.row_value()
            return nd('scalar.pattern_match_predicate', self.since(m), operator_kind=o, match_value=x, pattern=y, escape=e, is_not=n)
        if r < 0.69:
            o = self.kw('OVERLAPS')
            y = self.row_value()
            return nd('scalar.binary_expression', self.since(m), operator_kind=R(Sym('overlaps'), o), left=x, right=y)
        return x

    def row_value(self):
        if self.fuel > 0 and self.p(0.06):
            m = self.mark()
            k = self.kw('ROW')
            self.sym('(')
            l = self.vlist()
            self.sym(')')
            return nd('scalar.value_constructor', self.since(m), operator_kind=R(Sym('row'), k), elements=l)
        return self.scalar()

    def scalar(self):
        self.fuel -= 1
        if self.fuel <= 0 or self.depth > 14 + self.deep:
            return self.primary()
        self.depth += 1
        try:
            return self.e_add()
        finally:
            self.depth -= 1

    ADD = [('+', 'plus'), ('-', 'minus'), ('||', 'concatenation')]
    MUL = [('*', 'asterisk'), ('/', 'solidus'), ('%', 'percent')]

    def e_add(self):
        m = self.mark()
        x = self.e_mul()
        while self.fuel > 0 and self.p(0.2):
            s, k = self.pick(self.ADD)
            o = R(Sym(k), self.sym(s))
            y = self.e_mul()
            x = nd('scalar.binary_expression', self.since(m), operator_kind=o, left=x, right=y)
        return x

    def e_mul(self):
        m = self.mark()
        x = self.e_unary()
        while self.fuel > 0 and self.p(0.18):
            s, k = self.pick(self.MUL)
            o = R(Sym(k), self.sym(s))
            y = self.e_unary()
            x = nd('scalar.binary_expression', self.since(m), operator_kind=o, left=x, right=y)
        return x

    def fold(self, op, x, span):
        """sign folding: a sign directly applied to an unsigned numeric literal becomes part of the literal"""
        if x.cls == 'scalar.literal_expression':
            lit = x.get('value')
            if lit.cls == 'literal.numeric' and lit.get('sign') is None:
                lit.set('sign', op)
                x.span = span
                return x
        return nd('scalar.unary_expression', span, operator_kind=op, operand=x)

    def e_unary(self):
        m = self.mark()
        if self.p(0.1):
            s, k = self.pick([('+', 'plus'), ('-', 'minus')])
            o = R(Sym(k), self.sym(s))
            x = self.e_unary()
            return self.fold(o, x, self.since(m))
        return self.e_tz()

    def e_tz(self):
        m = self.mark()
        x = self.primary()
        r = self.rng.random()
        if self.fuel <= 0:
            return x
        if r < 0.02:
            o = self.kw('AT', 'LOCAL')
            return nd('scalar.unary_expression', self.since(m), operator_kind=R(Sym('at_local'), o), operand=x)
        if r < 0.04:
            o = self.kw('AT', 'TIME', 'ZONE')
            m2 = self.mark()
            if self.p(0.4):
                s, k = self.pick([('+', 'plus'), ('-', 'minus')])
                so = R(Sym(k), self.sym(s))
                y = self.primary()
                y = self.fold(so, y, self.since(m2))
            else:
                y = self.primary()
            return nd('scalar.binary_expression', self.since(m), operator_kind=R(Sym('at_time_zone'), o), left=x, right=y)
        if r < 0.07:
            self.sym('::')
            t = self.data_type()
            return nd('scalar.cast_expression', self.since(m), operator_kind=R(Sym('cast'), ANY), operand=x, type=t)
        return x

    def signed_lit_expr(self):
        m = self.mark()
        if self.p(0.12):
            s, k = self.pick([('+', 'plus'), ('-', 'minus')])
            o = R(Sym(k), self.sym(s))
            x = self.signed_lit_expr()
            return self.fold(o, x, self.since(m))
        return self.lit_expr()

    def lit_expr(self):
        m = self.mark()
        l = self.literal()
        return nd('scalar.literal_expression', self.since(m), value=l)

    def var_ref(self):
        n = self.chain()
        return nd('scalar.variable_reference', n.span, name=n)

    def primary(self):
        m = self.mark()
        x, canchain = self.base()
        while self.fuel > 0 and self.p(0.07):
            self.fuel -= 1
            r = self.rng.random()
            if r < 0.35:
                o = self.sym('[')
                y = self.vexpr()
                self.sym(']')
                x = nd('scalar.binary_expression', self.since(m), operator_kind=R(Sym('element_reference'), o), left=x, right=y)
            elif r < 0.5:
                o = self.sym('->')
                n = self.ident()
                x = nd('scalar.field_reference', self.since(m), operator_kind=R(Sym('arrow'), o), value=x, name=n)
            elif r < 0.65:
                o = self.sym('->')
                n = self.ident()
                a = self.args()
                x = nd('scalar.method_invocation', self.since(m), operator_kind=R(Sym('arrow'), o), value=x, name=n, arguments=a)
            elif canchain == 'var' :
                if r < 0.8:
                    self.sym('::')
                    n = self.ident()
                    a = self.args()
                    t = nd('type.user_defined', x.span, 'user_defined', name=x.get('name'))
                    x = nd('scalar.static_method_invocation', self.since(m), type=t, name=n, arguments=a)
                else:
                    self.sym('.')
                    n = self.ident()
                    sp = self.since(m)
                    a = self.args()
                    q = nd('name.qualified', sp, qualifier=x.get('name'), last=n)
                    x = nd('scalar.function_invocation', self.since(m), name=q, arguments=a)
            elif canchain:
                o = self.sym('.')
                n = self.ident()
                if self.p(0.5):
                    x = nd('scalar.field_reference', self.since(m), operator_kind=R(Sym('period'), o), value=x, name=n)
                else:
                    a = self.args()
                    x = nd('scalar.method_invocation', self.since(m), operator_kind=R(Sym('period'), o), value=x, name=n, arguments=a)
            else:
                break
            canchain = True
        return x

    SETF = [('AVG', 'avg'), ('MAX', 'max'), ('MIN', 'min'), ('SUM', 'sum'), ('EVERY', 'every'), ('BIT_AND', 'bit_and'), ('BIT_OR', 'bit_or'),
            ('BOOL_AND', 'bool_and'), ('BOOL_OR', 'bool_or'), ('COUNT', 'count')]
    SIMPLEF = [('CHAR_LENGTH', 'character_length'), ('CHARACTER_LENGTH', 'character_length'), ('OCTET_LENGTH', 'octet_length'),
               ('CARDINALITY', 'cardinality'), ('ABS', 'abs'), ('CEIL', 'ceil'), ('FLOOR', 'floor'), ('MOD', 'mod'), ('UPPER', 'upper'),
               ('LOWER', 'lower'), ('LENGTH', 'length')]
    EXTRACT = [(['YEAR'], 'year'), (['MONTH'], 'month'), (['DAY'], 'day'), (['HOUR'], 'hour'), (['MINUTE'], 'minute'), (['SECOND'], 'second'),
               (['TIMEZONE_HOUR'], 'timezone_hour'), (['TIMEZONE_MINUTE'], 'timezone_minute'), (['DATE'], 'date'),
               (['YEAR', 'TO', 'MONTH'], 'year_to_month'), (['YEAR', 'TO', 'DAY'], 'year_to_day'), (['YEAR', 'TO', 'HOUR'], 'year_to_hour'),
               (['YEAR', 'TO', 'MINUTE'], 'year_to_minute'), (['YEAR', 'TO', 'SECOND'], 'year_to_second')]

    def set_quantifier(self):
        r = self.rng.random()
        if r < 0.6:
            return None
        w = self.pick(['ALL', 'DISTINCT'])
        return R(Sym(w.lower()), self.kw(w))

    def base(self):
        """returns (node, chainable): chainable False = '.'/'::' must not follow directly"""
        m = self.mark()
        self.fuel -= 1
        r = self.rng.random()
        if self.fuel <= 0 or self.depth > 16 + self.deep:
            if r < 0.5:
                return self.lit_expr(), False
            return self.var_ref(), 'var'
        self.depth += 1
        try:
            return self.base2(m, r)
        finally:
            self.depth -= 1

    def bfi(self, m, fn, sp, args):
        return nd('scalar.builtin_function_invocation', self.since(m), function=R(Sym(fn), sp), arguments=args), True

    def base2(self, m, r):
        if self.php and self.rng.random() < self.php:
            r = 0.56
        if r < 0.26:
            return self.lit_expr(), False
        if r < 0.52:
            return self.var_ref(), 'var'
        if r < 0.54:
            t = ':' + self.pick(['p', 'p1', 'abc', '_x', 'select'])
            sp = self.tok(t, 'host')
            n = nd('name.simple', sp, identifier=t, identifier_kind=Sym('regular'))
            return nd('scalar.host_parameter_reference', self.since(m), name=n), True
        if r < 0.57:
            sp = self.tok('?', 'ph')
            ph = PH(sp[0])
            self.phs.append(ph)
            return nd('scalar.placeholder_reference', self.since(m), index=ph), True
        if r < 0.62:
            n = self.ident()
            a = self.args()
            return nd('scalar.function_invocation', self.since(m), name=n, arguments=a), True
        if r < 0.72:
            self.sym('(')
            k = self.rng.random()
            if k < 0.08:
                e = self.vexpr()
                self.kw('AS')
                t = self.data_type()
                self.sym(')')
                return nd('scalar.cast_expression', self.since(m), operator_kind=R(Sym('generalize'), ANY), operand=e, type=t), True
            l = self.vlist(1, 3)
            self.sym(')')
            if len(l) == 1:
                return l[0], False
            return nd('scalar.value_constructor', self.since(m), operator_kind=R(Sym('row'), ANY), elements=l), True
        if r < 0.72 + self.subq:
            q = self.subquery()
            return nd('scalar.subquery', self.since(m), query=q, context_kind=Sym('scalar')), True
        if r < 0.81:
            k = self.kw('CASE')
            o = None
            if self.p(0.4):
                o = self.vexpr()

            def when():
                wm = self.mark()
                self.kw('WHEN')
                a = self.vexpr()
                self.kw('THEN')
                b = self.vexpr()
                return nd('scalar.case_when_clause', self.since(wm), when=a, result=b)
            ws = self.seplist('when_clause', self.many(1, 3), when, sep=None)
            d = None
            if self.p(0.5):
                self.kw('ELSE')
                d = self.vexpr()
            self.kw('END')
            return nd('scalar.case_expression', self.since(m), operand=o, when_clauses=ws, default_result=d), True
        if r < 0.85:
            w = self.pick(['CAST', 'CAST', 'TREAT'])
            o = self.kw(w)
            self.sym('(')
            e = self.vexpr()
            self.kw('AS')
            t = self.data_type()
            self.sym(')')
            return nd('scalar.cast_expression', self.since(m), operator_kind=R(Sym(w.lower()), o), operand=e, type=t), True
        if r < 0.89:
            w, k = self.pick(self.SETF)
            f = self.kw(w)
            self.sym('(')
            if w == 'COUNT' and self.p(0.5):
                self.sym('*')
                self.sym(')')
                return nd('scalar.builtin_set_function_invocation', self.since(m), function=R(Sym(k), f), quantifier=None, arguments=[]), True
            q = self.set_quantifier()
            e = self.vexpr()
            self.sym(')')
            return nd('scalar.builtin_set_function_invocation', self.since(m), function=R(Sym(k), f), quantifier=q, arguments=[e]), True
        if r < 0.91:
            w, k = self.pick(self.SIMPLEF)
            f = self.kw(w)
            self.sym('(')
            l = self.vlist()
            self.sym(')')
            return self.bfi(m, k, f, l)
        c = int(self.rng.random() * 15)
        if c == 0:
            f = self.kw('NULLIF')
            self.sym('(')
            a = self.vexpr()
            self.sym(',')
            b = self.vexpr()
            self.sym(')')
            return self.bfi(m, 'nullif', f, [a, b])
        if c == 1:
            f = self.kw('COALESCE')
            self.sym('(')
            l = self.vlist()
            self.sym(')')
            return self.bfi(m, 'coalesce', f, l)
        if c == 2:
            self.kw('NEW')
            tm = self.mark()
            n = self.chain()
            t = nd('type.user_defined', self.since(tm), 'user_defined', name=n)
            a = self.args()
            return nd('scalar.new_invocation', self.since(m), type=t, arguments=a), True
        if c == 3:
            k = self.kw('ARRAY')
            self.sym('[')
            l = self.vlist()
            self.sym(']')
            return nd('scalar.value_constructor', self.since(m), operator_kind=R(Sym('array'), k), elements=l), True
        if c == 4:
            o = self.kw('DEREF')
            self.sym('(')
            e = self.vexpr()
            self.sym(')')
            return nd('scalar.unary_expression', self.since(m), operator_kind=R(Sym('reference_resolution'), o), operand=e), True
        if c == 5:
            self.kw('NEXT', 'VALUE', 'FOR')
            f = (self.out[m], self.out[m + 2])
            n = self.chain()
            v = nd('scalar.variable_reference', n.span, name=n)
            return self.bfi(m, 'next_value_for', f, [v])[0], False
        if c == 6:
            f = self.kw('POSITION')
            self.sym('(')
            a = self.scalar()
            self.kw('IN')
            b = self.scalar()
            self.sym(')')
            return self.bfi(m, 'position', f, [a, b])
        if c in (7, 8):
            self.kw('EXTRACT')
            self.sym('(')
            ws, k = self.pick(self.EXTRACT)
            f = self.kw(*ws)
            s = None
            if k in ('second', 'year_to_second') and self.p(0.6):
                self.sym('(')
                s = self.size_flex()
                self.sym(')')
            self.kw('FROM')
            e = self.scalar()
            self.sym(')')
            return nd('scalar.extract_expression', self.since(m), field=R(Sym(k), f), subsecond_digits=s, operand=e), True
        if c == 9:
            f = self.kw('SUBSTRING')
            self.sym('(')
            l = [self.scalar()]
            self.kw('FROM')
            l.append(self.scalar())
            if self.p(0.5):
                self.kw('FOR')
                l.append(self.scalar())
            self.sym(')')
            return self.bfi(m, 'substring', f, l)
        if c == 10:
            w = self.pick(['CONVERT', 'TRANSLATE'])
            f = self.kw(w)
            self.sym('(')
            a = self.scalar()
            self.kw('USING')
            n = self.chain()
            self.sym(')')
            return self.bfi(m, w.lower(), f, [a, nd('scalar.variable_reference', n.span, name=n)])
        if c in (11, 12):
            self.kw('TRIM')
            self.sym('(')
            form = self.rng.randint(0, 4)
            sp = ch = None
            if form in (0, 1):
                w = self.pick(['LEADING', 'TRAILING', 'BOTH'])
                sp = R(Sym(w.lower()), self.kw(w))
            if form in (0, 2):
                ch = self.scalar()
            if form != 4:
                self.kw('FROM')
            e = self.scalar()
            self.sym(')')
            return nd('scalar.trim_expression', self.since(m), specification=sp, character=ch, source=e), True
        if c == 13:
            f = self.kw('OVERLAY')
            self.sym('(')
            l = [self.scalar()]
            self.kw('PLACING')
            l.append(self.scalar())
            self.kw('FROM')
            l.append(self.scalar())
            if self.p(0.5):
                self.kw('FOR')
                l.append(self.scalar())
            self.sym(')')
            return self.bfi(m, 'overlay', f, l)
        w = self.pick(['CURRENT_DATE', 'CURRENT_TIME', 'LOCALTIME', 'CURRENT_TIMESTAMP', 'LOCALTIMESTAMP'])
        f = self.kw(w)
        l = []
        if w != 'CURRENT_DATE' and self.p(0.5):
            self.sym('(')
            l.append(self.vexpr())
            self.sym(')')
        return self.bfi(m, w.lower(), f, l)

    # ---- queries
    def query_expression(self):
        m = self.mark()
        if self.fuel > 0 and self.depth < 10 + self.deep and self.p(0.08):
            self.kw('WITH')
            rec = R(False, ANY)
            if self.p(0.3):
                rec = R(True, self.kw('RECURSIVE'))

            def we():
                wm = self.mark()
                n = self.ident()
                c = self.cols() if self.p(0.4) else []
                self.kw('AS')
                self.sym('(')
                q = self.query_expression()
                self.sym(')')
                return nd('query.with_element', self.since(wm), name=n, expression=q, column_names=c)
            es = self.seplist('with_element', self.many(1, 3), we)
            b = self.query_body(False)
            return nd('query.with_expression', self.since(m), elements=es, expression=b, is_recursive=rec)
        return self.query_body(True)

    def corresponding(self):
        if self.p(0.25):
            m = self.mark()
            self.kw('CORRESPONDING')
            c = []
            if self.p(0.6):
                self.kw('BY')
                c = self.cols()
            return nd('query.corresponding_clause', self.since(m), column_names=c)
        return None

    def query_body(self, root):
        self.depth += 1
        m = self.mark()
        n = 0
        if self.fuel > 0 and self.depth < 10 + self.deep and self.p(0.15):
            n = self.many(1, 3)
        x = self.query_term(root and n == 0)
        for _ in range(n):
            r = self.rng.random()
            if r < 0.45:
                o = R(Sym('union_'), self.kw('UNION'))
            elif r < 0.6:
                o = R(Sym('outer_union'), self.kw('OUTER', 'UNION'))
            else:
                o = R(Sym('except'), self.kw('EXCEPT'))
            q = self.set_quantifier()
            c = self.corresponding()
            y = self.query_term(False)
            x = nd('query.binary_expression', self.since(m), operator_kind=o, left=x, right=y, quantifier=q, corresponding=c)
        self.depth -= 1
        return x

    def query_term(self, root):
        m = self.mark()
        n = 0
        if self.fuel > 0 and self.depth < 10 + self.deep and self.p(0.1):
            n = self.many(1, 2)
        x = self.query_factor(root and n == 0)
        for _ in range(n):
            o = R(Sym('intersect'), self.kw('INTERSECT'))
            q = self.set_quantifier()
            c = self.corresponding()
            y = self.query_factor(False)
            x = nd('query.binary_expression', self.since(m), operator_kind=o, left=x, right=y, quantifier=q, corresponding=c)
        return x

    def query_factor(self, root):
        if not root and self.fuel > 0 and self.p(0.3):
            self.sym('(')
            x = self.query_body(True)
            self.sym(')')
            return x
        return self.query_primary()

    def where_opt(self, pr=0.4):
        if self.p(pr):
            self.kw('WHERE')
            return self.vexpr()
        return None

    def select_element(self):
        m = self.mark()
        r = self.rng.random()
        if r < 0.1:
            self.sym('*')
            return nd('query.select_asterisk', self.since(m), 'asterisk', qualifier=None)
        if r < 0.18:
            q = self.var_ref() if self.p(0.8) else self.qual_chain()
            self.tok('. *', 'multi')
            return nd('query.select_asterisk', self.since(m), 'asterisk', qualifier=q)
        e = self.vexpr()
        n = None
        if self.p(0.35):
            if self.p(0.6):
                self.kw('AS')
            n = self.ident()
        return nd('query.select_column', self.since(m), 'column', value=e, name=n)

    def qual_chain(self):
        m = self.mark()
        n = self.ident()
        a = self.args()
        return nd('scalar.function_invocation', self.since(m), name=n, arguments=a)

    def sort_element(self):
        m = self.mark()
        e = self.vexpr()
        c = self.collate_opt()
        o = n = None
        if self.p(0.4):
            w = self.pick(['ASC', 'DESC'])
            o = R(Sym(w.lower()), self.kw(w))
        if self.p(0.3):
            w = self.pick(['FIRST', 'LAST'])
            n = R(Sym(w.lower()), self.kw('NULLS', w))
        return nd('common.sort_element', self.since(m), key=e, collation=c, direction=o, null_location=n)

    def explicit_row(self):
        m = self.mark()
        r = self.rng.random()
        if r < 0.12 and self.fuel > 0:
            q = self.subquery()
            return nd('scalar.subquery', self.since(m), query=q, context_kind=Sym('row'))
        op = R(Sym('row'), ANY)
        if r < 0.3:
            op = R(Sym('row'), self.kw('ROW'))
        self.sym('(')
        l = self.vlist()
        self.sym(')')
        return nd('scalar.value_constructor', self.since(m), operator_kind=op, elements=l)

    def query_primary(self):
        m = self.mark()
        self.fuel -= 2
        r = self.rng.random()
        if r < 0.08:
            self.kw('TABLE')
            n = self.chain()
            return nd('query.table_reference', self.since(m), name=n)
        if r < 0.18:
            self.kw('VALUES')
            l = self.seplist('row_expression', self.many(1, 4), self.explicit_row)
            return nd('query.table_value_constructor', self.since(m), elements=l)
        self.kw('SELECT')
        self.depth += 1
        q = self.set_quantifier() if self.p(0.4) else None
        l = self.seplist('select_element', self.many(1, 4), self.select_element)
        fr = []
        wh = gr = hv = lm = None
        ob = []
        if self.p(0.75):
            self.kw('FROM')
            fr = self.seplist('table_reference', self.many(1, 3), self.table_ref)
            wh = self.where_opt()
            if self.p(0.2):
                gm = self.mark()
                self.kw('GROUP', 'BY')
                if self.p(0.15):
                    self.sym('(')
                    self.sym(')')
                    gl = []
                else:
                    def ge():
                        em = self.mark()
                        # '(' ')' is the grand total form: never generate an element that looks like it
                        e = self.vexpr()
                        c = self.collate_opt()
                        return nd('query.grouping_column', self.since(em), 'column', column=e, collation=c)
                    gl = self.seplist('grouping_element', self.many(1, 3), ge)
                gr = nd('query.group_by_clause', self.since(gm), elements=gl)
            if self.p(0.12):
                self.kw('HAVING')
                hv = self.vexpr()
            if self.p(0.2):
                self.kw('ORDER', 'BY')
                ob = self.seplist('ordering_element', self.many(1, 3), self.sort_element)
            if self.p(0.15):
                self.kw('LIMIT')
                lm = self.vexpr()
        self.depth -= 1
        x = nd('query.query', self.since(m), elements=l, where=wh, group_by=gr, having=hv, order_by=ob, limit=lm, quantifier=q, **{'from': fr})
        return x

    # ---- tables
    def correlation(self):
        m = self.mark()
        if self.p(0.5):
            self.kw('AS')
        n = self.ident()
        c = self.cols() if self.p(0.25) else []
        return nd('table.correlation_clause', self.since(m), correlation_name=n, column_names=c)

    def table_primary(self):
        m = self.mark()
        self.fuel -= 1
        r = self.rng.random()
        if self.fuel <= 0 or self.depth > 9 + self.deep or r < 0.7:
            n = self.chain()
            c = self.correlation() if self.p(0.35) else None
            return nd('table.table_reference', self.since(m), name=n, correlation=c, is_only=R(False, ANY))
        if r < 0.78:
            lat = R(False, ANY)
            if self.p(0.3):
                lat = R(True, self.kw('LATERAL'))
            q = self.subquery()
            c = self.correlation()
            return nd('table.subquery', self.since(m), expression=q, correlation=c, is_lateral=lat)
        if r < 0.84:
            self.kw('UNNEST')
            self.sym('(')
            e = self.vexpr()
            self.sym(')')
            o = R(False, ANY)
            if self.p(0.4):
                o = R(True, self.kw('WITH', 'ORDINALITY'))
            c = self.correlation()
            return nd('table.unnest', self.since(m), expression=e, with_ordinality=o, correlation=c)
        if r < 0.89:
            k = self.kw('ONLY')
            self.sym('(')
            n = self.chain()
            self.sym(')')
            c = self.correlation() if self.p(0.4) else None
            return nd('table.table_reference', self.since(m), name=n, correlation=c, is_only=R(True, k))
        self.sym('(')
        x = self.table_primary()
        x = self.joins(m + 1, x, 1)
        self.sym(')')
        return x

    JT = [(['JOIN'], 'inner'), (['INNER', 'JOIN'], 'inner'), (['LEFT', 'JOIN'], 'left_outer'), (['LEFT', 'OUTER', 'JOIN'], 'left_outer'),
          (['RIGHT', 'JOIN'], 'right_outer'), (['RIGHT', 'OUTER', 'JOIN'], 'right_outer'), (['FULL', 'JOIN'], 'full_outer'),
          (['FULL', 'OUTER', 'JOIN'], 'full_outer')]

    def joins(self, m, x, n):
        for _ in range(n):
            r = self.rng.random()
            if r < 0.15:
                o = R(Sym('cross'), self.kw('CROSS', 'JOIN'))
                y = self.table_primary()
                x = nd('table.join', self.since(m), operator_kind=o, left=x, right=y, specification=None)
            elif r < 0.28:
                ws, k = self.pick(self.JT)
                o = R(Sym('natural_' + k), self.kw('NATURAL', *ws))
                y = self.table_primary()
                x = nd('table.join', self.since(m), operator_kind=o, left=x, right=y, specification=None)
            elif r < 0.35:
                o = R(Sym('union_'), self.tok('UNION JOIN', 'multi'))
                y = self.table_primary()
                x = nd('table.join', self.since(m), operator_kind=o, left=x, right=y, specification=None)
            elif r < 0.47:
                k = self.rng.randint(0, 2)
                o = None
                if k == 0:
                    self.kw('APPLY')
                elif k == 1:
                    c = self.kw('CROSS')
                    o = R(Sym('cross'), c)
                    self.kw('APPLY')
                else:
                    sp = self.tok('OUTER APPLY', 'multi')
                    o = R(Sym('outer'), ('sub', sp[0], 0, 5))
                f = self.chain()
                a = self.args()
                c = self.correlation()
                x = nd('table.apply', self.since(m), operand=x, operator_kind=o, name=f, arguments=a, correlation=c)
            else:
                ws, k = self.pick(self.JT)
                o = R(Sym(k), self.kw(*ws))
                rm = self.mark()
                y = self.table_primary()
                if self.fuel > 0 and self.p(0.2):
                    y = self.joins(rm, y, 1)
                sm = self.mark()
                if self.p(0.6):
                    self.kw('ON')
                    e = self.vexpr()
                    s = nd('table.join_condition', self.since(sm), 'condition', expression=e)
                else:
                    self.kw('USING')
                    c = self.cols()
                    s = nd('table.join_columns', self.since(sm), 'columns', columns=c)
                x = nd('table.join', self.since(m), operator_kind=o, left=x, right=y, specification=s)
        return x

    def table_ref(self):
        m = self.mark()
        x = self.table_primary()
        n = 0
        if self.fuel > 0 and self.depth < 10 + self.deep and self.p(0.35):
            n = self.many(1, 3)
        return self.joins(m, x, n)

    # ---- statements
    def statement(self, kinds=None):
        k = self.pick(kinds or self.KINDS)
        return getattr(self, 'st_' + k)()

    def st_select(self):
        m = self.mark()
        q = self.query_expression()
        return nd('statement.select_statement', self.since(m), expression=q, targets=[])

    def st_empty(self):
        return nd('statement.empty_statement', ZERO)

    def st_insert(self):
        m = self.mark()
        r = self.rng.random()
        opts = []
        if r < 0.5:
            self.kw('INSERT')
        elif r < 0.65:
            opts = [R(Sym('or_replace'), self.kw('INSERT', 'OR', 'REPLACE'))]
        elif r < 0.75:
            opts = [R(Sym('or_ignore'), self.kw('INSERT', 'OR', 'IGNORE'))]
        elif r < 0.87:
            opts = [R(Sym('or_ignore'), self.kw('INSERT', 'IF', 'NOT', 'EXISTS'))]
        else:
            opts = [R(Sym('or_replace'), self.kw('UPDATE', 'OR', 'INSERT'))]
        self.kw('INTO')
        t = self.chain()
        c = self.cols() if self.p(0.6) else []
        if self.p(0.12):
            self.kw('DEFAULT', 'VALUES')
            q = None
        else:
            q = self.query_expression()
        return nd('statement.insert_statement', self.since(m), table_name=t, columns=c, expression=q, options=opts)

    def dml_where(self):
        r = self.rng.random()
        if r < 0.4:
            return None
        self.kw('WHERE')
        if r < 0.55:
            m = self.mark()
            self.kw('CURRENT')
            self.kw('OF')
            n = self.ident()
            return nd('scalar.current_of_cursor', self.since(m), name=n)
        return self.vexpr()

    def alias_opt(self):
        r = self.rng.random()
        if r < 0.6:
            return None
        if r < 0.8:
            self.kw('AS')
        return self.ident()

    def st_update(self):
        m = self.mark()
        self.kw('UPDATE')
        t = self.chain()
        a = self.alias_opt()
        self.kw('SET')

        def sc():
            sm = self.mark()
            n = self.chain(2)
            self.sym('=')
            e = self.vexpr()
            return nd('statement.set_element', ANY, target=n, value=e)
        es = self.seplist('set_clause', self.many(1, 4), sc)
        w = self.dml_where()
        return nd('statement.update_statement', self.since(m), table_name=t, alias_name=a, elements=es, where=w)

    def st_delete(self):
        m = self.mark()
        self.kw('DELETE', 'FROM')
        t = self.chain()
        a = self.alias_opt()
        w = self.dml_where()
        return nd('statement.delete_statement', self.since(m), table_name=t, alias_name=a, where=w)

    # statements which are mostly one expression, or mostly types and literals
    def st_xexpr(self):
        m = self.mark()
        self.kw('DELETE', 'FROM')
        t = self.ident()
        self.kw('WHERE')
        w = self.vexpr()
        return nd('statement.delete_statement', self.since(m), table_name=t, alias_name=None, where=w)

    def st_xlit(self):
        m = self.mark()
        self.kw('VALUES')

        def row():
            em = self.mark()
            self.sym('(')

            def one():
                if self.p(0.5):
                    return self.signed_lit_expr()
                im = self.mark()
                w = self.pick(['CAST', 'TREAT'])
                o = self.kw(w)
                self.sym('(')
                e = self.signed_lit_expr()
                self.kw('AS')
                ty = self.data_type()
                self.sym(')')
                return nd('scalar.cast_expression', self.since(im), operator_kind=R(Sym(w.lower()), o), operand=e, type=ty)
            l = self.seplist('scalar_expression', self.many(1, 6), one)
            self.sym(')')
            return nd('scalar.value_constructor', self.since(em), operator_kind=R(Sym('row'), ANY), elements=l)
        l = self.seplist('row_expression', self.many(1, 3), row)
        q = nd('query.table_value_constructor', self.since(m), elements=l)
        return nd('statement.select_statement', self.since(m), expression=q, targets=[])

    def st_xtype(self):
        m = self.mark()
        self.kw('CREATE', 'TABLE')
        first = self.out[m]
        n = self.chain(2)
        self.sym('(')

        def col():
            cm = self.mark()
            c = self.ident()
            f = self.out[cm]
            ty = self.data_type()
            return nd('statement.column_definition', self.since(cm), name=c, type=ty, constraints=[], description=Desc(f))
        es = self.seplist('table_element_definition', self.many(1, 6), col)
        self.sym(')')
        return nd('statement.table_definition', self.since(m), name=n, elements=es, options=[], parameters=[], description=Desc(first))

    def if_(self, words, pr=0.35):
        if self.p(pr):
            return R(True, self.kw(*words))
        return R(False, ANY)

    def index_values(self):
        if self.p(0.3):
            self.kw('INCLUDE')
            self.sym('(')
            r = []
            if self.p(0.85):
                r = self.slist(1, 3)
            self.sym(')')
            return r
        return []

    def storage(self):
        if self.p(0.25):
            self.kw('WITH')
            self.sym('(')
            r = []
            if self.p(0.85):
                def sp():
                    m = self.mark()
                    n = self.chain(2)
                    v = None
                    if self.p(0.6):
                        self.sym('=')
                        v = self.scalar()
                    return nd('statement.storage_parameter', self.since(m), name=n, value=v)
                r = self.seplist('storage_parameter', self.many(1, 3), sp)
            self.sym(')')
            return r
        return []

    RACT = [(['CASCADE'], 'cascade'), (['SET', 'NULL'], 'set_null'), (['SET', 'DEFAULT'], 'set_default'), (['RESTRICT'], 'restrict'), (['NO', 'ACTION'], 'no_action')]

    def ref_actions(self):
        d = {'UPDATE': None, 'DELETE': None}
        ks = []
        r = self.rng.random()
        if r < 0.25:
            ks = ['UPDATE']
        elif r < 0.5:
            ks = ['DELETE']
        elif r < 0.6:
            ks = ['UPDATE', 'DELETE']
        elif r < 0.7:
            ks = ['DELETE', 'UPDATE']
        for k in ks:
            self.kw('ON', k)
            ws, a = self.pick(self.RACT)
            d[k] = R(Sym(a), self.kw(*ws))
        return d

    def referential(self, m, cols):
        self.kw('REFERENCES')
        t = self.chain()
        c = self.cols() if self.p(0.5) else []
        a = self.ref_actions()
        return nd('statement.referential_constraint', self.since(m), 'referential', columns=cols, target=t, target_columns=c, on_update=a['UPDATE'], on_delete=a['DELETE'])

    def table_constraint(self):
        m = self.mark()
        r = self.rng.random()
        if r < 0.25:
            k = self.kw('CHECK')
            self.sym('(')
            e = self.scalar()
            self.sym(')')
            return nd('statement.expression_constraint', self.since(m), 'check', constraint_kind=R(Sym('check'), k), expression=e)
        if r < 0.75:
            if r < 0.5:
                k, kk = self.kw('UNIQUE'), 'unique'
            else:
                k, kk = self.kw('PRIMARY', 'KEY'), 'primary_key'
            self.sym('(')
            l = self.seplist('ordering_element', self.many(1, 3), self.sort_element)
            self.sym(')')
            v = self.index_values()
            p = self.storage()
            return nd('statement.key_constraint', self.since(m), kk, constraint_kind=R(Sym(kk), k), key=l, values=v, parameters=p)
        self.kw('FOREIGN', 'KEY')
        c = self.cols()
        return self.referential(m, c)

    def seq_opts(self, full):
        """list of (field, value) each at most once, in random order"""
        d = {}
        ks = ['initial_value', 'increment_value', 'min_value', 'max_value', 'cycle'] + (['type', 'owner'] if full else [])
        self.rng.shuffle(ks)
        for k in ks:
            if not self.p(0.35):
                continue
            if k == 'type':
                self.kw('AS')
                d[k] = self.data_type()
            elif k == 'owner':
                self.kw('OWNED', 'BY')
                d[k] = self.chain()
            elif k == 'initial_value':
                self.kw('START')
                if self.p(0.5):
                    self.kw('WITH')
                d[k] = self.scalar()
            elif k == 'increment_value':
                self.kw('INCREMENT')
                if self.p(0.5):
                    self.kw('BY')
                d[k] = self.scalar()
            elif k in ('min_value', 'max_value'):
                w = 'MINVALUE' if k == 'min_value' else 'MAXVALUE'
                if self.p(0.3):
                    self.kw('NO', w)
                    d[k] = None
                else:
                    self.kw(w)
                    d[k] = self.scalar()
            else:
                if self.p(0.5):
                    self.kw('NO')
                    d[k] = R(False, self.kw('CYCLE'))
                else:
                    d[k] = R(True, self.kw('CYCLE'))
        return d

    def column_constraint_body(self):
        m = self.mark()
        r = int(self.rng.random() * 10)
        if r == 0:
            k = self.kw('NULL')
            return nd('statement.simple_constraint', self.since(m), 'null', constraint_kind=R(Sym('null'), k))
        if r == 1:
            k = self.kw('NOT', 'NULL')
            return nd('statement.simple_constraint', self.since(m), 'not_null', constraint_kind=R(Sym('not_null'), k))
        if r == 2:
            k = self.kw('CHECK')
            self.sym('(')
            e = self.scalar()
            self.sym(')')
            return nd('statement.expression_constraint', self.since(m), 'check', constraint_kind=R(Sym('check'), k), expression=e)
        if r == 3:
            k = self.kw('DEFAULT')
            e = self.scalar()
            return nd('statement.expression_constraint', self.since(m), 'default_clause', constraint_kind=R(Sym('default_clause'), k), expression=e)
        if r == 4:
            k = self.kw('GENERATED')
            self.kw('ALWAYS', 'AS')
            self.sym('(')
            e = self.scalar()
            self.sym(')')
            return nd('statement.expression_constraint', self.since(m), 'generation_clause', constraint_kind=R(Sym('generation_clause'), k), expression=e)
        if r in (5, 6):
            self.kw('GENERATED')
            if self.p(0.5):
                g = R(Sym('always'), self.kw('ALWAYS'))
            else:
                g = R(Sym('by_default'), self.kw('BY', 'DEFAULT'))
            self.kw('AS', 'IDENTITY')
            d = {}
            if self.p(0.6):
                self.sym('(')
                d = self.seq_opts(False)
                self.sym(')')
            return nd('statement.identity_constraint', self.since(m), 'identity_column', generation=g, initial_value=d.get('initial_value'),
                      increment_value=d.get('increment_value'), min_value=d.get('min_value'), max_value=d.get('max_value'), cycle=d.get('cycle'))
        if r in (7, 8):
            if r == 7:
                k, kk = self.kw('UNIQUE'), 'unique'
            else:
                k, kk = self.kw('PRIMARY', 'KEY'), 'primary_key'
            v = self.index_values()
            p = self.storage()
            return nd('statement.key_constraint', self.since(m), kk, constraint_kind=R(Sym(kk), k), key=[], values=v, parameters=p)
        return self.referential(m, [])

    def table_element(self):
        m = self.mark()
        self.fuel -= 1
        if self.p(0.75):
            n = self.ident()
            first = self.out[m]
            t = self.data_type()

            def cc():
                cm = self.mark()
                nm = None
                if self.p(0.25):
                    self.kw('CONSTRAINT')
                    nm = self.chain()
                b = self.column_constraint_body()
                return nd('statement.column_constraint_definition', self.since(cm), name=nm, body=b)
            cs = self.seplist('column_constraint_definition', self.many(0, 3), cc, sep=None)
            return nd('statement.column_definition', self.since(m), name=n, type=t, constraints=cs, description=Desc(first))
        nm = None
        if self.p(0.4):
            self.kw('CONSTRAINT')
            nm = self.chain()
        b = self.table_constraint()
        return nd('statement.table_constraint_definition', self.since(m), 'constraint_definition', name=nm, body=b)

    INE = ['IF', 'NOT', 'EXISTS']

    def st_create_table(self):
        m = self.mark()
        self.kw('CREATE')
        first = self.out[m]
        tmp = self.if_(['TEMPORARY'], 0.2)
        self.kw('TABLE')
        ine = self.if_(self.INE)
        n = self.chain()
        self.sym('(')
        es = self.seplist('table_element_definition', self.many(1, 5) if self.p(0.93) else 0, self.table_element)
        self.sym(')')
        p = self.storage()
        opts = []
        if ine.v:
            opts.append(R(Sym('if_not_exists'), ine.span))
        if tmp.v:
            opts.append(R(Sym('temporary'), tmp.span))
        return nd('statement.table_definition', self.since(m), name=n, elements=es, options=opts, parameters=p, description=Desc(first))

    def st_create_index(self):
        m = self.mark()
        self.kw('CREATE')
        first = self.out[m]
        u = self.if_(['UNIQUE'], 0.3)
        self.kw('INDEX')
        ine = self.if_(self.INE)
        n = self.chain() if self.p(0.8) else None
        self.kw('ON')
        t = self.chain()
        self.sym('(')
        ks = self.seplist('ordering_element', self.many(1, 3), self.sort_element)
        self.sym(')')
        v = self.index_values()
        p = self.storage()
        w = self.dml_where()
        opts = []
        if u.v:
            opts.append(R(Sym('unique'), u.span))
        if ine.v:
            opts.append(R(Sym('if_not_exists'), ine.span))
        return nd('statement.index_definition', self.since(m), name=n, table_name=t, keys=ks, values=v, predicate=w, options=opts, parameters=p, description=Desc(first))

    def st_create_view(self):
        m = self.mark()
        self.kw('CREATE')
        first = self.out[m]
        opts = []
        if self.p(0.3):
            self.kw('OR')
            opts.append(R(Sym('or_replace'), self.kw('REPLACE')))
        if self.p(0.25):
            opts.append(R(Sym('temporary'), self.kw('TEMPORARY')))
        if self.p(0.25):
            opts.append(R(Sym('recursive'), self.kw('RECURSIVE')))
        self.kw('VIEW')
        if self.p(0.25):
            opts.append(R(Sym('if_not_exists'), self.kw(*self.INE)))
        n = self.chain()
        c = self.cols() if self.p(0.5) else []
        p = self.storage()
        self.kw('AS')
        q = self.query_expression()
        return nd('statement.view_definition', self.since(m), name=n, columns=c, query=q, options=opts, parameters=p, description=Desc(first))

    def st_create_sequence(self):
        m = self.mark()
        self.kw('CREATE')
        first = self.out[m]
        opts = []
        if self.p(0.25):
            opts.append(R(Sym('temporary'), self.kw('TEMPORARY')))
        self.kw('SEQUENCE')
        if self.p(0.25):
            opts.append(R(Sym('if_not_exists'), self.kw(*self.INE)))
        n = self.chain()
        d = self.seq_opts(True)
        c = d.get('cycle')
        if c is not None:
            opts.append(R(Sym('cycle' if c.v else 'no_cycle'), c.span))
        return nd('statement.sequence_definition', self.since(m), name=n, type=d.get('type'), initial_value=d.get('initial_value'),
                  increment_value=d.get('increment_value'), min_value=d.get('min_value'), max_value=d.get('max_value'), owner=d.get('owner'),
                  options=opts, description=Desc(first))

    ELEMS = ['create_table', 'create_index', 'create_view', 'create_sequence']

    def st_create_schema(self):
        m = self.mark()
        self.kw('CREATE')
        first = self.out[m]
        self.kw('SCHEMA')
        opts = []
        if self.p(0.3):
            opts.append(R(Sym('if_not_exists'), self.kw(*self.INE)))
        n = self.chain() if self.p(0.7) else None
        u = None
        if self.p(0.5):
            self.kw('AUTHORIZATION')
            if self.p(0.5):
                u = self.ident()
            else:
                w = self.pick(['CURRENT_ROLE', 'CURRENT_USER', 'SESSION_USER'])
                u = nd('name.simple', self.kw(w), identifier=w.lower(), identifier_kind=Sym('regular'))
        es = self.seplist('schema_element_definition', self.many(0, 3), lambda: self.statement(self.ELEMS), sep=None)
        return nd('statement.schema_definition', self.since(m), name=n, user_name=u, elements=es, options=opts, description=Desc(first))

    def st_alter_table(self):
        m = self.mark()
        self.kw('ALTER', 'TABLE')
        ie = self.if_(['IF', 'EXISTS'])
        n = self.chain()
        am = self.mark()
        self.kw('RENAME')
        if self.p(0.4):
            self.kw('TO')
            r = self.ident()
            a = nd('statement.rename_table_action', self.since(am), 'rename_table', replacement=r)
        else:
            self.kw('COLUMN')
            ce = self.if_(['IF', 'EXISTS'])
            c = self.ident()
            self.kw('TO')
            r = self.ident()
            a = nd('statement.rename_column_action', self.since(am), 'rename_column', if_exists=ce, column_name=c, replacement=r)
        return nd('statement.alter_table_statement', self.since(m), if_exists=ie, name=n, action=a)

    def st_alter_index(self):
        m = self.mark()
        self.kw('ALTER', 'INDEX')
        ie = self.if_(['IF', 'EXISTS'])
        n = self.chain()
        am = self.mark()
        self.kw('RENAME', 'TO')
        r = self.ident()
        a = nd('statement.rename_index_action', self.since(am), 'rename_index', replacement=r)
        return nd('statement.alter_index_statement', self.since(m), if_exists=ie, name=n, action=a)

    def st_drop(self):
        m = self.mark()
        self.kw('DROP')
        w = self.pick(['TABLE', 'INDEX', 'VIEW', 'SEQUENCE', 'SCHEMA'])
        k = self.kw(w)
        kind = 'drop_%s_statement' % w.lower()
        opts = []
        ie = self.if_(['IF', 'EXISTS'])
        if ie.v:
            opts.append(R(Sym('if_exists'), ie.span))
        n = self.chain()
        if self.p(0.4):
            b = self.pick(['CASCADE', 'RESTRICT'])
            opts.append(R(Sym(b.lower()), self.kw(b)))
        return nd('statement.drop_statement', self.since(m), kind, statement_kind=R(Sym(kind), k), name=n, options=opts)

    def st_truncate(self):
        m = self.mark()
        self.kw('TRUNCATE', 'TABLE')
        n = self.chain()
        o = None
        if self.p(0.6):
            w = self.pick(['RESTART', 'CONTINUE'])
            o = R(Sym(w.lower() + '_identity'), self.kw(w, 'IDENTITY'))
        return nd('statement.truncate_table_statement', self.since(m), name=n, identity_column_option=o)

    def privileges(self, m, cls, to):
        self.kw('GRANT' if to == 'TO' else 'REVOKE')

        def act():
            w = self.pick(['SELECT', 'INSERT', 'UPDATE', 'DELETE'])
            sp = self.kw(w)
            return nd('statement.privilege_action', sp, action_kind=R(Sym('delete_' if w == 'DELETE' else w.lower()), sp))
        if self.p(0.2):
            sp = self.kw('ALL', 'PRIVILEGES')
            acts = [nd('statement.privilege_action', sp, action_kind=R(Sym('all_privileges'), sp))]
        else:
            acts = self.seplist('privilege_action', self.many(1, 4), act)
        self.kw('ON')

        def obj():
            om = self.mark()
            k = None
            if self.p(0.5):
                self.kw('TABLE')
                n = self.chain()
                k = R(Sym('table'), self.since(om))
            else:
                n = self.chain()
            return nd('statement.privilege_object', self.since(om), object_kind=k, object_name=n)
        objs = self.seplist('privilege_object', self.many(1, 3), obj)
        self.kw(to)

        def user():
            um = self.mark()
            r = self.rng.random()
            n = None
            if r < 0.5:
                n, k = self.ident(), 'identifier'
            elif r < 0.65:
                self.kw('PUBLIC')
                k = 'public_'
            elif r < 0.8:
                self.kw('CURRENT_USER')
                k = 'current_user'
            else:
                self.sym('*')
                k = 'all_users'
            return nd('statement.privilege_user', self.since(um), user_kind=Sym(k), authorization_identifier=n)
        us = self.seplist('privilege_user', self.many(1, 3), user)
        return nd(cls, self.since(m), actions=acts, objects=objs, users=us)

    def st_grant(self):
        return self.privileges(self.mark(), 'statement.grant_privilege_statement', 'TO')

    def st_revoke(self):
        return self.privileges(self.mark(), 'statement.revoke_privilege_statement', 'FROM')

    KINDS = (['select'] * 4 + ['insert', 'insert', 'update', 'update', 'delete', 'create_table', 'create_table', 'create_index', 'create_view',
             'create_sequence', 'create_schema', 'alter_table', 'alter_index', 'drop', 'drop', 'truncate', 'grant', 'revoke'])

    def unit(self, lo=1, hi=3, kinds=None):
        """a compilation unit: list of statements"""
        n = lo
        while n < hi and self.p(0.3):
            n += 1
        if n > 1 and self.p(0.01):
            n = self.rng.randint(2, 160)
        sts = []
        ev = []
        for i in range(n):
            st = None
            if i:
                st = self.sym(';')
            if self.p(0.02):
                sts.append(self.st_empty())
            else:
                sts.append(self.statement(kinds))
            if i:
                ev.append((i + 1, st, len(self.out)))
        if self.p(0.4):
            t = self.sym(';')
            sts.append(self.st_empty())
            ev.append((n + 1, t, len(self.out)))
        self.lists.append(('statement', ev))
        if sts and sts[-1].cls == 'statement.empty_statement':
            sts.pop()
        return sts


# ---------------------------------------------------------------------------------------------- rendering

WS = [' ', '  ', '\n', '\t', '\r\n', ' \n ', '\x0b', '\x0c', '\r']


class Rendering:
    """places tokens in text; knows every offset, comment and comment separator"""

    def __init__(self, toks, rng=None, style='wild', comments=0.05):
        self.toks = toks
        self.comments = []       # (b, e)
        self.gaps = []           # per gap before token i: list of comment indexes
        parts = []
        pos = 0
        prev = None
        nph = 0
        self.ph_index = {}
        for t in toks:
            text = t.text
            gap = ''
            gapc = []
            if style == 'canon':
                if prev is not None:
                    gap = ' '
            else:
                r = rng.random()
                if r < comments:
                    k = 1 + int(rng.random() * 2) if rng.random() < 0.97 else rng.randint(3, 40)
                    for _ in range(k):
                        gap += rng.choice(['', ' ', '\n'])
                        if prev is not None and not gap and prev[-1] in _SYMCH:
                            gap += ' '
                        c, closed = make_comment(rng)
                        gapc.append((pos + len(gap), pos + len(gap) + len(c)))
                        gap += c + (rng.choice(['\n', '\n', '\r\n']) if not closed else '')
                    gap += rng.choice(['', ' ', '\n'])
                    if gap[-1:] == '/' and text[0] in _SYMCH:
                        gap += ' '
                else:
                    if prev is None:
                        gap = rng.choice(WS) if rng.random() < 0.15 else ''
                    elif need_space(prev, text):
                        gap = ' ' if rng.random() < 0.6 else rng.choice(WS)
                    elif rng.random() < 0.5:
                        gap = '' if rng.random() < 0.6 else rng.choice(WS)
                    else:
                        gap = ' '
                if t.kind == 'kw':
                    q = rng.random()
                    if q < 0.35:
                        text = text.lower()
                    elif q < 0.55:
                        text = ''.join(c.lower() if rng.random() < 0.5 else c for c in text)
                elif t.kind == 'multi':
                    a, b = text.split(' ')
                    if rng.random() < 0.5:
                        a, b = a.lower(), b.lower()
                    sp = rng.choice(WS)
                    if a == '.' and rng.random() < 0.5:
                        sp = ''
                    text = a + sp + b
            self.gaps.append(gapc)
            self.comments.extend(gapc)
            parts.append(gap)
            pos += len(gap)
            t.b = pos
            pos += len(text)
            t.e = pos
            t.out = text
            parts.append(text)
            prev = text
            if t.kind == 'ph':
                nph += 1
                self.ph_index[id(t)] = nph
        tail = ''
        tailc = []
        if style != 'canon':
            if rng.random() < 0.1:
                tail = rng.choice(WS)
            if rng.random() < comments:
                if prev is not None and not tail and prev[-1] in _SYMCH:
                    tail += ' '
                c, closed = make_comment(rng)
                tailc.append((pos + len(tail), pos + len(tail) + len(c)))
                tail += c
                if not closed and rng.random() < 0.7:
                    tail += rng.choice(['\n', '\r\n'])
        self.comments.extend(tailc)
        parts.append(tail)
        self.text = ''.join(parts)
        self.index = {id(t): i for i, t in enumerate(toks)}

    def data(self):
        return self.text.encode('latin-1')

    def region(self, span):
        """'b-e', None (unspecified) or 'ZERO'"""
        if span is ANY or span == ANY:
            return None
        if span is ZERO or span == ZERO:
            return 'ZERO'
        if span[0] == 'sub':
            _, t, off, ln = span
            b = t.b + off
            e = t.e if ln is None else b + ln
            return '%d-%d' % (b, e)
        return '%d-%d' % (span[0].b, span[1].e)

    def description(self, tok):
        """the last doc comment among the comments directly before the token"""
        for b, e in reversed(self.gaps[self.index[id(tok)]]):
            c = self.text[b:e]
            if c.startswith('/**') and c.endswith('*/') and len(c) >= 5:
                return '%d-%d' % (b, e)
        return '~'


def make_comment(rng):
    """returns (text, closed): a line comment is not closed - it needs a line break"""
    r = rng.random()
    body = ''
    if rng.random() < 0.006:
        body = rng.choice(['*', 'x', ' ', '-', "'", '\xe3\x81\x82 ', '/* ']) * rng.choice([63, 64, 65, 255, 256, 1000, 2100, 8200])
    for _ in range(int(rng.random() * 6)):
        body += rng.choice(['a', ' ', '*', 'select', "'", '"', ';', '?', '\xe3\x81\x82', '\x80', '--', '/*', '/', '\t', '$', '\xff', '\r', '\x00', '\xe3\x81', '\x7f'])
    if r < 0.35:
        return '--' + body.rstrip('\r'), False
    if r < 0.5:
        body += rng.choice(['', '\n', '\r\n'])
    body = body.replace('*/', '* /')
    if body.endswith('*') and rng.random() < 0.5:
        body += '*'
    if r < 0.7:
        if body.startswith('/'):
            body = ' ' + body
        return '/*' + body + '*/', True
    if body.startswith('/'):
        body = ' ' + body
    return '/**' + body + '*/', True


def generate(rng, fuel=60, kinds=None, lo=1, hi=3, style='wild', comments=0.05, **kw):
    g = Gen(rng, fuel=fuel, **kw)
    sts = g.unit(lo, hi, kinds)
    rd = Rendering(g.out, rng, style, comments)
    for ph in g.phs:
        ph.index = rd.ph_index[id(ph.tok)]
    ex = Expect()
    ex.put(sts, 'statements')
    return g, sts, rd, ex
