"""literals and types: their texts, and what they denote under the options of the analyzer"""
import datetime

DEFAULTS = {'max_decimal_precision': 38, 'default_decimal_precision': 38, 'max_binary_integer1_precision': 7, 'max_binary_integer2_precision': 15, 'max_binary_integer4_precision': 31,
            'max_binary_integer8_precision': 63, 'max_binary_float4_precision': 25, 'max_binary_float8_precision': 53, 'system_zone_offset': 0,
            'prefer_small_integer_literals': 0, 'prefer_small_character_literals': 0, 'prefer_small_binary_literals': 0, 'prefer_small_decimal_literals': 0,
            'allow_context_independent_null': 0, 'cast_literals_in_context': 1}


class Refused:
    """(code, begin, end): begin and end count from the start of the text"""

    def __init__(self, code, begin, end):
        self.code, self.begin, self.end = code, begin, end


class Value:
    """what a literal denotes. begin: where its expression starts in the text"""

    def __init__(self, value, type, begin=0, may_refuse=None):
        self.value, self.type, self.begin, self.may_refuse = value, type, begin, may_refuse


def exact(rng, o, unsigned=False):
    """(text, meaning)"""
    r = rng.random()
    if r < 0.4:
        b = rng.choice([0, 1, 5, 10, 127, 128, 129, 255, 256, 32767, 32768, 32769, 2147483647, 2147483648, 2147483649, 4294967296, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1,
                        10 ** 18, 10 ** 19, 10 ** 37, 10 ** 38 - 1, 10 ** 38, 2 ** 127, 2 ** 128 - 1])
        digits, frac = str(b), ''
    else:
        p = o['max_decimal_precision']
        n = rng.choice([1, 2, 3, 10, 18, 19, 20, max(1, p - 1), p, p + 1, p + 5])
        digits = ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, n)))
        frac = ''.join(rng.choice('0000123456789') for _ in range(rng.choice([0, 1, 2, max(0, n - len(digits)), rng.randint(0, p + 2)])))
        if rng.random() < 0.2:
            digits = '0'
        if rng.random() < 0.1:
            frac += '0' * rng.randint(1, 5)
    if rng.random() < 0.15:
        digits = '0' * rng.randint(1, 20) + digits
    text = digits + ('.' + frac if frac else '')
    coef, exp = int(digits + frac), -len(frac)
    nd = len(str(coef))
    sign = '' if unsigned else rng.choice(['', '', '-', '+', '- ', '+ '])
    b = len(sign)
    if nd > o['max_decimal_precision'] or -exp > o['max_decimal_precision']:
        return sign + text, Refused('unsupported_decimal_value', b, b + len(text))
    v = -coef if sign[:1] == '-' else coef
    if exp == 0 and -2 ** 63 <= v < 2 ** 63:
        if o['prefer_small_integer_literals']:
            for w, t in ((7, 'int1'), (15, 'int2'), (31, 'int4')):
                if -2 ** w <= v < 2 ** w:
                    return sign + text, Value('int4:%d' % v, t, b)
        return sign + text, Value('int8:%d' % v, 'int8', b)
    return sign + text, Value('decimal:%dE%d' % (v, exp), 'decimal(%s,%d)' % (max(nd, -exp) if o['prefer_small_decimal_literals'] else '*', -exp), b)


def floating(rng, o):
    m = rng.choice(['0', '1', '9', '00', '123456789', '179769313486231570', '1.0', '1.5', '0.1', '2.2250738585072014', '1.7976931348623157', '9007199254740993', '4.9406564584124654']
                   + [''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 25))) + rng.choice(['', '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 25)))]) for _ in range(4)])
    e = rng.choice(['0', '1', '10', '-1', '-10', '+5', '308', '309', '-308', '-324', '-400', '400', '99999', '007', str(rng.randint(-340, 340)), str(rng.randint(-30, 30))])
    text = m + rng.choice('eE') + e
    sign = rng.choice(['', '', '-', '+'])
    b = len(sign)
    x = float(text)
    ref = Refused('unsupported_approximate_number', b, b + len(text))
    if x == float('inf'):
        return sign + text, ref
    zero = not any(c in '123456789' for c in m)
    if x == 0 and not zero:
        return sign + text, ref
    v = -x if sign == '-' else x
    return sign + text, Value('float8:' + chex(v), 'float8', b, ref if 0 < x < 2.2250738585072014e-308 else None)


def chex(x):
    """like printf %a"""
    s = x.hex()
    sign = '-' if s[0] == '-' else ''
    s = s.lstrip('-')
    m, e = s[2:].split('p')
    i, f = m.split('.') if '.' in m else (m, '')
    f = f.rstrip('0')
    return '%s0x%s%sp%s' % (sign, i, '.' + f if f else '', e)


GAPS = [' ', '\n', '  ', ' /* c */ ', ' -- c\n']


def text(rng, o):
    def one():
        return ''.join(rng.choice(['a', 'b', 'B', '%', '_', ' ', "'", '\\', '0', '\t', 'é', '"', 'ー', '--', '/*', ';']) for _ in range(rng.choice([0, 1, 2, 3, 5, 20, 300 if rng.random() < .1 else 4])))
    parts = [one() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    s = ''.join(parts).encode()
    t = ''
    for i, p in enumerate(parts):
        t += (rng.choice(GAPS) if i else '') + "'" + p.replace("'", "''") + "'"
    return t.encode().decode('latin-1'), Value('char:' + s.decode('latin-1'), 'varchar(%s)' % (len(s) if o['prefer_small_character_literals'] else '*'))


def binary(rng, o):
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        parts.append([rng.choice('0123456789abcdefABCDEF') + rng.choice('0123456789abcdefABCDEF') for _ in range(rng.choice([0, 1, 2, 3, 8, 40]))])
    odd = rng.randrange(len(parts)) if rng.random() < 0.1 else None
    t = rng.choice('xX')
    places = []
    for i, p in enumerate(parts):
        body = ''.join((' ' if k and rng.random() < .1 else '') + x for k, x in enumerate(p))
        if i == odd:
            body += rng.choice('0aF')
        t += rng.choice(GAPS) if i else ''
        places.append((len(t), len(t) + len(body) + 2))
        t += "'" + body + "'"
    if odd is not None:
        return t, Refused('malformed_quoted_string', *places[odd])
    h = ''.join(''.join(p) for p in parts).lower()
    return t, Value('octet:' + h, 'varoctet(%s)' % (len(h) // 2 if o['prefer_small_binary_literals'] else '*'))


def a_date(rng):
    """(text, date or None)"""
    y = rng.choice([1, 1970, 1969, 1900, 2000, 2024, 2023, 2100, 9999, rng.randint(1, 9999)])
    m = rng.randint(1, 12) if rng.random() < 0.93 else rng.choice([0, 13, 99])
    d = rng.choice([1, 28, rng.randint(1, 28)]) if rng.random() < 0.8 else rng.choice([0, 29, 30, 31, 32])
    s = '%04d-%02d-%02d' % (y, m, d)
    try:
        return s, datetime.date(y, m, d)
    except ValueError:
        return s, None


def a_time(rng):
    h, m, s = rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 59, rng.randint(0, 59)])
    ok = True
    if rng.random() < 0.1:
        ok = False
        h, m, s = rng.choice([(24, 0, 1), (25, m, s), (h, 60, s), (h, 61, s), (h, m, 61)])
    t = '%02d:%02d:%02d' % (h, m, s)
    ns = 0
    if rng.random() < 0.5:
        f = ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 9)))
        t += '.' + f
        ns = int(f.ljust(9, '0'))
    return t, ((h * 60 + m) * 60 + s, ns) if ok else None


EPOCH = datetime.date(1970, 1, 1).toordinal()


def temporal(rng, o):
    k = rng.choice(['DATE', 'TIME', 'TIMESTAMP', 'TIMESTAMP', 'TIMESTAMP WITH TIME ZONE', 'TIMESTAMP WITH TIME ZONE'])
    word = k if rng.random() < .8 else k.lower()
    head = word + rng.choice(['', ' ', ' '])
    bad = 'unsupported_string_value'
    if k == 'DATE':
        s, d = a_date(rng)
        v = d and Value('date:%d' % (d.toordinal() - EPOCH), 'date')
    elif k == 'TIME':
        s, t = a_time(rng)
        v = t and Value('time:%d' % (t[0] * 10 ** 9 + t[1]), 'time')
    else:
        (a, d), (b, t) = a_date(rng), a_time(rng)
        s = a + ' ' + b
        zone = rng.random() < (0.6 if 'ZONE' in k else 0.05)
        off = o['system_zone_offset'] if 'ZONE' in k else 0
        if zone:
            sign, h, m = rng.choice('+-'), rng.randint(0, 13), rng.choice([0, 0, 30, 59])
            s += '%s%02d:%02d' % (sign, h, m)
            off = (h * 60 + m) * (1 if sign == '+' else -1)
        v = None
        if d and t and not (zone and 'ZONE' not in k):
            v = Value('ts:%d:%d' % ((d.toordinal() - EPOCH) * 86400 + t[0] - off * 60, t[1]), 'tstz' if 'ZONE' in k else 'ts')
    if rng.random() < 0.03:
        s, v = rng.choice(['', 'x', s + 'x', 'x' + s, s[:-1] + ':']), None
    q = "'" + s + "'"
    return head + q, v or Refused(bad, len(head), len(head) + len(q))


def boolean(rng, o):
    w = rng.choice(['TRUE', 'FALSE', 'UNKNOWN', 'true', 'False', 'unknown'])
    return w, Value('null' if w.lower() == 'unknown' else 'bool:' + w.lower(), 'boolean')


def literal(rng, o, unsigned=False):
    return rng.choice([exact, exact, exact, floating, text, text, binary, temporal, temporal, boolean])(rng, o)


# ------------------------------------------------------------------------------------------------ types
def lengths(rng):
    return rng.choice([1, 1, 2, 3, 10, 255, 65535, 4294967296, 0, '*', None])


def a_type(rng, o):
    """(text, type or Refused)"""
    r = rng.random()
    if r < 0.15:
        t, v = rng.choice([('INT', 'int4'), ('INTEGER', 'int4'), ('BIGINT', 'int8'), ('SMALLINT', 'int2'), ('TINYINT', 'int1'), ('REAL', 'float4'), ('DOUBLE', 'float8'), ('DOUBLE PRECISION', 'float8'),
                           ('BOOLEAN', 'boolean'), ('DATE', 'date'), ('TIME', 'time'), ('TIMESTAMP', 'ts'), ('TIME WITH TIME ZONE', 'timetz'), ('TIMESTAMP WITH TIME ZONE', 'tstz'),
                           ('TIME WITHOUT TIME ZONE', 'time'), ('TIMESTAMP WITHOUT TIME ZONE', 'ts'), ('CLOB', 'clob'), ('BLOB', 'blob'), ('CHARACTER LARGE OBJECT', 'clob'), ('BINARY LARGE OBJECT', 'blob'), ('CHAR LARGE OBJECT', 'clob')])
        return t, v
    if r < 0.18:
        t = rng.choice(['INTERVAL', 'ROW(a INT)', 'INT ARRAY[3]', 'VARCHAR(3)[5]', 'nosuch', 's1.nosuch', 'DECIMAL(5)[]'])
        return t, Refused('unsupported_feature', 0, len(t))
    if r < 0.5:
        word, base, vary = rng.choice([('CHAR', 'char', 0), ('CHARACTER', 'char', 0), ('VARCHAR', 'varchar', 1), ('CHAR VARYING', 'varchar', 1), ('CHARACTER VARYING', 'varchar', 1),
                                       ('BINARY', 'octet', 0), ('VARBINARY', 'varoctet', 1), ('BINARY VARYING', 'varoctet', 1)])
        n = lengths(rng)
        if n == '*' and not vary:
            n = 7
        if n is None:
            return word, '%s(%s)' % (base, '*' if vary else 1)
        gap = rng.choice(['', '', ' '])
        t = '%s%s(%s)' % (word, gap, n)
        b = len(word) + len(gap) + 1
        e = b + len(str(n))
        if n == '*':
            return t, '%s(*)' % base
        if n == 0:
            return t, Refused('invalid_type_length', b, e)
        return t, '%s(%d)' % (base, n)
    if r < 0.8:
        word = rng.choice(['DECIMAL', 'NUMERIC', 'DEC'])
        mx = o['max_decimal_precision']
        ps = [1, 2, 5, 18, mx - 1, mx, mx + 1, 0, '*', 100]
        k = rng.choice([0, 1, 2, 2, 2])
        p = s = None
        t = word
        pb = pe = None
        if k:
            p = rng.choice(ps)
            pb = len(t) + 1
            t += '(%s' % p
            pe = len(t)
            if k == 2:
                s = rng.choice([0, 0, 1, 2, 5, p, '*', mx, mx + 1] if p != '*' else [0, 1, mx, mx + 1, '*'])
                t += rng.choice([',', ', '])
                sb = len(t)
                t += str(s)
                se = len(t)
            t += ')'
        eff = p if p is not None else o['default_decimal_precision']
        place = (pb, pe) if p is not None else (0, len(word))
        if eff != '*' and (eff == 0 or eff > mx):
            return t, Refused('invalid_type_length', *place)
        sc = s if s is not None else 0
        if sc != '*' and sc > (mx if eff == '*' else eff):
            return t, Refused('invalid_numeric_scale', sb, se)
        return t, 'decimal(%s,%s)' % (eff, sc)
    # binary precision
    word, limits = rng.choice([('INT', 'integer'), ('INTEGER', 'integer'), ('FLOAT', 'float')])
    if word == 'FLOAT' and rng.random() < 0.1:
        return word, 'float4'
    ls = [(o['max_binary_%s%d_precision' % (limits, n)], 'int%d' % n if limits == 'integer' else 'float%d' % n) for n in ((1, 2, 4, 8) if limits == 'integer' else (4, 8))]
    n = rng.choice([0, 1, 2, 100] + [x + d for x, _ in ls for d in (0, 1)])
    t = '%s(%s)' % (word, n)
    b, e = len(word) + 1, len(t) - 1
    if n == 0:
        return t, Refused('invalid_type_length', b, e)
    for x, v in ls:
        if n <= x:
            return t, v
    return t, Refused('invalid_type_length', b, e)


def options(rng):
    """(options which are given, all of them)"""
    o = dict(DEFAULTS)
    given = {}
    for k in o:
        if rng.random() > 0.3:
            continue
        if k == 'max_decimal_precision':
            v = rng.choice([1, 5, 18, 19, 20, 37, 38, 38])
        elif k == 'default_decimal_precision':
            v = rng.choice([1, 5, 18, 38, '*', 39, 0])
        elif k == 'system_zone_offset':
            v = rng.choice([-720, -1, 0, 1, 60, 540, 840])
        elif k.startswith('max_binary'):
            continue
        else:
            v = rng.randint(0, 1)
        o[k] = given[k] = v
    if rng.random() < 0.2:
        xs = sorted(rng.sample(range(1, 70), 4))
        for n, x in zip((1, 2, 4, 8), xs):
            o['max_binary_integer%d_precision' % n] = given['max_binary_integer%d_precision' % n] = x
    if rng.random() < 0.2:
        xs = sorted(rng.sample(range(1, 70), 2))
        for n, x in zip((4, 8), xs):
            o['max_binary_float%d_precision' % n] = given['max_binary_float%d_precision' % n] = x
    return given, o
