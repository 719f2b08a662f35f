"""Monitors over analyzed plans: well-formedness, and an executor over rows (the meaning of a plan)."""
import collections

IN = {'scan': 0, 'values': 0, 'apply': 1, 'project': 1, 'filter': 1, 'emit': 1, 'write': 1, 'join': 2, 'aggregate': 1, 'distinct': 1,
      'limit': 1, 'union': 2, 'intersection': 2, 'difference': 2, 'extension': 0}


# ---------------------------------------------------------------------------------------------------- well-formedness
class Checker:
    """finds variables which are used where they do not exist, operators which are not connected, and the like"""

    def __init__(self, source=None, flags=None):
        self.bad = []
        self.source = source      # length of the source text
        self.ops = collections.Counter()
        self.exprs = collections.Counter()

    def err(self, key, msg):
        self.bad.append((key, msg))

    def region(self, r, what):
        if r is None or self.source is None:
            return
        if not 0 <= r[0] < r[1] <= self.source:
            self.err('region', '%s stands at %s of a text of %d bytes' % (what, r, self.source))

    def graph(self, ops, out=None, outer=frozenset()):
        """checks a graph; out: the operator with the open output (None: a plan, ends with emit or write). -> variables at the end"""
        by = {o['id']: o for o in ops}
        if len(by) != len(ops):
            self.err('ids', 'operators are repeated')
            return set()
        ends = 0
        for o in ops:
            self.ops[o['k']] += 1
            k = o['k']
            if k not in IN:
                self.err('operator', 'unexpected operator ' + k)
                return set()
            if len(o['in']) != IN[k] or o['nout'] != (0 if k in ('emit', 'write') else 1):
                self.err('ports', '%s has %d inputs and %d outputs' % (k, len(o['in']), o['nout']))
                return set()
            for i in o['in']:
                if i < 0 or i not in by:
                    self.err('unconnected-input', 'an input of %s is not connected' % k)
                    return set()
                if o['id'] not in by[i]['outs']:
                    self.err('one-way', '%s reads %s, which does not know' % (k, by[i]['k']))
            for i in o['outs']:
                if i < 0:
                    ends += 1
                    if o['id'] != out:
                        self.err('unconnected-output', 'the output of %s is not connected' % k)
                        return set()
                elif i not in by or o['id'] not in by[i]['in']:
                    self.err('one-way', '%s feeds something which does not know' % k)
                    return set()
            if k in ('emit', 'write'):
                if out is not None:
                    self.err('terminal', '%s in a subquery' % k)
                ends += 1
            self.region(o['r'], k)
        if ends != 1:
            self.err('ends', 'there are %d ends' % ends)
            return set()
        if out is None and not any(o['k'] in ('emit', 'write') for o in ops):
            self.err('ends', 'there is no emit or write')
            return set()
        avail = {}
        defined = collections.Counter()
        done = []
        state = {}

        def visit(i):
            if state.get(i) == 1:
                self.err('cycle', 'the plan is cyclic')
                return False
            if state.get(i) == 2:
                return True
            state[i] = 1
            for j in by[i]['in']:
                if not visit(j):
                    return False
            state[i] = 2
            done.append(i)
            return True
        for i in by:
            if not visit(i):
                return set()
        for i in done:
            avail[i] = self.op(by[i], [avail[j] for j in by[i]['in']], defined, outer)
        for v, n in defined.items():
            if n > 1:
                self.err('defined-twice', 'variable %s is defined %d times' % (v, n))
        last = out if out is not None else next(o['id'] for o in ops if o['k'] in ('emit', 'write'))
        if len(done) != len(ops):
            self.err('unreachable', 'some operators have no effect')
        return avail.get(last, set())

    def use(self, v, avail, what):
        if v.startswith('h:'):
            return
        if v not in avail:
            self.err('undefined-variable', '%s uses %s, which is not defined there' % (what, v))

    def op(self, o, ins, defined, outer):
        k = o['k']
        up = set().union(*ins) | outer if ins else set(outer)

        def define(v, s):
            if not v.startswith('s'):
                self.err('not-a-stream-variable', '%s defines %s' % (k, v))
            defined[v] += 1
            s.add(v)
        if k == 'scan':
            s = set(outer)
            for c, v in o['cols']:
                if not c.startswith('c:' + o['src'] + '.'):
                    self.err('scan', 'the scan of %s reads %s' % (o['src'], c))
                define(v, s)
            if not o['primary'] or not o['plain']:
                self.err('scan', 'the scan is not over a whole primary index')
            return s
        if k == 'values':
            s = set(outer)
            for r in o['rows']:
                if len(r) != len(o['cols']):
                    self.err('values', 'a row has %d values for %d columns' % (len(r), len(o['cols'])))
                for e in r:
                    self.scalar(e, up, 'values')
            for v in o['cols']:
                define(v, s)
            return s
        if k == 'apply':
            for e in o['args']:
                self.scalar(e, up, k)
            s = set(up)
            for _, v in o['cols']:
                define(v, s)
            return s
        if k == 'project':
            s = set(up)
            for v, e in o['cols']:
                self.scalar(e, s, k)
                define(v, s)
            return s
        if k == 'filter':
            self.scalar(o['cond'], up, k)
            return up
        if k == 'emit':
            for v, _ in o['cols']:
                self.use(v, up, k)
            if not o['cols']:
                self.err('emit', 'emits no column')
            return set()
        if k == 'write':
            for key in ('keys', 'cols'):
                for v, c in o[key]:
                    self.use(v, up, k)
                    if not c.startswith('c:'):
                        self.err('write', 'writes to %s' % c)
                cs = [c for _, c in o[key]]
                if len(set(cs)) != len(cs):
                    self.err('write', 'writes a column twice: %s' % cs)
            return set()
        if k == 'join':
            if ins[0] & ins[1] - outer:
                self.err('join', 'both sides of a join define %s' % (ins[0] & ins[1] - outer))
            if o['cond'] is not None:
                self.scalar(o['cond'], up, k)
            return up
        if k == 'aggregate':
            s = set(outer)
            for v in o['keys']:
                self.use(v, up, k)
                s.add(v)
            for _, args, v in o['cols']:
                for a in args:
                    self.use(a, up, k)
                define(v, s)
            return s
        if k == 'distinct':
            for v in o['keys']:
                self.use(v, up, k)
            return up
        if k == 'limit':
            for v in o['keys'] + [x for x, _ in o['sort']]:
                self.use(v, up, k)
            if o['count'] is None and not o['sort']:
                self.err('limit', 'limits nothing')
            return up
        if k == 'union':
            s = set(outer)
            for a, b, v in o['maps']:
                if a is None or b is None:
                    self.err('union', 'a side is missing')
                else:
                    self.use(a, ins[0] | outer, k)
                    self.use(b, ins[1] | outer, k)
                define(v, s)
            return s
        if k in ('intersection', 'difference'):
            for a, b in o['pairs']:
                self.use(a, ins[0] | outer, k)
                self.use(b, ins[1] | outer, k)
            return set(ins[0])
        if k == 'extension':
            inner = self.graph(o['sub']['graph'], o['sub']['out'])
            s = set(outer)
            for a, v in o['maps']:
                self.use(a, inner, 'subquery')
                define(v, s)
            return s

    def scalar(self, e, avail, where):
        if e is None:
            self.err('operand', 'an operand in %s is missing' % where)
            return
        k = e[0]
        self.exprs[k] += 1
        self.region(e[1], 'expression ' + k)
        a = e[2:]
        if k == 'imm':
            return
        if k == 'var':
            self.use(a[0], avail, where)
        elif k in ('un', 'bin', 'cmp'):
            for x in a[1:]:
                self.scalar(x, avail, where)
        elif k == 'cast':
            self.scalar(a[2], avail, where)
        elif k == 'match':
            for x in a[1:]:
                if x is not None:
                    self.scalar(x, avail, where)
        elif k == 'if':
            for c, b in a[0]:
                self.scalar(c, avail, where)
                self.scalar(b, avail, where)
            if a[1] is not None:
                self.scalar(a[1], avail, where)
        elif k == 'coalesce':
            for x in a[0]:
                self.scalar(x, avail, where)
        elif k == 'let':
            s = set(avail)
            for v, x in a[0]:
                self.scalar(x, s, where)
                if v in s:
                    self.err('defined-twice', 'local variable %s hides another' % v)
                s.add(v)
            self.scalar(a[1], s, where)
        elif k == 'call':
            for x in a[1]:
                self.scalar(x, avail, where)
        elif k == 'aggcall':
            self.err('set-function', 'a set function is left in %s' % where)
        elif k in ('subquery', 'exists', 'qcmp'):
            if k == 'qcmp':
                self.scalar(a[2], avail, where)
                a = a[3:]
            g, params = a[0], a[-1]
            s = set()
            for x, v in params:
                self.use(x, avail, where)
                s.add(v)
            inner = self.graph(g['graph'], g['out'], frozenset(s))
            if k != 'exists':
                self.use(a[1], inner, 'subquery')
        else:
            self.err('expression', 'unexpected expression ' + k)


def check(graph, source=None):
    c = Checker(source)
    c.graph(graph)
    return c


# ---------------------------------------------------------------------------------------------------- execution
class Runtime(Exception):
    """the plan cannot be executed (a subquery with several rows, say)"""


def not3(x):
    return None if x is None else not x


def and3(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def or3(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else False


def cmp3(op, a, b):
    if a is None or b is None:
        return None
    return {'equal': a == b, 'not_equal': a != b, 'less': a < b, 'less_equal': a <= b, 'greater': a > b, 'greater_equal': a >= b}[op]


def tdiv(a, b):
    if b == 0:
        return None
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b):
    """arithmetics of the test; division by zero gives null"""
    if a is None or b is None:
        return None
    if op in ('divide', 'remainder'):
        q = tdiv(a, b)
        return q if q is None or op == 'divide' else a - q * b
    return {'add': lambda: a + b, 'subtract': lambda: a - b, 'multiply': lambda: a * b, 'concat': lambda: a + b}[op]()


def like(s, p, esc):
    """LIKE; an empty escape is none"""
    if s is None or p is None or esc is None:
        return None
    import re
    out = []
    i = 0
    while i < len(p):
        c = p[i]
        if esc and c == esc and i + 1 < len(p):
            out.append(re.escape(p[i + 1]))
            i += 2
            continue
        out.append('.*' if c == '%' else '.' if c == '_' else re.escape(c))
        i += 1
    return re.fullmatch(''.join(out), s, re.S) is not None


def similar(s, p, esc):
    """any fixed function will do"""
    if s is None or p is None or esc is None:
        return None
    return (len(s) * 7 + len(p) * 3 + len(esc) + sum(map(ord, s + p))) % 3 == 0


def quantified(op, quantifier, left, values):
    r = [cmp3(op, left, v) for v in values]
    if quantifier == 'any':
        return True if True in r else None if None in r else False
    return False if False in r else None if None in r else True


def cast(v, ty):
    if v is None:
        return None
    if ty.startswith('int'):
        return int(v)
    if ty.startswith(('varchar', 'char')):
        return ('true' if v else 'false') if isinstance(v, bool) else str(v)
    if ty == 'boolean':
        return v if isinstance(v, bool) else v == 'true' if isinstance(v, str) else v != 0
    raise Runtime('cast to ' + ty)


def value(text):
    """an immediate value"""
    k, _, t = text.partition(':')
    if text == 'null':
        return None
    if k in ('int4', 'int8'):
        return int(t)
    if k == 'bool':
        return t == 'true'
    if k == 'char':
        return t
    return text


def sort_key(v, desc=False):
    a = (0, 0) if v is None else (1, v)
    return Rev(a) if desc else a


class Rev:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return o.k < self.k

    def __eq__(self, o):
        return o.k == self.k


def outvars(by, i):
    """the variables an operator hands on, in order"""
    o = by[i]
    k = o['k']
    if k in ('scan', 'apply', 'project'):
        own = [v if k != 'project' else c for c, v in o['cols']]
        return (outvars(by, o['in'][0]) if o['in'] else []) + own
    if k == 'values':
        return list(o['cols'])
    if k == 'join':
        return outvars(by, o['in'][0]) + outvars(by, o['in'][1])
    if k == 'aggregate':
        return o['keys'] + [v for _, _, v in o['cols']]
    if k in ('union', 'extension'):
        return [m[-1] for m in o['maps']]
    return outvars(by, o['in'][0])


class Executor:
    """executes a plan over tables: {name: [{column: value}]}"""

    def __init__(self, tables, functions, aggregates, tablefns, host=None, limit=20000):
        self.tables = tables
        self.functions = functions      # id -> f(args)
        self.aggregates = aggregates    # id -> f(list of argument tuples)
        self.tablefns = tablefns        # id -> f(args) -> rows
        self.host = host or {}
        self.budget = limit
        self.writes = []                # (kind, table, keys, cols, rows)
        self.ops = collections.Counter()

    def spend(self, n):
        self.budget -= n + 1
        if self.budget < 0:
            raise Runtime('budget')

    def plan(self, ops):
        """-> (column names, rows in order) of an emit; ([], []) after a write"""
        last = next(o for o in ops if o['k'] in ('emit', 'write'))
        rows = self.run(ops, last['in'][0], {})
        if last['k'] == 'write':
            def item(pairs):
                return [c[2:] for _, c in pairs]
            self.writes.append((last['kind'], last['dst'], item(last['keys']), item(last['cols']),
                                [tuple(r[v] for v, _ in last['keys'] + last['cols']) for r in rows]))
            return [], []
        self.ops['emit'] += 1
        return [n for _, n in last['cols']], [tuple(r[v] for v, _ in last['cols']) for r in rows]

    def run(self, ops, end, env):
        """rows at the output of an operator"""
        by = {o['id']: o for o in ops}
        memo = {}

        def go(i):
            if i not in memo:
                o = by[i]
                memo[i] = self.op(o, [go(j) for j in o['in']], env, by)
                self.ops[o['k']] += 1
                self.spend(len(memo[i]))
            return memo[i]
        return go(end)

    def var(self, v, row):
        if v.startswith('h:'):
            return self.host[v[2:]]
        return row[v]

    def op(self, o, ins, env, by):
        k = o['k']
        if k == 'scan':
            pre = 'c:' + o['src'] + '.'
            cols = [(c[len(pre):], v) for c, v in o['cols']]
            return [dict(env, **{v: r[c] for c, v in cols}) for r in self.tables[o['src']]]
        if k == 'values':
            return [dict(env, **{v: self.ev(e, env) for v, e in zip(o['cols'], r)}) for r in o['rows']]
        if k == 'project':
            res = []
            for r in ins[0]:
                r = dict(r)
                for v, e in o['cols']:
                    r[v] = self.ev(e, r)
                res.append(r)
            return res
        if k == 'filter':
            return [r for r in ins[0] if self.ev(o['cond'], r) is True]
        if k == 'join':
            left, right = ins
            res = []
            hit = set()
            self.spend(len(left) * len(right))
            for a in left:
                found = False
                for j, b in enumerate(right):
                    m = dict(a)
                    m.update(b)
                    if o['cond'] is None or self.ev(o['cond'], m) is True:
                        res.append(m)
                        found = True
                        hit.add(j)
                if not found and o['kind'] in ('left_outer', 'full_outer'):
                    res.append(dict(a, **{v: None for v in outvars(by, o['in'][1])}))
            if o['kind'] == 'full_outer':
                for j, b in enumerate(right):
                    if j not in hit:
                        res.append(dict(b, **{v: None for v in outvars(by, o['in'][0])}))
            if o['kind'] not in ('inner', 'left_outer', 'full_outer'):
                raise Runtime('join ' + o['kind'])
            return res
        if k == 'apply':
            fn = self.tablefns[int(o['fn'].rsplit('#', 1)[1])]
            res = []
            for r in ins[0]:
                rows = fn([self.ev(e, r) for e in o['args']])
                self.spend(len(rows))
                if not rows and o['kind'] == 'outer':
                    rows = [None]
                for x in rows:
                    m = dict(r)
                    for p, v in o['cols']:
                        m[v] = None if x is None else x[p]
                    res.append(m)
            return res
        if k == 'aggregate':
            groups = {}
            for r in ins[0]:
                groups.setdefault(tuple(self.hashable(r[v]) for v in o['keys']), []).append(r)
            if not o['keys'] and not groups:
                groups[()] = []
            res = []
            for rows in groups.values():
                m = dict(env)
                for v in o['keys']:
                    m[v] = rows[0][v]
                for fn, args, v in o['cols']:
                    m[v] = self.aggregates[int(fn.rsplit('#', 1)[1])]([tuple(r[a] for a in args) for r in rows])
                res.append(m)
            return res
        if k == 'distinct':
            seen = {}
            for r in ins[0]:
                seen.setdefault(tuple(self.hashable(r[v]) for v in o['keys']), r)
            return list(seen.values())
        if k == 'limit':
            rows = list(ins[0])
            for v, d in reversed(o['sort']):
                rows.sort(key=lambda r: sort_key(r[v], d == 'descendant'))
            if o['count'] is None:
                return rows
            if o['keys']:
                n = collections.Counter()
                res = []
                for r in rows:
                    g = tuple(self.hashable(r[v]) for v in o['keys'])
                    n[g] += 1
                    if n[g] <= o['count']:
                        res.append(r)
                return res
            return rows[:o['count']]
        if k == 'union':
            rows = [dict(env, **{v: r[a] for a, b, v in o['maps']}) for r in ins[0]] + [dict(env, **{v: r[b] for a, b, v in o['maps']}) for r in ins[1]]
            if o['q'] == 'all':
                return rows
            seen = {}
            for r in rows:
                seen.setdefault(tuple(self.hashable(r[v]) for _, _, v in o['maps']), r)
            return list(seen.values())
        if k in ('intersection', 'difference'):
            right = collections.Counter(tuple(self.hashable(r[b]) for _, b in o['pairs']) for r in ins[1])
            res = []
            seen = set()
            for r in ins[0]:
                key = tuple(self.hashable(r[a]) for a, _ in o['pairs'])
                if o['q'] == 'all':
                    hit = right[key] > 0
                    if hit:
                        right[key] -= 1
                else:
                    hit = right[key] > 0
                    if key in seen:
                        continue
                    seen.add(key)
                if hit == (k == 'intersection'):
                    res.append(r)
            return res
        if k == 'extension':
            rows = self.run(o['sub']['graph'], o['sub']['out'], {})
            return [dict(env, **{v: r[a] for a, v in o['maps']}) for r in rows]
        raise Runtime('operator ' + k)

    @staticmethod
    def hashable(v):
        return (type(v).__name__, v)

    def ev(self, e, row):
        k = e[0]
        a = e[2:]
        if k == 'imm':
            return value(a[0])
        if k == 'var':
            return self.var(a[0], row)
        if k == 'un':
            x = self.ev(a[1], row)
            op = a[0]
            if op == 'plus':
                return x
            if op == 'sign_inversion':
                return None if x is None else -x
            if op == 'conditional_not':
                return not3(x)
            if op in ('is_null', 'is_unknown'):
                return x is None
            if op in ('is_true', 'is_false'):
                return x is (op == 'is_true')
            if op == 'length':
                return None if x is None else len(x)
            raise Runtime('unary ' + op)
        if k == 'cast':
            return cast(self.ev(a[2], row), a[0])
        if k == 'bin':
            op = a[0]
            x, y = self.ev(a[1], row), self.ev(a[2], row)
            if op == 'conditional_and':
                return and3(x, y)
            if op == 'conditional_or':
                return or3(x, y)
            return arith(op, x, y)
        if k == 'cmp':
            return cmp3(a[0], self.ev(a[1], row), self.ev(a[2], row))
        if k == 'match':
            s, p, c = (self.ev(x, row) if x is not None else '' for x in a[1:4])
            return (like if a[0] == 'like' else similar)(s, p, c)
        if k == 'if':
            for c, b in a[0]:
                if self.ev(c, row) is True:
                    return self.ev(b, row)
            return None if a[1] is None else self.ev(a[1], row)
        if k == 'coalesce':
            for x in a[0]:
                v = self.ev(x, row)
                if v is not None:
                    return v
            return None
        if k == 'let':
            r = dict(row)
            for v, x in a[0]:
                r[v] = self.ev(x, r)
            return self.ev(a[1], r)
        if k == 'call':
            return self.functions[int(a[0].rsplit('#', 1)[1])]([self.ev(x, row) for x in a[1]])
        if k in ('subquery', 'exists', 'qcmp'):
            if k == 'qcmp':
                op, quantifier, left = a[0], a[1], self.ev(a[2], row)
                a = a[3:]
            g, params = a[0], a[-1]
            rows = self.run(g['graph'], g['out'], {v: self.var(x, row) for x, v in params})
            if k == 'exists':
                return bool(rows)
            vals = [r[a[1]] for r in rows]
            if k == 'qcmp':
                return quantified(op, quantifier, left, vals)
            if len(vals) > 1:
                raise Runtime('several rows')
            return vals[0] if vals else None
        raise Runtime('expression ' + k)

