"""P28: the analysis of a statement does not depend on what else is analyzed, before or at the same time"""
import struct
from . import add
from .. import ddlgen, dmlgen
from ..fw import Check
from .analyzer_checks import ASSUME, query_input, switches, wild_input
from .tree_checks import concurrent


def inputs(rng):
    """(catalog, text, options) of a few statements; several of them about one catalog"""
    r = rng.random()
    if r < 0.4:
        cat, sql, opts = wild_input(rng)
        yield cat, sql, opts
        for _ in range(rng.randint(0, 3)):
            yield cat, wild_input(rng)[1], switches(rng)
    elif r < 0.6:
        g = dmlgen.Gen(rng, fuel=rng.choice([3, 10, 20]))
        g.make_tables()
        g.make_parameters()
        g.budget = 10 ** 9
        sts = [g.statement(None) for _ in range(rng.randint(1, 4))]
        for st in sts:
            yield g.catalog(), st.text, {}
    elif r < 0.75:
        g = ddlgen.Gen(rng)
        st = g.statement()[2]
        if st is not None:
            yield g.catalog, st.text, {'o.' + k: v for k, v in g.given.items()}
    else:
        g, q, cat, opts = query_input(rng, rng.choice([5, 15, 40]))
        yield cat, q.text, opts


def case(ctx, rng, out, i):
    jobs = []
    while len(jobs) < 30:
        for cat, sql, opts in inputs(rng):
            cat = cat if cat.endswith('%%\n') else cat + '%%\n'
            jobs.append((cat, sql, opts))
    jobs += rng.sample(jobs, 5)      # the same statement twice, with options of its own
    data = []
    for cat, sql, opts in jobs:
        t = (' '.join('%s=%s' % kv for kv in opts.items()) + '\n' + cat + sql)
        t = t.encode('latin-1' if all(ord(c) < 256 for c in t) else 'utf-8')
        data.append(struct.pack('<I', len(t)) + t)
    data = b''.join(data)
    nt = rng.choice([1, 2, 4, 6])
    lines = concurrent(ctx, out, 'athreads', [nt, rng.randint(1, 10 ** 6), 4], data, jobs=[[c, s, o] for c, s, o in jobs])
    if lines is None:
        return
    a = list(map(int, lines[0].split()))
    for k, v in zip(('analyses', 'analyses of one statement at the same time', 'moved analyzers', 'results read by another thread', 'statements', 'statements with a result'), a):
        out.count[k] += v
    for b in lines[1:]:
        out.bad('history', b, jobs=[[c, s, o] for c, s, o in jobs])
        return
    if a[0]:
        out.ok((i, nt, len(data)))


add(Check('P28', case, 240, 4000, 'distinct = runs of 1-6 threads, each with an analyzer of its own, over 35 statements and 4 rounds, under ThreadSanitizer', targets=('athreads',), minimum=100, assumptions=ASSUME))
