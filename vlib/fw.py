"""Runs a check: builds the harness, spreads cases over worker processes, collects verdicts and evidence."""
import collections, hashlib, json, multiprocessing, os, random, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as B          # noqa: E402
from . import client      # noqa: E402

KNOWN = os.path.join(VERIF, 'known-findings.txt')
MAXVIOL = 12


def known_findings(pid):
    """{key: text} of the findings listed for a property"""
    res = {}
    try:
        lines = open(KNOWN)
    except OSError:
        return res
    for line in lines:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


class Out:
    """what a group of cases saw"""

    def __init__(self):
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.viol = []
        self.count = collections.Counter()
        self.seen = collections.defaultdict(set)

    def ok(self, sig=None):
        """one evaluation; sig identifies what was distinct about it (None: trivial)"""
        self.evals += 1
        if sig is not None:
            self.sigs.add(hashlib.blake2b(str(sig).encode('latin-1', 'replace'), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s[:300])

    def bad(self, key, msg, **data):
        self.viol.append((key, msg, data))

    def merge(self, o):
        self.evals += o.evals
        self.sigs |= o.sigs
        self.samples += o.samples
        self.viol += o.viol
        self.count.update(o.count)
        for k, v in o.seen.items():
            self.seen[k] |= v


class Ctx:
    def __init__(self, exes, tier, seed):
        self.exes = exes
        self.tier = tier
        self.seed = seed
        self.servers = {}
        self.last = None

    def call(self, opts, body, target='server'):
        s = self.servers.get(target)
        if s is None:
            s = self.servers[target] = client.Server(self.exes[target], 100)
        self.last = (opts, body)
        return s.call(opts, body)

    def close(self):
        for s in self.servers.values():
            r = s.close()
            if r is not None and 'LeakSanitizer has encountered a fatal error' not in str(r):
                yield r
        self.servers.clear()

    def drop(self):
        for s in self.servers.values():
            s.kill()
        self.servers.clear()


class Check:
    def __init__(self, pid, case, quick, thorough, rule, targets=('server',), probes=None, final=None, minimum=None, once=None, assumptions=()):
        self.pid = pid
        self.case = case              # case(ctx, rng, out, i)
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.targets = targets
        self.probes = probes          # probes(ctx, out): fixed cases, run once (known findings among them)
        self.final = final            # final(out): violations or errors seen only over the whole run
        self.minimum = minimum
        self.once = once
        self.assumptions = list(assumptions)


def crash_key(e):
    t = str(e)
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t) or re.search(r'(runtime error: [^\n]{0,60})', t) or re.search(r'(terminate called[^\n]*)', t) \
        or re.search(r'ERROR: (LeakSanitizer): ', t) or re.search(r'(Assertion[^\n]{0,80})', t)
    kind = m.group(1) if m else 'rc%s' % e.rc
    f = re.search(r'#\d+ 0x\w+ in (mizugaki::[\w:~<>]+)', t)
    k = 'crash:' + kind + ('@' + f.group(1) if f else '')
    return re.sub(r'\s+', '_', k)[:120]


def run_case(check, ctx, out, i):
    """one case; a crash or a hang of the code under test is a violation"""
    for attempt in (0, 1):
        tmp = Out()
        rng = random.Random('%d:%s:%d' % (ctx.seed, check.pid, i))
        ctx.last = None
        try:
            if i < 0:
                check.probes(ctx, tmp)
            else:
                check.case(ctx, rng, tmp, i)
            out.merge(tmp)
            return
        except client.Crash as e:
            tmp.bad(crash_key(e), 'the code under test crashed: ' + str(e)[-2500:], case=i, request=repr(ctx.last)[:200000])
            out.merge(tmp)
            ctx.drop()
            return
        except (LookupError, TypeError, ValueError, AttributeError) as e:
            # every answer of the unchanged code is understood, so this one is not such an answer
            tmp.bad('unforeseen:%s' % type(e).__name__, 'the answer cannot be interpreted: ' + traceback.format_exc()[-1500:], case=i, request=repr(ctx.last)[:200000])
            out.merge(tmp)
            return
        except client.Timeout:
            ctx.drop()
            if attempt:
                tmp.bad('timeout', 'no answer within the time limit, twice', case=i, request=repr(ctx.last)[:200000])
                out.merge(tmp)
                return


def _work(args):
    pid, exes, tier, seed, cases = args
    from . import checks
    check = checks.CHECKS[pid]
    out = Out()
    ctx = Ctx(exes, tier, seed)
    try:
        for i in cases:
            nv = len(out.viol)
            run_case(check, ctx, out, i)
            for k in range(nv, len(out.viol)):
                out.viol[k][2].setdefault('case', i)
            if len(out.viol) > MAXVIOL:
                break
        for leak in ctx.close():
            out.bad(crash_key(leak), 'when the harness ended: ' + str(leak)[:2500], case=cases[-1])
    except Exception:
        return None, traceback.format_exc()
    finally:
        ctx.drop()
    out.samples = out.samples[:2]
    return out, None


def build_all(targets):
    return {t: B.build(t) for t in targets}


def run(check, tier, seed, only=None, jobs=None):
    t0 = time.time()
    pid = check.pid
    try:
        exes = build_all(check.targets)
    except B.BuildError as e:
        print('%s: the tree does not build, no answer:\n%s' % (pid, e), file=sys.stderr)
        return 2
    n = check.quick if tier == 'quick' else check.thorough
    total = Out()
    err = None
    cases = list(range(n)) if only is None else [only]
    if only is None and check.probes:
        cases.insert(0, -1)
    jobs = jobs or os.cpu_count() or 4
    size = max(1, min(200, len(cases) // (jobs * 4) or 1))
    chunks = [cases[k:k + size] for k in range(0, len(cases), size)]
    known = known_findings(pid)
    with multiprocessing.Pool(min(jobs, len(chunks))) as pool:
        for out, e in pool.imap_unordered(_work, [(pid, exes, tier, seed, c) for c in chunks]):
            if e:
                err = e
                break
            total.merge(out)
            if len([v for v in total.viol if v[0] not in known]) >= MAXVIOL:
                break
        pool.terminate()
    if err:
        print('%s: the check itself failed:\n%s' % (pid, err), file=sys.stderr)
        return 2
    if check.final and only is None and not [v for v in total.viol if v[0] not in known]:
        check.final(total, tier)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    new = [v for v in total.viol if v[0] not in known]
    seen_known = {v[0] for v in total.viol if v[0] in known}
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    for k in sorted(set(known) - seen_known):
        if only is None:
            print('%s: note: the listed finding %s did not show in this run' % (pid, k))
    shown = set()
    for num, (key, msg, data) in enumerate(new):
        if key in shown:
            continue
        shown.add(key)
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(shown)))
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'key': key, 'message': msg, 'data': data,
                   'again': 'python3 run.py %s replay %s' % (pid, os.path.relpath(path, VERIF))}, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('    %s: %s' % (key, msg[:600].replace('\n', ' | ')))
    cov = {'evaluations': total.evals, 'distinct_nontrivial': len(total.sigs), 'rule': check.rule,
           'samples': total.samples[:6] or ['(none)'], 'cases': len(cases)}
    for k, v in sorted(total.count.items()):
        cov['count.' + k] = v
    for k, v in sorted(total.seen.items()):
        cov['distinct.' + k] = len(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new), 'assumptions': check.assumptions}
    if only is None:
        path = os.path.join(VERIF, 'evidence', pid + '.json')
        json.dump(ev, open(path + '.tmp', 'w'), indent=1)
        os.replace(path + '.tmp', path)
    if new:
        return 1
    if only is None:
        least = check.minimum if check.minimum is not None else n // 2
        if total.evals < least or (len(total.sigs) < 2 and n > 1):
            print('%s: only %d evaluations (%d distinct) were made: no answer' % (pid, total.evals, len(total.sigs)), file=sys.stderr)
            return 2
    print('%s %s: %d evaluations, %d distinct, %.1f s, no new violation' % (pid, tier, total.evals, len(total.sigs), time.time() - t0))
    return 0
