#!/usr/bin/env python3
"""Builds the harness binaries from /repo's current working tree.

A small compiler cache keeps this fast: an object is reused when every file it was compiled from is
unchanged, or else when the preprocessed text (without line markers) is unchanged.
"""
import fcntl, hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

COMMON = ['-std=c++17', '-Wno-c++20-extensions', '-w', '-fno-omit-frame-pointer']
CONFIGS = {
    'asan': ('clang++', COMMON + ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']),
    'tsan': ('clang++', COMMON + ['-O1', '-g1', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS']),
    'fuzz': ('clang++', COMMON + ['-O1', '-g1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']),
}
LINK = {
    'asan': ['-fsanitize=address,undefined'],
    'tsan': ['-fsanitize=thread', '-pthread'],
    'fuzz': ['-fsanitize=fuzzer,address,undefined'],
}


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()[:32]


_fh = {}
_fl = threading.Lock()


def fsha(path):
    with _fl:
        if path in _fh:
            return _fh[path]
    try:
        with open(path, 'rb') as f:
            h = sha(f.read())
    except OSError:
        h = None
    with _fl:
        _fh[path] = h
    return h


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def write_if_changed(path, data):
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return
    except OSError:
        pass
    tmp = path + '.tmp'
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)


def generate():
    """runs bison and flex on the repository's grammar and scanner"""
    gen = os.path.join(BUILD, 'gen')
    out = os.path.join(gen, 'mizugaki', 'parser')
    os.makedirs(out, exist_ok=True)
    yy = os.path.join(REPO, 'src/mizugaki/parser/sql_parser.yy')
    ll = os.path.join(REPO, 'src/mizugaki/parser/sql_scanner.ll')
    key = sha(((fsha(yy) or '') + (fsha(ll) or '') + 'v4').encode())
    stamp = os.path.join(gen, 'stamp')
    try:
        if open(stamp).read() == key:
            return gen
    except OSError:
        pass
    tmp = os.path.join(BUILD, 'gentmp')
    os.makedirs(tmp, exist_ok=True)

    def bison():
        return run(['bison', '-Wno-all', '--no-lines', '-o', os.path.join(tmp, 'sql_parser_generated.cpp'),
                    '--defines=' + os.path.join(tmp, 'sql_parser_generated.hpp'), yy])

    def flex():
        return run(['flex', '-Cfe', '-L', '-o', os.path.join(tmp, 'sql_scanner_generated.cpp'), ll])
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(bison), ex.submit(flex)
        for r in (a.result(), b.result()):
            if r.returncode:
                raise BuildError(r.stderr.decode(errors='replace')[-3000:])
    for n in os.listdir(tmp):
        data = open(os.path.join(tmp, n), 'rb').read().replace(tmp.encode(), b'GEN')
        write_if_changed(os.path.join(out, n), data)
    for p in os.listdir(out):
        _fh.pop(os.path.join(out, p), None)
    with open(stamp, 'w') as f:
        f.write(key)
    return gen


def repo_sources(analyzer=False):
    res = []
    top = os.path.join(REPO, 'src', 'mizugaki')
    for d, _, fs in os.walk(top):
        rel = os.path.relpath(d, top).split(os.sep)[0]
        if rel == 'analyzer' and not analyzer:
            continue
        if rel == '.' and not analyzer:
            continue
        for f in fs:
            if f.endswith('.cpp'):
                res.append(os.path.join(d, f))
    return sorted(res)


def parse_deps(text):
    text = text.replace('\\\n', ' ')
    _, _, rest = text.partition(': ')
    out, cur = [], ''
    i = 0
    while i < len(rest):
        c = rest[i]
        if c == '\\' and i + 1 < len(rest):
            cur += rest[i + 1]
            i += 2
            continue
        if c.isspace():
            if cur:
                out.append(cur)
                cur = ''
        else:
            cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


def compile_tu(cfg, src, gen, extra):
    cxx, flags = CONFIGS[cfg]
    inc = ['-I' + os.path.join(VERIF, 'shim_analyzer'), '-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
           '-I' + gen, '-I' + os.path.join(VERIF, 'harness')]
    if src.startswith(os.path.join(REPO, 'test')):
        inc.append('-I' + os.path.join(REPO, 'test'))
    base = [cxx] + flags + extra + inc
    ident = sha(' '.join(base + [src]).encode())
    odir = os.path.join(BUILD, 'obj', cfg)
    os.makedirs(odir, exist_ok=True)
    man = os.path.join(odir, ident + '.json')
    try:
        m = json.load(open(man))
    except (OSError, ValueError):
        m = {'deps': [], 'objs': {}}
    if m['deps']:
        k = sha('|'.join('%s=%s' % (p, fsha(p)) for p in m['deps']).encode())
        h = m['objs'].get(k)
        if h and os.path.exists(os.path.join(odir, h + '.o')):
            return os.path.join(odir, h + '.o'), False
    dep = os.path.join(odir, ident + '.d')
    r = run(base + ['-E', '-P', '-MD', '-MF', dep, src])
    if r.returncode:
        raise BuildError('%s: %s' % (src, r.stderr.decode(errors='replace')[-4000:]))
    h = sha(ident.encode() + r.stdout)
    obj = os.path.join(odir, h + '.o')
    built = False
    if not os.path.exists(obj):
        r = run(base + ['-c', '-o', obj + '.tmp', src])
        if r.returncode:
            raise BuildError('%s: %s' % (src, r.stderr.decode(errors='replace')[-4000:]))
        os.replace(obj + '.tmp', obj)
        built = True
    deps = [p for p in parse_deps(open(dep).read())]
    deps = [p for p in deps if not p.startswith('/usr/')]
    m['deps'] = deps
    k = sha('|'.join('%s=%s' % (p, fsha(p)) for p in deps).encode())
    m['objs'][k] = h
    if len(m['objs']) > 40:
        m['objs'] = {k: h}
    tmp = man + '.tmp'
    json.dump(m, open(tmp, 'w'))
    os.replace(tmp, man)
    return obj, built


TARGETS = {
    # name: (config, harness sources, analyzer?, repo sources?)
    'server': ('asan', ['dump.cpp', 'server.cpp', 'laws.cpp', 'enums.cpp'], False),
    'threads': ('tsan', ['dump.cpp', 'threads.cpp'], False),
    'aserver': ('asan', ['dump.cpp', 'aserver.cpp'], True),
    'athreads': ('tsan', ['dump.cpp', 'athreads.cpp'], True),
    # the repository's own unit tests on the stand-in headers: validates the stand-ins (not a check)
    'gtests': ('asan', [], True),
}


def build(target, verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _fh.clear()
        cfg, hs, analyzer = TARGETS[target]
        gen = generate()
        srcs = repo_sources(analyzer)
        srcs += [os.path.join(gen, 'mizugaki/parser/sql_parser_generated.cpp'), os.path.join(gen, 'mizugaki/parser/sql_scanner_generated.cpp')]
        srcs += [os.path.join(VERIF, 'harness', h) for h in hs]
        libs = []
        if target == 'gtests':
            for d, _, fs in os.walk(os.path.join(REPO, 'test')):
                srcs += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
            libs = ['-lgtest', '-pthread']
        srcs.sort(key=lambda s: -os.path.getsize(s))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            futs = [ex.submit(compile_tu, cfg, s, gen, []) for s in srcs]
            objs, errs, nb = [], [], 0
            for f in futs:
                try:
                    o, b = f.result()
                    objs.append(o)
                    nb += b
                except BuildError as e:
                    errs.append(str(e))
        if errs:
            raise BuildError('\n'.join(errs[:3]))
        objs.sort()
        key = sha(('%s %s' % (LINK[cfg], objs)).encode())
        bindir = os.path.join(BUILD, 'bin')
        os.makedirs(bindir, exist_ok=True)
        exe = os.path.join(bindir, target + '-' + key[:16])
        if not os.path.exists(exe):
            for f in os.listdir(bindir):
                if f.startswith(target + '-'):
                    os.unlink(os.path.join(bindir, f))
            rsp = exe + '.rsp'
            open(rsp, 'w').write('\n'.join(objs))
            r = run(['clang++', '-fuse-ld=lld' if os.path.exists('/usr/bin/ld.lld') else '-fuse-ld=bfd'] + LINK[cfg] + ['@' + rsp, '-o', exe + '.tmp'] + libs)
            if r.returncode:
                raise BuildError(r.stderr.decode(errors='replace')[-3000:])
            os.unlink(rsp)
            os.replace(exe + '.tmp', exe)
        if verbose:
            print('%s: %d units, %d compiled' % (target, len(srcs), nb))
        return exe


if __name__ == '__main__':
    for t in sys.argv[1:] or [t for t in TARGETS if t != 'gtests']:
        try:
            print(build(t, True))
        except BuildError as e:
            print('BUILD FAILED:', e, file=sys.stderr)
            sys.exit(2)
