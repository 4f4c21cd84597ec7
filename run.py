#!/usr/bin/env python3
"""Builds and runs one check: run.py <property> [quick|thorough] [--replay FILE] [options of the check binary]
   run.py --setup   builds everything;   run.py --list

Objects are cached in /verif/_build by content (source, flags and every header
they were compiled from, those of /repo included), so a check always reflects
/repo's current working tree."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = VERIF + '/src'
BUILD = VERIF + '/_build'

COMMON = ['-std=c++17', '-g0', '-fno-omit-frame-pointer', '-w', '-I' + REPO + '/include', '-I' + SRC, '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DPICOJSON_USE_INT64']
UB = 'signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,bounds,shift,return,unreachable,enum,bool'
VARIANTS = {
    'asan': (['clang++', '-O1', '-fsanitize=address,' + UB, '-fno-sanitize-recover=all', '-DVALIJSON_USE_EXCEPTIONS=1'], ['-fsanitize=address,undefined']),
    'opt': (['clang++', '-O1', '-DVALIJSON_USE_EXCEPTIONS=1'], []),
    'tsan': (['clang++', '-O1', '-fsanitize=thread', '-DVALIJSON_USE_EXCEPTIONS=1'], ['-fsanitize=thread']),
}
QT = '/usr/include/x86_64-linux-gnu/qt6'
LIBS = {
    'Rapid': ([], []), 'RapidCrt': ([], []), 'Nlohmann': ([], []), 'Pico': ([], []),
    'JsonCpp': (['-I/usr/include/jsoncpp'], ['-ljsoncpp']),
    'BoostJson': ([], ['-lboost_json', '-lboost_container']),
    'Poco': ([], ['-lPocoJSON', '-lPocoFoundation']),
    'QtJson': (['-I' + QT, '-I' + QT + '/QtCore', '-fPIC'], ['-lQt6Core']),
    'QVariant': (['-I' + QT, '-I' + QT + '/QtCore', '-fPIC'], ['-lQt6Core']),
    'Ptree': ([], []),
    'Yaml': ([], ['-lyaml-cpp']),
}
sys.path.insert(0, SRC)
from checks import CHECKS, QUICK  # noqa: E402


def sha(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


class Unit:
    """One translation unit."""
    def __init__(self, name, src, variant, flags=(), inc=()):
        self.cmd = VARIANTS[variant][0] + COMMON + list(flags)
        self.src = SRC + '/' + src if not src.startswith('/') else src
        key = hashlib.sha256('\0'.join(self.cmd + [self.src]).encode()).hexdigest()[:16]
        self.base = '%s/%s-%s-%s' % (BUILD, name, variant, key)
        self.obj = self.base + '.o'

    def fresh(self):
        try:
            with open(self.base + '.json') as f:
                m = json.load(f)
        except (OSError, ValueError):
            return False
        return m['obj'] == sha(self.obj) and all(sha(p) == h for p, h in m['deps'].items())

    def build(self):
        if self.fresh():
            return None
        t = time.time()
        tmp = '%s.%d' % (self.base, os.getpid())
        r = subprocess.run(self.cmd + ['-MMD', '-MF', tmp + '.d', '-c', self.src, '-o', tmp + '.o'], capture_output=True, text=True)
        if r.returncode != 0:
            return 'compilation failed: %s\n%s' % (' '.join(self.cmd + [self.src]), r.stderr[-6000:])
        with open(tmp + '.d') as f:
            deps = re.sub(r'\\\n', ' ', f.read()).split(':', 1)[1].split()
        os.rename(tmp + '.o', self.obj)
        os.remove(tmp + '.d')
        with open(self.base + '.json', 'w') as f:
            json.dump({'obj': sha(self.obj), 'deps': {p: sha(p) for p in deps}}, f)
        if os.environ.get('VERBOSE'):
            print('  %-40s %.1fs' % (os.path.basename(self.base), time.time() - t), file=sys.stderr)
        return None


def units(check):
    v = check.get('variant', 'asan')
    us = [Unit('pbt', 'pbt.cpp', v)]
    link = []
    # slow units first
    glue = []
    for l in check.get('libs', []):
        for p in check.get('parts', ['PARSE', 'VAL']):
            glue.append(Unit('glue_%s_%s' % (l, p), 'glue_impl.cpp', v, ['-DLIB=' + l, '-DLIB_' + l, '-DPART_' + p] + LIBS[l][0]))
        link += LIBS[l][1]
    own = []
    for s in check['src']:
        src, flags = (s, []) if isinstance(s, str) else (s[0], list(s[1]))
        for l in check.get('inc', []):
            flags += LIBS[l][0]
        own.append(Unit(os.path.splitext(os.path.basename(src))[0], src, v, flags))
    for l in check.get('inc', []):
        link += LIBS[l][1]
    return own + glue + us, link + check.get('link', [])


def build_all(us):
    os.makedirs(BUILD, exist_ok=True)
    seen = {}
    for u in us:
        seen.setdefault(u.obj, u)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for e in ex.map(lambda u: u.build(), seen.values()):
            if e:
                print(e, file=sys.stderr)
                return False
    return True


def link(cid, check, us, libs):
    v = check.get('variant', 'asan')
    out = '%s/%s' % (BUILD, cid)
    key = hashlib.sha256(' '.join(u.obj + str(sha(u.obj)) for u in us).encode() + ' '.join(libs).encode()).hexdigest()
    try:
        with open(out + '.key') as f:
            if f.read() == key and os.path.exists(out):
                return out
    except OSError:
        pass
    r = subprocess.run([VARIANTS[v][0][0]] + VARIANTS[v][1] + [u.obj for u in us] + ['-o', out] + list(dict.fromkeys(libs)) + ['-lpthread'], capture_output=True, text=True)
    if r.returncode != 0:
        print('link failed\n' + r.stderr[-6000:], file=sys.stderr)
        return None
    with open(out + '.key', 'w') as f:
        f.write(key)
    return out


def limits():
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 256 << 20
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def main():
    a = sys.argv[1:]
    if not a or a[0] == '--list':
        print('\n'.join(sorted(CHECKS)))
        return 0
    if a[0] == '--setup':
        us = []
        for cid, c in sorted(CHECKS.items()):
            if 'src' in c:
                us += units(c)[0]
        return 0 if build_all(us) else 2
    cid = a[0]
    a = a[1:]
    check = CHECKS[cid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if a and a[0] in ('quick', 'thorough'):
        tier = a.pop(0)
    os.environ['VERIF_TIER'] = tier
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(VERIF + '/replays', exist_ok=True)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_DIR=VERIF)
    env.pop('ASAN_OPTIONS', None)
    if 'pre' in check:
        env.update(check['pre'](REPO, BUILD, env) or {})
    us, libs = units(check)
    if not build_all(us):
        return 2
    exe = link(cid, check, us, libs)
    if not exe:
        return 2
    t0 = time.time()
    if '--replay' not in a:
        with open(VERIF + '/known_findings.json') as f:
            for k in json.load(f)['findings']:
                if k['property'] != cid:
                    continue
                r = subprocess.run([exe, '--known', k['key']], preexec_fn=limits, env=env)
                if r.returncode == 3:
                    print('KNOWN-FINDING: property=%s %s' % (cid, k['what']))
                elif r.returncode == 0:
                    print('note: recorded finding %s/%s no longer fails' % (cid, k['key']))
                else:
                    return 2
        sys.stdout.flush()
    cmd = [exe, '--tier', tier, '--out', '%s/evidence/%s.json' % (VERIF, cid), '--replay-dir', VERIF + '/replays'] + a
    if 'seconds' in check and tier == 'thorough' and '--max-seconds' not in a:
        cmd += ['--max-seconds', str(check['seconds'])]
    if tier == 'quick' and '--scale' not in a and '--replay' not in a:
        cmd += ['--scale', str(QUICK.get(cid, 1))]
    r = subprocess.run(cmd, preexec_fn=limits, env=env)
    if os.environ.get('VERBOSE'):
        print('ran %.1fs' % (time.time() - t0), file=sys.stderr)
    return r.returncode if r.returncode in (0, 1) else 2


sys.exit(main())
