"""Builds the library in many configurations (for C24): one shared object each,
from two translation units, cached by content like everything else."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess

QT = '/usr/include/x86_64-linux-gnu/qt6'
# name of the adapter header -> (name in libs.hpp, compile flags, link flags)
ADAPTERS = {
    'rapidjson': ('Rapid', [], []),
    'nlohmann_json': ('Nlohmann', [], []),
    'picojson': ('Pico', [], []),
    'jsoncpp': ('JsonCpp', ['-I/usr/include/jsoncpp'], ['-ljsoncpp']),
    'boost_json': ('BoostJson', [], ['-lboost_json', '-lboost_container']),
    'poco_json': ('Poco', [], ['-lPocoJSON', '-lPocoFoundation']),
    'qtjson': ('QtJson', ['-I' + QT, '-I' + QT + '/QtCore'], ['-lQt6Core']),
    'qvariant': ('QVariant', ['-I' + QT, '-I' + QT + '/QtCore'], ['-lQt6Core']),
    'property_tree': ('Ptree', [], []),
    'yaml_cpp': ('Yaml', [], ['-lyaml-cpp']),
    'std_string': ('StdString', [], []),
}
NEEDS = {'json11': 'json11.hpp'}  # adapters of libraries that may not be installed
CLANG, GCC = ['clang++', '-std=c++17', '-O0'], ['g++', '-std=c++17', '-fno-gnu-unique']
NOEXC = ['-fno-exceptions', '-DVALIJSON_USE_EXCEPTIONS=0', '-DVC_NOEXC', '-DBOOST_NO_EXCEPTIONS', '-DJSON_USE_EXCEPTION=0']
EXC = ['-DVALIJSON_USE_EXCEPTIONS=1']
# configuration -> (command, flags, of the bundle?, adapters)
CONFIGS = {
    'headers': (CLANG, EXC, False, list(ADAPTERS)),
    'bundle': (CLANG, EXC, True, list(ADAPTERS)),
    'noexc': (CLANG, NOEXC, False, ['rapidjson', 'nlohmann_json', 'picojson', 'jsoncpp', 'boost_json', 'qtjson', 'qvariant', 'property_tree']),
    'bundle-noexc': (CLANG, NOEXC, True, ['rapidjson', 'property_tree']),
    'default-exceptions': (CLANG, ['-fno-exceptions', '-DVC_NOEXC'], False, ['rapidjson']),
    'boost-regex': (CLANG, EXC + ['-DVALIJSON_USE_BOOST_REGEX=1'], False, ['rapidjson', 'nlohmann_json']),
    'bundle-boost-regex': (CLANG, EXC + ['-DVALIJSON_USE_BOOST_REGEX=1'], True, ['rapidjson']),
    'streams': (CLANG, EXC + ['-DVALIJSON_HAS_STD_FROM_CHARS=0'], False, ['rapidjson', 'property_tree']),
    'fast-float': (CLANG, EXC + ['-DVALIJSON_HAS_STD_FROM_CHARS=0', '-DVALIJSON_HAS_FAST_FLOAT_FROM_CHARS=1', '-ISHIM'], False, ['rapidjson']),
    'gcc-ndebug': (GCC, EXC + ['-O3', '-DNDEBUG'], False, ['rapidjson', 'nlohmann_json']),
    'gcc-debug': (GCC, EXC + ['-O0', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_ASSERTIONS'], False, ['rapidjson']),
    'c++20-unsigned-char': (['g++', '-std=c++20', '-fno-gnu-unique'], EXC + ['-O1', '-funsigned-char'], False, ['rapidjson']),
    'c++23': (['clang++', '-std=c++23', '-O2'], EXC, False, ['rapidjson']),
}


def sha(p):
    try:
        with open(p, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def build(job):
    """-> (configuration, adapter, path or None, log)"""
    cfg, adapter, cmds, so, link = job
    objs = []
    stamp = so + '.json'
    try:
        with open(stamp) as f:
            m = json.load(f)
        if m['cmds'] == cmds and m['so'] == sha(so) and all(sha(p) == h for p, h in m['deps'].items()):
            return cfg, adapter, so, ''
    except (OSError, ValueError, KeyError):
        pass
    deps = {}
    tmp = '%s.%d' % (so, os.getpid())
    for i, c in enumerate(cmds):
        o = '%s.%d.o' % (tmp, i)
        objs.append(o)
        r = subprocess.run(c + ['-MMD', '-MF', tmp + '.d', '-o', o], capture_output=True, text=True)
        if r.returncode != 0:
            return cfg, adapter, None, 'compilation failed: %s\n%s' % (' '.join(c), r.stderr[:3000])
        with open(tmp + '.d') as f:
            for p in re.sub(r'\\\n', ' ', f.read()).split(':', 1)[1].split():
                deps[p] = sha(p)
        os.remove(tmp + '.d')
    r = subprocess.run([cmds[0][0], '-shared', '-o', tmp] + objs + link + ['-Wl,-Bsymbolic', '-Wl,-z,defs'], capture_output=True, text=True)
    for o in objs:
        os.remove(o)
    if r.returncode != 0:
        return cfg, adapter, None, 'linking two translation units failed: %s' % r.stderr[:3000]
    os.rename(tmp, so)
    with open(stamp, 'w') as f:
        json.dump({'cmds': cmds, 'so': sha(so), 'deps': deps}, f)
    return cfg, adapter, so, ''


def installed(header):
    r = subprocess.run(['clang++', '-E', '-x', 'c++', '-'], input='#include <%s>\n' % header, capture_output=True, text=True)
    return r.returncode == 0


def prepare(repo, build_dir, env):
    verif = env['VERIF_DIR']
    src = verif + '/src'
    out = build_dir + '/configs'
    os.makedirs(out, exist_ok=True)
    offered = []
    results = []
    r = subprocess.run(['bash', 'bundle.sh'], cwd=repo, capture_output=True, text=True)
    offered = re.findall(r'^  - (\S+)$', r.stdout, re.M)
    if r.returncode != 64 or not offered:
        results.append({'config': 'bundle', 'adapter': '(usage)', 'so': None, 'log': 'bundle.sh without arguments exits with %d and offers %s' % (r.returncode, offered)})
    r = subprocess.run(['bash', 'bundle.sh', 'no_such_adapter'], cwd=repo, capture_output=True, text=True)
    if r.returncode != 65:
        results.append({'config': 'bundle', 'adapter': 'no_such_adapter', 'so': None, 'log': 'bundle.sh exits with %d' % r.returncode})
    skipped = []
    bundles = {}
    for a in sorted(set(offered) | set(ADAPTERS)):
        if a not in ADAPTERS:
            if a in NEEDS and not installed(NEEDS[a]):
                skipped.append(a)
            else:
                results.append({'config': 'bundle', 'adapter': a, 'so': None, 'log': 'adapter unknown to this check'}) if a not in NEEDS else skipped.append(a)
            continue
        r = subprocess.run(['bash', 'bundle.sh', a], cwd=repo, capture_output=True)
        if r.returncode != 0:
            results.append({'config': 'bundle', 'adapter': a, 'so': None, 'log': 'bundle.sh exits with %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[:500])})
            continue
        p = '%s/bundle_%s.hpp' % (out, a)
        if sha(p) != hashlib.sha256(r.stdout).hexdigest():
            with open(p + '.tmp', 'wb') as f:
                f.write(r.stdout)
            os.rename(p + '.tmp', p)
        bundles[a] = p
    jobs = []
    for cfg, (cmd, flags, bundle, adapters) in CONFIGS.items():
        for a in adapters:
            name, cf_, lf = ADAPTERS[a]
            if bundle and a not in bundles:
                continue
            c = cmd + flags + cf_ + ['-fPIC', '-g0', '-w', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DPICOJSON_USE_INT64', '-DLIB=' + name, '-DLIB_' + name, '-I' + src]
            c = [x.replace('-ISHIM', '-I' + src + '/shim') for x in c]
            c += ['-DVC_BUNDLE="%s"' % bundles[a]] if bundle else ['-I' + repo + '/include']
            if 'boost-regex' in cfg:
                lf = lf + ['-lboost_regex']
            jobs.append((cfg, a, [c + ['-c', src + '/cfg.cpp'], c + ['-DVC_SECOND', '-c', src + '/cfg.cpp']], '%s/%s-%s.so' % (out, cfg, a), lf))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for cfg, a, so, log in ex.map(build, jobs):
            results.append({'config': cfg, 'adapter': a, 'so': so, 'log': log, 'exceptions': CONFIGS[cfg][1][:1] != ['-fno-exceptions']})
    p = out + '/list.txt'
    with open(p, 'w') as f:
        for r in results:
            f.write(json.dumps(r) + '\n')
    return {'C24_CONFIGS': p, 'C24_SKIPPED': ','.join(skipped)}
