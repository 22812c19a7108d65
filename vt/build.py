"""Builds harness binaries from /repo's current working tree, with an object
cache keyed by the contents of everything that goes into an object."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(VERIF, 'build'))

COMMON = ['-g', '-pthread', '-fno-omit-frame-pointer', '-w', '-DHAVE_PTHREAD=1',
          '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'mc'), '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'en'), '-I' + os.path.join(REPO, 'tools'), '-I' + REPO, '-DPACKAGE=1']
NOB = ['-fno-builtin-' + f for f in ('memcpy', 'memmove', 'memset', 'strlen', 'memcmp', 'strcmp')]
MODES = {
    'mc':    ['g++', '-std=gnu++17', '-O1', '-fno-pie', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1',
              '-fno-ipa-icf'] + NOB + COMMON,
    'mcraw': ['g++', '-std=gnu++17', '-O2', '-fno-pie', '-fno-builtin-malloc'] + COMMON,
    'asan':  ['g++', '-std=gnu++17', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,null,nonnull-attribute,pointer-overflow,shift-base',
              '-fno-sanitize-recover=undefined'] + COMMON,
    'plain': ['g++', '-std=gnu++17', '-O2'] + COMMON,
}
WRAP = ['memcpy', 'memmove', 'memset', 'strlen', 'memcmp', 'strcmp']
LINK = {
    'mc': ['g++', '-no-pie', '-pthread', '-Wl,--export-dynamic'] + ['-Wl,--wrap=' + w for w in WRAP],
    'asan': ['g++', '-fsanitize=address,undefined', '-pthread'],
    'plain': ['g++', '-pthread'],
}

def _read(p):
    with open(p, 'rb') as f:
        return f.read()

class BuildError(Exception):
    pass

def obj(src, mode, defs=()):
    cmd = MODES[mode] + list(defs)
    if src.endswith('.c'):
        cmd = ['gcc', '-std=gnu11', '-O1'] + COMMON + list(defs)
    # the key is the preprocessed text: comments do not count, every header does
    e = subprocess.run(cmd + ['-E', '-P', src], capture_output=True)
    if e.returncode:
        raise BuildError('preprocess %s (%s):\n%s' % (src, mode, e.stderr.decode(errors='replace')[-4000:]))
    h = hashlib.sha256('\0'.join(cmd).encode() + src.encode() + e.stdout).hexdigest()[:32]
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, '%s-%s.o' % (os.path.basename(src).rsplit('.', 1)[0], h))
    if not os.path.exists(o):
        t = '%s.%d.tmp' % (o, os.getpid())
        r = subprocess.run(cmd + ['-c', src, '-o', t], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('compile %s (%s):\n%s' % (src, mode, r.stderr[-4000:]))
        os.replace(t, o)
    return o

def repo_sources(exclude=()):
    return [s for s in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))) if os.path.basename(s) not in exclude]

# name -> (mode, harness sources, repo sources or None for the whole library, options)
def binary(name, mode, harness, repo=None, raw=(), defs=(), libs=(), tools=(), libdefs=()):
    """mode mc: raw = repo sources compiled without instrumentation; script: nothing to build."""
    if mode == 'script':
        return os.path.join(VERIF, 'harness', harness[0])
    jobs = []
    srcs = repo_sources() if repo is None else [os.path.join(REPO, r) for r in repo]
    for s in srcs:
        m = mode
        if mode == 'mc' and os.path.basename(s) in raw:
            m = 'mcraw'
        jobs.append((s, m, tuple(libdefs)))
    for t in tools:
        jobs.append((os.path.join(REPO, 'tools', t), 'mcraw' if mode == 'mc' else mode, tuple(defs) + tuple(libdefs)))
    for hsrc in harness:
        jobs.append((os.path.join(VERIF, 'harness', hsrc), mode, tuple(defs) + tuple(libdefs)))
    if mode == 'mc':
        jobs.append((os.path.join(VERIF, 'mc', 'mcrt.cc'), 'mcraw', ()))
    else:
        jobs.append((os.path.join(VERIF, 'en', 'en.cc'), mode, ()))
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VT_JOBS', '8'))) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    h = hashlib.sha256('\0'.join(objs + LINK[mode] + list(libs)).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, 'bin')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s' % (name, h))
    if not os.path.exists(out):
        t = '%s.%d.tmp' % (out, os.getpid())
        r = subprocess.run(LINK[mode] + objs + ['-o', t] + list(libs) + ['-ldl', '-lutil'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link %s:\n%s' % (name, r.stderr[-4000:]))
        os.replace(t, out)
    return out
