"""Builds the harnesses from /repo's current working tree.

Nothing of the repository's own build is used: the sources are found by globbing, so added or moved files are picked up,
compiled into a scratch directory below /verif/.build and linked together with the harness sources. The result is keyed
on the contents of everything that goes in, so an unchanged tree isn't compiled twice.
"""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
H = os.path.join(VERIF, 'harness')

INCLUDES = []
for d in ('interface', 'transport', 'general', 'tracing', 'catapult'):
    for sub in ('include', 'include_consumer', 'src'):
        INCLUDES.append(f'{REPO}/scalopus_{d}/{sub}')
for extra in ('lttng', 'native', 'nop'):
    INCLUDES.append(f'{REPO}/scalopus_tracing/src/{extra}')
    INCLUDES.append(f'{REPO}/scalopus_tracing/src/{extra}/include')

class BuildError(Exception):
    pass

def repo_files():
    out = []
    for d in ('interface', 'transport', 'general', 'tracing', 'catapult'):
        for root, dirs, files in os.walk(f'{REPO}/scalopus_{d}'):
            dirs[:] = sorted(x for x in dirs if x not in ('test', 'thirdparty', '_build'))
            for f in sorted(files):
                if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.ipp')):
                    out.append(os.path.join(root, f))
    return out

def tree_hash(extra_paths=()):
    h = hashlib.sha256()
    for p in sorted(repo_files()) + sorted(extra_paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def lib_sources(*libs):
    """libs: interface transport general tracing-core lttng native nop lttng-consumer native-consumer catapult-core catapult"""
    src = []
    def g(pattern, exclude=()):
        for p in sorted(glob.glob(f'{REPO}/{pattern}', recursive=True)):
            if os.path.basename(p) not in exclude:
                src.append(p)
    for l in libs:
        if l == 'interface': g('scalopus_interface/src/**/*.cpp')
        elif l == 'transport': g('scalopus_transport/src/**/*.cpp')
        elif l == 'general': g('scalopus_general/src/**/*.cpp')
        elif l == 'tracing': g('scalopus_tracing/src/*.cpp')
        elif l == 'lttng': g('scalopus_tracing/src/lttng/*.cpp', exclude=('lttng_tracepoint.cpp', 'scope_tracepoint_lttng.cpp'))
        elif l == 'lttng-tp': src += [f'{REPO}/scalopus_tracing/src/lttng/{x}' for x in ('lttng_tracepoint.cpp', 'scope_tracepoint_lttng.cpp')]
        elif l == 'native': g('scalopus_tracing/src/native/*.cpp')
        elif l == 'nop': g('scalopus_tracing/src/nop/*.cpp')
        elif l == 'catapult': g('scalopus_catapult/src/*.cpp', exclude=(
            'catapult_backend.cpp', 'catapult_server.cpp', 'scalopus_catapult_server.cpp'))
        else: raise BuildError('unknown lib ' + l)
    return src

def _compile(args):
    cmd, obj = args
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, cmd, p.stdout

def build(name, harness, libs=(), flags=(), link=(), extra_sources=(), extra_includes=(), opt='-O1', std='c++17'):
    """Compile and link; returns the path of the executable."""
    hs = [os.path.join(H, x) for x in harness]
    hdeps = sorted(glob.glob(os.path.join(H, '**', '*'), recursive=True))
    hdeps = [x for x in hdeps if os.path.isfile(x) and x.endswith(('.h', '.hpp'))] + hs + list(extra_sources)
    key = hashlib.sha256(repr((tree_hash(hdeps), name, libs, flags, link, opt, std, extra_sources)).encode()).hexdigest()[:16]
    outdir = os.path.join(BUILD, key)
    exe = os.path.join(outdir, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(outdir, exist_ok=True)
    inc = []
    for i in list(extra_includes) + INCLUDES + [H]:
        inc += ['-I', i]
    sources = hs + lib_sources(*libs) + list(extra_sources)
    jobs, objs = [], []
    base = tree_hash(hdeps)
    for i, s in enumerate(sources):
        st = std if s.startswith(H) else 'c++14'
        ok = hashlib.sha256(repr((base, s, flags, opt, st, extra_includes)).encode()).hexdigest()[:20]
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        obj = os.path.join(BUILD, 'obj', f'{ok}.o')
        objs.append(obj)
        if not os.path.exists(obj):
            tmp = obj + f'.{os.getpid()}.tmp'
            cmd = ['g++', f'-std={st}', opt, '-g', '-fPIC', '-pthread', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE'] + list(flags) + inc + ['-c', s, '-o', tmp]
            jobs.append((cmd, obj))
    with cf.ThreadPoolExecutor(8) as ex:
        for (rc, cmd, out), (_, obj) in zip(ex.map(_compile, jobs), jobs):
            if rc != 0:
                raise BuildError(' '.join(cmd) + '\n' + out)
            os.rename(cmd[-1], obj)
    tmp = exe + '.tmp'
    cmd = ['g++', '-pthread', '-rdynamic', '-o', tmp] + objs + list(link) + ['-ldl', '-lrt']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout)
    os.rename(tmp, exe)
    return exe
