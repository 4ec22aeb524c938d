"""Mechanical extraction of the verified text from /repo on every run."""
import json, os, subprocess, sys, hashlib, tempfile, glob, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LVC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
LL = '/usr/lib/llvm-18/bin/'

class ExtractError(Exception): pass

def run(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', **k)
    if p.returncode != 0:
        raise ExtractError('%s\n%s' % (' '.join(cmd), (p.stderr or p.stdout)[-2000:]))
    return p.stdout

def build_irdump(d):
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for c in (os.path.join(HERE, 'build'), d):
        e = os.path.join(c, 'irdump-' + h)
        if os.path.exists(e): return e
    out = os.path.join(d, 'irdump-' + h)
    flags = run([LL + 'llvm-config', '--cxxflags', '--ldflags', '--libs', 'core', 'irreader', 'analysis', 'support', 'demangle', 'binaryformat']).split()
    run([CLANG, '-O0', '-w', src, '-o', out] + flags)
    return out

def sources():
    """library sources as listed in lib/CMakeLists.txt (what the build compiles)"""
    txt = open(os.path.join(REPO, 'lib', 'CMakeLists.txt')).read()
    import re
    txt = re.sub(r'#.*', '', txt)
    fs = []
    for m in re.findall(r'([A-Za-z0-9_/]+\.(?:cpp|cxx|cc|c))\b', txt):
        p = os.path.join(REPO, 'lib', m)
        if os.path.exists(p) and p not in fs: fs.append(p)
    return fs

def config_headers(d):
    """run the project's own cmake configure for config.h and strigiconfig.h"""
    run(['cmake', '-S', REPO, '-B', d, '-DCMAKE_BUILD_TYPE=Debug', '-G', 'Ninja'], env=dict(os.environ, CC='gcc', CXX='g++'))
    return ['-I' + d + '/include', '-I' + d + '/lib']

def extract(work, only=None):
    os.makedirs(work, exist_ok=True)
    irdump = build_irdump(work)
    cm = os.path.join(work, 'cmake')
    inc = config_headers(cm)
    flags = ['-DHAVE_CONFIG_H', '-DMAKE_STREAMS_LIB', '-I' + REPO + '/include', inc[0], '-I' + REPO + '/lib', inc[1]]
    srcs = sources()
    extra = sorted(glob.glob(os.path.join(HERE, 'inst', '*.cpp')))
    bcs = []
    def one(f):
        b = os.path.join(work, os.path.basename(f) + '.bc')
        run(([CLANG.replace('clang++', 'clang'), '-x', 'c'] if f.endswith('.c') else [CLANG, '-std=gnu++17']) + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-exceptions', '-w', '-c', '-emit-llvm'] + flags + ['-o', b, f])
        run([LL + 'opt', '-passes=sroa,mem2reg', b, '-o', b + '2'])
        return b + '2'
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, srcs + extra))
    allbc = os.path.join(work, 'all.bc')
    run([LL + 'llvm-link'] + bcs + ['-o', allbc])
    js = run([irdump, allbc])
    prog = json.loads(js)
    prog['sources'] = [os.path.relpath(x, REPO) for x in srcs]
    prog['flags'] = flags
    dem = {}
    for n, f in prog['functions'].items():
        dem.setdefault(f['dem'], n)
    prog['bydem'] = dem
    return prog

if __name__ == '__main__' and len(sys.argv) > 2 and sys.argv[1] == '--sources':
    REPO = sys.argv[2]
    for x in sources():
        if not x.endswith('.c'): print(x)
    for c in sorted(glob.glob(os.path.join(REPO, 'lib', 'lzma', '*.c'))): print(c)
