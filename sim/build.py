#!/usr/bin/env python3
"""Builds the simulator and the instrumented libcwd from /repo's current working tree.

Everything is cached under /verif/build by content hash, so a second build of the same tree is quick.
"""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, 'sim')
REPO = os.environ.get('LIBCWD_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
CXX = '/usr/bin/g++'
NCPU = os.cpu_count() or 8


def gen_headers(out):
    top = open(f'{REPO}/CMakeLists.txt').read()
    m = re.search(r'project\(libcwd\s+VERSION (\d+)\.(\d+)\.(\d+)', top)
    v = dict(VERSION_MAJOR=m[1], VERSION_MINOR=m[2], VERSION_REVISION=m[3],
             CW_CONFIG_GLIBCXX_DEBUG='0', CW_CONFIG_LOCATION='1', CW_CONFIG_DEBUG='0', CW_CONFIG_DEBUGOUTPUT='0',
             CW_CONFIG_DEBUGT='0', CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET='-1', CW_SYS_TYPEDEFS='', CW_SYS_REDEFINES_FIX='',
             CW_PATH_PROG_PS='', PS_ARGUMENT='', libcwd_datadir='/usr/local/share')
    for k in ('CW_INTERFACE_VERSION', 'CW_INTERFACE_VERSION_REVISION', 'CW_INTERFACE_AGE'):
        v[k] = re.search(r'set\(%s (\d+)\)' % k, top)[1]
    have = {'HAVE_PWD_H', 'HAVE_SYS_RESOURCE_H', 'HAVE_DLOPEN', 'HAVE__RTLD_GLOBAL', 'HAVE_GETEGID', 'HAVE_GETGROUPS',
            'HAVE_GETGID', 'HAVE_BUILTIN_EXPECT'}

    def conf(src, dst):
        t = open(src).read()
        t = re.sub(r'#cmakedefine01 (\w+)', lambda m: f'#define {m[1]} {1 if m[1] in have else 0}', t)
        t = re.sub(r'#cmakedefine (\w+)', lambda m: f'#define {m[1]}' if m[1] in have else f'/* #undef {m[1]} */', t)
        t = re.sub(r'@(\w+)@', lambda m: v.get(m[1], ''), t)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or open(dst).read() != t:
            open(dst, 'w').write(t)
    conf(f'{REPO}/include/cmake-config.h.in', f'{out}/config.h')
    conf(f'{REPO}/include/libcwd/config.h.in', f'{out}/libcwd/config.h')
    conf(f'{REPO}/include/cwd_sys.h.in', f'{out}/cwd_sys.h')
    return f"{v['VERSION_MAJOR']}.{v['VERSION_MINOR']}.{v['VERSION_REVISION']}"


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def files(*globs):
    r = []
    for g in globs:
        r += [p for p in glob.glob(g, recursive=True) if os.path.isfile(p)]
    return sorted(set(r))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd


SAN = ['-fsanitize=thread', '-fno-builtin', '-U_FORTIFY_SOURCE', '-ftls-model=initial-exec', '--param', 'tsan-instrument-func-entry-exit=0',
       '--param', 'tsan-distinguish-volatile=0']
# A build that records which basic blocks of libcwd ran (tools/coverage.py).
COV = ['-fsanitize-coverage=trace-pc'] if os.environ.get('SIM_COV') else []
# Names the simulator must export to the objects it loads.
LINK_EXE = ['-no-pie', '-rdynamic', '-pthread', '-Wl,--no-as-needed', '-ldw', '-lelf', '-ldl']


def build(verbose=False):
    """Returns the directory with sim and the shared objects."""
    src_repo = files(f'{REPO}/src/**/*.cxx', f'{REPO}/src/**/*.h', f'{REPO}/include/**/*.h', f'{REPO}/include/**/*.in',
                     f'{REPO}/*.h', f'{REPO}/CMakeLists.txt')
    src_sim = files(f'{SIM}/*.cpp', f'{SIM}/*.h', f'{SIM}/shim/**/*.h', f'{SIM}/build.py', f'{SIM}/fixtures.py', f'{SIM}/*.list', f'{SIM}/lib/*')
    key = tree_hash(src_repo + src_sim) + ('cov' if COV else '')
    out = os.path.join(BUILD, 'out-' + key)
    if os.path.exists(os.path.join(out, 'done')):
        return out
    gen = os.path.join(BUILD, 'gen')
    version = gen_headers(gen)
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    inc_sut = [f'-I{gen}', f'-I{SIM}/shim', f'-I{REPO}/include', f'-I{REPO}']
    defs = ['-DCWDEBUG', f'-DVERSION="{version}"']
    sut_hdr = tree_hash(files(f'{REPO}/include/**/*.h', f'{REPO}/src/**/*.h', f'{REPO}/*.h', f'{gen}/**/*.h', f'{SIM}/shim/**/*.h', f'{SIM}/app.h', f'{SIM}/build.py'))
    sim_hdr = tree_hash(files(f'{SIM}/*.h', f'{SIM}/build.py'))
    jobs, objs_sut, objs_app, objs_exe = [], [], [], []

    def obj(src, flags, hdr, tag):
        h = hashlib.sha256((hdr + ' '.join(flags) + src).encode() + open(src, 'rb').read()).hexdigest()[:20]
        o = os.path.join(objdir, f'{tag}-{os.path.basename(src)}-{h}.o')
        if not os.path.exists(o):
            jobs.append((os.path.getsize(src), [CXX, '-std=c++20'] + flags + ['-c', src, '-o', o + '.tmp'], o))
        return o
    for s in files(f'{REPO}/src/*.cxx', f'{REPO}/src/utils/*.cxx'):
        objs_sut.append(obj(s, ['-g', '-O1', '-fPIC'] + SAN + COV + defs + inc_sut, sut_hdr, 'sut'))
    for s in (f'{SIM}/first.cpp', f'{SIM}/app.cpp', f'{SIM}/app_extra.cpp', f'{SIM}/last.cpp'):
        objs_app.append(obj(s, ['-g', '-O1', '-fPIC'] + SAN + defs + [f'-I{SIM}'] + inc_sut, sut_hdr, 'app'))
    for s in files(f'{SIM}/*.cpp'):
        if os.path.basename(s) in ('app.cpp', 'app_extra.cpp', 'first.cpp', 'last.cpp'):
            continue
        rt = os.path.basename(s) in ('rt.cpp',)
        fl = ['-g1', '-O2' if rt else '-O1', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-Wall', '-Wno-unused-function', '-Wno-nonnull-compare', f'-I{SIM}']
        objs_exe.append(obj(s, fl, sim_hdr, 'exe'))
    jobs.sort(key=lambda j: -j[0])
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for (rc, txt, cmd), (_, _, o) in zip(ex.map(lambda j: run(j[1]), jobs), jobs):
            if rc:
                sys.stderr.write(' '.join(cmd) + '\n' + txt)
                raise SystemExit(3)
            if txt and verbose:
                sys.stderr.write(txt)
            os.rename(o + '.tmp', o)
    # Global objects are constructed in link order: one of the program's before those of libcwd, the others after them.
    # sutr.so has the files of libcwd in the opposite order, with all of the program's own objects but the first after it.
    def so(name, objs):
        return [CXX, '-shared', '-o', f'{out}/{name}'] + objs + ['-Wl,-Bsymbolic', '-Wl,--allow-shlib-undefined', '-ldw', '-lelf', '-pthread']
    links = [
        so('sut.so', objs_app[:1] + objs_sut + objs_app[1:]),
        so('sutr.so', objs_app[:1] + objs_sut[::-1] + objs_app[1:]),
        [CXX, '-o', f'{out}/sim'] + objs_exe + LINK_EXE,
    ]
    for l in build_libs(out):
        links.append(l)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for rc, txt, cmd in ex.map(run, links):
            if rc:
                sys.stderr.write(' '.join(cmd) + '\n' + txt)
                raise SystemExit(3)
    open(os.path.join(out, 'done'), 'w').write('')
    # keep the cache small
    outs = sorted(glob.glob(f'{BUILD}/out-*'), key=os.path.getmtime)
    for o in outs[:-3]:
        if o != out:
            for f in glob.glob(o + '/*'):
                os.unlink(f)
            os.rmdir(o)
    return out


def build_libs(out):
    # The object files for the simulated loader. They do not depend on /repo.
    import fixtures, shutil
    key = tree_hash(files(f'{SIM}/lib/*', f'{SIM}/fixtures.py'))
    d = os.path.join(BUILD, 'fx-' + key)
    if not os.path.exists(d + '/table'):
        shutil.rmtree(d, ignore_errors=True)
        fixtures.build(d)
    fx = os.path.join(out, 'fx')
    if not os.path.exists(fx):
        os.symlink('../fx-' + key, fx)
    return []


if __name__ == '__main__':
    print(build(True))
