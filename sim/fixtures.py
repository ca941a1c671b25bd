"""Builds the object files the simulated loader "maps", and what binutils (not elfutils) says about every address in them."""
import os, re, shutil, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(HERE, 'lib')
COM = ['g++', '-nostdlib', '-Wl,--build-id=none', '-ffile-prefix-map=%s=/src' % LIB, '-fcf-protection=none', '-Wl,-z,noseparate-code', '-fno-asynchronous-unwind-tables', '-fno-exceptions', '-w']
SHARED = ['-shared', '-fPIC']
# name: (sources with their flags, link flags, post-processing)
FIX = {
    'main': ([('fx1.cpp', ['-g', '-O1']), ('fx2.cpp', ['-g', '-O0'])], ['-pie', '-fPIE', '-Wl,-e,fx1_entry', '-Wl,-z,max-page-size=0x40000'], None),
    'dbg.so': ([('fx1.cpp', ['-g', '-O2']), ('fx2.cpp', ['-g', '-O2'])], SHARED, None),
    'dw4.so': ([('fx1.cpp', ['-gdwarf-4', '-O0']), ('fx2.cpp', ['-gdwarf-4', '-O1'])], SHARED, None),
    'nodbg.so': ([('fx3.cpp', ['-O1']), ('fx4.s', [])], SHARED, None),
    'strip.so': ([('fx3.cpp', ['-O2']), ('fx2.cpp', ['-O1'])], SHARED + ['-s'], None),
    'split.so': ([('fx1.cpp', ['-g', '-O2']), ('fx3.cpp', ['-g', '-O0'])], SHARED, 'split'),
    'mix.so': ([('fx3.cpp', ['-O1']), ('fx2.cpp', ['-g', '-O2']), ('fx4.s', [])], SHARED, None),
    'data.so': ([('fx5.cpp', ['-O1', '-g'])], SHARED + ['-Wl,-Tdata=0x41000'], None),
    'clang.so': ([('fx1.cpp', ['clang', '-g', '-O2']), ('fx2.cpp', ['clang', '-g', '-O1']), ('fx6.cpp', ['clang', '-g', '-O1'])], SHARED, None),
    'nolink.so': ([('fx2.cpp', ['-g', '-O2'])], SHARED, 'lost'),
}


def out(*cmd, inp=None):
    return subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=inp, text=True).stdout


def build(dst):
    os.makedirs(dst, exist_ok=True)
    table = []
    for name, (srcs, link, post) in FIX.items():
        objs = []
        pic = ['-fPIE'] if '-pie' in link else ['-fPIC']
        for i, (s, fl) in enumerate(srcs):
            o = os.path.join(dst, f'{name}.{i}.o')
            com = COM[:]
            if fl[:1] == ['clang']:
                fl = fl[1:]
                if shutil.which('clang++'):
                    com[0] = 'clang++'
            subprocess.run(com + pic + fl + ['-c', os.path.join(LIB, s), '-o', o], check=True)
            objs.append(o)
        path = os.path.join(dst, name)
        subprocess.run(COM + link + objs + ['-o', path], check=True, cwd=dst)
        for o in objs:
            os.unlink(o)
        full = path
        if post:
            full = path + '.debug' if post == 'split' else path + '.full'
            if post == 'split':
                full = path + '.full'
                os.rename(path, full)
                dbg = path + '.debug'
                out('objcopy', '--only-keep-debug', full, dbg)
                out('objcopy', '--strip-debug', '--add-gnu-debuglink=' + dbg, full, path)
            else:
                # The debug information is elsewhere and cannot be found.
                os.rename(path, full)
                dbg = os.path.join(dst, 'lost.debug')
                out('objcopy', '--only-keep-debug', full, dbg)
                out('objcopy', '--strip-debug', '--add-gnu-debuglink=' + dbg, full, path)
                os.unlink(dbg)
                full = path
        table.append(describe(name, path, full))
        if full != path:
            os.unlink(full)
    open(os.path.join(dst, 'table'), 'w').write('\n'.join(table) + '\n')


def describe(name, path, full):
    r = [f'file {name}']
    text = out('readelf', '-lW', path)
    for m in re.finditer(r'^\s+(LOAD|DYNAMIC|GNU_STACK|NOTE)\s+(0x\w+)\s+(0x\w+)\s+0x\w+\s+(0x\w+)\s+(0x\w+)\s+([RWE ]+?)\s+(0x\w+)$', text, re.M):
        typ = {'LOAD': 1, 'DYNAMIC': 2, 'NOTE': 4, 'GNU_STACK': 0x6474e551}[m[1]]
        fl = (4 if 'R' in m[6] else 0) | (2 if 'W' in m[6] else 0) | (1 if 'E' in m[6] else 0)
        r.append(f'ph {typ} {fl} {int(m[3], 16)} {int(m[5], 16)} {int(m[4], 16)} {int(m[2], 16)} {int(m[7], 16)}')
    # Function symbols of the file itself.
    syms = []
    for l in out('readelf', '-sW', path).split('\n'):
        f = l.split()
        if len(f) == 8 and f[3] in ('FUNC', 'IFUNC') and f[6] != 'UND':
            syms.append((int(f[1], 16), int(f[2], 0), f[7]))
    lo = min((s[0] for s in syms), default=0)
    hi = max((s[0] + s[1] for s in syms), default=0) + 48
    dsyms = syms
    if full != path:
        dsyms = []
        for l in out('readelf', '-sW', full).split('\n'):
            f = l.split()
            if len(f) == 8 and f[3] in ('FUNC', 'IFUNC') and f[6] != 'UND':
                dsyms.append((int(f[1], 16), int(f[2], 0), f[7]))
    rows = {}
    for m in re.finditer(r'^\S+\s+(\d+|-)\s+(0x[0-9a-f]+|0)\b', out('objdump', '--dwarf=decodedline', full), re.M):
        rows.setdefault(int(m[2], 16), []).append(m[1])
    starts = sorted(rows)
    lo = max(lo - 48, 0)
    if lo < hi:
        addrs = range(lo, hi)
        # One record per address, ended by an empty line; per frame a function and file:line:column, the innermost first.
        recs = out('llvm-symbolizer', '-e', full, '--no-demangle', '--functions=linkage', '--inlining', inp='\n'.join(hex(a) for a in addrs) + '\n').split('\n\n')
        ans = {a: r.split('\n') for a, r in zip(addrs, recs)}
        runs = []
        import bisect
        for a in addrs:
            cover = [s for s in syms if s[0] <= a < s[0] + s[1]]
            size = min((s[1] for s in cover), default=0)
            elf = sorted({s[2] for s in cover if s[1] == size})
            fn, fl = ans[a][0], ans[a][1]
            file, line = fl.rsplit(':', 2)[:2]
            dw = None
            if file.startswith('/src/') and rows and any(s[0] <= a < s[0] + s[1] for s in dsyms):
                i = bisect.bisect_right(starts, a) - 1
                lines = {x for x in rows[starts[i]] if x != '-'} | ({line} if line not in ('?', '0') else set())
                dw = (fn, file, ','.join(sorted(lines, key=int)))
                phys = [ans[a][j] for j in range(0, len(ans[a]) - 1, 2)]
            e = (','.join(elf) or '-', dw[0] if dw else '-', phys[-1] if dw else '-', dw[1] if dw else '-', dw[2] if dw and dw[2] else '-')
            if runs and runs[-1][2] == e and runs[-1][1] == a:
                runs[-1][1] = a + 1
            else:
                runs.append([a, a + 1, e])
        for x in runs:
            # lo hi  symbol-table-names  innermost-function  enclosing-function  file  lines
            r.append(f'a {x[0]} {x[1]} ' + ' '.join(x[2]))
    return '\n'.join(r)


if __name__ == '__main__':
    import sys
    build(sys.argv[1])
