# What each check explores.
REAL = ['all of libcwd (/repo/src and /repo/include as in the working tree, compiled with memory access instrumentation)',
        'libstdc++ streams, strings and containers (real code; their synchronisation is simulated)', 'the dynamic linker\'s relocation and thread-local storage of one shared object']
STUBS = ['thread scheduler, mutexes, read/write locks, thread start/end and thread-specific destructors (simulated, one thread runs at a time)',
         'the external "threadsafe" submodule (an equivalent in /verif/sim/shim; its sources are not part of /repo)',
         'clocks and sleeping (virtual time)', 'malloc and free (own heap with quarantine, shadow memory and optional address reuse)',
         'output devices (stream buffers with injected stalls, failures, exceptions and errno changes)', 'standard input', 'process termination (recorded, then the process is left to end)']
ASSUMPTIONS = ['sequentially consistent interleavings at memory-access granularity; weaker orders are covered by reporting every data race instead',
               'built with CWDEBUG and location support, without CWDEBUG_DEBUG, as the default configuration of the repository',
               'programs keep to the documented rules (a lock is set before threads write, a stream is always used with the same lock, no exceptions masked on streams)']
DOUT_RULE = ('Programs of up to 10 threads are generated from a seed: trees of debug statements (plain, continued, nested, entering, fatal), switch, format, '
             'destination, registry and thread operations with random flags, texts and fault points; the scheduler is one of random-at-synchronisation, '
             'random-at-any-access, random-at-shared-access, priority based (PCT) or stalled-thread, drawn from the same seed. Focus profiles: %s.')
MODEL = 'executable reference model of the documented behaviour (sim/dout.cpp), compared with every byte at the moment it leaves the lock; plus a happens-before race detector, shadow memory, deadlock and livelock detection on every run'


def dout(*profiles, quick=25, more=[], **kw):
    # the first profile gets the most runs
    pr = ['dout:' + p for p in profiles]
    return dict(profiles=([pr[0]] + pr if len(pr) > 1 else pr) + more, quick=quick, rule=DOUT_RULE % ', '.join(profiles), oracle=MODEL, **kw)


SYM_RULE = ('Address spaces of up to 8 object files (nine prebuilt kinds: DWARF 4 and 5, inlining, assembler, symbol table only, stripped, separate debug file, lost debug file, '
            'data only, no linkage names; fixed, adjacent or recycled load addresses, dependencies, libraries locked in memory, libraries whose constructors and destructors '
            'look up, load and unload) and programs of up to 5 threads doing lookups of locations and function names - alone, inside a message, before main - and dlopen and dlclose calls '
            'are generated from a seed, with injected failures. Focus profiles: %s. The scheduler strategies are those of the other checks.')
SYM_ORACLE = ('for every lookup the set of answers allowed by the recorded history of mappings, computed ahead of time from independent readers (llvm-symbolizer, objdump, readelf) for every address of every '
              'object file; accounting of descriptors and library handles; a reference of the dynamic loader (dependencies, reference counts, constructors, addresses); race detector, shadow memory, deadlock and livelock detection on every run')


def sym(*profiles, quick=22, **kw):
    pr = ['sym:' + p for p in profiles]
    rule, oracle = kw.pop('rule', SYM_RULE % ', '.join(profiles)), kw.pop('oracle', SYM_ORACLE)
    return dict(profiles=pr, quick=quick, rule=rule, oracle=oracle,
                real=['libdw and libelf (real code, run on the in-memory object files; each call is one step of the calling thread)', 'libcwd\'s own dlopen and dlclose'],
                stubs=['the dynamic loader (dlopen, dlclose, dlinfo, dl_iterate_phdr: simulated with glibc\'s two locks, constructors, dependencies and unmapping)',
                       'the files of the object files (open, pread, mmap, close, readlink, realpath: generated copies with injected faults)'], **kw)


CHECKS = {
    'C01': dout('lock', 'mix', 'replace'),
    'C02': dout('deliver', 'lock', 'mix'),
    'C03': dout('format', 'mix'),
    'C04': dout('interrupt', 'tend'),
    'C05': dout('nest', 'cont', 'format'),
    'C06': dout('cont', 'interrupt'),
    'C07': dout('switch', 'init'),
    'C08': dout('flush', 'nest'),
    'C09': dout('fatal'),
    'C10': dout('progress', 'lock'),
    'C11': dout('tend', 'interrupt'),
    'C12': dout('replace', 'lock'),
    'C13': dout('registry'),
    'C14': dout('init', more=['rc:init']),
    'C15': dict(profiles=['rc:file'], quick=20,
                rule='A simulated file system (home, current directory, system directory, override file), environment and user data base are generated from a seed together with '
                     'configuration files: every keyword, comments, blank and malformed lines, wildcard masks, case changes, long lines, CRLF, missing final newline; faults are missing, '
                     'forbidden, unreadable, truncated and failing files (open errors, short reads, read errors), unset variables and a failing user lookup; files are read at start and again at run time, by several threads.',
                oracle='independent model of file selection, line processing, reported lines and resulting states of every channel (sim/rc.cpp), compared with the real channels, the calls made to the file system and everything written; shadow memory and race detection on every run',
                real=['libcwd\'s own file handling including std::ifstream and libstdc++ streams'],
                stubs=['file system, environment and user data base (a generated in-memory tree behind stat, access, open, read, getenv, getpwuid)']),
    'C16': sym('look'),
    'C17': sym('load'),
    'C18': sym('bad'),
    'C19': dout('errno', 'nest'),
    'C20': sym('loc'),
    'C21': dict(profiles=['gdb:attach'], quick=15,
                rule='The configured commands (all lengths around the limits, empty, unset), the process id, the result of the command, the moment and manner of the end of the child, '
                     'the moment of attaching, the availability of its exit status, other threads writing debug output and the failures are generated from a seed; attaching is requested once or twice.',
                oracle='a model of the process table, terminal and debugger (sim/gdb.cpp): what the child may execute, write and exit with, when the caller must return, and which diagnostic must end the program; time limits in virtual time',
                real=['the code of the child, in a real copy of the simulated process'],
                stubs=['fork, system, waitpid, exit, kill, getpid and the debugger (scripted process table); file system and environment (generated in-memory tree)']),
    'C22': dout('mix', 'tend', 'replace', 'registry', 'init', more=['sym:look', 'sym:load']),
    'C23': sym('pre', quick=20,
               rule='The simulated program has a global object that is constructed before those of libcwd and one that is constructed after everything else; the object files of libcwd are linked in '
                    'two opposite orders. What each constructor, main and each destructor does is generated from a seed: the first use (initialize(), a lookup, dlopen, forcing the debug object on), statements, '
                    'switches, format, destination, registries, lookups alone and inside messages, loading and unloading (also in constructors and destructors of libraries), then the same lookups again after main was reached; '
                    'the start-up environment variables and the core size limit vary; the calls that read and set the limit, and the files, fail.',
               oracle='a model of switches, format, destination and registries that accounts for every line written in every phase (delivered once if on, otherwise nothing), with the core size warning and loading messages '
                      'allowed exactly when the environment says so; for lookups the answers of independent readers (llvm-symbolizer, objdump, readelf); any read of debug information before main is reported'),
    'C24': dict(profiles=['util:threads', 'util:threads', 'sym:pre'], quick=20,
                rule='Up to six threads ask for type information (20 types), demangled names (about 420 valid names, plus damaged ones: changed, truncated, recombined), escaped buffers and error names, drawn '
                     'from a small common pool so that several threads ask for the same thing for the first time; a new process per run. The same requests are made by constructors and destructors of global objects, '
                     'in two link orders. Object files with damaged symbol names are part of the runs for C18.',
                oracle='a table of the right answers (for names: those on which GNU c++filt and libcwd agree), the first answer for anything else; nothing may be written; race detector, shadow memory, livelock and crash detection on every run',
                stubs=['threads and their scheduling (the type information, demangler and printing are real code without stubs)']),
    'C25': dict(profiles=['sym:load', 'dout:replace', 'dout:format', 'dout:tend', 'sym:bad', 'dout:cont', 'sym:loc', 'rc:file', 'dout:init', 'gdb:attach', 'util:threads'], quick=22,
                rule='The programs of the other checks: output, switches, format changes and saved formats, replaced destinations, threads that start and end, libraries that are loaded, looked up in and '
                     'closed, damaged object files, configuration files, failing calls. At the end of each run, before exit handlers, every block that was allocated by libcwd since the run started is searched for.',
                oracle='every allocation is recorded; a conservative mark phase from the data of all modules, thread specific data, and stacks of running threads finds the blocks that nothing refers to any more; programs whose last part is repeated 8 to 160 times must not need more memory each time; '
                       'blocks that a thread cut off by the program owned are not counted, nor the names of object files (documented as kept for ever)',
                stubs=['files, the loader and threads as in the checks that these profiles come from']),
}
