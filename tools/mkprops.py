#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

D="src/debug.cxx"; W="src/dwarf.cxx"
prop("C01","Output stream is only touched under its lock; messages never interleave",
 "Once a stream was given to a debug object together with a lock, every byte the library writes to that stream and every flush of it happens while the writing thread holds that lock, and the lock is released again by the same thread. The bytes one thread contributes under one acquisition are contiguous in the stream, so messages of different threads never mix inside a line part, also not while the application itself uses the stream under the same lock.",
 ["schedules","programs"],"For every number of threads, every mix of debug statements (plain, continued, nested, flushed, cerr-directed), every kind of lock with lock/try_lock/unlock, and every interleaving of the threads at the granularity of single memory accesses.",
 "The threaded tests run a handful of loops under whatever schedule the OS happens to give and only look for a crash; no test controls the schedule or sees who holds the lock at the moment of a write.",
 [D,"include/libcwd/DebugObject.inl.h","include/libcwd/set_ostream.inl.h","include/libcwd/private/LockInterface.h"],
 [("write of a finished buffer under the selected lock","src/debug.cxx Buffer::writeto"),("stream/lock pair selection","include/libcwd/DebugObject.inl.h OstreamState::get_locked_os"),("prompt of wait_cf","src/debug.cxx DebugObject_ThreadSpecificData::finish")],
 [("stream/lock pair","current destination and its lock")],
 ["bytes, flushes and lock owner seen by the stream"])
prop("C02","Every enabled message is delivered exactly once, in program order",
 "Every debug statement whose debug object and channel are on for the calling thread is delivered to the selected stream exactly once and completely, before the statement returns, and the messages of one thread appear in its program order. A statement that is off delivers nothing and does not evaluate its output expression.",
 ["schedules","programs"],"For every program of debug statements over several threads, objects and channels (lengths from 0 to several kB, each control flag), every toggling of channels and every interleaving.",
 "Tests check a few single-threaded expected outputs; loss or duplication under concurrency depends on schedules that a test does not choose.",
 [D,"include/libcwd/macro_Libcwd_macros.h","include/libcwd/ChannelSet.inl.h"],
 [("statement expansion","include/libcwd/macro_Libcwd_macros.h LibcwDoutScopeBegin/End"),("buffer hand-over","src/debug.cxx Buffer::writeto")])
prop("C03","Prefix and format settings are per thread and exact",
 "Each line starts with exactly the calling thread's current colour-on string, margin, channel label padded to the common label width, marker and indentation for that debug object, as modified by the no-prefix/no-label/blank control flags, and ends with the colour-off string and a newline. Changing, pushing or popping margin, marker, colours or indentation in one thread or object never affects another thread or object, and pop restores exactly what was pushed.",
 ["schedules","programs","histories"],"For every history of margin/marker/colour/indent changes, pushes, pops, Indent and Mark scopes and entering-traces in any number of threads and objects, for strings of any length (including growth past every internal capacity step and shrinking back) and any interleaving.",
 "Unit tests set one margin in one thread; capacity steps, push/pop depth and cross-thread independence need long random histories over several threads.",
 [D,"include/libcwd/DebugObject.inl.h","include/libcwd/DebugString.inl.h","include/libcwd/debug.h"],
 [("prefix construction","src/debug.cxx DebugObject_ThreadSpecificData::start"),("string storage","src/debug.cxx DebugString::internal_*"),("margin/marker stacks","src/debug.cxx DebugObject::push_margin/pop_margin/push_marker/pop_marker")])
prop("C04","Interrupted lines are marked so every message can be reassembled",
 "When a thread's line is still open and anything else is written to the stream through the same debug object, the open line is first closed with a marker telling whether it is unfinished or simply without newline, and the rest of an unfinished message starts on a new line with its original prefix followed by a continuation marker. From the stream alone every message can therefore be put together again, and no line ever contains text of two messages, except where a thread itself goes on with a line that it left open on purpose (nonewline_cf).",
 ["schedules","programs"],"For every placement of flushes, newline suppression, continued output and thread switches between the parts of messages of several threads.",
 "Which line is open when another thread writes depends on the schedule; existing tests only show single-thread interruption.",
 [D],
 [("interruption and continuation markers","src/debug.cxx Buffer::writeto"),("self-interruption by a nested statement","src/debug.cxx DebugObject_ThreadSpecificData::start")],
 [("open-line bookkeeping","which thread and which message left the last line of the stream open")])
prop("C05","Nested debug statements: inner first, indented, outer intact",
 "A debug statement executed while evaluating the output expression of another one on the same thread and object is written as a line of its own before the outer line, indented by four extra columns per nesting level, and the outer message is later written complete and unchanged. The nesting leaves indentation and stream state exactly as they were, for any depth and any mixture with continued output, and an error-stream or flush request is passed on along the nesting as documented.",
 ["schedules","programs"],"For every tree of nested statements (including nesting inside continued output, disabled levels, different debug objects) and every interleaving with other threads.",
 "Tests contain two or three fixed nestings in one thread.",
 [D,"include/libcwd/private/DebugStack.h","include/private_DebugStack.inl.h"],
 [("output state stack","src/debug.cxx start/finish"),("stack","include/private_DebugStack.inl.h")])
prop("C06","Continued output pairs up correctly, whatever is switched off",
 "A message started with continued_cf and extended by continued statements ends with its own finish statement: the parts end up in that message in order, under the prefix of the starting statement. If the starting channel was off then all its continuations and its finish are silent too, for any nesting of on and off continued messages and any channel toggling in between; a continuation without a matching start is reported as a fatal error.",
 ["programs","histories","schedules"],"For every well-bracketed tree of continued/continued/finish statements over on and off channels, toggles in between, and every interleaving with other threads; and for each ill-formed use.",
 "The pairing is a stack discipline over arbitrary nesting of on/off states; tests show a few fixed cases.",
 [D,"include/libcwd/ChannelSet.inl.h","include/libcwd/ContinuedChannel.inl.h"],
 [("off counter and continued stack","src/debug.cxx ChannelSet::operator|(continued_cf_nt), ChannelSetBootstrap::operator|(ContinuedChannel)"),("missing start detection","src/debug.cxx DebugObject_ThreadSpecificData::start")])
prop("C07","On/off switches count per thread, nest, and start in the documented state",
 "Debug objects and channels are switched per thread by counting: output appears exactly when the balance of off and on calls of that thread says so, always-on channels cannot be switched off, and a forced-on section restores exactly the previous state. In the thread that registers them objects and channels start off, except for the warning channel; a new thread starts with everything off. Switching in one thread never affects another, and switching a channel on more often than it was off is reported as a fatal error.",
 ["histories","schedules"],"For every history of on/off/force/restore calls over objects, channels and threads, and every interleaving.",
 "Per-thread independence and arbitrary-depth balances are not sampled by the tests, which toggle once or twice in one thread.",
 [D,"include/libcwd/DebugObject.inl.h","include/libcwd/Channel.inl.h","include/libcwd/LibcwdForAllDebugChannels.h"],
 [("channel counters","src/debug.cxx Channel::on/off/force_on/restore"),("object counters","include/libcwd/DebugObject.inl.h DebugObject::on/off; src/debug.cxx force_on/restore"),("start state of a thread","src/debug.cxx debug_tsd_init")])
prop("C08","Flushed output survives a crash at any later point",
 "When a statement with the flush flag, or any statement while always-flush is on for the object, has returned, all its output and everything written to that stream before it has been flushed to the device, including each flushed part of an unfinished continued message; a flush request made by a nested statement is carried out when the output it is nested in reaches the real stream. Hence a crash at any point after the return loses none of it.",
 ["crash_points","schedules","programs"],"For every program with flush requests in any nesting/continuation and every crash point in every interleaving, with a stream device that keeps everything unflushed in volatile memory.",
 "Tests write to files that are closed normally; none kills the process with unflushed data at a chosen point.",
 [D,"include/libcwd/DebugObject.inl.h"],
 [("flush decision","src/debug.cxx DebugObject_ThreadSpecificData::finish"),("flush","src/debug.cxx Buffer::writeto"),("always flush counter","include/libcwd/DebugObject.inl.h always_flush_on/off")])
prop("C09","Fatal output terminates exactly once, with the message out first",
 "A fatal statement first delivers and flushes its complete message and then terminates the process, by abort for a core dump request and by immediate exit with status 180 otherwise, and it never returns. When several threads reach fatal statements concurrently then exactly one of them performs the termination and the others neither return nor start a second one.",
 ["schedules","programs","fault_sequences"],"For every number of threads, any mix of fatal/coredump statements, nested or in the middle of open lines, with blocked or failing streams, in every interleaving.",
 "A test process can die only once and under one schedule; competing terminations are schedule dependent.",
 [D],
 [("termination ownership","src/debug.cxx claim_fatal_termination_ownership"),("termination path","src/debug.cxx finish/fatal_finish/core_dump")])
prop("C10","Debug output always makes progress and never keeps the lock",
 "Provided the application releases the output lock in finite time, every debug statement of every thread returns within a bounded number of its own steps, and no thread keeps the output lock (or any internal lock) after its statement returned, whatever the state of the stream: failing or full devices, end-of-file or errors on the terminal input awaited by an interactive statement, interrupted or stretched sleeps, or a clock that jumps. The library's own use of several locks never deadlocks with itself.",
 ["schedules","fault_sequences"],"For every interleaving and every sequence of stream failures, input errors, slow lock holders and early or late timer wake-ups.",
 "Deadlocks and endless loops need specific schedules and faults; no test injects any.",
 [D,"include/libcwd/DebugObject.inl.h"],
 [("lock hand-over","src/debug.cxx Buffer::writeto, finish"),("bounded try-lock","src/debug.cxx start"),("interactive wait","src/debug.cxx finish (wait_cf)")])
prop("C11","Threads may come and go at any time without corrupting anything",
 "A thread can start using the library at any time without preparation and end at any time, also while the line it wrote is still open or while it has pushed margins, and other threads can keep writing and switching lines without touching memory of the ended thread. Everything the library allocated for an ended thread is released, so an unbounded number of threads that finish their messages can pass by.",
 ["schedules","histories"],"For every history of thread starts and ends relative to the debug output of other threads, in every interleaving.",
 "Use of a dead thread's state needs another thread's write at a specific moment after the exit; leaks per thread are invisible to the tests.",
 ["src/threading.cxx",D],
 [("per-thread state creation and cleanup","src/threading.cxx ThreadSpecificData::instance/cleanup_routine"),("open-line reference","src/debug.cxx Buffer::writeto")])
prop("C12","The destination can be replaced while threads are writing",
 "Replacing the stream, or the stream and its lock, of a debug object is atomic with respect to output: every message part goes entirely to one stream under the lock that belongs to it. After the replacing call has returned, the old stream and the old lock are no longer used and may be destroyed.",
 ["schedules"],"For every interleaving of replacing calls with writers, readers of the current stream, other replacing calls and fatal paths.",
 "The window between selecting the pair and using it is a few instructions wide; tests never replace a stream while threads write.",
 ["include/libcwd/DebugObject.inl.h","include/libcwd/set_ostream.inl.h",D],
 [("pair replacement","include/libcwd/DebugObject.inl.h OstreamState::replace_with/set_ostream"),("retry on replaced lock","include/libcwd/DebugObject.inl.h OstreamState::get_locked_os/try_lock_os")])
prop("C13","Channel and object registries stay complete, ordered and searchable",
 "Iterating over all channels visits every registered public channel exactly once in label order, iterating over all objects visits each object once, and looking a channel up by a case-insensitive label prefix yields the alphabetically last match or nothing, also while another thread registers a new channel. Every channel has its own switch, is off by default except the warning channel, and after registration of a longer label all labels are padded to the new common width.",
 ["schedules","inputs","histories"],"For every set and order of channel registrations (including from threads while others iterate, search and write), every label up to the maximum length, and every search prefix.",
 "Tests register a fixed set of channels before main and never concurrently.",
 [D,"include/libcwd/LibcwdForAllDebugChannels.h","include/libcwd/LibcwdForAllDebugObjects.h"],
 [("channel registry","src/debug.cxx DebugChannels::initialize_channel/find/for_each_impl"),("object registry","src/debug.cxx DebugObjects::add_if_missing")])
prop("C14","Thread initialisation yields the requested channel state and margin",
 "Initialising a thread in the from-configuration mode turns on exactly the channels the configuration turned on, in copy mode exactly those that are on in the main thread together with the on/off state of the object, and in the off mode leaves output off; it also guarantees a lock on the stream and sets the margin from the given name, padded to sixteen columns, or from the thread id. This holds whichever threads initialise concurrently.",
 ["schedules","configurations","histories"],"For every combination of modes, names of any length, configurations and channel toggles in the main thread, and every interleaving of concurrently starting threads.",
 "The function is exercised by no stable test, and concurrent first use is schedule dependent.",
 ["src/init_functions.cxx","include/libcwd/init_functions.h"],
 [("thread initialisation","src/init_functions.cxx init_thread"),("stored configuration state","src/init_functions.cxx save_dc_states/is_on_in_rcfile")])
prop("C15","The runtime configuration file is honoured, whatever the file system does",
 "Reading the runtime configuration selects the documented file (environment override, then current directory, home directory, system default), skips comments and blank lines, applies each channels_default / channels_on / channels_off / channels_toggle / silent setting in order with case-insensitive wildcard masks for the channel names, lets the optional override file change the channels of the file that was read before, and leaves every channel in exactly the resulting state. Malformed lines are warned about or fatal as documented and are otherwise without effect, and a missing, unreadable, truncated or failing file never hangs, crashes or leaves a half-applied line.",
 ["inputs","configurations","fault_sequences"],"For every file content over the configuration grammar including malformed lines, every placement of the files, every environment, and every short read, read error, or missing/forbidden file.",
 "Tests use the one rc file that lies in the test directory.",
 ["src/utils/rcfile.cxx","include/libcwd/RcFile.h","src/environ.cxx"],
 [("file selection","src/utils/rcfile.cxx RcFile::determine_rcfile_name"),("line processing","src/utils/rcfile.cxx RcFile::read / process_channels")])
prop("C16","Concurrent address lookups give the same answer as a lone lookup",
 "Looking up the source location or function name of a code address gives the function, file and line that the object's debug information (or else its symbol table) states for it, and 'unknown' for addresses outside all loaded code. The answer is the same whichever threads look up whichever addresses at the same time, including the very first lookups that load the symbol information.",
 ["schedules","inputs"],"For every set of addresses (function starts, ends, interior, inlined code, gaps, data), every number of threads and every interleaving of first and repeated lookups.",
 "Only interleavings of first lookups expose unsynchronised loading; tests look up single-threaded.",
 [W,"src/location.cxx","include/dwarf_symbol_ranges.h"],
 [("symbol loading","src/dwarf.cxx ObjectFile::realize_symbols/find_symbol"),("line lookup","src/dwarf.cxx SymbolRange::lookup_location"),("range map","include/dwarf_symbol_ranges.h insert_function_symbol_range")])
prop("C17","The set of known objects follows the dynamic loader",
 "After any history of dlopen and dlclose calls an address belongs to a known object exactly when an object is mapped there: an opened library is known from the return of dlopen until the close that really unloads it, and repeated opens, no-load probes, never-unload flags, failed opens and failed closes keep the balance right. Results and error codes of the real loader are passed through unchanged.",
 ["histories","schedules","fault_sequences"],"For every history of dlopen/dlclose with any flags, over several libraries and threads, with loader failures and address reuse, in every interleaving with lookups.",
 "Tests open and close one library once.",
 [W],
 [("loader wrappers","src/dwarf.cxx dlopen/dlclose"),("registration","src/dwarf.cxx ObjectFileRegistry::register_object_file_at_lbase/cb_dl_iterate_phdr"),("unregistration","src/dwarf.cxx ObjectFileData::unregister_object_file_ranges")])
prop("C18","Unreadable symbol information degrades to 'unknown', nothing worse",
 "When an object file is missing, unreadable, truncated or corrupt, or when opening or reading it fails at any point, lookups in it yield the best still available answer or 'unknown' and lookups in other objects are unaffected. The process does not crash, hang, abort, leak file descriptors, or retry forever, the caller's errno survives a lookup, and output in progress is not disturbed.",
 ["fault_sequences","inputs","schedules"],"For every failing call (open, read, map, allocation of descriptors) at every point of the symbol loading, and every truncation of the file.",
 "Tests only use intact object files and a working file system.",
 [W,"src/location.cxx"],
 [("debug info opening","src/dwarf.cxx get_debug_info_path/ObjectFileData::open_dwarf/close_dwarf"),("fallback symbols","src/dwarf.cxx ObjectFileData::load_elf_function_symbols")])
prop("C19","Error text shows errno as it was when the statement started",
 "A statement with the error flag appends the name and description of the value errno had when the statement (for continued output: the last continuation or finish) started, even if evaluating the expression, nested statements, lookups, flushing or interrupting an open line change errno meanwhile. Producing debug output that is switched off leaves errno untouched.",
 ["programs","schedules","fault_sequences"],"For every errno value, every nesting and continuation, and with stream and lock operations that clobber errno.",
 "Tests print one fixed error once; nothing clobbers errno in between.",
 [D,"src/strerrno.cxx"],
 [("errno capture","src/debug.cxx DebugObject_ThreadSpecificData::start"),("error text","src/debug.cxx finish; src/strerrno.cxx")])
prop("C20","Location values can be copied, assigned, cleared and moved between threads",
 "A location keeps reporting the same file, line, function, object file and known/unknown state however often and in whatever order it and others are copied, assigned (also to each other or itself), cleared, re-initialised or destroyed, and whichever threads do that after each other, as long as the location that owns the stored path exists; copying and assigning move that ownership to the target unless it was locked. The memory of a path is released exactly once, when its owner goes, and never used after that. Writing a location follows the format set by the calling thread only.",
 ["histories","schedules"],"For every history of constructions, copies, assignments (including self- and chained assignment), clears, re-initialisations and destructions over a set of locations, in one thread and handed over between threads.",
 "The ownership protocol has history dependent states that a few fixed copies in a test do not reach.",
 ["src/location.cxx","include/libcwd/Location.h","include/libcwd/Location.inl.h","include/libcwd/lockable_auto_ptr.h"],
 [("ownership of the path","include/libcwd/lockable_auto_ptr.h"),("copy/clear","src/location.cxx Location::Location/operator=/clear")])
prop("C21","Attaching a debugger terminates or attaches under every process fault",
 "A request to attach a debugger starts at most one child, with the configured commands, this process as target and a stop where the request returns, and returns exactly when the debugger has signalled that it attached. When the child cannot be started, or ends (by exit or by signal) without attaching, or cannot be waited for, then the program terminates with a diagnostic that states what happened to the child; no sequence of failed or interrupted system calls makes the caller hang, continue unattached, or run the child's code path in the parent.",
 ["fault_sequences","schedules"],"For every sequence of failures, interruptions and timings of starting, waiting for and losing the child, every child exit status or signal, every moment of attaching, and every configured command.",
 "The function is exercised by no stable test, and process faults cannot be provoked by ordinary input.",
 ["src/utils/attach_gdb.cxx"],
 [("child handling","src/utils/attach_gdb.cxx attach_gdb")])
prop("C22","Concurrent use is free of data races and memory errors",
 "Any number of threads may use the whole thread-safe interface at the same time - debug output, switches, format settings, iteration, destination replacement, location lookups, thread start and end - without any two unsynchronised conflicting memory accesses inside the library. No access ever goes outside live allocated memory and no memory is freed twice.",
 ["schedules","programs"],"For every multi-threaded program over the interface and every interleaving at memory-access granularity.",
 "A race or stale access shows up as a wrong result only in rare schedules; the tests have neither a controlled schedule nor a happens-before check.",
 [D,W,"src/threading.cxx","src/location.cxx","src/init_functions.cxx"],
 [("shared state of a debug object","src/debug.cxx Buffer::writeto"),("registries","src/debug.cxx DebugChannels/DebugObjects"),("symbol caches","src/dwarf.cxx ObjectFile")])
prop("C23","Output and lookups work from the first constructor to the last destructor",
 "The library can be used before main and after it: whatever order global constructors and destructors run in, and whatever the first use is (initialize(), a lookup, dlopen, forcing the debug object on), libcwd is initialised exactly once, initialising again changes nothing, and everything that was set before its own global objects are constructed (which objects and channels are on, destination, margin, marker, indentation, flushing) stays in effect afterwards; every statement is delivered exactly once if its object and channel are on, and nothing is delivered otherwise except the core size warning and the loading messages that LIBCWD_NO_STARTUP_MSGS and LIBCWD_PRINT_LOADING control. Lookups made before main was reached give the function from the symbol table, and do not load debug information or hang; the same address looked up again after main was reached gives file and line too. The core size limit is raised to its hard limit once; when that fails the program ends with a message that says so.",
 ["histories","configurations","fault_sequences"],"For every order of first uses (output, channel, object, location, dlopen, main_reached) before main and after exit handlers started, and every combination of the start-up environment variables.",
 "A test program has one fixed link order; static-initialisation orders are not varied.",
 [D,"src/environ.cxx","src/location.cxx","include/libcwd/DebugObject.h",W],
 [("one-time initialisation","src/debug.cxx ST_initialize_globals/DebugObject::NS_init"),("first lookup","src/dwarf.cxx ensure_initialization"),("lookups before main","src/location.cxx Location::pc_location, src/dwarf.cxx ObjectFile::realize_symbols"),("environment","src/environ.cxx")])
prop("C24","Helpers give every thread the same right answer",
 "The type information of a type (its names, its size and the size of what it points to), the demangled form of a symbol or type name, the escaped form of a buffer and the name of an error number are the same for every thread and at every moment - also on the first request, before main, and while other threads make the same request for the first time - and are those that a single-threaded program gets in main. Asking writes nothing, disturbs no output in progress and shares no unsynchronised state between threads; a malformed name never makes the library read outside of that name or fail to return, whatever the object file it came from.",
 ["schedules","histories","inputs"],"For every set of threads asking for the same or different things for the first time in every interleaving, in constructors of global objects as well as in main, and every damaged symbol name.",
 "Tests ask single-threaded, in main, and only for well-formed names.",
 ["src/type_info.cxx","include/libcwd/type_info.h","src/demangle.cxx","include/cwd_demangle.h","include/libcwd/buf2str.h","src/strerrno.cxx"],
 [("lazy type information","include/libcwd/type_info.h type_info<T>::value, src/type_info.cxx make_label"),("parser","include/cwd_demangle.h"),("entry points","src/demangle.cxx demangle_symbol/demangle_type")])
prop("C25","Nothing the library allocates is lost, whatever a program does",
 "Memory that the library allocates stays reachable for as long as it is allocated: when a thread has ended, a library was closed, a destination, margin, marker, interactive stream or configuration was replaced, a saved state was restored, a location was overwritten, a debug object, channel or cached result was superseded, or a request failed halfway, then everything that belonged to it has been released or is still in use, and nothing that is still in use was released. A program that repeats the same actions forever therefore does not run out of memory.",
 ["histories","schedules","fault_sequences"],"For every history of output, switches, format changes, destination replacements, thread starts and ends, loads, lookups and unloads, with every failure of the calls that the library makes.",
 "A leak has no visible effect in a test; whether the last user of a shared object releases it depends on the order in which threads let go of it.",
 [D,W,"src/location.cxx","src/threading.cxx","include/libcwd/lockable_auto_ptr.h","include/libcwd/set_ostream.inl.h"],
 [("object files","src/dwarf.cxx ObjectFileRegistry::unregister_unloaded_object_files"),("state of a thread","src/threading.cxx TSD_cleanup_guard"),("messages and saved formats","src/debug.cxx LaffStack, push_margin/pop_margin"),("locks of streams","include/libcwd/set_ostream.inl.h"),("locations","include/libcwd/lockable_auto_ptr.h, src/location.cxx")])
prop("C30","Demangling yields the C++ declaration",
 "Demangling a symbol or type name that follows the C++ ABI yields the declaration it encodes, and any other input is returned unchanged.",
 ["inputs"],"For every string.","The tests hold a finite list of names.",["src/demangle.cxx","include/cwd_demangle.h"],[("parser","include/cwd_demangle.h")])
prop("C31","Type information describes the type it was asked for",
 "The type information of a type reports its demangled name, its size, and the size and name of what it points to.",
 ["programs"],"For every C++ type.","The tests hold a finite list of types.",["src/type_info.cxx","include/libcwd/type_info.h"],[("type info","include/libcwd/type_info.h")])
prop("C32","Character and buffer printing is lossless",
 "Printing a character or buffer in escaped form yields printable ASCII from which the original bytes can be recovered unambiguously.",
 ["inputs"],"For every byte string.","The tests print a few characters.",["src/utils/char2str.cxx","include/libcwd/buf2str.h"],[("escaping","src/utils/char2str.cxx")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
