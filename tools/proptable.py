AI = 'abstract interpretation of the compiled IR (polyhedral sizes and offsets, region memory model, inductive loop invariants)'
NOTE = ('Every public function in scope is analysed from every entry configuration with symbolic sizes, lengths, indices and contents; obligations are counted in the evidence. '
        'A violation is only reported on an abstract path that is exact (first two iterations of each loop, constant trip counts unrolled); obligations that fail only in a widened loop state are counted as undecided. '
        'Trusts clang\'s IR, the C library models and the stated preconditions; sizes below 2^60; allocation failure traps.')
SRC = ['src/vita/container/str.c', 'src/vita/container/vec.c', 'src/vita/container/plist.c', 'src/vita/container/span.c', 'src/vita/container/common.c']
ALLSRC = SRC + ['src/vita/core/core.c', 'src/vita/core/conv.c', 'src/vita/system/path.c', 'src/vita/system/fileio.c', 'src/vita/util/argopt.c', 'src/vita/util/log.c', 'src/vita/util/debug.c', 'src/vita/time/datetime.c', 'src/vita/network/sockets.c', 'src/vita/allocator/mallocator.c', 'src/vita/math/math.c']

PROPS = [
 dict(id='P01', title='Container operations only touch live memory, in bounds',
  statement='For well-formed strings, vectors, pointer lists and spans and any lengths, capacities, element sizes, indices and contents, every operation reads and writes only inside live storage of the objects involved: never past the allocated block, never through a stale pointer after a reallocation, never a null dereference, never an overlapping plain copy. An argument outside the valid range is stopped by the checks before memory is touched.',
  over=['inputs', 'histories', 'configurations'], **{'for': 'every public container and algorithm function, for all well-formed container states and all argument values, with either the C heap or a custom allocator'},
  why='The tests call each operation on a few short literals; out-of-bounds accesses at exact capacity, at length zero, or on the last element do not fail a test unless the heap happens to notice.',
  files=SRC + ['src/vita/algorithm/comparison.c'], mech=[('range checks before access', 'VT_ENFORCE / VT_DEBUG_ASSERT at function entry'), ('growth before write', 'reserve calls in append, insert, push'), ('storage allocation', 'array create/resize in common.c and str.c')],
  obs=['every load, store, memcpy/memmove, string scan and free'], tech=AI, note=NOTE),
 dict(id='P02', title='Container bookkeeping stays consistent',
  statement='After any operation on any well-formed container, recorded length never exceeds recorded capacity and the allocated storage really holds the recorded capacity (plus the terminator for strings), so every later operation that trusts the record is safe.',
  over=['inputs', 'histories'], **{'for': 'every return of every public function that takes or returns a container, for all container states and arguments'},
  why='Tests observe length and capacity after a handful of sequences; a record that overstates the storage by one element only shows on a later operation that fills it.',
  files=SRC + ['src/vita/system/path.c'], mech=[('length and capacity fields updated together with storage', 'create, reserve, resize, shrink, push, insert, remove')], obs=['container header fields and block size at return'], tech=AI + '; class invariant checked at every return', note=NOTE),
 dict(id='P03', title='Strings stay NUL-terminated at their recorded length',
  statement='After any operation, a string container has a NUL byte exactly at its recorded length inside its storage, and every character buffer the library hands to a C string routine or fills for the caller is terminated inside its bounds.',
  over=['inputs', 'histories'], **{'for': 'all string states, arguments, buffer sizes and operation histories, over strings, paths, timestamps, conversions and log buffers'},
  why='A missing terminator is invisible when the next heap byte happens to be zero, which is what small tests see.',
  files=['src/vita/container/str.c', 'src/vita/system/path.c', 'src/vita/system/fileio.c', 'src/vita/util/log.c', 'src/vita/time/datetime.c'], mech=[('explicit terminator writes after each edit', 'str.c'), ('zero-filled allocation', 'calloc-style allocation in core.c')], obs=['byte at the recorded length at return'], tech=AI + '; terminator facts tracked per byte range', note=NOTE),
 dict(id='P04', title='Vectors and pointer lists behave as sequences',
  statement='For every vector, pointer list or span state and every argument, each operation has exactly its documented effect on the sequence: pushing, inserting, setting, removing, popping, resizing, clearing, sliding and duplicating change the length and capacity as documented, put the given element where it belongs, keep every other element in order and unchanged, and queries return the stored element, length, capacity or emptiness.',
  over=['inputs', 'histories'], **{'for': 'all lengths, capacities, element sizes, positions and contents, with either allocator'},
  why='Tests compare a few short vectors of one or two element types; an off-by-one in a move, a wrong width in one typed accessor, or an element lost when growth coincides with insertion shows only for particular lengths and positions.',
  files=['src/vita/container/vec.c', 'src/vita/container/plist.c', 'src/vita/container/span.c', 'src/vita/container/common.c', 'src/vita/container/str.c'], mech=[('element moves with memmove/memcpy around the edited position', 'vec.c, plist.c'), ('length update', 'each operation'), ('typed wrappers over the generic operation', 'vec.c')],
  obs=['header fields, element segments and result value at each return, as functions of the entry state'], tech=AI + '; relational postconditions over symbolic entry contents', note=NOTE),
 dict(id='P05', title='Memory goes back to the allocator it came from',
  statement='A block obtained through a user-supplied allocator is only ever grown or released through that same allocator, and a block from the C heap only through the C heap; each container records the allocator its storage really came from, and whatever an operation allocates on behalf of a container uses that container\'s allocator.',
  over=['inputs', 'histories', 'configurations'], **{'for': 'every public function, with and without a custom allocator, on all paths'},
  why='Tests run mostly with the default heap, where the wrong choice is harmless; a mix-up only corrupts memory with a pool or arena allocator.',
  files=SRC + ['src/vita/core/core.c', 'src/vita/system/path.c', 'src/vita/system/fileio.c', 'src/vita/util/argopt.c'], mech=[('allocator dispatch', 'VT_ALLOCATOR_* macros / has_alloctr branches')], obs=['allocator operand of each free/realloc'], tech=AI + ' with allocation-origin typestate', note=NOTE),
 dict(id='P06', title='Views never grow, release or swap the storage they look at',
  statement='A string view only borrows its text: no operation on a view reallocates, releases or replaces the viewed storage or raises the view\'s capacity, operations that would need more room (append, counted insert, reserve, resize, shrink) are refused, destroying a view leaves the viewed text alone, and queries (length, search, comparison, duplication, splitting, sliding) never write through it.',
  over=['inputs', 'histories', 'configurations'], **{'for': 'every operation that takes a string, with the string being a view of any text, all other arguments arbitrary'},
  why='Tests create one or two views and read them; freeing or growing borrowed storage corrupts memory only when the view is destroyed or appended to in a particular order.',
  files=['src/vita/container/str.c', 'src/vita/container/common.c', 'src/vita/system/path.c'], mech=[('is_view checks', 'str.c'), ('a view reports no free space', 'common.c')], obs=['viewed storage, view header and refusals on every path'], tech=AI + ' from entry states where the string is a view', note=NOTE),
 dict(id='P07', title='No operation leaks its temporaries or releases twice',
  statement='Every block a call allocates is, when the call returns, either released exactly once, or reachable from the returned value, the arguments or the library\'s global state; destroying a container releases both its storage and its object, on error paths as well.',
  over=['inputs', 'histories', 'fault_sequences'], **{'for': 'every public function, on every path to a return'},
  why='Tests do not count allocations; a leak or double free on an error path or rare branch passes silently.',
  files=ALLSRC, mech=[('paired create/destroy of temporaries', 'str.c, path.c, fileio.c, argopt.c')], obs=['blocks still owned by nobody at return; releases of released blocks'], tech=AI + ' with ownership tracking', note=NOTE),
 dict(id='P08', title='Every OS handle opened by a call is closed or handed over',
  statement='Streams, directory handles, socket descriptors and variable-argument cursors acquired inside a call are released exactly once on every path out of it, including early failure returns, unless they are the result handed to the caller.',
  over=['inputs', 'fault_sequences'], **{'for': 'every public function and every combination of failing system calls'},
  why='Failure paths (short writes, failed bind, unreadable entries) are not reached by the tests, and a leaked descriptor fails no assertion.',
  files=['src/vita/system/fileio.c', 'src/vita/system/path.c', 'src/vita/network/sockets.c', 'src/vita/util/log.c', 'src/vita/util/debug.c', 'src/vita/container/str.c'], mech=[('fclose/closedir/close/va_end before each return', 'the named files')], obs=['open handles at each return'], tech=AI + ' with handle typestate over all failure outcomes of the system calls', note=NOTE),
 dict(id='P09', title='Failures of the system are reported, successes are not denied',
  statement='When a system call that a file, path or socket operation depends on fails (open, short or failed read or write, failed close, stat, mkdir, rmdir, remove, rename, bind, listen, send, receive ...), the operation returns its failure value; when they all succeed it does not report failure. The system call gets exactly the path, buffer, length and descriptor the caller named; file writers open with the documented mode (truncate or append, text or binary), write the caller\'s text once, as text and never as a format, and end it with a line end exactly in the "ln" variants.',
  over=['inputs', 'fault_sequences'], **{'for': 'all arguments and every combination of outcomes of the system calls, for all path, file and socket operations'},
  why='Tests run on a healthy file system where no call fails; a full disk, a failed close or a refused connection is never sampled, and the socket tests need a peer.',
  files=['src/vita/system/fileio.c', 'src/vita/system/path.c', 'src/vita/network/sockets.c'], mech=[('result tests after each system call', 'the named files'), ('mode selection', 'vt_file_vwritefc_')], obs=['trace of system calls with arguments and outcomes on each path, and the value returned'], tech=AI + ' with a trace of external calls; result compared with all call outcomes', note=NOTE),
 dict(id='P10', title='Null arguments are refused, never dereferenced',
  statement='Passing a null pointer for any single data pointer argument of a public function, or a container without storage, never makes the library dereference it: the call is stopped by an argument check or returns its failure value.',
  over=['inputs'], **{'for': 'every pointer parameter of every public function, one at a time, all other arguments arbitrary'},
  why='Tests pass valid pointers; a missing check on one parameter of one function is never exercised.',
  files=ALLSRC, mech=[('argument checks at function entry', 'VT_DEBUG_ASSERT / VT_ENFORCE / explicit NULL tests')], obs=['first dereference of each parameter'], tech=AI + ' from entry states with one null argument', note=NOTE + ' Checks are analysed as built by default (assertions enabled).'),
 dict(id='P11', title='A valid call is never aborted',
  statement='A call inside the documented domain never ends the program: with non-null arguments, containers that have storage, positions inside the container, positive counts and sizes, non-empty texts where a text is stored or searched, a search text not longer than the searched text, new text that fits where it is set in place, a non-empty container where it is duplicated or shrunk, a caller\'s buffer of at least the documented size and a known removal strategy, no assertion, abort or exit is reached (except by the functions whose job it is).',
  over=['inputs', 'histories', 'fault_sequences'], **{'for': 'every public function except those that abort by contract or whose permitted refusals depend on the values (listed in the evidence), all valid arguments, all results of the system calls'},
  why='Tests call each function on one or two ordinary values; an assertion that is one off refuses only the boundary case (the last position, an exactly fitting text, an empty file).',
  files=ALLSRC, mech=[('argument checks at function entry', 'VT_DEBUG_ASSERT / VT_ENFORCE')], obs=['every reachable abort, exit and failed assertion'], tech=AI + '; reachability of traps from states that satisfy the preconditions', note=NOTE),
 dict(id='P12', title='A call outside the domain is stopped, not carried out',
  statement='When exactly one precondition is broken - a position at or past the end, a zero element size, count or byte count, an empty text where one is required, a searched or replaced text that is too long, text that does not fit where it is set, a buffer shorter than documented, an unknown removal strategy, an empty container where it is duplicated or shrunk - the call is stopped by the library\'s checks and never returns as if it had succeeded.',
  over=['inputs'], **{'for': 'every public function and each of its checked preconditions, one at a time, all other arguments arbitrary'},
  why='Tests never make invalid calls, because those abort the program; a weakened or dropped check goes unnoticed.',
  files=ALLSRC, mech=[('argument checks at function entry', 'VT_DEBUG_ASSERT / VT_ENFORCE')], obs=['return states of invalid calls'], tech=AI + '; unreachability of every return from states that break one precondition', note=NOTE + ' Checks are analysed as built by default (assertions enabled).'),
 dict(id='P13', title='Every format agrees with its arguments and is never data',
  statement='Every message, file text, log line, diagnostic, timestamp and number the library formats uses a constant format (or, in the library\'s own printf-like functions, exactly the caller\'s format with the caller\'s arguments) whose conversions match the arguments in number and type, and every parse format writes into targets of the matching type; text supplied by the caller is never itself used as a format.',
  over=['inputs', 'configurations', 'fault_sequences'], **{'for': 'every formatting or scanning call site of the library, in the default and the release build, whatever the data'},
  why='Most of these sites are diagnostics on failure paths that no test reaches; a wrong conversion there crashes exactly when something already failed, and text with a percent sign used as a format only fails for such texts.',
  files=ALLSRC, mech=[('formatted diagnostics', 'VT_DEBUG_PRINTF / VT_DEBUG_ASSERT messages'), ('printf-like functions', 'vt_str_appendf, vt_str_insertf, vt_file_writef*, vt_log, vt_debug_printf')], obs=['format and argument types at each call site'], tech='call-site lint over the compiled IR (formatting functions found by a forwarding fixpoint) and over the type-checked source (clang -Wformat with inferred format attributes)', note='Decides every call site of the library; signedness of integers is not compared; formats used by the callers of the printf-like functions are the callers\' own.'),
 dict(id='P14', title='String operations produce exactly the documented text',
  statement='For every string and argument, each string operation produces exactly the documented result: creation and duplication copy the text, append, insert, set, remove, replace, strip and split keep the untouched parts byte for byte and in order, put the new text at the stated position, record the resulting length, and searching, comparing and prefix/suffix queries return the documented answer and change nothing.',
  over=['inputs', 'histories'], **{'for': 'all string lengths, capacities, positions, contents and argument strings, with either allocator'},
  why='Tests use a few literals; a lost byte when the edit touches the last character, a match at the very end, an empty argument, or an edit that exactly fills the capacity is not sampled.',
  files=['src/vita/container/str.c'], mech=[('memmove/memcpy around the edited position', 'str.c'), ('search by strstr/strncmp', 'str.c'), ('length update', 'each operation')],
  obs=['text, length and result value at each return, as functions of the entry state'], tech=AI + '; relational postconditions over symbolic entry contents', note=NOTE + ' Loop-carried contents (split pieces, case conversion, character replacement) are decided byte by byte for texts of up to four bytes per argument (arbitrary bytes) and of some hundred bytes of one class of characters.'),
 dict(id='P15', title='Dates and their text forms agree with the calendar',
  statement='A text is accepted as a date exactly when it is spelled as the format says (plain, ISO and extended ISO: digits where digits belong, the separators, nothing more or less); reading it yields exactly the numbers it spells and writing a date spells exactly its fields in the documented width and order, so that reading back what was written gives the same date. A year is a leap year exactly by the Gregorian rule (divisible by 4, not by 100 unless by 400), a month has its calendar length (the month clamped to 1..12) and a year 366 or 365 days; creating a date clamps every field to its range and finds a missing week day or year day by looking up that very date. Conversion to and from seconds, date arithmetic, week day and year day hand exactly the given fields to the C library and take its answer over (Sunday is 7, months and year days count from 1); the differences in seconds, minutes, hours and days are those of the two conversions, rounded toward zero, and the parts of a difference add up to it; the current date is the local time of the current second.',
  over=['inputs', 'fault_sequences'], **{'for': 'all field values and all texts of the template length and around it; any answer of mktime, localtime and time'},
  why='Tests use one or two ordinary dates; a century year, a 31st in a short month, a wrong separator, a Sunday or a date before 1970 is not sampled.',
  files=['src/vita/time/datetime.c'], mech=[('template match', 'vt_datetime_is_valid_text*'), ('leap rule and month table', 'vt_datetime_is_leap_year, vt_datetime_find_days_in_month'), ('conversion to and from struct tm', 'vt_datetime_vdt_to_tm, vt_datetime_tm_to_vdt')],
  obs=['fields and text at each return as functions of the given fields; arguments and answers of the C library calls'], tech='abstract interpretation of the compiled IR with symbolic date fields and one abstract value per text byte, linear arithmetic with congruences for the calendar rules; results compared with the documented date', note='Field values are arbitrary within the ranges listed in the evidence; texts have the template length and lengths around it, bytes arbitrary. The C library\'s calendar (mktime) is trusted. One known finding: vt_datetime_diff rounds.'),
 dict(id='P16', title='Comparison, conversion and number helpers compute what they say',
  statement='For every argument: minimum, maximum and clamping return exactly the documented one of their arguments; the interpolation maps linearly so that the ends of the source range land on the ends of the target range; converting between rows, columns, depths and flat indices follows the row-major layout and one direction undoes the other; closeness holds exactly when the distance is below the tolerance (the machine epsilon when the tolerance is negative); a number is a palindrome exactly when its decimal digits read the same backwards, and the greatest common divisor and least common multiple of non-negative numbers are those numbers. Reading a number from text yields exactly the number its digits spell, in the width of the type, and zero for a text that is not a plain number; writing a number spells exactly its decimal digits with a sign when negative.',
  over=['inputs'], **{'for': 'all numbers in the range of the type, all texts'},
  why='Tests try one or two numbers per function; the extremes of each width, equal or reversed arguments, numbers with inner zeros and malformed texts are not sampled.',
  files=['src/vita/algorithm/comparison.c', 'src/vita/container/common.c', 'src/vita/core/conv.c', 'src/vita/math/math.c'], mech=[('branch on the comparison', 'vt_cmp_*'), ('digit loop', 'vt_math_is_palindrome'), ('strtol/strtod after the digits-only test; snprintf with the width of the type', 'vt_conv_*')],
  obs=['result value or text at each return as a function of the arguments'], tech='abstract interpretation of the compiled IR with symbolic numbers and one abstract value per text byte; results compared with the documented value by linear arithmetic', note='Numbers are arbitrary; texts have up to four bytes; divisor cases are unknown multiples of listed coprime pairs; floating-point arithmetic is treated as exact (accuracy is P91).'),
 dict(id='P17', title='Log and debug output: the right line, the right place, the right ending',
  statement='A report whose condition holds prints nothing, opens nothing and returns. Otherwise exactly one line is added - time, level or subject, the tested expression where there is one, source position and the formatted message, in that order - appended to the file given or to the one the output (of that level) was last redirected to, and to the standard error stream when there is none or it cannot be opened; silenced debug output prints nothing. The program ends (with a failure status, after the line is written) exactly for the levels fatal and assert, and for a failed debug assertion exactly when it was asked to quit, also while the output is silenced.',
  over=['inputs', 'histories', 'fault_sequences'], **{'for': 'all levels, texts, formats with arguments, earlier redirections in any order, and files that open or do not'},
  why='Tests log a few lines to the terminal and look at none of them; ending the program cannot be tested in-process at all.',
  files=['src/vita/util/log.c', 'src/vita/util/debug.c'], mech=[('level table and exit', 'vt_log'), ('redirection tables', 'vt_log_redirect_*, vt_debug_redirect_output'), ('silencing and exit', 'vt_debug_assert, vt_debug_printf')],
  obs=['pieces printed per stream, files opened and their mode, exit or return on every path'], tech='abstract interpretation of the compiled IR with one abstract value per text byte; the sequence of output effects on every path is compared with the documented line', note='Sequences of up to two redirecting or silencing calls before the report; texts of up to two arbitrary bytes, and of 300 letters.'),
 dict(id='P23', title='Allocator books agree with the blocks; memory primitives are exact',
  statement='After any sequence of operations the tracking allocator lists exactly the blocks obtained and not yet released, each once with its current size, and its counters are the documented sums (allocations, reallocations, releases, bytes in use, bytes released); a new block has the size asked for and is zeroed, a resized block keeps its contents, a released block is gone, destroying releases everything, and the report prints each number under its name; the allocation wrappers never return nothing: they stop the program when the system has no memory. Copying, moving (overlap included), setting, comparing and swapping memory affect and inspect exactly the given bytes, and every status has its own name as text.',
  over=['inputs', 'histories', 'fault_sequences'], **{'for': 'all block sizes, all positions in the list, full and non-full lists, failing system allocation'},
  why='Tests allocate a few blocks and look at one counter; releasing from the middle of a full list, shrinking, or a failing malloc is not sampled.',
  files=['src/vita/allocator/mallocator.c', 'src/vita/core/core.c'], mech=[('add, find, swap-with-last removal, doubling of the list', 'vt_mallocator_obj_list_*'), ('NULL test and exit', 'vt_malloc, vt_calloc, vt_realloc')],
  obs=['object list, counters and block state at each return as functions of those at entry'], tech='abstract interpretation of the compiled IR: one-step transition of the allocator\'s books from an arbitrary consistent state, compared with the documented transition (induction over calls)', note='Lists of up to three, and of forty, tracked blocks with unknown sizes and counters; by-byte cases of up to five bytes.'),
 dict(id='P18', title='Command line options are parsed as given',
  statement='Parsing succeeds exactly when every argument is a known option (long or short name, compared exactly), its value after "=" or the next argument when that does not start with a dash; each option given ends up with exactly the value its text stands for in the option\'s type ("1" when no value follows, the last one when given twice, true exactly for "1..." and "true"), every other option keeps its value, and an old string value is replaced as a whole. A single argument that asks for help (?, -h, --help) is reported as such; an unknown option is an error that names it, after the options before it took effect; an invalid option table (missing names or values, short name over three characters, unknown type) is an error and changes nothing. The help text lists every option once with its names aligned and its description, then the help option, between header and footer.',
  over=['inputs', 'configurations'], **{'for': 'all argument lists, all option types, fresh and previously set values'},
  why='Tests parse one fixed command line; a value containing "=", a missing last value, a repeated option, a longer replacement value or a prefix of an option name is not sampled.',
  files=['src/vita/util/argopt.c'], mech=[('split at the first "="', 'vt_argopt_parse'), ('conversion by type', 'vt_argopt_assign_value'), ('table check', 'vt_argopt_validate'), ('column widths', 'vt_argopt_print_help')],
  obs=['result, option values and printed text at each return'], tech='abstract interpretation of the compiled IR with one abstract value per text byte and disjunctive partitioning; results compared with a reference parse over the same abstract bytes', note='Up to four arguments of up to six bytes and two options per table, option names fixed per case, other bytes arbitrary; given tables of twenty options and values of two hundred bytes.'),
 dict(id='P24', title='Questions about a path and single changes of it mirror the file system',
  statement='A path exists, is a directory or is a regular file exactly when the file it leads to (through symbolic links) does or is; the reported size is that file\'s size, -1 when there is no file, and asking changes nothing. Creating, deleting and renaming perform exactly that one operation on exactly the given paths and report success exactly when it took effect (creating a directory that is already there succeeds), and deleting a directory never deletes anything but a directory. The current directory and the location of the executable are returned exactly as the system reports them, nothing when it reports an error.',
  over=['inputs', 'configurations', 'fault_sequences'], **{'for': 'all paths; nothing, files, directories, pipes and links to any of them; every system call succeeding or failing'},
  why='Tests look at one existing directory and one file; links, pipes, dangling links and failing calls are not sampled.',
  files=['src/vita/system/path.c'], mech=[('stat and the file type bits', 'vt_path_exists, vt_path_is_dir, vt_path_is_file, vt_path_get_file_size'), ('the result of the system call', 'vt_path_mkdir, vt_path_rmdir, vt_path_remove, vt_path_rename'), ('getcwd, readlink', 'vt_path_get_cwd, vt_path_get_this_exe_location')],
  obs=['result, system calls made and their operands on each return path'], tech='abstract interpretation of the compiled IR over an abstract file system that knows what the path names; results and effects compared with it', note='The path is arbitrary; the file system does not change in between; answers obtained other than by stat, lstat or access are left open, and what creating a directory over an existing file or deleting a dangling link reports is left open.'),
 dict(id='P20', title='Path operations compute exactly the documented path',
  statement='For every path: the base name is what follows the last separator that is not the final character (the whole text when there is none), popping cuts at the last separator, validating turns the foreign separator into the native one and nothing else, building joins the parts with exactly one separator between consecutive parts, expanding replaces a leading tilde by the home directory and leaves any other text alone (also with HOME unset or empty), and creating parents creates exactly the missing directories of the path, each after its parent, reporting success exactly when the whole path exists at the end. Arguments are left unchanged unless they are the result.',
  over=['inputs', 'configurations', 'fault_sequences'], **{'for': 'all paths, separators at any position, with and without a caller-supplied result string, any HOME, any combination of existing directories and failing calls'},
  why='Tests use one or two ordinary paths; a leading, trailing or doubled separator, a path of a single character, an empty HOME or a partly existing tree is not sampled.',
  files=['src/vita/system/path.c'], mech=[('separator scan', 'vt_path_basename, vt_path_pop'), ('joining', 'vt_path_build*'), ('prefix loop', 'vt_path_mkdir_parents'), ('HOME lookup', 'vt_path_expand_tilda')],
  obs=['resulting text, result value, and the paths handed to stat and mkdir, on every path'], tech='abstract interpretation of the compiled IR with one abstract value per byte and disjunctive partitioning on byte comparisons, texts of given short lengths', note='Paths of up to four bytes per argument with arbitrary bytes, and of 300 bytes and 100 components with letters for names. A violation is reported with the abstract text it occurs on.'),
 dict(id='P19', title='Listing and removing a directory tree stays inside it',
  statement='Listing a directory names every entry exactly once and never "." or "..", leaves out dot files exactly when asked to, and (recursively) names each entry as the given path, the separator and the entry\'s name, below each real subdirectory too. Recursive removal deletes exactly the nodes of that tree, contents before their directory and the directory itself last, never anything outside it: it does not descend into or follow symbolic links, "." or "..", and reports success only when everything was removed.',
  over=['inputs', 'configurations', 'fault_sequences'], **{'for': 'every path, trees with files, directories, dot entries and symbolic links in any order, every combination of failing calls'},
  why='A test that deletes real trees only tries one benign layout; following one symbolic link or ".." destroys data outside the tree.',
  files=['src/vita/system/path.c'], mech=[('"." and ".." are skipped, links are not followed', 'vt_path_dir_list_recurse'), ('contents listed before their directory', 'vt_path_dir_list_recurse'), ('removal by kind', 'vt_path_rmdir_recurse')], obs=['path text of each opendir, remove and rmdir, list contents and result at return'], tech=AI + ' with path text tracked byte-exactly over a symbolic root and given directory contents', note=NOTE + ' Trees have at most two entries per directory and three levels, plus directories of seventy entries and a chain of five levels on a system that does not fail.'),
 dict(id='P21', title='Network operations use exactly the endpoint, data and waiting time given',
  statement='A server is bound to the given port on all interfaces, with the address reusable, and listens with the given backlog exactly when it is a TCP server; a client connects to, and a datagram is sent to, exactly the given host and port; an address made from a port and a dotted host holds that host and port in network order; the bytes sent and received are the caller\'s buffer and length on the caller\'s socket, the number the system reports is the number returned, and receiving from anyone fills in the sender\'s host and port. A timed receive waits once, for incoming data on that socket and for the given time, then receives exactly when data arrived and returns zero when none did. A failing call yields the documented status of that step, and a socket that is returned is open while one that failed is not.',
  over=['inputs', 'fault_sequences'], **{'for': 'all ports, hosts, socket kinds, buffers, lengths and every combination of outcomes of the system calls'},
  why='The socket tests need a peer and are not part of the reliable suite; a port in the wrong byte order on both sides, a wrong backlog or a failing bind is never noticed by a loopback test.',
  files=['src/vita/network/sockets.c'], mech=[('filling in of sockaddr_in and pollfd', 'vt_socket_startup_*, vt_socket_send_to, vt_socket_receive_timed*'), ('status per failing call', 'sockets.c')], obs=['arguments of every socket call, contents of the address structures at the call, value returned'], tech='abstract interpretation of the compiled IR; trace of system calls with the contents of their address arguments compared with the documented one for every combination of outcomes', note='htons and inet_addr are uninterpreted; ports: an arbitrary one below 32768 and boundary constants up to 65535.'),
 dict(id='P22', title='Paths, files, options, time, logs and sockets stay in bounds',
  statement='The parts outside the containers - path handling, file input and output, option parsing, timestamps, logging, conversions, sockets, maths and the tracking allocator - never access memory out of bounds, after release, or through null, and never divide by zero, for all inputs, buffer sizes and system-call outcomes.',
  over=['inputs', 'fault_sequences'], **{'for': 'every public function outside the containers, all strings, buffer lengths and results of system calls'},
  why='Tests use short paths, roomy buffers and succeeding system calls.',
  files=[f for f in ALLSRC if '/container/' not in f], mech=[('length checks before copying, bounded formatting', 'the named files')], obs=['every load, store, copy, scan, release and division'], tech=AI, note=NOTE),
]
NA = [
 dict(id='P90', title='Local time conversion is right for every zone and instant', statement='The conversions between seconds and local dates agree with the time zone rules in force (daylight saving included) for every instant.',
  over=['inputs', 'configurations'], **{'for': 'all dates, all time zones'}, why='Tests run in one zone.', files=['src/vita/time/datetime.c'], mech=[('mktime and localtime', 'datetime.c')], reason='The zone rules live in the C library and its data files, read at run time; what the code itself does with dates is decided by P15.'),
 dict(id='P91', title='Numeric helpers return accurate results', statement='Square root, interpolation, closeness and random helpers return values within their documented accuracy or distribution for every argument.',
  over=['inputs'], **{'for': 'all floating-point arguments'}, why='Floating-point accuracy is sampled at a few points.', files=['src/vita/math/math.c'], mech=[('bit-trick and libm calls', 'math.c')], reason='Floating-point accuracy and distribution quality are runtime quantities no static argument in reach bounds.'),
 dict(id='P92', title='What is written to a file is what is read back', statement='Reading a file returns exactly the bytes previously written to it.',
  over=['inputs', 'fault_sequences'], **{'for': 'all contents and file systems'}, why='Depends on the file system and the C library.', files=['src/vita/system/fileio.c'], mech=[('fopen modes, fwrite/fread', 'fileio.c')], reason='The bytes live in the kernel and the file system; what the code controls statically (handles, modes, failure reporting, buffer bounds) is decided by P03, P08 and P22.'),
 dict(id='P93', title='Timed network operations honour their time limit', statement='A receive with a time limit returns within that limit.',
  over=['schedules', 'fault_sequences'], **{'for': 'all peers and schedules'}, why='Timing depends on the peer and scheduler.', files=['src/vita/network/sockets.c'], mech=[('poll/select', 'sockets.c')], reason='Wall-clock behaviour of kernel waits cannot be decided from the source.'),
]
