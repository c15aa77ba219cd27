#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

p("C01", "A hash table is a finite map",
  "After any history of insertions, deletions and lookups, under any hash and comparison functions, a hash table answers exactly like a finite map over the comparison's equality classes: insertion succeeds (0) iff the key is absent and never replaces an entry (else 1), deletion succeeds (0) iff it is present (else 1), and lookup returns the stored datum or NULL. Collisions, automatic growth and self-organisation never change an answer, and tables never affect one another.",
  ["histories", "inputs"], "every sequence of operations on any number of tables; every key population, hash function (constant, clustered, full 64-bit) and comparison",
  "tests/hash runs one fixed insert/lookup/delete script with well spread string hashes; it never deletes or looks up inside long collision chains and compares no history with a model",
  ["maa/hash.c", "maa/prime.c"], [("bucket chains, uniqueness scan, unlinking", "hsh_insert, hsh_delete, hsh_retrieve"), ("rehash on growth", "hsh_insert")],
  [("buckets", "chained entries (key, hash, datum)", "struct table")], ["return values of hsh_insert, hsh_delete, hsh_retrieve"])
p("C02", "Hash enumeration visits every entry exactly once",
  "Every complete enumeration of a hash table (callback, callback with argument, positions, or the iteration macros) visits each entry exactly once, with the very key pointer and datum that were inserted; it stops at once with a non-zero result when the callback returns non-zero, and returns zero otherwise. A callback may delete the entry it is visiting without disturbing the rest of the enumeration.",
  ["histories", "inputs"], "every table content and shape reachable by any history; every stopping point; every subset of entries deleted from inside the callback",
  "tests/hash enumerates two fixed tables and compares the printed order; no deletion inside a callback except freeing everything before destroy",
  ["maa/hash.c"], [("next saved before callback", "hsh_iterate, hsh_iterate_arg"), ("position walk over chains then buckets", "hsh_init_position, hsh_next_position")],
  observe=["callback arguments", "hsh_get_position"])
p("C03", "A read-only or iterated hash table refuses modification",
  "While a hash table is marked read-only, or a position enumeration of it is unfinished, insertion, deletion and destruction are refused by aborting the program, and lookups still answer correctly but never reorder the table. Completing or ending the enumeration, or clearing the mark, makes the table modifiable again, and changing the mark reports the previous one.",
  ["histories"], "every interleaving of mark changes, enumerations (completed or abandoned), lookups and modification attempts",
  "no test sets the mark or attempts a modification during an enumeration",
  ["maa/hash.c"], [("readonly flag", "hsh_readonly, hsh_init_position, hsh_next_position, hsh_insert, hsh_delete, hsh_destroy, hsh_retrieve")],
  [("readonly", "modification guard", "struct table")])
p("C04", "Hash table growth and statistics are truthful",
  "A table's reported size is an odd prime that never shrinks and grows, one counted resizing at a time, so that every successful insertion starts with the table at most half full. Reported entries, lookups and failed lookups equal the true counts of the table's history, and bucket figures are consistent with the entries and the hash function (equal hashes share a bucket). Outside read-only mode a successful lookup moves its entry to the front, so repeating it at once counts as a hit from the top. Printed statistics repeat the figures.",
  ["histories", "inputs"], "every history and hash function, at every point where statistics are read",
  "statistics are printed by no test (they were removed from the tests in 1.1.0)",
  ["maa/hash.c", "maa/prime.c"], [("growth test", "hsh_insert"), ("statistics", "hsh_get_stats"), ("self organisation", "hsh_retrieve"), ("next prime", "prm_next_prime")])
p("C05", "A set is a mathematical set of elements",
  "After any history of insertions and deletions, under any hash and comparison functions, insertion succeeds (0) iff the element is absent, deletion succeeds (0) iff it is present, membership is exact, and the count and statistics (obtained or printed) equal the true ones. Collisions, growth and self-organisation never change an answer, and sets never affect one another.",
  ["histories", "inputs"], "every sequence of operations on any number of sets; every element population, hash and comparison function",
  "tests/set runs one fixed script",
  ["maa/set.c"], [("bucket chains and growth", "set_insert, set_delete, set_member, set_count, set_get_stats")])
p("C06", "Set algebra computes exact results and spares operands",
  "Union, intersection and difference return a new set with exactly the mathematical result, in-place addition and removal leave exactly that result in the first set, and equality answers 1 iff both sets have the same elements; this includes empty operands, operands of very different sizes, and the same set given twice. No operation changes the contents or the read-only mark of an operand it does not modify, the result is independent of its operands, and operands with different hash or comparison functions are rejected with a fatal error.",
  ["histories", "inputs"], "every pair of sets reachable by any histories, including aliased, empty, read-only and mid-enumeration operands",
  "tests/set computes a handful of fixed combinations and checks neither aliasing nor the operands afterwards",
  ["maa/set.c"], [("element-wise construction", "set_add, set_del, set_union, set_inter, set_diff, set_equal"), ("saved read-only mark", "set_inter, set_diff, set_equal")])
p("C07", "Set enumeration is exact and guards the set",
  "Every complete enumeration of a set (callback, callback with argument, positions, or the iteration macro) visits each element exactly once with the pointer that was inserted, and stops at once with a non-zero result when the callback returns non-zero. During any enumeration, and while marked read-only, insertion, deletion and destruction are refused by aborting and lookups do not reorder the set; callback enumeration restores the previous mark however it ends, and completed or ended position enumeration leaves the set modifiable.",
  ["histories", "inputs"], "every set content and shape, every stopping point, every operation attempted from inside or between steps of an enumeration",
  "tests/set enumerates fixed sets to completion or one stopping point and never attempts a modification meanwhile",
  ["maa/set.c"], [("saved read-only mark", "set_iterate, set_iterate_arg"), ("position walk", "set_init_position, set_next_position"), ("guard", "set_readonly, set_insert, set_delete, set_destroy")])
p("C08", "A list is a sequence, open at both ends",
  "After any history of appends, pushes, pops, indexed reads and writes and truncations, a list answers exactly like the corresponding sequence: pop and top yield the first datum (NULL when empty), indexed access is 1-based and yields NULL outside, indexed writing outside is a fatal error, membership compares pointers, length is exact, and enumeration is in order, each datum once, stopping at once with non-zero when the callback says so. Lists share storage internally but never affect one another, whatever is created, truncated or destroyed in between. A dump prints every datum in order, and the figure of memory allocated for lists grows by one fixed amount with every list created and another with every element added.",
  ["histories"], "every sequence of operations on any number of lists, including alternation between both ends, emptying and refilling, and recycling of storage between lists",
  "tests/list performs a dozen operations on one list",
  ["maa/list.c", "maa/memory.c"], [("head/tail/count maintenance", "lst_append, lst_push, lst_pop, lst_truncate"), ("node recycling", "mem_get_object, mem_free_object")])
p("C09", "List positions and truncation restore earlier states",
  "A position obtained from a list keeps denoting the same element, whatever is added or removed elsewhere, until that element is removed: reading and writing through it, and stepping to its successor, agree with the sequence. Truncating to a length or to a position leaves exactly the prefix ending there (nothing for length 0 or a NULL position; no change if the list is not longer), and the list remains fully usable afterwards, so that remembering the last position and truncating to it restores the earlier list.",
  ["histories"], "every history, every set of simultaneously held positions, every truncation point including empty, one, middle, exact and beyond the end, followed by any further operations",
  "tests/list truncates once, to length 1, and never truncates to a position",
  ["maa/list.c"], [("truncation and tail repair", "lst_truncate, lst_truncate_position"), ("positions are nodes", "lst_init_position, lst_last_position, lst_nth_position, lst_next_position")])
p("C10", "A skip list is an ordered map for every random outcome",
  "Whatever levels the random source yields and in whatever order data arrive and leave, lookup finds exactly the datum whose key is present (or NULL), and enumeration yields every datum once in ascending key order. Inserting a datum whose key is present and deleting one whose key is absent are refused by aborting; deletion goes by key, not by pointer; and skip lists never affect one another.",
  ["histories", "inputs", "schedules"], "every sequence of random levels combined with every history of insertions, deletions and lookups on any number of lists, with any total order",
  "tests/sl inserts some twenty ascending and a few other integers and deletes one; levels depend on one random sequence",
  ["maa/sl.c"], [("search path and pointer fix-up", "_sl_locate, sl_insert, sl_delete"), ("level growth and shrink", "sl_insert, sl_delete")],
  [("level/forward", "tower heights and links", "struct _sl_List")])
p("C11", "Skip-list enumeration tolerates modification by the callback",
  "Enumeration visits exactly the data that were in the list when it started, in ascending key order and each once, even if the callback inserts and deletes arbitrary data of the same list meanwhile. It stops at the first non-zero callback result and returns that result, zero otherwise, and the list afterwards holds exactly what the callback's own operations left.",
  ["histories", "schedules"], "every list content, every choice of insertions and deletions performed at every step of the enumeration, every stopping point",
  "tests/sl only prints from its callback",
  ["maa/sl.c"], [("snapshot of the data", "sl_iterate, sl_iterate_arg")])
p("C12", "A stack is last-in first-out",
  "After any history of pushes and pops, pop and top yield the most recently pushed datum not yet popped, or NULL when the stack is empty, and emptiness is reported exactly, also for stacks holding NULL data. Stacks never affect one another.",
  ["histories"], "every push/pop history on any number of stacks",
  "tests/stack pushes and pops a handful of data",
  ["maa/stack.c"], [("linked cells", "stk_push, stk_pop, stk_top, stk_isempty")])
p("C13", "Object memory never hands out an object in use",
  "Every object obtained is distinct and disjoint from all objects currently in use, keeps what its user wrote until freed or the manager is destroyed, is large enough for the declared size, and is all zero when requested empty. Freed objects are reused before new memory is taken, so the total never exceeds the peak number in use, and the total, used and reused figures, obtained or printed, are exact.",
  ["histories", "inputs"], "every get/free history on any number of managers and every object size",
  "tests/memobj gets and frees a few objects of one size",
  ["maa/memory.c"], [("free stack and allocation record", "mem_get_object, mem_get_empty_object, mem_free_object, mem_get_object_stats")])
p("C14", "String memory keeps exact, terminated, stable copies",
  "Every string stored (whole, by length, or grown piecewise and finished) is returned as an exact NUL-terminated copy of precisely the bytes given, reading no input beyond the given length, and stays unchanged at its address until the whole string memory is destroyed, whatever else is stored. Counts and byte totals, obtained or printed, are exact.",
  ["histories", "inputs"], "every interleaving of the storing operations (growth not interleaved within one memory), all lengths including 0, data with embedded or no terminators, many memories at once",
  "tests/memstr stores a few short literals, always NUL-terminated at the given length",
  ["maa/memory.c"], [("copy and terminate", "mem_strcpy, mem_strncpy"), ("piecewise growth", "mem_grow, mem_finish")])
p("C15", "A string pool interns: equal strings, one pointer",
  "Within a pool, finding strings (whole, or grown piecewise and finished) returns pointers that are identical iff the contents are equal, and each such string stays unchanged until the pool is destroyed; existence tests answer exactly whether the string was found before and never add it; plain copies are never entered. Enumeration visits each pooled string exactly once, stops with non-zero when the callback says so, and leaves the pool usable whether it was completed or stopped; a pool marked read-only still answers lookups but refuses new strings and destruction by aborting; pools never affect one another. The statistics count every distinct string once, leaving aside the copies that growing a string already there costs.",
  ["histories", "inputs"], "every interleaving of find, grow/finish, copy, existence test and enumeration over any strings and any number of pools",
  "tests/string finds a hundred keys twice",
  ["maa/string.c", "maa/hash.c", "maa/memory.c"], [("lookup before copy", "str_pool_find, str_pool_finish"), ("enumeration", "str_pool_iterate, str_pool_iterate_arg")])
p("C16", "The global pool self-initialises and yields unique names",
  "Every operation on the global string pool works from a fresh or destroyed state as it does later, interning exactly as a pool does, and destroying the pool forgets everything. A generated unique string starts with the given prefix, was not in the pool before, and is in it afterwards, so no two generated or previously interned strings coincide.",
  ["histories"], "every interleaving of all global pool operations with destruction, from the very first call",
  "only finding is tested, after which the other operations are never first",
  ["maa/string.c"], [("lazy creation", "_str_check_global"), ("generate until absent", "str_unique")])
p("C17", "An argument list is an exact, NULL-terminated vector",
  "After any sequence of additions (whole, by length, or grown piecewise and finished) the argument list holds exactly those strings in order, each an exact NUL-terminated copy; count, indexed access and the exported vector agree, the vector ends with a NULL, and access outside the range is refused by aborting. Lists never affect one another.",
  ["histories", "inputs"], "every addition history (any number of items, any lengths, unterminated input) on any number of lists",
  "tests/arg checks a few fixed lists",
  ["maa/arg.c", "maa/memory.c"], [("vector growth and termination", "arg_add, arg_addn, arg_finish"), ("bounds check", "arg_get")])
p("C18", "Command lines split by one fixed grammar",
  "Splitting any string yields exactly the words of the documented grammar: unquoted white space separates words; single and double quotes group verbatim and may join other text in a word or stand alone as an empty word; a backslash outside quotes takes the next character literally; unterminated quotes or a trailing backslash end the last word at the end of input. The two style flags make quotes, respectively backslashes, ordinary characters, and nothing else changes.",
  ["inputs"], "all strings over all byte classes, all combinations of style flags",
  "tests/arg splits a fixed list of lines with default style",
  ["maa/arg.c", "maa/arggram.txt", "maa/arggram2c"], [("transducer table", "arggram.txt, arg_argify"), ("character classes", "char2char_type")])
p("C19", "Debug flags are independent named switches",
  "Each of the 4 groups of 30 debug flags is an independent switch: setting or clearing one, by value or by registered name (name or +name sets, -name clears), changes exactly that flag; 'none' clears and 'all' sets every flag; testing reports exactly the current state. Registering a malformed flag, a flag already registered, or (for users) a flag of the reserved group, and setting an unknown name, are refused with a fatal error and never change a flag. A listing shows exactly the registered names, marking the built-in ones. A name stays registered whatever becomes of the text the caller gave.",
  ["histories", "inputs"], "every history of registrations, settings, clearings and tests over all groups and bits",
  "tests/debug tests two flags of one group that are never set",
  ["maa/debug.c"], [("group/bit encoding", "TEST, setFlags"), ("registration checks", "_dbg_register, dbg_register"), ("name parsing", "dbg_set")])
p("C20", "Run-time flags are independent named switches",
  "Each of the 4 groups of 30 run-time flags is an independent switch: name or +name sets it, -name clears it, 'none' and 'all' apply to every flag, and testing reports exactly the current state. A registered flag maps back to its name; registering a malformed or already registered flag and setting an unknown name are refused with a fatal error and never change a flag. A listing shows exactly the registered names. A name stays registered whatever becomes of the text the caller gave.",
  ["histories", "inputs"], "every history of registrations, settings and tests over all groups and bits",
  "no test uses run-time flags",
  ["maa/flags.c"], [("group/bit encoding", "TEST, setFlags"), ("registration", "flg_register, flg_name"), ("name parsing", "flg_set")])
p("C21", "A child gets exactly the standard streams it was promised",
  "A started child has each standard stream connected exactly as requested (new pipe to the caller, the caller's given descriptor, the null device, standard error joined to standard output, or inherited), and the caller holds exactly its own ends of the new pipes; a descriptor handed over is closed in the caller. No child holds a pipe end the caller keeps for itself or for another child, so end-of-file and broken-pipe conditions reach the right process in any pipeline and in any closing order. Conflicting or unknown requests are refused by aborting.",
  ["histories", "configurations"], "every combination of stream requests, for every number and order of children already running and pipes already opened or closed, whichever standard descriptors the caller has, however many descriptors it holds and whenever it raises its limit on them",
  "tests/pr starts four fixed children with three request combinations and never looks at descriptors",
  ["maa/pr.c"], [("child set-up", "pr_open2 CHILD"), ("caller set-up and tracking", "pr_open2 PARENT, _pr_objects")],
  [("_pr_objects", "descriptor -> child pid", "maa/pr.c")])
p("C22", "Child exit status and lifetime are reported faithfully",
  "Waiting for a child, directly, by closing one of its descriptors, or by spawning a command, blocks until that child ends and yields its exit code, 128 plus the signal that killed it (0 for a broken pipe), 127 if the command could not be run (the attempt runs no exit handler of the caller's and writes none of its buffered output), and 0 if it was already waited for; whether a core was left changes no status; interruptions by signals never change the result. Closing without waiting returns the child's process id, closing a descriptor not obtained from opening is refused by aborting, and shutdown ends and reaps every child still attached and signals no other process.",
  ["histories", "schedules", "fault_sequences"], "every exit code and signal, every order of closing, waiting and ending, interrupted waits, any set of children at shutdown, and any number of descriptors",
  "tests/pr only sees exit status 0",
  ["maa/pr.c"], [("status decoding and EINTR retry", "pr_wait, pr_spawn"), ("tracking", "pr_close_nowait, pr_close, _pr_shutdown")])
p("C23", "Filtering through a child loses nothing and never hangs",
  "Passing a buffer through a child process delivers every input byte once and in order and then end-of-file, and returns every output byte in order with the exact length, whatever the sizes (including empty input or output, more than any pipe holds, and output that exactly fills the buffer), however reads, writes and the child's progress interleave, and in spite of interrupted or partial transfers. It never deadlocks, never writes beyond the given buffer, reports overflow rather than truncating silently, and leaves no descriptor or zombie behind.",
  ["schedules", "inputs", "fault_sequences"], "every input and output size, every schedule of the child's reading, writing and ending, every sequence of partial and interrupted system calls, however many descriptors the caller holds",
  "no test calls the filtering functions",
  ["maa/pr.c"], [("non-blocking copy loop", "pr_readwrite"), ("start", "pr_filter")])
p("C24", "Every log message reaches exactly the open destinations",
  "Each information or error message (of up to 4095 bytes) is delivered once, complete and in order, to every log destination open at that moment (file, stream, system log) and to no other; nothing is delivered when none is open, existing file contents are only appended to, and each line carries time, host, identifier and process unless the short form is selected or the stream is standard output or standard error. The names and identifiers given at opening stay in force whatever becomes of the caller's texts. Opening a kind of destination that is already open is refused by aborting, closing is idempotent and per kind, and any destination can be reopened later.",
  ["histories"], "every interleaving of opening, closing, option and facility changes and messages over the three kinds of destination",
  "tests/log opens one file, writes three lines and closes everything",
  ["maa/log.c"], [("fan-out", "_log_base_va"), ("open/close state", "log_file, log_stream, log_syslog, log_close")],
  [("logOpen, logFd, logUserStream, logSyslog", "open destinations", "maa/log.c")])
p("C25", "Log files rotate exactly when their expanded name changes",
  "With time directives in the log file name, each message goes to the file named by the time at which it is logged: when the expanded name changes the old file is closed, missing directories are created and the new file is opened for appending, and otherwise the same file continues. No message is lost, duplicated or put in another period's file, however the clock moves, including back to a name used before.",
  ["histories", "schedules"], "every sequence of messages and clock movements, every pattern of directives and directory levels",
  "no test uses a directive in a log file name or spans a change",
  ["maa/log.c"], [("name check before each write", "_log_check_filename"), ("directories", "log_mkpath")])
p("C26", "Errors are reported completely and end the program as declared",
  "A warning returns to the caller, a fatal error exits with status 1, and an internal error aborts; each first flushes standard output, then prints on standard error the program's base name if set, the routine if given, and the formatted message (plus the system error text for the errno variant), and sends the message to every open log destination. The program name reported is the last path component of the one last set, or none.",
  ["histories", "configurations"], "every combination of program name, routine, message, and open log destinations",
  "tests/err compares a few fixed combinations on standard error without logs",
  ["maa/error.c", "maa/log.c"], [("report and end", "err_warning, err_fatal, err_fatal_errno, err_internal"), ("program name", "err_set_program_name")])
p("C27", "Source tokens keep their place in the source",
  "Every token recorded keeps forever the file name, line number, offset, length and full text of the line that were current when it was recorded, whatever lines, files, line markers and tokens follow, until the source manager is destroyed; each token advances the offset by its length and each stored line advances the line number and resets the offset. Stored lines are exact copies of the given bytes with tabs shown as spaces, statistics are exact, and a destroyed manager starts afresh.",
  ["histories", "inputs"], "every interleaving of lines, files, line markers, advances and tokens, of any number (beyond any internal table size) and any line content, across destruction and re-creation",
  "no test uses the source manager",
  ["maa/source.c", "maa/memory.c"], [("current place", "Info"), ("line store growth", "src_line"), ("token snapshot", "src_get")])
p("C28", "Source diagnostics point at the offending token",
  "A diagnostic for a token prints its file, line and message, then the token's source line, then carets under exactly the token's columns; with no token it says so, and with no stream it goes to standard output. In parse messages quoted token names are replaced by the concrete form first registered for them (itself if none), quoted characters are unwrapped, and any other text, however ill-formed the quoting, appears unchanged.",
  ["inputs", "histories"], "every token, message text and registration history",
  "no test prints a diagnostic or registers a concrete form",
  ["maa/source.c", "maa/parse-concrete.c"], [("message massaging", "_src_print_yyerror"), ("caret line", "_src_print_error"), ("concrete names", "prs_register_concrete, prs_concrete")])
p("C29", "Named timers measure the interval between start and stop",
  "For every named timer, the real, user and system times reported are those elapsed (for the process plus its waited-for children, to the microsecond the system provides) between its most recent start and the stop that followed, unaffected by other timers, by what becomes of the text that named it, and by later starts until the next stop; resetting makes them zero. Stopping, resetting or reading a timer never started is refused by aborting, and listing prints every timer once.",
  ["histories", "inputs"], "every interleaving of start, stop, reset and read over any number of timers, under every clock and resource-usage reading",
  "no test uses timers except through start-up and shutdown",
  ["maa/timer.c"], [("marks and differences", "tim_start, tim_stop, DIFFTIME")])
p("C30", "The library can be initialised and shut down repeatedly",
  "After shutdown every global facility (global strings, debug and run-time flags, named timers, concrete symbols, child tracking, list and skip-list storage) is empty, and the next initialisation starts exactly as the first, with no trace of, or access to, memory of earlier cycles; logs left open keep working. Shutdown shows the version, string statistics and timers exactly when the flags .memory and .time ask for them. Initialisation registers the built-in debug flags, unset, starts the total timer and sets the program name.",
  ["histories"], "every number of cycles with any use of the facilities in each",
  "tests initialise once and mostly exit without shutting down",
  ["maa/maa.c"], [("ordered clean-up", "maa_shutdown"), ("built-in registrations", "maa_init")])
p("C31", "Base-26 and base-64 numbers round-trip",
  "Every number below 2^32 is encoded most significant digit first, without leading zero digits (one digit for zero), in the stated alphabet, whatever was encoded before, and decoding that text gives the number back; decoding also accepts leading zero digits and, for base 64, a length-delimited buffer. Any character outside the alphabet is refused by aborting.",
  ["inputs", "histories"], "all numbers below 2^32, all texts over and outside the alphabet, all orders of encoding (results may be cached)",
  "tests/base covers numbers below 65535",
  ["maa/base26.c", "maa/base64.c"], [("digit loops", "b26_encode, b26_decode, b64_encode, b64_decode_buf"), ("cached value", "b26_encode")])
p("C32", "Bit operations treat a word as a set of bits",
  "For every word and every bit position of an unsigned long, setting adds and clearing removes exactly that bit, testing is non-zero iff it is in, and counting yields the number of bits in.",
  ["inputs", "histories"], "all 64 positions and all words",
  "tests/bit uses positions below 32 and at most 13 bits",
  ["maa/bit.c"], [("masks", "bit_set, bit_clr, bit_tst"), ("population count", "bit_cnt")])
p("C33", "Primality is exact for all 32-bit values",
  "The primality test answers 1 for exactly the prime numbers among all unsigned 32-bit values, and the next-prime function yields the smallest odd prime not below its argument.",
  ["inputs"], "all unsigned 32-bit values (for the next prime, those up to the largest 32-bit prime)",
  "tests probe four values",
  ["maa/prime.c"], [("trial division by odd divisors", "prm_is_prime")])
p("C34", "Soundex codes follow one fixed transformation",
  "For every string the code is the first letter in upper case followed by the digits of the later letters, where vowels and the letters H, W and Y give no digit, a digit equal to that of the letter just before is dropped, non-letters are ignored, and the result is cut or filled with zeros to four characters; a string without letters gives Z000. Letter case never matters.",
  ["inputs"], "all byte strings",
  "no test computes a code",
  ["maa/text.c"], [("letter classes and previous-letter rule", "txt_soundex2")])
p("C35", "Destroying objects, and shutting down, returns all memory",
  "Destroying a hash table, set, stack, object memory, string memory, string pool, argument list or skip list releases everything the object allocated over its whole history, and popping, deleting and finishing leave nothing behind beyond what the object still holds. List elements are recycled, so repeating any list workload needs no further memory. When all objects are destroyed and the library is shut down, it holds none.",
  ["histories"], "every history of an object from creation to destruction",
  "tests check no memory accounting",
  ["maa/hash.c", "maa/set.c", "maa/stack.c", "maa/memory.c", "maa/string.c", "maa/arg.c", "maa/sl.c", "maa/list.c"],
  [("release of every part", "hsh_destroy, set_destroy, stk_destroy, mem_destroy_objects, mem_destroy_strings, str_pool_destroy, arg_destroy, sl_destroy, lst_destroy"), ("old buckets freed on growth", "hsh_insert, set_insert")])
p("C36", "Every operation refuses what is not an object of its kind",
  "Given a null object, an object of another kind (or memory that is no object), or a destroyed skip list, every operation on hash tables, sets, lists, skip lists, object memories, string memories and argument lists ends the program by aborting, before the object is used in any other way; given a right object (both right, for operations on two sets), the operation is never refused. Appending to a null list and iterating over a null skip list do nothing.",
  ["inputs", "histories"], "every operation, every kind of object in every position, in every mix of existing objects",
  "no test passes a wrong object",
  ["maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/memory.c", "maa/arg.c", "maa/maa.h"],
  [("tags checked at each access", "MAA_MAGIC, _hsh_check, _set_check, _lst_check, _sl_check_list, _mem_magic_strings, _mem_magic_objects, _arg_check")])
p("C37", "Memory, descriptors, processes or log files that cannot be had end the program with a report",
  "When an allocation the library makes for an operation is refused, or a pipe, a process or a log file cannot be had, the operation says so on standard error (what ran out, or the system's text for the error; with other logs open, there too) and ends the program with exit status 1: it neither crashes, nor aborts, nor goes on without what it asked for. An operation that gets all it asks for is not affected by how little is left. Freeing a null pointer through the library is reported in the same way.",
  ["inputs", "faults"], "every allocation of every operation, on objects of every size; every number of descriptors left",
  "no test makes anything run out",
  ["maa/xmalloc.c", "maa/stack.c", "maa/pr.c", "maa/log.c", "every caller of xmalloc"],
  [("nothing is used before it is known to be there", "xmalloc, xcalloc, xrealloc, xstrdup, stk_push, pr_open, _log_set_filename")])
p("C38", "Size is no limit",
  "Hash tables, sets, lists, skip lists, stacks, object and string memories, string pools, argument lists, source lines and parser symbols hold hundreds of thousands of elements as faithfully as a few: counts are exact, enumerations visit exactly what is there (in order where there is one), lookups find exactly what is there, and set operations, removal and destruction work as on small ones; and a text of megabytes is stored, found and returned whole by every function that takes one. No operation needs more run-time stack because there are more elements or longer texts.",
  ["inputs", "histories"], "every kind of object, any number of elements and length of text that memory holds, every operation on them",
  "the tests use at most a few thousand elements and short texts",
  ["maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/stack.c", "maa/memory.c", "maa/string.c", "maa/arg.c", "maa/source.c", "maa/parse-concrete.c", "maa/text.c"],
  [("loops instead of recursion, heap instead of stack", "sl_iterate, lst_destroy, sl_destroy, hsh_destroy, str_findn, str_unique, src_cpp_line"), ("growth", "hsh_insert, set_insert, arg_add, mem_grow")])
p("C39", "The caller's process is left as it was",
  "The library changes nothing of the process it lives in but what its operations are for. Whatever the caller's signal dispositions and mask, file creation mask, directory, environment, locale and limits are, they are the same after every operation, no timer or thread is left running, and the caller's descriptors are the same but for those of the open log file, of pipes to children and of what was handed over: none is leaked by a change of the log's file name, a refusal, a filter or a spawn, and none is closed or altered. A started command begins with the caller's blocked and ignored signals, creation mask, directory, environment and limits, and log files and their directories are no more accessible than the caller's creation mask allows.",
  ["configurations", "histories"], "every way a caller may have set its process up, with every operation in every order",
  "the tests look at no process state at all",
  ["maa/log.c", "maa/pr.c", "maa/maa.c", "maa/timer.c", "maa/error.c"],
  [("the log's descriptor is closed before it is opened anew, and when the log is closed", "_log_check_filename, log_file, log_stream"), ("directories made with mkdir under the caller's mask", "log_mkpath"), ("descriptors of pipes and children", "pr_open2, pr_filter, pr_spawn, _pr_shutdown")])
p("C40", "Work and memory stay in proportion to what is held",
  "However many elements a hash table, set or string pool holds, and whatever was inserted and deleted before, inserting, deleting and looking up an element (there or not) cost a handful of comparisons and hash computations on average when the hash function spreads the keys, as those of the library do for ordinary strings and pointers, and no hash value is computed anew because a table grows; in a skip list they cost a number of comparisons proportional to the logarithm of the number of elements; set union, intersection, difference and comparison cost a handful per element. The memory of a container is in proportion to the most elements it ever held: elements that come and go, objects that are made and destroyed, and operations that are done again and again leave memory use as it was (what a string memory or pool holds, a text grown in a pool that was there already included, it holds until it is destroyed), and a destroyed object gives back what it held.",
  ["inputs", "histories"], "every container, any number of elements, any order of insertions, deletions, lookups and repetitions",
  "the tests look at results only, on small objects",
  ["maa/hash.c", "maa/set.c", "maa/sl.c", "maa/string.c", "maa/memory.c", "maa/list.c", "maa/stack.c", "maa/arg.c"],
  [("tables grow when more than half full, with the stored hash values", "hsh_insert, set_insert"), ("levels chosen at random, one more at a time", "_sl_random_level, sl_insert, sl_delete"), ("freed objects are used again", "mem_get_object, mem_free_object, lst_pop, lst_truncate")])
p("C41", "What the caller passes is only read, and not needed for long",
  "No operation changes what it is given to read, not even for a moment: texts, buffers, commands, patterns, formats, names, keys and elements may lie in memory that can only be read and that ends right behind them (a buffer passed with its length behind its last byte). What the library keeps of texts given to string memories, pools, argument lists, the source manager, the parser's symbols, flags, timers and the log are copies of its own: the caller may change or free the text as soon as the operation returns, and all that is held and reported later stays as it was given. What containers are given to hold they hold by address: keys and elements are looked at by the hash and comparison functions only, and data and what a list, a stack or a table of pointers holds are never looked at, changed or freed, and come back as the same address.",
  ["inputs", "histories"], "every argument of every operation, any content, in every order of operations",
  "the tests pass string literals and variables that stay as they are, and never look at them again",
  ["maa/string.c", "maa/memory.c", "maa/arg.c", "maa/source.c", "maa/parse-concrete.c", "maa/debug.c", "maa/flags.c", "maa/timer.c", "maa/log.c", "maa/pr.c", "maa/hash.c", "maa/set.c", "maa/list.c", "maa/sl.c", "maa/stack.c", "maa/text.c"],
  [("copies are made where the caller's text is not to be held", "str_pool_find, mem_strcpy, arg_addn, tim_start, dbg_register, flg_register, log_file, log_stream, log_syslog, prs_register_concrete"), ("scratch copies where a text is taken apart", "src_cpp_line, log_mkpath, src_line"), ("addresses only", "hsh_insert, set_insert, lst_append, stk_push, sl_insert")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
