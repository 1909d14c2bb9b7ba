p("P01", "Ring buffer delivers exactly the bytes written, in order",
  "A ring buffer is a byte-exact FIFO queue in every mode (memory-mapped, private memory, contiguous): a write accepts as many bytes as there is room for and reports that count, and copying or no-copy reads return the oldest unread bytes, in order, each exactly once. The bytes ready plus the bytes available always equal the size, a request larger than the size is refused without effect, and clearing makes the buffer empty.",
  "histories inputs configurations", "every sequence of writes, reads, no-copy reads and clears, of any amount, on a buffer of any size and mode",
  "the tests drive one chunk pattern per mode with matching read sizes; wrap-around with partial reads is not sampled",
  [T + "rb.c", "include/toolbox/rb.h"], [("read/write offset wrap and mirroring", T + "rb.c")], "model_checking", MC, NOTE,
  ["u_rb_write", "u_rb_read", "u_rb_fast_read", "u_rb_ready", "u_rb_avail"])

p("P02", "Strings hold exactly the text given to them and stay terminated",
  "After any sequence of creation, set, append, formatted print or append, trim-independent clear and reserve operations on a string object, its value is the concatenation those operations define, its reported length is that text's length, and the text is terminated by a zero byte. This holds across every internal growth boundary and for any length of formatted output, and a failed operation reports failure.",
  "histories inputs", "every sequence of string operations with operand lengths on both sides of every growth boundary",
  "the tests use a handful of short literals; growth boundaries and long formatted output are not sampled",
  [T + "str.c", "include/toolbox/str.h"], [("capacity growth and terminator maintenance", T + "str.c")], "model_checking", MC, NOTE,
  ["u_string_c", "u_string_len", "u_string_append", "u_string_sprintf"])

p("P03", "Byte buffers hold exactly the bytes set, appended, loaded or printed",
  "After any sequence of reserve, set, append, formatted print, shrink, clear, load-from-file and detach operations, a byte buffer's length and contents are exactly those the operations define, and its reported size is never smaller than its length. A detached region belongs to the caller and leaves the buffer empty and usable.",
  "histories inputs", "every sequence of buffer operations with operand lengths on both sides of every growth boundary",
  "the tests cover a few fixed appends and one printf",
  [T + "buf.c", "include/toolbox/buf.h"], [("reserve/append growth", T + "buf.c")], "model_checking", MC, NOTE,
  ["u_buf_ptr", "u_buf_len", "u_buf_size"])

p("P04", "Base64 decoding inverts encoding; malformed or oversized input is refused",
  "Encoding any byte sequence yields its standard base64 text, and decoding that text returns the original bytes and their exact count. Both directions never write past the capacity the caller stated: output that does not fit, and text that is not well-formed base64, are refused with an error.",
  "inputs configurations", "every byte sequence and text up to a bound, every output capacity",
  "the tests encode and decode a few fixed vectors with ample buffers",
  [T + "b64.c", "include/toolbox/b64.h"], [("block encoder/decoder", T + "b64.c")], "model_checking", EX, NOTE, ["u_b64_encode", "u_b64_decode"])

p("P05", "Typed dynamic arrays return the last value stored at each index",
  "For every element type, reading an index of a dynamic array returns the value most recently stored there, at any index whose slot exists, and storing beyond the current size grows the array without disturbing any other element. An index that cannot be served is refused, and the previous value of an overwritten slot is handed back exactly.",
  "histories inputs", "every sequence of stores and loads over indices around the initial size and growth step, for each element type",
  "the tests fill arrays sequentially and read them back once",
  [T + "array.c", "include/toolbox/array.h"], [("auto-resize on set", T + "array.c")], "model_checking", MC, NOTE, ["u_array_set_*", "u_array_get_*"])

p("P06", "Pointer lists keep insertion order across positional insert and delete",
  "A pointer list always contains exactly the elements added and not deleted, in the order implied by appends and positional inserts; the count, positional access, iteration, and deletion by position or by value (first occurrence) all agree with that sequence. Clearing leaves an empty, reusable list with count zero.",
  "histories", "every sequence of add, insert, delete, clear and iteration operations, including repeated elements",
  "the test inserts a handful of elements in one order",
  [T + "list.c", "include/toolbox/list.h"], [("doubly linked insert/delete and count", T + "list.c")], "model_checking", MC, NOTE, ["u_list_get_n", "u_list_count", "u_list_iterator"])

p("P07", "Priority queue hands back entries in key order and honours its capacity",
  "Removing the top of a priority queue always returns a stored entry with the greatest key, together with that key; each stored entry is returned exactly once, and peeking returns the same entry without removing it. A queue accepts pushes until its stated capacity and refuses more without effect; removing from an empty queue yields nothing; the empty and full queries agree with the contents.",
  "histories inputs", "every sequence of pushes, pops and peeks over a small key set with ties, at every capacity up to a bound",
  "the tests push one random or fixed sequence and pop it",
  [T + "pqueue.c", "include/toolbox/pqueue.h"], [("binary heap maintenance", T + "pqueue.c")], "model_checking", MC, NOTE, ["u_pq_delmax", "u_pq_peekmax", "u_pq_push"])

p("P08", "Search tree is an ordered multimap with correct ranks after any edit",
  "A search tree behaves as an ordered multimap: after any sequence of insertions (at the bottom, at the top or randomised), deletions and rebalancing, in-order iteration yields every stored key in comparator order with its value, search finds a stored entry exactly when the key is present, and the element counts (of the tree and of every subtree) are right. Selecting the n-th smallest returns the entry of that rank, deletion removes exactly the entry a search for that key returns, and rebalancing leaves a tree of minimal height.",
  "histories inputs configurations", "every sequence of insert, delete and rebalance over small key sets with repeats, for every insertion mode and key type, and every outcome of the randomised insertion coin",
  "the tests insert random keys and check a few searches; deletion followed by order statistics is never exercised",
  [T + "bst.c", "include/toolbox/bst.h"], [("rotations, partition, subtree counters", T + "bst.c")], "model_checking", MC, NOTE, ["u_bst_foreach", "u_bst_find_nth", "u_bst_search", "u_bst_count", "u_bst_node_count"])

p("P09", "Hash map lookups return the latest value stored for each key",
  "For both collision strategies and every combination of options, a hash map is a finite map: looking up a key returns the value most recently stored and not since deleted, or nothing; storing an existing key replaces its value only when overwriting is enabled and is refused otherwise; and iteration visits each live entry exactly once. The size always equals the number of live entries, and growth of the table changes nothing observable.",
  "histories inputs configurations", "every sequence of put, get, delete, clear, copy and iteration over keys that are forced to collide, in every option combination",
  "the tests insert distinct keys into one configuration at a time; colliding deletes followed by re-insertion are not sampled",
  [T + "hmap.c", "include/toolbox/hmap.h"], [("chaining and linear probing, resize", T + "hmap.c")], "model_checking", MC, NOTE, ["u_hmap_put", "u_hmap_get", "u_hmap_del", "u_hmap_foreach"])

p("P10", "Bounded hash map caches evict exactly the entry their policy names",
  "A hash map with a maximum size and a discard policy never holds more than that many entries, and when it must make room it removes exactly the entry the policy designates: the oldest inserted (FIFO), the least recently used (LRU), a least frequently used (LFU), or the one the user's comparison chooses. Every other entry stays retrievable with its value, across any mix of puts, gets, deletions and overwrites.",
  "histories configurations", "every sequence of put, get and delete over more keys than fit, for each policy and maximum size",
  "the tests follow one scripted history per policy, without deletions",
  [T + "hmap.c"], [("policy queue push/pop and per-access reordering", T + "hmap.c")], "model_checking", MC, NOTE, ["u_hmap_put", "u_hmap_get", "u_hmap_del"])

p("P11", "Owned objects are released exactly once, with the installed allocator",
  "Every object a container takes ownership of is released exactly once, by the release function the user installed, no later than the container's destruction and never while it is still reachable through the container; an object whose ownership was not transferred is never released. When containers, strings, parsed documents and configurations are destroyed, every block obtained through the application-installed memory functions has been returned through them.",
  "histories configurations", "every sequence of insertions, overwrites, deletions, evictions, copies, clears and destruction, over all object kinds",
  "the tests never count releases and run with the default allocator",
  [T + "hmap.c", T + "bst.c", T + "list.c", T + "config.c", T + "json.c", T + "memory.c", T + "array.c"], [("ownership options and free callbacks", T + "hmap.c")], "model_checking", MC, NOTE, ["u_hmap_free", "u_memory_set_malloc", "u_config_free", "u_json_free"])

p("P12", "JSON decoding accepts exactly well-formed documents",
  "Decoding a text as JSON succeeds if and only if the text begins, after blanks, with a well-formed JSON object or array (RFC 4627 grammar, except that a comma after the last element is tolerated), whose strings, keys and numbers are shorter than the token limit and whose nesting is within the documented limit. Text after that root value is ignored. Validation-only decoding gives the same verdict, nesting limit aside. A rejected text yields no object, and no input makes the decoder read outside the text or fail to terminate.",
  "inputs", "every text up to a bound over an alphabet covering every token class",
  "the tests check a list of sample documents",
  [T + "json.c", T + "lexer.c"], [("recursive descent parser over the lexer", T + "json.c")], "model_checking", EX, NOTE, ["u_json_decode", "u_json_validate"])

p("P13", "JSON values survive encoding and decoding unchanged",
  "Decoding a document, encoding the result, and decoding again gives the same tree: same types, order, keys, string text and numeric text. Objects built through the programming interface encode to well-formed JSON that decodes to an equal tree.",
  "inputs histories", "every document of bounded size over all value kinds, every build sequence up to a bound",
  "the tests compare a few round trips textually",
  [T + "json.c"], [("encoder", T + "json.c")], "model_checking", EX, NOTE, ["u_json_encode", "u_json_decode"])

p("P14", "JSON lookups agree with the tree, indexed or not, through every edit",
  "In an indexed document, looking a value up by its path returns the first element, in document order, that has that path, or reports that there is none; without an index path lookups find nothing. Looking up an array element by position gives the element at that place, identically whether or not the document is indexed. Iterators visit exactly the children in order; adding or removing elements is refused while the document is indexed and otherwise changes nothing else in the tree; and setting a value changes that element only.",
  "histories inputs", "every document of bounded size and every sequence of add, remove, index, unindex and lookup operations up to a bound",
  "the tests look up a few keys in fixed documents",
  [T + "json.c"], [("path walk and optional index map", T + "json.c")], "model_checking", MC, NOTE, ["u_json_cache_get", "u_json_child_at", "u_json_remove"])

p("P15", "URI parsing splits text into its RFC 3986 components or refuses it",
  "Parsing a URI succeeds exactly on texts of the generic syntax the module supports (scheme, authority with user info, host and port, which may be a service name or an asterisk, path, query, fragment) whose components are shorter than the token limit, and yields, for each component present, exactly the substring RFC 3986 assigns to it. A text that is not a URI is refused rather than partly accepted, whatever its length.",
  "inputs", "every text up to a bound over an alphabet of delimiters and ordinary characters; component lengths around internal limits",
  "the tests parse a list of sample URIs",
  [T + "uri.c", T + "lexer.c"], [("component recogniser", T + "uri.c")], "model_checking", EX, NOTE, ["u_uri_crumble", "u_uri_get_*"])

p("P16", "Recomposed URIs parse back to the same components",
  "Writing out a URI whose components were set or parsed gives a text that contains each component in its place with the right delimiters, never exceeds the stated output capacity, and parses back to equal components. Setting one component leaves the others unchanged; an explicit authority takes precedence over its parts and user info over user and password, and a relative path after an authority is made absolute.",
  "inputs histories", "every combination of present and absent components and every parsed URI up to a bound",
  "the tests recompose a few sample URIs",
  [T + "uri.c"], [("recomposition", T + "uri.c")], "model_checking", EX, NOTE, ["u_uri_knead", "u_uri_set_*"])

p("P17", "Scanner cursor moves and matches are exact and bounded",
  "The lexical scanner delivers each character of its input exactly once in order (optionally skipping blanks), never moves or reads outside the input, and reports the end of the input when it is passed (or, when skipping blanks, reached). A recorded match shorter than the token limit returns exactly the characters from the left to the right recorded position, both included, and peeking does not move the cursor.",
  "histories inputs", "every sequence of scanner operations up to a bound over small inputs",
  "the tests scan one text and extract one match",
  [T + "lexer.c", "include/toolbox/lexer.h"], [("cursor and match offsets", T + "lexer.c")], "model_checking", MC, NOTE, ["u_lexer_next", "u_lexer_get_match"])

p("P18", "Text-to-number conversions are exact or report failure",
  "Converting text to an integer or floating value succeeds exactly when the text begins, after blanks, with a number of that kind (the longest one counts, what follows it is ignored) that is in range, giving that number; no number, or one out of range, is reported as failure. Negative texts are outside the domain of the unsigned conversion. The outcome depends only on the text, never on errors left over from earlier calls.",
  "inputs histories", "every text up to a bound over sign, digit, blank and letter characters, boundary values, after every prior call",
  "the tests convert a few literals",
  [T + "misc.c", T + "config.c"], [("strtol wrappers", T + "misc.c")], "model_checking", EX, NOTE, ["u_atoi", "u_atol", "u_atoumax", "u_atof", "u_config_get_subkey_value_i"])

p("P19", "Text helpers split, trim and copy exactly and within bounds",
  "Blank tests, trimming, duplication, path building and bounded copy, concatenation or printing return exactly what they document for every text, and never touch memory outside the given strings and sizes. Tokenising a text yields exactly its non-empty delimiter-separated tokens, in order, as many as the list has room for, and always marks the end of the list.",
  "inputs configurations", "every text, delimiter set and capacity up to a bound",
  "the tests tokenise a few samples",
  [T + "misc.c", "srcs/missing/strlcpy.c", "srcs/missing/strlcat.c", "srcs/missing/strsep.c", "srcs/missing/strtok_r.c"], [("pointer walks", T + "misc.c")], "model_checking", EX, NOTE, ["u_tokenize", "u_strtok", "u_trim", "u_path_snprintf"])

p("P20", "Complete-transfer I/O moves every byte in order whatever the chunking",
  "The read-fully and write-fully operations deliver exactly the requested bytes in order across any sequence of short transfers and interruptions, and the read-side result tells the caller how many bytes arrived before end of file or failure. They stop with an error on a real failure and never return success for a partial write. Sleeping likewise lasts for the whole time asked, whatever interrupts it.",
  "fault_sequences inputs", "every sequence of short, interrupted and failing transfers up to a bound",
  "tests use regular files where transfers are never short",
  [T + "misc.c"], [("retry loop", T + "misc.c")], "fault_enumeration", FE, NOTE, ["u_read", "u_write", "u_io", "u_sleep"])

p("P21", "File load, dump, append and copy report success only when it is true",
  "Loading a file returns its exact bytes and size; dumping data, saving the process id and copying a file report success only if the destination then holds exactly the intended bytes. Any open, read or write failure, including one that surfaces only when the destination is flushed or closed, is reported, and no descriptor or memory stays behind.",
  "fault_sequences inputs", "every file size around buffer limits and every failing or short system call",
  "tests only use well-behaved files",
  [T + "misc.c", T + "fs.c"], [("stdio error checks", T + "misc.c")], "fault_enumeration", FE, NOTE, ["u_load_file", "u_data_dump", "u_savepid", "u_copy"])

p("P22", "Moving or copying files never loses the data",
  "At every point where a move or copy is interrupted or a step of it fails, the complete original contents exist under the source name or, for a move, the complete contents exist under the destination name. A move that reports success leaves the contents at the destination and no source; copying or moving a file onto itself does not destroy it.",
  "crash_points fault_sequences", "every system call of a move, copy or remove failing or being the last before a crash, same and different file systems",
  "no test injects failures or crosses file systems",
  [T + "fs.c"], [("rename with copy-and-remove fallback", T + "fs.c")], "fault_enumeration", FE, NOTE, ["u_move", "u_copy", "u_remove"])

p("P23", "A configuration means the same from any source, however it is chunked",
  "A configuration text defines the same tree of keys, values, order and nesting whether it comes from a file, memory, a descriptor or a custom reader, regardless of line lengths, final newline, or how the reader splits its data. Comments, quoting, escapes and braces follow the documented grammar, and a malformed text is refused with a failure.",
  "inputs configurations", "every configuration text up to a bound over the grammar's characters, every source, line lengths around internal buffer sizes",
  "tests load a few sample files whole",
  [T + "config.c"], [("line reader and tree builder", T + "config.c")], "model_checking", EX, NOTE, ["u_config_load", "u_config_load_from_file", "u_config_load_from_buf", "u_config_load_from_drv"])

p("P24", "Configuration queries see exactly the current tree",
  "Looking up a key by dotted path, by repetition index, by iteration, or by typed getter returns what was loaded or last set or added at that place, and a documented default or failure otherwise. Adding, setting and deleting keys affects only the addressed entry, and variable references are replaced by the referenced key's value at the time of setting.",
  "histories inputs", "every sequence of add, set, delete and lookup operations over small trees with repeated and nested keys",
  "tests query a few fixed files",
  [T + "config.c"], [("subkey search, nth selection, variable substitution", T + "config.c")], "model_checking", MC, NOTE, ["u_config_get_subkey_nth", "u_config_get_subkey_value", "u_config_set_key", "u_config_del_key"])

p("P25", "A printed or saved configuration reloads to the same tree",
  "Printing a configuration to a stream or saving it to a buffer gives a text which, when loaded, produces a tree with the same keys, values, order and nesting (include directives themselves excepted, empty and missing values alike), for every tree whose keys and values can be written in the configuration language and whose entries each have either a value or children. Saving to a buffer too small for the whole text reports failure.",
  "inputs histories", "every tree up to a bound, keys and values with every special character, every buffer size",
  "tests print samples without special characters",
  [T + "config.c"], [("printer and quoting", T + "config.c")], "model_checking", EX, NOTE, ["u_config_print_to_fp", "u_config_save_to_buf"])

p("P26", "Configuration includes terminate and close every source they open",
  "Loading a configuration with include directives gives the tree of the text with each included source in place; optional includes of missing sources are skipped and mandatory ones fail the load. Every source the loader opened is closed exactly once on success and on every failure, and circular includes are refused instead of recursing without end.",
  "histories fault_sequences inputs", "every include graph over a few sources, every failing open, read or close",
  "tests include one or two well-formed files",
  [T + "config.c"], [("include handling through the reader driver", T + "config.c")], "fault_enumeration", FE, NOTE, ["u_config_load_from_drv"])

p("P27", "Password checks accept exactly the stored user and password",
  "Authentication succeeds exactly when the database holds a record for that very user name whose stored secret equals the given password (hashed when hashing is enabled), identically for in-memory and file-backed operation. No line of the database, whatever its length or content, can make a different user name or password acceptable.",
  "inputs configurations", "every database text and user/password pair up to a bound, line lengths around internal limits, in memory and file modes",
  "tests check three accounts of one sample file",
  [T + "pwd.c"], [("record parser and lookup", T + "pwd.c")], "model_checking", EX, NOTE, ["u_pwd_init_file", "u_pwd_auth_user", "u_pwd_retr"])

p("P28", "In-memory password snapshots track the file and survive failed reloads",
  "In in-memory mode a lookup that notices a newer database answers from the new contents in full, and one that finds it unchanged answers from the snapshot. If a reload fails part-way the complete previous snapshot keeps answering, a later lookup retries the reload, and an answer never mixes two versions.",
  "histories fault_sequences", "every sequence of database updates, reload failures and lookups up to a bound",
  "tests never change the file after loading",
  [T + "pwd.c"], [("modification-time check and reload", T + "pwd.c")], "model_checking", MC, NOTE, ["u_pwd_retr", "u_pwd_auth_user"])

p("P29", "Log messages reach their sink exactly once, whole, and disturb nothing",
  "Every logging call hands its sink (user hook or system log) exactly one message containing the formatted text, with the documented location and error decorations, or reports failure when the message does not fit; nothing is truncated silently. The caller's error number is preserved, and the application's lock is taken and released exactly once around each delivery on every path.",
  "inputs histories", "every level, decoration flag and message length around internal limits, every nested lock outcome",
  "tests do not observe the log output",
  [T + "log.c", T + "logprv.c"], [("message assembly and locking", T + "log.c")], "model_checking", EX, NOTE, ["u_log_set_hook", "u_log_set_lock"])

p("P30", "Timed connects finish exactly when the connection or the deadline does",
  "Connecting with a timeout succeeds only if the connection was established, fails with the connection's own error if it was refused, and fails with a timeout error once the total time allowed has passed, whatever interruptions occur in between. The descriptor is left in the blocking mode it had before the call.",
  "fault_sequences schedules", "every schedule of interruptions, partial waits, readiness and errors of the underlying calls, with a modelled clock",
  "tests only connect to a local listener at once",
  [T + "net.c"], [("non-blocking connect and wait loop", T + "net.c")], "model_checking", "exhaustive enumeration of every environment schedule (interruptions, clock steps, results) around the real connect loop, with libc wrapped at link time", NOTE, ["u_connect_ex"])

p("P31", "Creating sockets from addresses leaks nothing and honours the address",
  "Opening a client or server socket from an address yields a descriptor bound or connected to exactly the host, port or path given, trying each resolved address in turn, or reports failure. On every failure of any step no descriptor or memory stays behind.",
  "fault_sequences inputs", "every failing system call in turn for every address family and mode; every address text up to a bound",
  "tests open well-formed addresses only",
  [T + "net.c"], [("address resolution and socket setup", T + "net.c")], "fault_enumeration", FE, NOTE, ["u_net_sd", "u_net_uri2addr"])

p("P32", "The test runner runs each case once, in dependency order, and tells the truth",
  "Each test case and suite is run exactly once, after everything it depends on has finished, with never more than the permitted number at a time, for every order in which sandboxed cases finish. A case is reported as passed only if it ran and succeeded; failures, crashes, skips, unmet dependencies, start failures and interruptions are reported as such and make the overall outcome a failure where documented.",
  "schedules fault_sequences configurations", "every dependency graph over a few cases and suites, every completion order, status, start failure and interruption",
  "the runner is only used, never tested",
  [T + "test.c", "include/toolbox/test.h"], [("topological ranking, fork and reap loop", T + "test.c")], "model_checking", "exhaustive exploration of every child completion order, exit status, fork failure and interruption, with process calls wrapped at link time", NOTE, ["u_test_run"])

p("P33", "A failed memory allocation is reported and corrupts nothing",
  "If any single memory allocation inside a library operation fails, the operation reports failure (or completes fully without it), the objects involved remain valid and keep their previous contents, no memory is leaked once everything is destroyed, and later operations work normally.",
  "fault_sequences histories", "every allocation point of every container, string, parser and configuration operation sequence up to a bound",
  "tests never fail an allocation",
  [T + "hmap.c", T + "str.c", T + "buf.c", T + "bst.c", T + "config.c", T + "json.c", T + "uri.c", T + "array.c", T + "list.c", T + "pqueue.c"], [("error paths", "include/toolbox/carpal.h")], "fault_enumeration", "exhaustive allocation-fault enumeration through the library's own allocator setters", NOTE, ["u_memory_set_malloc"])

p("P34", "Intrusive queue macros keep lists, tails and rings consistent",
  "The intrusive list, tail-queue and circular-queue operations keep every element inserted and not removed exactly once in the order implied by the operations, and head, tail, next and previous traversal agree after every operation. Removing an element never disturbs the others, and an emptied queue is reusable.",
  "histories", "every sequence of insert (head, tail, before, after), remove and rotate operations over a few elements for each queue flavour",
  "no test uses the macros directly",
  ["include/toolbox/queue.h"], [("pointer relinking", "include/toolbox/queue.h")], "model_checking", MC, NOTE, ["LIST_*", "TAILQ_*", "CIRCLEQ_*"])

p("P35", "Environment files load exactly the assignments they make",
  "Loading an environment file exports to the caller's environment exactly the prefixed variables the file exports, with their full (single-line) values of any length, and reports failure when the file cannot be read or evaluated. Exactly the named file is evaluated, whatever its name, and variables without the prefix are not imported.",
  "inputs", "every value length around internal limits, every byte, every short sequence of assignments, every special file name",
  "the test loads one sample file",
  [T + "env.c"], [("shell evaluation and import", T + "env.c")], "model_checking", EX, NOTE, ["u_env_init"])

M = "srcs/missing/"
p("P36", "Portability replacements behave as the functions they stand in for",
  "On systems lacking them, the bundled replacements for bounded string copy and concatenation, splitting, file name matching, UTC time conversion, system log messages, temporary file creation and daemonising give the standard results for every input, stay within the given bounds and leave the environment as it was. A temporary file is always newly created, private and named with the template's prefix and suffix, never an existing one.",
  "inputs", "every text, pattern and name over small alphabets, every date around the calendar's edges, every taken file name and failing step",
  "the replacements are not even compiled where the tests run",
  [M + "fnmatch.c", M + "timegm.c", M + "mkstemps.c", M + "strlcpy.c", M + "strlcat.c", M + "strsep.c", M + "strtok_r.c", M + "daemon.c", M + "vsyslog.c"], [("pattern matching", M + "fnmatch.c")], "model_checking", EX, NOTE, ["fnmatch"])

p("P37", "Printing an object for diagnosis shows it as it is and changes nothing",
  "The diagnostic dumps of maps and their eviction queues, JSON trees, URIs and configurations show every element exactly once with its key and value literally, whatever characters they contain, and nothing that is not there. Dumping leaves the object as it was and leaks nothing, also when memory runs out or an element is too long to be shown.",
  "inputs fault_sequences", "every small object of every kind over texts with format directives, every failing allocation",
  "tests call the dumps but look at no output, and harmless texts hide format-string use",
  [T + "hmap.c", T + "json.c", T + "uri.c", T + "config.c"], [("debug and print routines", T + "hmap.c")], "model_checking", EX, NOTE, ["u_hmap_dbg", "u_json_print", "u_uri_print", "u_config_print"])

p("P38", "Socket helpers do exactly what is asked and print addresses exactly",
  "Each socket wrapper makes exactly the one call it stands for with the caller's arguments and gives its result and error number (accept repeating only when interrupted); switching a descriptor to or from non-blocking mode changes that mode only and reports failures, and so does turning off Nagle's algorithm. Addresses are printed exactly, never outside the given buffer and never reading beyond the address.",
  "inputs fault_sequences", "every argument, result and error of the wrappers, every sequence of mode changes with failing calls, every address over boundary values, every buffer size",
  "tests use a handful of addresses and no failing call",
  [T + "net.c"], [("socket wrappers and address printing", T + "net.c")], "fault_enumeration", FE, NOTE, ["u_sa_ntop", "u_inet_ntop", "u_net_set_nonblocking"])
