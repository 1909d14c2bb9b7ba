#!/usr/bin/env python3
"""Writes DESIGN.md: prose below, scenario tables from the harnesses, planted bugs from seeded/*/meta.json (run after either changes)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''# Model checking libu

Generated by `tools/design.py` (prose is there; scenario tables come from `harness/*.c`).  The properties are in
`properties.jsonl` (source: `tools/plist.py`), the commands in `MANIFEST.json`, the fixed defects in `known-findings.txt`.

## 1. Technique

Every property is decided by **exhaustive enumeration of executions of the real code** (stateless, explicit-choice model
checking): a harness is a nondeterministic program that calls libu's public interface; every choice (which operation, which
operand, which byte of a text, how a system call ends, which coin comes up, which child process finishes first, where a
signal lands, which allocation fails) goes through `mc_choose(n)`, and the engine runs the program once for **every**
combination of answers inside the stated bounds.  After every operation the observable behaviour of libu is compared with a
reference model written from the documentation and the property, never from the implementation.  Nothing is sampled and no
solver is involved; a check that could not finish its enumeration inside its deadline says `complete=False` in its evidence.

There is no separate model of libu whose conformance would have to be argued: the code explored is the code in `/repo`'s
working tree, recompiled by each check.  The *environment* is modelled where the property quantifies over it (file
system, network, processes, clock, allocator), by link-time replacement of libc symbols (`-Wl,--wrap`).  Those models are
small, live in `harness/vfs.h`, `harness/net_model.h`, `harness/P30.c`, `harness/P32.c`, and are themselves exercised
by conformance scenarios that run the same operations against the real kernel where this is possible without privileges
(P20 `pipe`, P23/P35 real files, P35 the real shell, P01 real shared memory).

No hook in `/repo` is needed: seams are the public API, `u_memory_set_*`, `u_log_set_hook`, `u_log_set_lock` and libc.
The checks therefore judge behaviour only; renaming, extracting or reordering code inside libu cannot alarm them.

## 2. Engine (`mc/mc.h`, `mc/mc.c`, `check.py`)

* **Enumeration.**  Depth-first replay: one execution = one vector of choices; the next vector is obtained by incrementing
  the last choice that has alternatives left.  Choices that are *deviations* (`mc_dev`: a fault, an interruption, a
  preemption) are bounded in number per execution; all placements of up to that many deviations are enumerated.
* **Pruning.**  `mc_prune(hash, remaining)` ends an execution whose complete (model + observable) state was already expanded
  with at least as many operations left.  Used where the harness's state captures everything relevant (P24, P34);
  everything else is plain enumeration of all executions.
* **Isolation.**  Executions run in worker processes (8 cores), the tree being split at a stated shard depth.  Every
  execution starts from the same state: tracked allocations are released, file-system and network models reset, and libu's own
  writable sections (gathered into one section with objcopy) are restored.  libu's locals are pattern-initialised
  (`-ftrivial-auto-var-init=pattern`), heap blocks are filled with a pattern and overwritten on release, so reads of uninitialised or
  stale memory give wrong results deterministically.
* **Monitors.**  libu and the harness are compiled with AddressSanitizer, which is part of every verdict: an out-of-bounds access, use after free or
  double release in any explored execution is a violation of the property whose scenario provoked it, and so is a crash, a hang
  (25 s without progress) or runaway allocation.  Allocation goes through a tracking allocator installed with `u_memory_set_*`, so
  `mc_live()` counts blocks exactly and leaks are exact.
* **Replay.**  The violating choice vector is replayed twice in fresh processes, its trace of operations (`mc_op`) is printed and written to
  `out/replay-ID.json`; `check.py --replay FILE` runs that single execution again.  A violation that was observed but does not
  replay on its own (left-over memory) is still reported, with that remark; a hang that does not replay is not.
* **Histories.**  After the exhaustive pass of a scenario, eight further processes run executions of it one after another *without* restoring the
  library's writable data in between (eight orders: forward, reversed and rotated choices), for 0.6 s (4 s) each.  This reaches state that leaks from one use of the library
  into the next (a nesting counter never lowered, a static buffer never cleared).  A failure is confirmed by two fresh runs of the same history
  and replays as such.  This pass adds to the enumeration and replaces none of it (`in_histories` in the evidence, not counted as explored).
* **Two at once.**  `harness/two.h` keeps two model states, so that scenarios named "two ..." enumerate all interleavings of operations on two objects, each judged
  after every step: state that belongs in the object but is shared between objects is invisible to any number of one-object histories.
* **Sparse observation.**  Scenarios that judge the whole object after every step can hide a defect, because the looking itself resets it (a cached last element, found
  by planting s72).  The scenarios named "sparse" (P02, P03, P06-P09, P14, P24) therefore make looking one of the enumerated operations and judge everything only at the end.
* **Evidence.**  `evidence/ID.json`: executions, transitions (operations), distinct states, distinct outcomes, per scenario, completeness, bounds.
* **Known findings.**  `known-findings.txt` entries `finding: property=ID key=KEY ...` would be reported as `KNOWN-FINDING`;
  at present there are none: every genuine defect found was repaired (section 5).
* **Configurations.**  `MC-VARIANT` lines in a harness name further configurations: the same scenarios are explored on a second build in which those symbols are
  missing from the configuration header (platforms without `link`, `getaddrinfo`, `strerror_r`, ...), so the alternative code paths are judged by
  the same oracle.  They appear as scenarios "NAME: ..." in the evidence; a configuration that no longer builds is reported there and not counted as explored.
* **Self-test.** `check.py --selftest` (setup_cmd) explores `harness/SELF.c`: programs with known numbers of executions (interleavings, products,
  deviation budgets, discards, allocation failures, pruning) and planted faults (lost update, one-in-65536 outcome, overflow, use after
  free, double release, crash, history-dependent failures), and requires the exact counts and verdicts.

Exit status: 0 held on everything explored, 1 with a VIOLATION line, 3 when the check could not run (e.g. libu does not compile).

## 3. Properties, oracles and bounds

For each property: what is specified, what is enumerated (scenario table: tier, deviations quick/thorough), the oracle, and why
this reaches what the tests cannot.  Q = in quick, T = in thorough only.
'''
N = {
"P01": ("A byte queue (array model).", "Reads, writes and no-copy reads of every amount from 0 to size+1 mixed with clear, in all three buffer modes; the model predicts every returned count, every byte, ready and available. Shared-memory mode uses real mmap; its page-sized buffers restrict amounts to boundary values."),
"P02": ("Concatenation in a C array.", "Lengths sit on both sides of every growth boundary (63/64/65, 127..., also every length in `pairs`); length, text, terminator and return values are compared after every operation; exactly sized source operands so that over-reads trip ASan."),
"P03": ("A byte array; the loaded files come from the modelled file system.", "As P02 for buffers, including load from files of boundary sizes and detach/reuse."),
"P04": ("An independent base64 encoder and strict decoder.", "Inputs and texts exhaustively up to a bound, each with every output capacity, the output placed in an exactly sized heap block."),
"P05": ("An index to value map per element type.", "All 20 types; stores around the initial size and growth step; every index re-read after every operation; previous values through the out-parameter."),
"P06": ("An array of pointers.", "All positional and by-value operations with repeated elements; get_n, count, first-to-last iteration compared after each step."),
"P07": ("A multiset; ties may return any entry of the greatest key, but each entry exactly once.", "All push/pop/peek sequences over key sets with ties, infinities, negative and huge values at every capacity; all insertion orders for heap shapes."),
"P08": ("A sorted multiset with identities.", "`rand` is replaced by a choice point, so randomised trees are explored for every coin outcome. In-order walk, search, n-th, subtree counts compared after each operation; a state is the tree shape."),
"P09": ("A finite map.", "Constant, colliding and default hash functions, chaining and linear probing, all key/value type and ownership and overwrite combinations; all get/iterate/count results after each operation."),
"P10": ("An explicit policy model (recency list, insertion list, frequencies; for ties any least frequent entry).", "After each operation, contents must equal the model's up to the freedom the policy leaves; deletions and overwrites inside caches included. `full-table` puts the cache limit next to the table size."),
"P11": ("Per object: owned or not, release count, reachability.", "Every object is a distinct block; release hooks and the installed allocator count; leaks, double and early releases are detected through ASan and `mc_is_live`, for maps, caches, trees, lists, JSON, configurations, documents cut or altered at every byte."),
"P12": ("A recursive-descent recogniser of RFC 4627 written from the RFC (`json_model.h`) with the documented deviations.", "All token and character sequences up to a bound, every byte value in every syntactic position, lengths around the token limit, nesting around the depth limit, wide documents on a small stack (recursion must not grow with width)."),
"P13": ("Tree equality.", "All documents and all built trees up to a bound; the encoder's output is re-read by libu and by the reference parser."),
"P14": ("A model tree with paths.", "All edit/index sequences on a set of documents; every element looked up by path and by position, all iterators walked after each step."),
"P15": ("A reference RFC 3986 parser (`uri_model.h`).", "All texts over delimiter alphabets up to a bound, all continuations of chosen prefixes, IPv4/IPv6 literals by token enumeration, component lengths around every internal buffer."),
"P16": ("The component tuple.", "All combinations and all setter sequences; recomposed text must contain the components, fit, and crumble to the same tuple."),
"P17": ("Cursor arithmetic on an array.", "All operation sequences over all small texts; match extraction at token-limit lengths."),
"P18": ("An exact (arbitrary-length decimal) reader for integers and libc's correctly rounded strtod for floats.", "All short texts, all integer values within 2 of every type limit in every decoration, with every earlier error number and every earlier conversion."),
"P19": ("Direct definitions.", "All texts and all capacities up to a bound, operands in exactly sized heap blocks; the fallback implementations in `srcs/missing` are compiled under other names and held to the same oracle."),
"P20": ("A driver that owns the bytes.", "Every split of a transfer into pieces, interruptions (deviations), failure or end at every point; u_read/u_write/u_io results and transferred counts; huge sizes through a fake driver; interrupted sleeps on a modelled clock."),
"P21": ("The modelled file system's contents.", "Every libc call of each operation may fail, be short, or (close/flush) lose data, up to the deviation bound; success must imply exact contents."),
"P22": ("Invariant over the modelled file system, evaluated **after every system call** (crash points) and at the end.", "All pairs of source/destination kinds including same-inode aliases, cross-device moves, links and directories, with up to 2 (4) failing, short or interrupted calls."),
"P23": ("A reference reader (`config_model.h`) written from the documented grammar.", "All texts up to a bound of lines and of characters; five kinds of source; every chunking of a reader; lines around every internal buffer size; failing input."),
"P24": ("The reference tree.", "All edit sequences over nested and repeated keys; every query on every entry after each; all small texts through typed getters; all substitution texts."),
"P25": ("The reference tree, after reload.", "All small values/keys/trees; every buffer size around the needed one."),
"P26": ("Include expansion on the reference reader; an open/close ledger.", "All include graphs over three sources, all driver shapes, every failing driver call; endless chains must stop."),
"P27": ("An independent record lookup.", "Every database text up to a bound x users x passwords x modes; long lines around the line buffer."),
"P28": ("The set of snapshots allowed to answer.", "All histories of updates, removals, lookups with one failing lookup at every call; answers must come from one version; after a failed reload the old version in full, and retry must happen."),
"P29": ("An independent formatter of decorations.", "Every call form, level and message length around the buffers; lock/unlock and hook calls recorded; errno before/after; hooks that log or change hooks; fatal forms in child processes."),
"P30": ("A modelled socket and clock.", "Every schedule of completion, refusal, time-out and signal interruptions (bounded number), at every time; blocking mode restored; total time bounded."),
"P31": ("A model of resolver and kernel (`net_model.h`).", "All address texts up to a bound, every order and number of resolved addresses, every failing step; ledger of descriptors and memory."),
"P32": ("A model of processes: `fork`, `wait*`, `kill`, `exit`, signals. Fork is *executed*: parent stack, heap and libu's data are snapshotted, the child's code runs, then the parent's state is restored.", "All dependency graphs over 3-5 cases and suites, all finish orders, statuses, fork failures, interrupted waits, foreign children, termination signals at every point; both report formats parsed and compared with the model's verdicts."),
"P33": ("The reference contents before the call (on failure) or after it (on success).", "Every allocation request of every operation fails in turn (thorough: every pair or more); VERDICT requires success when nothing was injected, unchanged contents when it failed, no leak at the end."),
"P34": ("Arrays of elements.", "All macro families; states are pointer structures, explored to a fixed point (no new structure appears), so the result holds for histories of any length over that many elements."),
"P35": ("What the real `/bin/sh` leaves in a child's environment.", "Real files and the real shell in a scratch directory; value lengths around pipe/line buffers, every byte, every short script, every file name over special bytes, failing popen/setenv."),
"P36": ("References written from POSIX and the BSD manual pages for each function; the proleptic Gregorian calendar for `timegm`.", "The replacement sources compiled into the harness under other names (the platform here has all the functions); every text, delimiter set and buffer size; every pattern up to 4–8 characters over five alphabets x every short name x all 32 flag sets; dates over 400-year cycles, months and days outside their ranges, eight time zones; real temporary files with names already taken; `daemon` against stand-ins with every failing step."),
"P37": ("The exact text of every element, predicted by the harness from what it stored.", "The library compiled with its debug messages on; messages captured through the log hook and the standard streams; keys and values with format directives, brackets and 8-bit characters; every key/value kind, policy and serializer; texts around the internal buffer; every failing allocation."),
"P38": ("What the harness asked for: the recorded call, the kernel's own view of the descriptor, and addresses printed by an independent formatter.", "Link-time wrappers record the system calls and make any of them fail; buffers have guard bytes and addresses end at the end of their memory block, under the address sanitizer."),
}
TAIL = r'''
## 4. Excluded or unspecified

* configuration variable scoping beyond "local, then root"; pwd duplicates (first record direct, last in memory: documented as lenient); log levels outside the eight standard ones;
* wall-clock jumps during a timed connect (P30); multi-line values and a script calling `exit 0` in an environment file (P35);
* JSON: adding a node below itself; NULL test functions and duplicate test ids; a sandboxed case returning a multiple of 256 (contract: success or failure codes);
* DTLS/SCTP specifics of the network module (no kernel support here), Windows-only code;
* `fnmatch`: descending ranges, a slash within brackets under FNM_PATHNAME, a trailing backslash, character classes; `mkstemps` giving up once the names after its random start are all taken;
* real power-loss (fsync) semantics: libu promises nothing about them; crash points are process crashes.

Every property is decided by this family, so `not_applicable` is empty.

## 5. Defects found and repaired

`known-findings.txt` lists each as `fixed: property=ID commit message` (one small "fix:" commit in /repo each).  For every one the
check failed on the tree before the commit with a replayable execution, and passes after it.

## 6. False alarms met and corrected in the machinery

* P09/P33: `u_hmap_copy` moves objects (documented "copying the object pointers"); the first oracle expected the source to keep them.
* P14/P33: adding to, or renaming inside, an indexed JSON object is refused by design; the first oracle expected success.
* P12: a comma after the last element and text after the root value are tolerated by the documented parser; the grammar was relaxed accordingly.
* P18: the longest numeric prefix counts; the first oracle wanted the whole text to be consumed.
* P27: the handling of duplicate users is left open by the documentation; the oracle accepts either record's secret consistently per mode.
* P30: wall-clock adjustments were first part of the model; dropped, as the API promises elapsed time on an undisturbed clock.
* P09/P10/P11: the enumeration oracle wanted `u_hmap_foreach` and `u_hmap_foreach_keyval` to visit in one common order; found by the refactoring study below; each is now compared as a set.
* P33: `u_lexer_next` consumes before returning; harness corrected.  Container values (JSON arrays) have no text; `u_json_set_val` on them is not part of the check.

**Refactoring study.** About 110 functions in every source file were rewritten by hand without changing behaviour (helpers extracted,
loops turned round, statements reordered, temporaries added, allocation strategies changed) and all 38 checks run on the result.  One check
proved too strict (the enumeration order above); three other alarms were real changes of behaviour introduced by the rewriting (a lost NULL check
in the scanner, a retried failing read, an overflow for the largest array index).  After the correction all checks are quiet.

**Mutation study.** Random one-token changes over all sources (operators, constants, deleted statements, swapped conditions) were run against the checks of the file
they touch.  Survivors were read one by one: most are equivalent (growth steps, redundant resets, debug text); the others led to new scenarios
(P12 `edits`, the result of `u_buf_free` in P03, the status of pointer loads in P05, and others).

**Adversarial rounds.** Besides the kept seeds, several hundred deliberate changes were written module by module with one question each and
run against the checks: what if only part of a key is compared (identity: led to `harness/similar.h` and the scenarios "similar", "prefixes", "words", "names"); what if
the object's state were static (led to the history runs and to the scenarios of two objects in P01-P03, P05-P10, P14, P17, P24, P28, P36); what if an error path of the test runner,
the portability replacements, the file helpers or the allocation wrappers were wrong.  The survivors that remain are equivalent
(a hint used only to grow, a mode that changes only the shape of a tree, options read only during the call that sets them).

## 7. Planted bugs

Each was written from a property's text and the code; `seeded/ID/` holds patch, demonstration and meta data.
'''
def scen(pid):
    out = []
    for l in open(os.path.join(V, "harness", pid + ".c"), errors="replace"):
        m = re.match(r'\s*\{ "([^"]+)", *\w+, *(MC_[QT]+), *[^,]+, *([^,]+), *([^,]+),.*?"(.*)" \},?\s*$', l)
        if m: out.append((m.group(1), {"MC_QT": "Q T", "MC_Q": "Q", "MC_T": "T"}[m.group(2)], m.group(3), m.group(4), m.group(5).replace("|", "\\|")))
    return out
def main():
    o = [HEAD]
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l); i = p["id"]; orc, how = N[i]
        o.append("### %s %s\n\n%s\n\n*Oracle.* %s  *How.* %s  *Why tests cannot.* %s.\n" % (i, p["title"], p["statement"], orc, how, p["why_tests_cant"].rstrip(".")))
        s = scen(i)
        if s:
            o.append("| scenario | tier | deviations Q/T | explored |\n|---|---|---|---|")
            for a, t, q, d, e in s: o.append("| %s | %s | %s/%s | %s |" % (a, t, q, d, e))
            o.append("")
    o.append(TAIL); o.append("| id | property | caught by | needs |\n|---|---|---|---|")
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f)); o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught", m["property"] + " quick"), m["needs"].replace("|", "\\|")))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
main()
