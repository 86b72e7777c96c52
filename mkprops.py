#!/usr/bin/env python3
"""Source of properties.jsonl (kept readable here; regenerate with ./mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update({k: [v] if k == "observe_at" else [{"name": v}] for k, v in kw.items()})
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Traversal is complete and visits every file exactly once",
  "For every directory tree, every list of starting paths and every search strategy (-S bfs, dfs, ids, eds), with any thread count, -s, -j or -depth setting, bfs evaluates the expression exactly once for each path reachable from the starting paths: the paths printed by a bare -print form exactly the multiset of starting paths plus all their descendants. "
  "Each path is printed as the starting path as given, joined to its relative components by single slashes (a starting path that already ends in a slash gets no second one), and its depth is the number of components below the starting path.",
  ["inputs", "configurations", "schedules"],
  "all directory trees, starting-path lists, strategies, thread counts and I/O completion orders",
  "The suite runs a few fixed trees; a lost or duplicated subtree appears only for particular shapes (depth, width, trailing slashes, overlapping starting paths), strategies and asynchronous completion orders.",
  ["src/bftw.c", "src/dir.c", "src/ioq.c"],
  [("main walk loop", "bftw.c: bftw_impl, bftw_pop, bftw_readdir, bftw_visit"),
   ("iterative and exponential deepening", "bftw.c: bftw_ids, bftw_eds"),
   ("path building", "bftw.c: bftw_path_concat, bftw_init_ftwbuf")],
  state="set of pending files per starting path", observe_at="standard output, visit log")

prop("P02", "Files are visited in the promised order",
  "A directory is evaluated before anything below it, or, with -depth, after everything below it, under every strategy, thread count and I/O timing. "
  "With -s siblings are visited in collation order and the whole order is determined: -S bfs and -S ids are breadth-first level by level, -S dfs is pre-order (post-order with -depth) and -S eds is a pre-order walk of each successive exponentially growing depth band. "
  "Without -s, -S ids never visits a shallower file after a deeper one (in the opposite direction with -depth), and -S eds never goes back to an earlier band.",
  ["inputs", "configurations", "schedules"],
  "all trees, strategies, thread counts and completion orders of asynchronous directory reads",
  "Order violations depend on which asynchronous open, read or stat finishes first, which a test cannot control, and on tree shapes the suite does not contain.",
  ["src/bftw.c"],
  [("queues and sorting", "bftw.c: bftw_queue_*, bftw_list_sort, bftw_stop, bftw_pop_dir, bftw_pop_file"),
   ("post-order visits", "bftw.c: bftw_gc, bftw_ids_callback, bftw_eds")],
  state="sequence of pending visits", observe_at="standard output order")

prop("P03", "Depth limits, pruning, exclusion and device limits bound the search exactly",
  "-mindepth and -maxdepth restrict evaluation to exactly the files whose depth lies in the inclusive range, -prune (without -depth) hides exactly the descendants of the pruned directory, -exclude and -nohidden skip exactly the files that match and everything below them, and -xdev and -mount keep the search on each starting path's device, with -xdev still reporting the mount points themselves and -mount not. "
  "These limits combine independently of strategy, starting-path overlap, position on the command line and -depth, and no directory outside the limits is ever descended into.",
  ["inputs", "configurations"],
  "all trees, combinations of limits, strategies and starting paths",
  "The suite checks each limit alone on one tree, mostly with the default strategy; off-by-one and interaction errors need combinations of strategy, depth band and overlapping starting paths.",
  ["src/bftw.c", "src/eval.c", "src/parse.c", "src/opt.c"],
  [("depth checks", "eval.c: eval_callback; bftw.c: bftw_ids, bftw_eds"),
   ("prune and exclude actions", "eval.c: eval_prune, eval_callback; bftw.c: bftw_call_back, bftw_prune*"),
   ("mount handling", "bftw.c: bftw_is_mount, bftw_call_back")],
  observe_at="standard output, system-call log of directory opens")

prop("P04", "Symbolic links follow -P/-H/-L and loops always terminate",
  "With -P no symbolic link is followed, with -H only starting paths are, and with -L every link that resolves is treated as its target, while a link that does not resolve is treated as the link itself; type, size, name tests and descent all agree with this choice, and -xtype and -follow behave as documented. "
  "Under -L every walk terminates: a directory that is its own ancestor is reported as a loop with a failing exit status and not descended, and an unresolvable chain of links is reported rather than silently dropped.",
  ["inputs", "configurations"],
  "all link graphs (chains, cycles, dangling, links to ancestors, links through links) and follow options",
  "The suite has a handful of links; correctness quantifies over all link graphs and all combinations of follow mode, strategy and starting path.",
  ["src/bftw.c", "src/stat.c", "src/eval.c", "src/parse.c"],
  [("cycle detection", "bftw.c: bftw_init_ftwbuf (BFTW_DETECT_CYCLES)"),
   ("fallback for broken links", "stat.c: bfs_stat"),
   ("type resolution", "bftw.c: bftw_type, bftw_stat; eval.c: eval_xtype, eval_lname")],
  observe_at="standard output, standard error, exit status")

prop("P05", "Every command line means what the find grammar says, or has no effect",
  "For every argument vector the expression denotes the tree given by the documented grammar: parentheses, then negation, then conjunction (explicit or by juxtaposition), then disjunction, then the comma, each associating left and short-circuiting, with options effective wherever they appear and -print implied exactly when no other action is present. "
  "Starting paths may come from anywhere on the command line, from -f or from -files0-from. "
  "A malformed command line is rejected with a failing exit status and a diagnostic before anything is searched, printed, deleted or executed.",
  ["inputs", "programs"],
  "all argument vectors",
  "The suite lists individual command lines; precedence, associativity and implicit-print rules are statements about every nesting, and the absence of side effects on errors about every invalid vector.",
  ["src/parse.c", "src/expr.c", "src/eval.c", "src/main.c"],
  [("recursive-descent parser", "parse.c: parse_expr, parse_clause, parse_term, parse_factor, parse_literal, parse_whole_expr"),
   ("operators", "eval.c: eval_and, eval_or, eval_not, eval_comma")],
  observe_at="standard output, exit status, absence of side effects")

prop("P06", "Optimization never changes what a command does",
  "For every expression and tree, running with -O0, -O1, -O2 and -O3 (and with -O4/-Ofast, up to the documented corner cases of unneeded error reports and of sibling order under -depth) gives the same output, the same side effects on files and commands, the same set of reported problems on a readable tree and the same exit status. "
  "In particular rewriting, reordering, range and type inference never make a reachable file match differently, skip or repeat an action, or change which directories are descended into.",
  ["programs", "inputs"],
  "all expressions and all trees",
  "A wrong inference needs a specific combination of predicates, nesting and a file that witnesses the difference; a fixed list of expressions cannot exclude it.",
  ["src/opt.c", "src/eval.c", "src/expr.c"],
  [("data-flow analysis", "opt.c: data_flow_*"),
   ("simplification and reordering", "opt.c: simplify_*, sort_and, sort_or, lift_*"),
   ("whole-tree bounds", "opt.c: bfs_optimize (mindepth/maxdepth inference)")],
  observe_at="standard output, exit status, command log")

prop("P07", "-delete removes exactly the matching files and nothing else",
  "-delete removes exactly those files for which evaluation reaches it, each after everything below it, never follows a symbolic link to its target, never removes anything outside the starting paths, and leaves everything else untouched. "
  "A file that cannot be removed makes the test false, is reported and yields a failing exit status, while the rest of the command still proceeds; under -ignore_readdir_race a file that has already vanished is not an error.",
  ["inputs", "configurations", "fault_sequences"],
  "all trees, expressions around -delete, strategies, follow modes and removal failures",
  "Data loss depends on link structure, strategy and failure points that no fixed set of scratch trees covers.",
  ["src/eval.c", "src/parse.c", "src/bftw.c", "src/opt.c"],
  [("deletion", "eval.c: eval_delete"),
   ("-depth implied, -prune interplay", "parse.c: parse_delete, parse_prune"),
   ("post-order", "bftw.c: bftw_gc")],
  observe_at="file system after the run, removal system calls")

prop("P08", "-exec and friends run exactly the right commands in the right place",
  "Each evaluation of -exec, -execdir, -ok or -okdir with ';' runs the command exactly once with every {} replaced by the file, in the starting directory or the file's own directory respectively, and is true exactly when the command exits with status zero. "
  "With '+' every matching file is passed to the command exactly once, in order, batched only together with files of the same directory for -execdir, split so that the system's argument limit is respected, and flushed before bfs exits, even after -quit. "
  "A command that cannot be started, fails or is killed makes ';' false and '+' fail the exit status, and -ok runs only after an affirmative answer.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of matching files, argument sizes, directories, exit statuses and spawn failures",
  "Batching, directory switching and overflow recovery depend on the whole history of files evaluated and on sizes near the argument limit.",
  ["src/exec.c", "src/xspawn.c", "src/eval.c", "src/parse.c"],
  [("batching", "exec.c: bfs_exec_multi, bfs_exec_flush, bfs_exec_would_overflow, bfs_exec_changed_dirs"),
   ("working directory", "exec.c: bfs_exec_openwd, bfs_exec_closewd"),
   ("spawn", "xspawn.c: bfs_spawn, bfs_spawn_exec")],
  observe_at="argument vectors and working directories recorded by the executed command")

prop("P09", "Failures are reported, contained, and reflected in the exit status",
  "If any directory cannot be opened or fully read, any file cannot be examined when a test needs it, any write fails or any action fails, bfs prints a diagnostic naming the path and exits with a non-zero status, and it exits zero when nothing failed. "
  "One failing file or directory never affects others: everything still reachable is evaluated exactly as if the failing part were absent, wherever and in whatever order the failures happen. "
  "With -X, a path with whitespace, quotes or backslashes is such a failure: it is reported and neither visited nor descended into.",
  ["fault_sequences", "inputs", "schedules"],
  "all placements and sequences of failing operations during a walk",
  "The suite provokes only permission errors on one or two directories; the guarantee covers failures of any call at any point.",
  ["src/bftw.c", "src/eval.c", "src/dir.c", "src/ioq.c", "src/ctx.c", "src/main.c"],
  [("error visits", "bftw.c: bftw_readdir, bftw_build, bftw_call_back; eval.c: eval_callback, eval_report_error"),
   ("final flush", "ctx.c: bfs_ctx_free, bfs_ctx_flush")],
  observe_at="standard output, standard error, exit status under injected faults")

prop("P10", "-quit, -exit and -limit stop at exactly the right point",
  "-quit and -exit take effect immediately: after either is evaluated, no further part of the expression and no further file is evaluated, pending '+' commands and buffered output are still completed, and the exit status is that given to -exit (or that of the errors so far for -quit). "
  "-limit N ends the search right after its N-th evaluation, whatever its position in the expression, the strategy and the number of threads, and the process always terminates.",
  ["inputs", "programs", "schedules"],
  "all expressions, trees, strategies, limits and I/O schedules",
  "Where the stop lands relative to other actions, post-order visits and outstanding asynchronous work varies with the expression and the schedule.",
  ["src/eval.c", "src/bftw.c", "src/opt.c", "src/parse.c"],
  [("stop action", "eval.c: eval_quit, eval_exit, eval_limit, eval_callback; bftw.c: bftw_state_destroy, bftw_stop"),
   ("deepening strategies", "bftw.c: bftw_ids, bftw_eds")],
  observe_at="standard output, exit status, command log")

prop("P11", "Results do not depend on the file-descriptor limit and no descriptor leaks",
  "For every tree, however deep or wide, and every open-file limit large enough to start, bfs gives the same results as with an unlimited number of descriptors, and never fails with a too-many-open-files error of its own making. "
  "Descriptors used for the walk are never inherited by executed commands, and every directory opened during the walk is closed by the time it ends.",
  ["configurations", "inputs", "schedules"],
  "all descriptor limits, tree shapes and strategies",
  "Cache eviction and reopening paths are taken only for limits and shapes near the boundary, and leaks show only when counted.",
  ["src/bftw.c", "src/eval.c", "src/xspawn.c", "src/exec.c"],
  [("descriptor cache", "bftw.c: bftw_cache_*, bftw_file_openat, bftw_unwrapdir, bftw_close"),
   ("limits", "eval.c: infer_fdlimit, raise_fdlimit; ctx.c")],
  observe_at="standard output under RLIMIT_NOFILE, descriptor table of executed commands, open/close log")

prop("P12", "Printed output is byte-exact and complete",
  "-print, -print0, -printx, -printf, -ls and their -f* file variants write exactly the documented bytes for every file name and every file's attributes, in evaluation order, with every escape, field width, flag and directive honoured. "
  "Output actions naming the same file, however it is spelled, share one stream and never overwrite each other's output, and all output has been written when bfs exits, or else the exit status is a failure.",
  ["inputs", "programs", "fault_sequences"],
  "all file names (any bytes), attributes, formats and output files",
  "Formats compose freely with arbitrary names and attributes; tests sample a few.",
  ["src/printf.c", "src/eval.c", "src/color.c", "src/ctx.c", "src/bfstd.c"],
  [("formats", "printf.c: bfs_printf_parse, bfs_printf, bfs_printf_* directives"),
   ("actions", "eval.c: eval_fprint, eval_fprint0, eval_fprintx, eval_fls, eval_fprintf"),
   ("stream sharing", "ctx.c: bfs_ctx_dedup")],
  observe_at="standard output and output files")

prop("P13", "Tests on file metadata agree with the file's metadata",
  "-type, -xtype, -size, -links, -inum, -uid, -gid, -user, -group, -nouser, -nogroup, -perm, -empty, -samefile, -depth N, -sparse, -readable, -writable, -executable, -acl, -capable, -xattr and -xattrname are true exactly when the file's metadata satisfies the documented condition, for every argument form: exact, + and - comparisons, rounding up to the unit for sizes, and exact, all-of and any-of modes in octal or symbolic notation.",
  ["inputs"],
  "all file metadata and all numeric, unit and mode arguments",
  "Each test has an unbounded argument space (mode grammar, units, comparisons, boundaries) against all metadata values.",
  ["src/eval.c", "src/parse.c", "src/stat.c", "src/bfstd.c", "src/fsade.c"],
  [("comparisons", "eval.c: bfs_expr_cmp, eval_size, eval_perm, eval_links, eval_inum, eval_gid, eval_uid, eval_sparse, eval_empty"),
   ("attributes", "fsade.c: bfs_check_acl, bfs_check_capabilities, bfs_check_xattrs, bfs_check_xattr_named"),
   ("argument parsing", "parse.c: parse_icmp, parse_size, parse_mode, parse_type")],
  observe_at="standard output")

prop("P14", "Name, path, link and regex matching follow their pattern languages",
  "-name, -path, -lname and their case-insensitive forms match exactly when the whole base name, path or link target matches the shell pattern, with slashes and leading dots treated as ordinary characters, and -regex and -iregex match exactly when the whole path matches in the selected syntax. "
  "A base name ignores trailing slashes of a starting path, and the result is the same for literal patterns as for equivalent patterns with wildcards.",
  ["inputs"],
  "all patterns and all byte strings as names",
  "Patterns and names are infinite languages; literal fast paths make equivalent patterns take different code.",
  ["src/eval.c", "src/parse.c", "src/xregex.c", "src/bfstd.c"],
  [("patterns", "eval.c: eval_fnmatch, eval_name, eval_path, eval_lname, eval_regex"),
   ("literal fast path", "parse.c: parse_fnmatch")],
  observe_at="standard output")

prop("P15", "-unique visits every distinct file exactly once",
  "With -unique, whatever the starting paths, hard links and followed symbolic links, each distinct file (by device and inode, after following links as the follow option says) reachable within the search is evaluated exactly once, and nothing is lost by it: a file is skipped only if the same file is evaluated under another path. "
  "-unique does not depend on strategy, -depth or the order in which duplicates are found for which files are visited.",
  ["inputs", "configurations"],
  "all link graphs, overlapping starting paths and strategies",
  "Requires coincidences of hard links, symbolic links and overlapping starting paths with every strategy.",
  ["src/eval.c", "src/bftw.c", "src/trie.c"],
  [("identity set", "eval.c: eval_file_unique, eval_callback"), ("trie", "trie.c: trie_insert_mem")],
  observe_at="standard output")

prop("P16", "Asynchronous I/O completes every request exactly once under all schedules",
  "Under every interleaving of the main thread and any number of worker threads, each accepted request is executed at most once, is returned to the caller exactly once with its own result, and is never lost; cancellation and shutdown return every outstanding request (executed or cancelled, and close requests are always executed). "
  "No interleaving deadlocks, loses a wake-up or lets a thread see a request before it was completely written.",
  ["schedules"],
  "all thread interleavings, queue depths, batch sizes and cancellation points",
  "Tests run whatever interleaving the scheduler happens to produce; lost wake-ups and ordering errors need specific ones.",
  ["src/ioq.c"],
  [("slot hand-over", "ioq.c: ioq_slot_push, ioq_slot_pop, ioq_slot_wait, ioq_slot_wake"),
   ("queues", "ioq.c: ioqq_push*, ioqq_pop*, ioq_batch_*"),
   ("workers", "ioq.c: ioq_work, ioq_dispatch*; cancellation: ioq_cancel, ioq_destroy")],
  state="slots, request sets, worker states", observe_at="queue API calls under a controlled scheduler")

prop("P17", "Files changing during the search never corrupt the rest of the walk",
  "If files or directories are removed, created, renamed or replaced while bfs is walking, every file that exists unchanged throughout is still evaluated exactly once, anything that vanished yields at most an error for its own path, and the walk terminates. "
  "With -ignore_readdir_race files that vanish between being listed and being examined produce neither a message nor a failing status, while without it they do, and other errors are always reported.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of concurrent modifications interleaved with the walk",
  "Outcomes depend on which system call a modification falls between; the suite does not modify trees during a walk.",
  ["src/eval.c", "src/bftw.c", "src/stat.c"],
  [("race suppression", "eval.c: eval_should_ignore, eval_callback"), ("reopening by path", "bftw.c: bftw_file_openat, bftw_build")],
  observe_at="standard output, standard error and exit status with modifications injected before chosen system calls")

prop("P18", "Times and dates are parsed, compared and printed exactly",
  "Every accepted -newerXt/-since/-asince date string denotes the instant given by its documented ISO 8601-style form and time zone offset, and malformed ones are rejected; -newerXY, -newer, -anewer and -cnewer compare full-resolution timestamps strictly. "
  "-[acm]min and -[acm]time count whole elapsed units from the reference time (shifted to the end of the day by -daystart) with exact, + and - forms and the s, m, h, d, w suffixes, -used counts days between status change and access, and printed times are the file's times.",
  ["inputs"],
  "all dates, time zones, timestamps (including before 1970 and sub-second) and arguments",
  "Calendar arithmetic and rounding have boundary cases (leap years, negative times, sub-second ties) that sampled tests miss.",
  ["src/xtime.c", "src/parse.c", "src/eval.c", "src/printf.c"],
  [("date parsing", "xtime.c: xgetdate, xmktime, xtimegm"), ("comparison", "eval.c: eval_newer, eval_time, eval_used; parse.c: parse_newerxy, parse_time, parse_daystart"),
   ("formatting", "printf.c: bfs_printf_ctime, bfs_printf_strftime")],
  observe_at="standard output; date-parsing API")

prop("P19", "Signal hooks run exactly as registered",
  "For every history of registering and removing hooks and delivering signals, each delivery runs exactly the hooks registered for that signal at that moment, oldest first, never one that was removed before, and one-shot hooks at most once. "
  "This holds whichever threads register, remove and receive, and wherever in the middle of a registration or removal a signal arrives. "
  "A signal one of whose hooks that ran asks to continue does not end the process; a terminating signal with no such hook ends it by that signal after the exit hooks ran (also when no hook is left), and other signals have no effect of their own; a genuine fault ends the process at once, without hooks. The interrupted code sees no change of errno, and a child process gets back the original dispositions of all signals.",
  ["histories", "schedules"],
  "all histories of hook registration, removal and signal delivery",
  "Order-dependent list manipulation only fails for particular registration and removal sequences and delivery points.",
  ["src/sighook.c"],
  [("hook lists", "sighook.c: rcu_list_append, rcu_list_remove, rcu_update, arc_get, arc_wait"),
   ("dispatch", "sighook.c: sigdispatch, run_hooks, reraise, is_fatal"),
   ("child dispositions", "sighook.c: siginit, sigreset")],
  observe_at="hook API under driven histories")

prop("P20", "The path and identity tables behave as exact maps",
  "For every sequence of insertions, lookups and removals with keys of any length and any bytes of which none is a prefix of another (C strings with their terminator, or raw keys of one length), the table bfs uses for names, identities, pruned paths and colours behaves as a map: a lookup finds a key exactly when it is present with its latest value, a prefix lookup gives the longest stored string that the argument starts with, a postfix lookup gives a stored string starting with the argument exactly when there is one, iteration visits each remaining key once in the order of insertion, and removing one key, or failing to insert one for lack of memory, affects no other.",
  ["histories", "inputs"],
  "all operation histories over all byte-string keys",
  "Node splitting, collapsing and long-key chains only occur for particular key sets and removal orders.",
  ["src/trie.c", "src/trie.h"],
  [("insertion", "trie.c: trie_insert_mem, trie_split, trie_jump, trie_node_insert"),
   ("removal", "trie.c: trie_remove, trie_collapse_node, trie_remove_singleton")],
  observe_at="table API under driven histories")

prop("P21", "Colour is decoration only",
  "With colour enabled, for whatever LS_COLORS and BFS_COLORS, the output of -print, -ls and the path directives of -printf is the output without colour with escape sequences inserted before and after parts of paths, except that a part with unprintable characters is shown in the form $'...'; print0, -printx, padded or truncated directives and output to files other than a terminal are never coloured, and colour never changes which files match, what is executed or the exit status. "
  "Each file gets the colour defined for its type, mode (setuid, setgid, executable, several links, sticky, other-writable), capabilities, broken link, or else the last entry that matches the end of its name (in any capitalisation, unless the same suffix is given different colours in different capitalisations); leading directories get the colour of directories, parts of a link target that do not exist that of missing files, and ln=target colours links like their targets. "
  "Malformed values are diagnosed without affecting results (an error only with -color), and -nocolor, a non-empty NO_COLOR or a non-terminal output disable colour unless a later -color enables it.",
  ["inputs", "configurations"],
  "all LS_COLORS values, file names, types and modes",
  "The number of type, mode and suffix combinations is unbounded and interacts with broken paths and special characters.",
  ["src/color.c", "src/eval.c", "src/parse.c"],
  [("LS_COLORS", "color.c: parse_gnu_ls_colors, get_ext, ext_color"), ("file colours", "color.c: file_color, dir_color, print_path_colored, print_name_colored")],
  observe_at="standard output")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
