#!/usr/bin/env python3
"""Source of properties.jsonl: python3 lib/properties_src.py > properties.jsonl"""
import json
S='preload-src/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","File mappings are kept exactly as long as a program uses them",
 "A mapped file region is in the daemon's registry of regions, and in its sortable list of regions exactly once, if and only if at least one reference to it is held. Taking the first reference registers it under a number never given out before, dropping the last one removes it from both and frees it once, and no operation on one region changes another region or frees one that is still referenced.",
 ["inputs","histories"],"every sequence of creating, referencing and releasing regions and program-to-region links, with any paths, offsets, lengths and reference counts",
 "The unit tests reference and release one or two fixed regions; whether an arbitrary interleaving of references leaves the registry, the list and the counts in step is a statement over all histories.",
 ["handling/map.c","handling/exe.c"],[("preload_map_new/ref/unref/free","handling/map.c"),("preload_exemap_new, preload_exemap_free, preload_exemap_new_from_exe","handling/exe.c")],
 state=[("state->maps, state->maps_arr, state->map_seq","registry, sortable list, last number given out","handling/state.h")])
p("C02","Two file mappings are the same exactly when path, offset and length agree",
 "Two regions compare equal if and only if their paths have the same text and their offsets and lengths are the same, regions that compare equal always hash alike, and absent regions are never equal to present ones. So looking a region up finds it exactly when that region, and no merely similar one, is registered.",
 ["inputs"],"all pairs of regions: any paths (shared or distinct storage, also missing), all 64-bit offsets and lengths",
 "Tests compare a few literal pairs; consistency of equality and hash is needed for every pair over 2^128 offset/length combinations.",
 ["handling/map.c"],[("preload_map_equal, preload_map_hash","handling/map.c")])
p("C03","Each pair of known programs has exactly one chain, and removal leaves no trace",
 "Registering a program that takes part in learning creates exactly one pair record with every other known program and none with itself, lists it once with either member, gives the program a number never used before and makes it findable under its path. Removing a program frees it, all its pair records and its region references exactly once and leaves no reference to any of them in other programs' records, in the registry, in the sequence model or in pending scan results; a program's size is always the sum of the lengths of its regions.",
 ["inputs","histories"],"every set of known programs of any size, and every order of registrations and removals",
 "Tests register two or three programs; the all-pairs and the no-dangling-reference guarantees quantify over every set of programs and every history.",
 ["handling/exe.c","algorithm/markov.c","algorithm/vomm.c","monitoring/spy.c"],[("preload_exe_new/free, preload_state_register_exe/unregister_exe","handling/exe.c"),("preload_markov_new/free","algorithm/markov.c"),("vomm_forget","algorithm/vomm.c"),("preload_spy_forget","monitoring/spy.c")])
p("C04","A change of a program pair's state is accounted once and correctly",
 "When either program of a pair starts or stops, the pair's record counts one departure from its old joint state and one transition from the old to the new joint state, updates the mean time spent in the old state as the running mean over all departures, and starts timing the new state now; all other counters and means keep their values. A second report at the same moment changes nothing, the number of departures from a state always equals the sum of its transitions to the other states, and the recorded joint state is the actual one afterwards; when the daemon has started, every loaded record holds the actual joint state timed from then, with nothing counted.",
 ["inputs","histories"],"all pair records (any counts, means and timestamps), all four joint states before and after, all clock values",
 "Tests drive a handful of fixed transitions and do not compare means or untouched counters; the bookkeeping invariant is over all histories.",
 ["algorithm/markov.c"],[("preload_markov_state_changed, preload_markov_new, markov_compute_state","algorithm/markov.c")])
p("C05","The correlation of two programs is a number from -1 to 1, for any recorded times",
 "The correlation computed for a pair of programs is always a number between -1 and 1, never not-a-number, and never aborts the daemon, whatever running times are recorded. It is 0 when either program has run never or always, and otherwise it is the Pearson coefficient of the two running histories: positive, zero or negative as joint running time times total time exceeds, equals or falls short of the product of the separate running times.",
 ["inputs"],"all recorded total, separate and joint running times, consistent or not",
 "The tests evaluate a few triples of times; range and sign are claims over every triple, including ones loaded from a damaged file.",
 ["algorithm/markov.c"],[("preload_markov_correlation","algorithm/markov.c")])
p("C06","Running time is credited exactly once per period, to programs and pairs",
 "Every model update adds exactly the time since the previous update to the running time of each program that is running and of no other, and to the joint running time of each pair whose programs both run and of no other, once each. Walking over all pairs visits each pair exactly once, so joint running time never exceeds either program's running time and no program's running time exceeds the total time.",
 ["histories","inputs"],"any set of programs and pairs, any running status, any sequence of update times",
 "Tests never run a model update; that no pair is credited twice or missed is a statement over all sets and histories.",
 ["algorithm/markov.c","monitoring/spy.c"],[("preload_markov_foreach","algorithm/markov.c"),("preload_spy_update_model","monitoring/spy.c")])
p("C07","A scan leaves exactly the running programs marked as running",
 "After a scan, at a later model time than the one before, a known program is on the running list, exactly once, if and only if at least one live process executed it at the scan, no matter how many processes do or in what order they are seen. The programs queued for a state change are exactly those whose running status differs from the previous scan, once each, and at the next model update each of their pair records is brought up to date; an unknown program is queued for examination once unless it is known to be too small. Likewise, once the daemon has started (with or without a state file) exactly the known programs that a live process executes are marked and listed as running.",
 ["inputs","histories"],"every process table (any number of processes per program, any order), every previous running list",
 "Tests do not run a scan at all; set equality over arbitrary process tables and histories cannot be sampled.",
 ["monitoring/spy.c","handling/exe.c","handling/state.c"],[("preload_spy_scan, preload_spy_update_model","monitoring/spy.c"),("exe_is_running","handling/exe.c"),("set_running_process_callback","handling/state.c")])
p("C08","A new program is learned if and only if its mappings reach the minimum size",
 "When a newly seen program is examined it becomes a known, running program with its regions and with pair records if its mapped size is at least the configured minimum; if it is smaller it is only remembered as too small, with that size; and if its process is gone it is neither. Nothing is leaked or half-registered in any of the cases, including when the process disappears between measuring and reading its mappings.",
 ["inputs","fault_sequences"],"all sizes and minimum sizes, and a process that may vanish before either look at it",
 "No test examines a new program; the boundary and the vanishing process are races and inputs no test sets up.",
 ["monitoring/spy.c"],[("preload_spy_update_model (new program callback)","monitoring/spy.c")])
p("C09","Markov prediction bids for exactly the programs that may start",
 "With the Markov predictor, a prediction starts every program and region at zero, and each pair record lowers the score of each of its not-running programs by the logarithm of one minus correlation strength times the probability of a state change within one and a half cycles times the observed share of changes that start the program, and never the score of a running one. A pair that never left its current state or leaves it within a second casts no bid, correlation counts only when configured, and scores are never not-a-number or positive.",
 ["inputs","histories","configurations"],"all pair records with any counts (whose departures are the sum of their transitions, C04), means and states, any cycle length, correlation on or off",
 "No test runs the predictor; the formula and the range of its result quantify over all counters and real-valued means.",
 ["algorithm/prophet.c","algorithm/markov.c"],[("preload_prophet_predict (markov bids)","algorithm/prophet.c")])
p("C10","Sequence prediction makes likelier programs score better, and never running ones",
 "With the sequence predictor, a prediction starts every program and region at zero, then each recorded successor of a considered context that is not running has its score lowered by the logarithm of one minus its share of that context's observations, and otherwise only by the fallback and global-frequency bids; running programs receive no bid. No bid raises a score, so a successor observed more often in the same context never ends up with a weaker bid from it, and no score is ever not-a-number or infinite.",
 ["inputs","histories"],"every learned tree with any counts (together below 2^31), every history of recent programs, any running status",
 "The tests call the predictor once and check only that it does not crash.",
 ["algorithm/vomm.c","algorithm/prophet.c"],[("vomm_predict","algorithm/vomm.c"),("preload_prophet_predict","algorithm/prophet.c")])
p("C11","Sequence learning keeps a bounded window and counts every launch",
 "Each launch is appended to a history of at most the five latest launches, in order, and adds one observation to the launched program under the current context and one to it as a successor of the launch before it, creating nodes only where none existed and changing no other count. The context then moves to the launched program's node and is never deeper than five levels, so the learned tree never grows deeper through learning.",
 ["histories","inputs"],"every sequence of launches of any length over any programs, from any learned tree",
 "Tests feed up to a dozen launches and check nothing but survival; counts and depth after arbitrary histories need an invariant.",
 ["algorithm/vomm.c"],[("vomm_update","algorithm/vomm.c")])
p("C12","Prefetching never exceeds the configured memory budget",
 "The regions chosen for prefetching are exactly the longest initial run of the ranked list in which every region is wanted (its score is negative) and still fits in what is left of the budget, each region counted as its length rounded up to whole kilobytes. The budget is max(0, total x memtotal + available x memfree) + cached x memcached + buffers x membuffers in percent clamped to -100..100, with free memory in place of available where the kernel does not report it; when the first region does not qualify nothing is read.",
 ["inputs","configurations"],"all memory figures, all percentage settings, every ranked list of any length with any scores and sizes up to 2^63",
 "Tests never run the selection; the cutoff must hold for all lists, settings and sizes, including ones that overflow.",
 ["algorithm/prophet.c"],[("preload_prophet_readahead","algorithm/prophet.c")])
p("C13","Readahead requests cover every chosen region and nothing else",
 "For every list of chosen regions, the byte ranges requested from the kernel together cover each region completely and contain no byte of any file that lies in none of the regions, whatever the sorting strategy and however regions overlap, nest or adjoin. The result is the number of requests made.",
 ["inputs","configurations"],"every list of regions of any length, any paths, offsets and lengths (short of address overflow), every sorting strategy",
 "No test calls the readahead; merging mistakes appear only for particular overlaps among arbitrary lists.",
 ["handling/readahead.c"],[("preload_readahead","handling/readahead.c")])
p("C14","Readahead workers stay within the limit and leave nothing behind",
 "At most the configured number of readahead processes exist at any time, all of them have been waited for when readahead returns, with a limit of zero none is ever created, and a worker never continues into the daemon's own work. Every file opened is closed again, the fallback maps whole pages that cover the requested range and unmaps exactly what it mapped, and readahead terminates even when a fork fails or the children have been reaped by someone else.",
 ["inputs","fault_sequences","configurations"],"all process limits and numbers of requests, every failure of fork, open, readahead, mmap, madvise or wait",
 "Tests never fork workers, and fault sequences of system calls are not sampled at all.",
 ["handling/readahead.c"],[("process_file, wait_for_children, try_readahead_with_fallback","handling/readahead.c")])
p("C15","Regions are read in the order of the configured sorting strategy",
 "Before readahead the chosen regions are arranged, none lost or duplicated: unchanged, by path then offset, or by on-disk position then path and offset, as configured, with each position looked up at most once and then remembered; the orders used are total orders (antisymmetric and transitive for all values). An invalid strategy is replaced by the default and never loses regions; where the disk block of a region cannot be had, its inode number stands in.",
 ["inputs","configurations"],"every pair and triple of regions, all strategies including invalid ones, every failure of open, stat or block lookup",
 "Order axioms are claims about all pairs and triples of 64-bit values; no test calls the comparison.",
 ["handling/readahead.c"],[("sort_files, sort_by_block_or_inode, map_path_compare, map_block_compare, set_block","handling/readahead.c")])
p("C16","A failed or interrupted save never damages the saved state",
 "At every instant, including when the daemon is killed or any write, flush, sync or rename fails, the state file holds either the complete old state or the complete new state. A save that fails at any point is reported, leaves the old file in place and the model still marked as unsaved, and removes its temporary file; a success is reported only if all data was written out before the old file was replaced, and every opened file is closed.",
 ["crash_points","fault_sequences"],"every system call of the save failing or being the last one executed, every model content",
 "Tests save to a healthy directory; crash points and I/O errors (full disk, failed rename) are never exercised.",
 ["handling/state_io.c","handling/state.c"],[("preload_state_write_file","handling/state_io.c"),("preload_state_save","handling/state.c")])
p("C17","What was saved is what is loaded",
 "Every region, program, program-to-region link, pair record, sequence-tree node and the model clock written to a state file is read back with the same identity, times, counts, sizes and links, for every path (any bytes, any length the daemon accepts) and every value; real numbers come back to six significant digits. Programs remembered as too small are deliberately forgotten on load, and nothing else is added or lost.",
 ["inputs","histories"],"all models: any paths, 64-bit times, counts, offsets and lengths",
 "The tests round-trip one small ASCII model; fields, widths and escaping must agree for every value.",
 ["handling/state_io.c","algorithm/vomm.c"],[("write_*/read_* pairs","handling/state_io.c"),("vomm_export_state, vomm_import_node","algorithm/vomm.c")])
p("C18","Any state file is either loaded consistently or refused with an error",
 "For every content of a state file, loading touches no invalid memory and either reports an error naming the offending line (the last line read, if the bytes after it cannot be decoded or read) or yields a consistent model: indexes refer only to objects defined earlier, no two programs share a path, no two regions are the same, no pair links a program to itself, and no tree node is defined twice. A file of another major version or without the proper header is ignored and leaves the model empty.",
 ["inputs"],"every byte sequence as a state file",
 "The tests load two or three handwritten files; robustness is a claim over all of them.",
 ["handling/state_io.c","algorithm/vomm.c"],[("read_state, read_map, read_exe, read_exemap, read_markov, read_vomm_node","handling/state_io.c"),("vomm_import_node","algorithm/vomm.c")])
p("C19","Cleanup removes exactly the vanished programs that are not running",
 "The cleanup after a save removes a known program if and only if it is not running and its path no longer names an existing regular file (an error other than its absence counts as still there), returns how many it removed, and leaves all other programs as they were. No removed program stays reachable anywhere in the daemon.",
 ["inputs","fault_sequences","histories"],"every set of programs, every stat outcome and error code",
 "Tests validate a handful of real paths and clean up one program; error codes and the set-wide if-and-only-if are not reachable by them.",
 ["handling/model_utils.c","handling/exe.c"],[("preload_cleanup_invalid_entries, preload_validate_exe, preload_validate_map","handling/model_utils.c")])
p("C20","Path filters accept or reject by the first matching prefix",
 "A path is tracked if and only if the first entry of the applicable prefix list that is a prefix of it is not negated, or no entry matches; an absent list accepts everything. Objects that are not absolute paths and deleted files are never tracked, and a file renamed by prelink is tracked under its original name.",
 ["inputs","configurations"],"all paths and all prefix lists of any length",
 "No test reaches the filters; first-match semantics quantify over all lists and paths.",
 ["monitoring/proc.c"],[("accept_file, sanitize_file","monitoring/proc.c")])
p("C21","Processes and their mappings are read completely and correctly",
 "Enumerating processes reports every numeric entry of the process directory except the daemon itself whose executable can be read in full and is accepted, exactly once, with its process number and full path. Reading a process's mappings returns the sum of the lengths of its accepted file-backed regions and, when asked, one link per such region with the right path (of up to 511 bytes), offset and length, reusing the registered region where there is one, and leaks neither files nor regions.",
 ["inputs"],"every process directory and every mappings file, of any length and with any lines",
 "Tests never look at the process table; correctness for all contents, including spaces, deleted files and vanishing processes, is universal.",
 ["monitoring/proc.c"],[("proc_foreach, proc_get_maps","monitoring/proc.c")])
p("C22","Memory figures are those the kernel reports",
 "The memory figures used for the budget are the numbers that follow the respective names in the kernel's memory report, zero if a name is missing or the report cannot be read; available memory is estimated as free + 80% of cached + 75% of buffers only if the kernel gives none or zero. No report, however long or malformed, makes the daemon read or write out of bounds or leak a file.",
 ["inputs","fault_sequences"],"every content and readability of the kernel's reports",
 "Tests see only the machine they run on.",
 ["monitoring/proc.c"],[("proc_get_memstat","monitoring/proc.c")])
p("C23","A configuration takes effect completely or not at all",
 "After a successful load every setting has the value given in the file, scaled by its unit, or its documented default if it is not given. If the file cannot be read or any given value is malformed, the previous configuration stays in effect unchanged (at startup the daemon exits with an error instead), and on success the memory of the old one is released exactly once.",
 ["configurations","inputs","fault_sequences"],"every combination of present, absent and malformed settings, at startup and on reload",
 "No test loads a configuration; atomicity over all subsets of bad settings is a universal claim.",
 ["config/conf.c","config/confkeys.h"],[("preload_conf_load, set_default_conf","config/conf.c"),("key table","config/confkeys.h")])
p("C24","Scanning, prediction, saving and the model clock follow the configured cycle",
 "Once started, the daemon always has exactly one cycle step and, with a state file, exactly one autosave pending; the first half of a cycle scans if and only if scanning is on and predicts if and only if prediction is on, the second half updates the model if and only if a scan is waiting for it. The model clock advances by exactly the delay until the next step; on battery the first half does neither and waits twice the cycle; a completed save clears the unsaved mark and a scan sets it.",
 ["histories","configurations","inputs"],"every cycle length, setting combination and sequence of steps, on battery or not",
 "The smoke test watches two seconds of one configuration.",
 ["handling/state.c"],[("preload_state_run, preload_state_tick, preload_state_tick2, preload_state_autosave, preload_state_save","handling/state.c")])
p("C25","Battery operation is detected exactly",
 "The daemon considers itself on battery if and only if the status of at least one of the batteries 0 to 9 reads as discharging, ignoring surrounding white space; missing or unreadable batteries never count, and what was read is released in every case.",
 ["inputs","fault_sequences"],"every combination of present, absent, unreadable batteries with any status text",
 "The test machine has no battery.",
 ["utils/power.c"],[("preload_on_battery","utils/power.c")])
p("C26","Signals are honoured: reload, dump, save, orderly exit",
 "When a delivered signal is processed, a hang-up reloads the configuration and reopens the log, the first user signal dumps state and configuration, the second saves the state, and interrupt, quit and terminate end the main loop; each request is acted on exactly once and no other action is taken. On the way out the daemon saves the state once after its main loop has ended, and in debug mode releases the whole model.",
 ["inputs","histories"],"all handled signals and all orders of their processing",
 "The smoke test sends one termination signal.",
 ["daemon/preload.c"],[("sig_handler, sig_handler_sync, set_sig_handlers, main","daemon/preload.c")])
p("C27","Command line options set exactly what they name",
 "Each option changes only the setting it names (numbers are decimal), the last occurrence wins, debug mode means foreground, no log file and verbosity nine, and help, version and unknown options print and exit with the matching status. For every list of arguments no setting is leaked or freed twice, and settings not mentioned keep their defaults.",
 ["inputs"],"every argument vector",
 "No test parses a command line.",
 ["config/cmdline.c","handling/context.c"],[("preload_cmdline_parse","config/cmdline.c"),("preload_context_new/free","handling/context.c")])
p("C28","Applications start faster because predicted files are in the page cache",
 "On a machine with idle disk time, starting an application the model predicts takes no longer, and usually less time, than without the daemon, and the daemon's own work does not noticeably slow down foreground work.",
 ["histories","configurations"],"all workloads and machines",
 "The tests measure no time.",
 ["handling/readahead.c","algorithm/prophet.c"],[("preload_readahead","handling/readahead.c")])
p("C29","A signal may arrive at any instant without corrupting or blocking the daemon",
 "Whatever instruction the daemon is executing when a handled signal arrives, it neither deadlocks nor corrupts its data, and the request is eventually processed.",
 ["schedules"],"every instruction at which a signal can arrive",
 "The smoke test sends one signal to an idle daemon.",
 ["daemon/preload.c"],[("sig_handler","daemon/preload.c")])
p("C30","Regions are ranked by the summed scores of their programs",
 "After the bids of either predictor, the score of a region is the sum, over all links of programs to it, of the program's score, or of one for a program that is running. The regions are then ranked by score, lowest first, none lost or duplicated, and exactly this ranking is offered for reading, once per prediction.",
 ["inputs","histories"],"every set of programs, regions and links, any scores, either predictor",
 "No test predicts with regions; the sums and the ranking range over all link structures and scores.",
 ["algorithm/prophet.c"],[("bid_in_exe_exemaps, exemap_bid_in_maps, map_prob_compare, preload_prophet_predict","algorithm/prophet.c")])
p("C31","A fresh sequence model is seeded from the pair records, once",
 "When the daemon starts with the sequence predictor and the state file brought no sequence tree, the tree is seeded so that, for every two known programs X and Y, Y follows X at the top of the tree with exactly as many observations as their pair record counts starts of Y while X alone was running, with no node for pairs without such starts, no other node or count, and an empty launch history. A tree that was loaded is left as it is.",
 ["inputs"],"all sets of known programs and pair records, with or without a loaded tree",
 "No test seeds from more than an empty model; the counts are a statement over every pair of every model, in either order.",
 ["algorithm/vomm.c","handling/state.c"],[("vomm_hydrate_from_state, vomm_node_new","algorithm/vomm.c"),("preload_state_run","handling/state.c")])
p("C32","The log holds what the verbosity asks for, and an error ends the daemon",
 "At verbosity 0 to 10 (0: errors only, each level up adds the next less severe kind), exactly the messages that the verbosity asks for are written to the log, each once and in full; an error is always written and then ends the daemon with a failure status, which no other message does. When a log file is given, output and errors are appended to it, input comes from nowhere and no extra handle stays open, and a log that cannot be used ends the daemon with an error; without a log file nothing is redirected.",
 ["inputs","fault_sequences"],"all message levels and verbosities 0 to 10, and every combination of failing opens and redirections",
 "The tests never log through the daemon's handler; which messages reach the log is a claim over all levels, flags and verbosities.",
 ["utils/log.c"],[("preload_log, preload_log_init","utils/log.c")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
