"""The obligations of every property: which function is put under which contract, and how the verifier is run on it."""
from vpcheck import Ob
PROPS = {}

PROPS['C01'] = dict(
    obligations=[
        Ob('map_new', 'map.c', 'h_new', 'preload_map_new', enforce='preload_map_new'),
        Ob('map_ref', 'map.c', 'h_ref', 'preload_map_ref', enforce='preload_map_ref'),
        Ob('map_ref(NULL)', 'map.c', 'h_ref_null', 'preload_map_ref'),
        Ob('map_free', 'map.c', 'h_free', 'preload_map_free', enforce='preload_map_free'),
        Ob('map_unref', 'map.c', 'h_unref', 'preload_map_unref', enforce='preload_map_unref'),
        Ob('map_get_size', 'map.c', 'h_size', 'preload_map_get_size', enforce='preload_map_get_size'),
        Ob('exemap_new', 'map.c', 'h_link', 'preload_exemap_new', enforce='preload_exemap_new', replace=['preload_map_ref']),
        Ob('exemap_free', 'map.c', 'h_unlink', 'preload_exemap_free', enforce='preload_exemap_free', replace=['preload_map_unref']),
        Ob('exe_new', 'exe.c', 'h_exe_new', 'preload_exe_new', defines=['VP_STEP']), Ob('exe_free', 'exe.c', 'h_exe_free', 'preload_exe_free'),
        Ob('unregister', 'exe.c', 'h_unregister', 'preload_state_unregister_exe'), Ob('foreach_exemap', 'exe.c', 'h_foreach_link', 'preload_exe_foreach_exemap'),
        Ob('exemap_new_from_exe', 'exe.c', 'h_link', 'preload_exemap_new_from_exe'),
    ],
    native=dict(cases=(3000, 60000), wrap=['proc_foreach', 'proc_get_memstat']),
    assumptions=['fewer than 10^9 references to one region and fewer than 4*10^18 registrations',
                 'no equal but different region is registered when a region gets its first reference (checked at the callers in C18 and C21)'])

PROPS['C02'] = dict(
    obligations=[Ob('map_equal,map_hash', 'ident.c', 'h_equal', 'preload_map_equal,preload_map_hash'),
                 Ob('map_equal(NULL)', 'ident.c', 'h_null', 'preload_map_equal')],
    native=dict(cases=(3000, 100000), wrap=['proc_foreach', 'proc_get_memstat']),
    assumptions=['g_str_hash is a function of the text of its argument', 'texts are abstracted to identities: strcmp is 0 iff the texts agree'])

MARKOV_C = dict(unwind=5)
SPY = Ob('scan, update', 'spy.c', 'h_round', 'preload_spy_scan,preload_spy_update_model')
PROPS['C03'] = dict(
    obligations=[Ob('exe_new', 'exe.c', 'h_exe_new', 'preload_exe_new', defines=['VP_STEP']), Ob('exe_free', 'exe.c', 'h_exe_free', 'preload_exe_free'),
                 Ob('unregister', 'exe.c', 'h_unregister', 'preload_state_unregister_exe'), Ob('register', 'exe.c', 'h_register', 'preload_state_register_exe'),
                 Ob('exemap_new_from_exe', 'exe.c', 'h_link', 'preload_exemap_new_from_exe'), Ob('is_running', 'exe.c', 'h_running', 'exe_is_running'),
                 Ob('foreach_exemap', 'exe.c', 'h_foreach_link', 'preload_exe_foreach_exemap'),
                 Ob('markov_new', 'markov.c', 'h_new', 'preload_markov_new', **MARKOV_C), Ob('markov_free', 'markov.c', 'h_free', 'preload_markov_free', **MARKOV_C),
                 Ob('spy_forget', 'spy.c', 'h_forget', 'preload_spy_forget')],
    native=dict(cases=(400, 20000), wrap=['proc_foreach', 'proc_get_maps', 'proc_get_memstat']),
    assumptions=[])
PROPS['C04'] = dict(
    obligations=[Ob('compute_state', 'markov.c', 'h_compute', 'markov_compute_state', **MARKOV_C),
                 Ob('state_changed', 'markov.c', 'h_changed', 'preload_markov_state_changed', **MARKOV_C),
                 Ob('state_changed: mean', 'markov.c', 'h_mean', 'preload_markov_state_changed', solver=['--cvc5'], **MARKOV_C),
                 Ob('markov_new', 'markov.c', 'h_new', 'preload_markov_new', **MARKOV_C)],
    native=dict(cases=(400, 20000), wrap=['proc_foreach', 'proc_get_maps', 'proc_get_memstat']),
    assumptions=[])
PROPS['C05'] = dict(
    obligations=[Ob('correlation: zero', 'markov.c', 'h_corr_zero', 'preload_markov_correlation', defines=['VP_SQRT'], **MARKOV_C),
                 Ob('correlation: formula', 'markov.c', 'h_corr_ref', 'preload_markov_correlation', solver=['--cvc5'], defines=['VP_SQRT'], **MARKOV_C),
                 Ob('correlation: range', 'markov.c', 'h_corr_range', 'preload_markov_correlation', defines=['VP_SQRT'], **MARKOV_C),
                 Ob('correlation: sign', 'markov.c', 'h_corr_sign', 'preload_markov_correlation', bounded='total time below 16 (all values of all times)', defines=['VP_SQRT', 'VP_SIGN_BITS=4'], **MARKOV_C)],
    native=dict(cases=(20000, 2000000)),
    assumptions=[])
PROPS['C06'] = dict(
    obligations=[Ob('markov_foreach', 'markov.c', 'h_walk', 'preload_markov_foreach', **MARKOV_C), SPY],
    native=dict(cases=(400, 20000), wrap=['proc_foreach', 'proc_get_maps', 'proc_get_memstat']),
    assumptions=[])

PROPS['C07'] = dict(obligations=[SPY], native=dict(cases=(400, 20000), wrap=['proc_foreach', 'proc_get_maps', 'proc_get_memstat']),
    assumptions=[])

PROPS['C08'] = dict(obligations=[SPY], native=dict(cases=(400, 20000), wrap=['proc_foreach', 'proc_get_maps', 'proc_get_memstat']),
    assumptions=[])

PROPS['C11'] = dict(obligations=[Ob('update', 'vomm.c', 'h_update', 'vomm_update,vomm_node_new', unwind=13), Ob('update: guards', 'vomm.c', 'h_guards', 'vomm_update', unwind=13), SPY],
    native=dict(cases=(1500, 50000), wrap=['proc_foreach', 'proc_get_memstat', 'preload_readahead']),
    assumptions=['fewer than 2^31-16 observations of one node'])

PREDICT = [Ob('predict: phases', 'prophet.c', 'h_predict', 'preload_prophet_predict,exe_zero_prob,map_zero_prob', unwind=6, defines=['VP_PHASES']),
           Ob('predict: region bids', 'prophet.c', 'h_predict', 'bid_in_exe_exemaps,exemap_bid_in_maps', unwind=6, defines=['VP_STEP'], solver=['--cvc5']),
           Ob('predict: ranking', 'prophet.c', 'h_predict', 'map_prob_compare', unwind=6, defines=['VP_RANK'])]
PROPS['C09'] = dict(obligations=PREDICT + [
        Ob('bid: conditions', 'prophet.c', 'h_chain', 'markov_bid_in_exes,markov_bid_for_exe', unwind=6, defines=['VP_CHAIN', 'VP_COND']),
        Ob('bid: sum', 'prophet.c', 'h_chain', 'markov_bid_in_exes,markov_bid_for_exe', unwind=6, defines=['VP_CHAIN', 'VP_ADD'], flags=['--no-standard-checks'], solver=['--cvc5'])]
      + [Ob('bid: formula, state %d, correlation %s' % (s, 'on' if c else 'off'), 'prophet.c', 'h_chain', 'markov_bid_in_exes,markov_bid_for_exe', unwind=6, defines=['VP_CHAIN', 'VP_FORMULA', 'VP_STATE=%d' % s, 'VP_CORR=%d' % c], flags=['--no-standard-checks'], solver=['--cvc5']) for s in (0, 1, 2) for c in (0, 1)]
      + [Ob('bid: share', 'prophet.c', 'h_share', 'markov_bid_for_exe', solver=['--external-sat-solver', 'kissat']), Ob('bid: range', 'prophet.c', 'h_range', 'markov_bid_for_exe'), Ob('bid: rate', 'prophet.c', 'h_rate', 'markov_bid_for_exe')],
    native=dict(cases=(3000, 100000), wrap=['proc_get_memstat', 'preload_readahead', 'proc_foreach']),
    assumptions=['exp of a number up to 0 is in [0,1]; log of a number in (0,1] is in (-800,0]'])
PROPS['C30'] = dict(obligations=PREDICT, native=dict(cases=(3000, 100000), wrap=['proc_get_memstat', 'preload_readahead', 'proc_foreach']), assumptions=[])

BUDGET_LOOP = [dict(file='algorithm/prophet.c', function='preload_prophet_readahead', loop=0, before='vp_cut (&memavail);', text="""
   __CPROVER_assigns (i, map, memavail, cur)
   __CPROVER_loop_invariant (0 <= i && i <= (int) maps_arr->len && PS (i) >= 0 && PS (i) <= (1ll << 41) && memavail == vp_budget - PS (i) && (i == 0 || memavail >= 0)
                             && (vp_w < 0 || vp_w >= i || Q (vp_w)))""")]
BUDGET_CUT = [dict(BUDGET_LOOP[0], text='')]
F = dict(inject=BUDGET_CUT, unwind=1)
PROPS['C12'] = dict(obligations=[
                 Ob('budget: formula, available', 'budgetf.c', 'h_budget', 'preload_prophet_readahead', defines=['VP_AVAILABLE', 'VP_FORMULA'], solver=['--cvc5'], flags=['--no-standard-checks'], **F),
                 Ob('budget: formula, free', 'budgetf.c', 'h_budget', 'preload_prophet_readahead', defines=['VP_FORMULA'], solver=['--cvc5'], flags=['--no-standard-checks'], **F),
                 Ob('budget: overflow, available', 'budgetf.c', 'h_budget', 'preload_prophet_readahead', defines=['VP_AVAILABLE'], **F),
                 Ob('budget: overflow, free', 'budgetf.c', 'h_budget', 'preload_prophet_readahead', **F),
                 Ob('cutoff', 'budget.c', 'h_budget', 'preload_prophet_readahead', loops=True, inject=BUDGET_LOOP)],
    native=dict(cases=(5000, 200000), wrap=['proc_get_memstat', 'preload_readahead']),
    assumptions=['at most 2^31-16 regions'])

RF = 'handling/readahead.c'
AT = dict(file=RF, subst=(r'\bfiles\[(\w+)\]', r'(*vp_at (files, \1))'))
MERGE_LOOP = [AT, dict(file=RF, function='preload_readahead', loop=0, count=1, text="""
   __CPROVER_assigns (i, path, offset, length, processed, vp_cov, vp_reqs, vp_cur, vp_slot)
   __CPROVER_loop_invariant (0 <= i && i <= file_count && processed == vp_reqs && vp_reqs >= 0 && (gint64) vp_reqs + (path ? 1 : 0) <= (gint64) i && (path || i == 0)
     && (!path || (offset < (1ull << 62) && length < (1ull << 63) && offset + length < (1ull << 63)))
     && (vp_mode != 0 || vp_w >= i || vp_cov || (path && (uintptr_t) path == vp_bp && INR (offset, length, vp_b)))
     && (vp_mode != 1 || (!vp_cov && !(path && (uintptr_t) path == vp_bp && INR (offset, length, vp_b)))))
   __CPROVER_decreases (file_count - i)""")]
SORT_LOOP = [AT, dict(file=RF, function='sort_by_block_or_inode', loop=0, count=2, text="""
   __CPROVER_assigns (i, need_block, vp_cur, vp_slot, vp_curidx)
   __CPROVER_loop_invariant (0 <= i && i <= file_count && (need_block || vp_w >= i || vp_wblk != -1) && (vp_curidx != vp_w || vp_cur.block == vp_wblk))
   __CPROVER_decreases (file_count - i)"""),
   dict(file=RF, function='sort_by_block_or_inode', loop=1, count=2, text="""
   __CPROVER_assigns (i, vp_cur, vp_slot, vp_curidx, vp_wblk, vp_wlook, vp_looks)
   __CPROVER_loop_invariant (0 <= i && i <= file_count && (vp_curidx != vp_w || vp_cur.block == vp_wblk) && (vp_w >= i || vp_wblk != -1) && (vp_wlook == 0 || (vp_wlook == 1 && vp_w < i)) && (vp_looks == 0 || vp_looks == 1)
     && (__CPROVER_loop_entry (vp_wblk) == -1 ? (vp_w < i || vp_wblk == -1) : (vp_wblk == __CPROVER_loop_entry (vp_wblk) && vp_wlook == 0)))
   __CPROVER_decreases (file_count - i)""")]
WAIT_LOOP = [dict(file=RF, function='wait_for_children', loop=0, count=1, text="""
   __CPROVER_assigns (procs, vp_live, vp_eintr, vp_errno)
   __CPROVER_loop_invariant (VP_INV_WAIT)
   __CPROVER_decreases (procs, vp_eintr)""")]
O_MERGE = Ob('merge', 'readahead.c', 'h_readahead', 'preload_readahead', replace=['process_file', 'wait_for_children', 'sort_files'], loops=True, inject=MERGE_LOOP, defines=['VP_MERGE'])
O_SORT = Ob('arrange', 'readahead.c', 'h_sort', 'sort_files,sort_by_block_or_inode', replace=['set_block'], loops=True, inject=SORT_LOOP, defines=['VP_SORT'])
O_ORDER = Ob('orders', 'readahead.c', 'h_order', 'map_path_compare,map_block_compare')
O_BLOCK = Ob('block lookup', 'readahead.c', 'h_block', 'set_block', solver=['--cvc5'])
O_BOFF = Ob('block of the offset', 'readahead.c', 'h_block', 'set_block', solver=['--z3'], flags=['--no-standard-checks'], defines=['VP_DIV'])
O_FALL = Ob('fallback', 'readahead.c', 'h_fallback', 'try_readahead_with_fallback')
O_WAIT = Ob('wait', 'readahead.c', 'h_wait', 'wait_for_children', loops=True, inject=WAIT_LOOP)
O_PROC = Ob('worker', 'readahead.c', 'h_process', 'process_file', loops=True, inject=WAIT_LOOP)
RWRAP = ['fork', 'wait', 'waitpid', 'exit', '_exit', 'open', 'close', 'fstat', 'ioctl', 'readahead', 'mmap', 'madvise', 'munmap', 'syscall', 'qsort']
PROPS['C13'] = dict(obligations=[O_MERGE, O_PROC, O_FALL], native=dict(cases=(20000, 500000), wrap=RWRAP),
    assumptions=['offsets and lengths below 2^62 (no address overflow)', 'qsort permutes and orders (libc)'])
PROPS['C14'] = dict(obligations=[O_PROC, O_WAIT, O_FALL, O_MERGE, O_BLOCK], native=dict(file='C13.c', cases=(20000, 500000), wrap=RWRAP),
    assumptions=['a wait is interrupted finitely often', 'offsets and lengths below 2^62 (no address overflow)'])
PROPS['C15'] = dict(obligations=[O_ORDER, O_SORT, O_BLOCK, O_BOFF], native=dict(file='C13.c', cases=(20000, 500000), wrap=RWRAP),
    assumptions=['the low 32 bits of an inode number are not all ones, a disk block is not -1', 'qsort permutes and orders (libc)'])

VF = 'algorithm/vomm.c'
EXPORT_LOOP = [dict(file=VF, function='vomm_node_export_recursive', cut=1), dict(file=VF, function='vomm_node_export_recursive', loop=0, count=1, text="""
   __CPROVER_assigns (key, value, G, export_node_id_counter)
   __CPROVER_loop_invariant (G.going && G.done && G.written == (N != vomm_system.root) && export_node_id_counter >= G.id && export_node_id_counter < (1l << 31) && current_id == (N == vomm_system.root ? 0 : G.id))""")]
FORGET_LOOP = [dict(file=VF, function='vomm_node_forget', cut=1), dict(file=VF, function='vomm_node_forget', loop=0, count=1, text="""
   __CPROVER_assigns (value, G, *vp_child)
   __CPROVER_loop_invariant (G.going && G.done)""")]
EX = dict(loops=True, inject=EXPORT_LOOP, defines=['VP_EXPORT'])
FO = dict(loops=True, inject=FORGET_LOOP, defines=['VP_FORGET'], unwind=9)
O_EXPORT = [Ob('tree: write a node', 'tree.c', 'h_export', 'vomm_node_export_recursive', **EX), Ob('tree: write', 'tree.c', 'h_export_all', 'vomm_export_state', **EX)]
O_IMPORT = [Ob('tree: read a node', 'tree.c', 'h_import', 'vomm_import_node,vomm_init', defines=['VP_IMPORT']), Ob('tree: read to the end', 'tree.c', 'h_done', 'vomm_import_done', defines=['VP_TREE'])]
O_FORGET = [Ob('tree: forget in a node', 'tree.c', 'h_forget_node', 'vomm_node_forget', **FO), Ob('tree: forget', 'tree.c', 'h_forget', 'vomm_forget', **FO)]
O_TREE = [Ob('tree: release', 'tree.c', 'h_cleanup', 'vomm_cleanup,vomm_node_free,vomm_init', defines=['VP_TREE'])]
def seq(n, e, f, d, *loc):
    inj = [dict(file=VF, function=f, loop=0, before='vp_locals (%s);' % ', '.join(loc), text='')]
    return [Ob('bids: ' + n, 'seqpred.c', e, f, inject=inj, defines=[d], unwind=4)] + ([Ob('bids: ' + n + ', formula', 'seqpred.c', e, f, inject=inj, defines=[d, 'VP_FORMULA'], unwind=4, flags=['--no-standard-checks'], solver=['--cvc5'])] if d != 'VP_DG' else [])
PROPS['C10'] = dict(obligations=seq('context', 'h_ppm', 'predict_ppm', 'VP_PPM', '&total_children_calls', '&max_count', '&best_child') + seq('fallback', 'h_dg', 'predict_dg_fallback', 'VP_DG', '0', '0', '0') + seq('global', 'h_global', 'predict_global_frequency', 'VP_GLOBAL', '&total_global_count', '0', '0')
      + [Ob('bids: contexts', 'seqpred.c', 'h_all', 'vomm_predict', replace=['predict_ppm', 'predict_dg_fallback', 'predict_global_frequency'], defines=['VP_ALL'], unwind=7),
         Ob('bids: share', 'seqpred.c', 'h_share', 'predict_ppm,predict_global_frequency', defines=['VP_PPM'], solver=['--external-sat-solver', 'kissat'])]
      + [Ob('bids: strength' + n, 'seqpred.c', e, 'predict_ppm,predict_dg_fallback,predict_global_frequency', defines=['VP_PPM'], solver=['--external-sat-solver', 'kissat']) for n, e in ((', sum', 'h_add'), (', context', 'h_mono'), (', global', 'h_mono_global'))]
      + PREDICT,
    native=dict(cases=(1500, 60000), wrap=['proc_foreach', 'proc_get_memstat', 'preload_readahead']),
    assumptions=['dividing or multiplying by the same positive number and taking the logarithm are monotone (IEEE 754, libm)', 'the log of a number in (0,1] is in (-800,0]'])
PROPS['C17'] = dict(obligations=[Ob('round trip', 'roundtrip.c', 'h_roundtrip', 'write_state,read_state,write_header,write_map,write_badexe,write_exe,write_exemap,write_exe_exemaps,write_markov,write_vomm_node_callback,read_map,read_badexe,read_exe,read_exemap,read_markov,read_vomm_node', unwind=130, timeout=500, flags=['--max-field-sensitivity-array-size', '600', '--object-bits', '12'])] + O_EXPORT + O_IMPORT + O_TREE, native=dict(cases=(1500, 60000), wrap=['proc_foreach', 'proc_get_memstat']), assumptions=[])
LOAD_LOOP = [dict(file='handling/state_io.c', function='read_state', loop=0, count=1, before='vp_locals (&lineno, tag, &rc);', text='')]
O_LOAD = Ob('load', 'load.c', 'h_load', 'preload_state_read_file,read_state,read_map,read_badexe,read_exe,read_exemap,read_markov,read_vomm_node', inject=LOAD_LOOP, unwind=66, timeout=600, flags=['--object-bits', '12'], solver=['--external-sat-solver', 'kissat'])
PROPS['C18'] = dict(obligations=[O_LOAD] + O_IMPORT, native=dict(cases=(6000, 300000), wrap=['proc_foreach', 'proc_get_memstat'], leaks=0), assumptions=[])
O_SAVE = Ob('save', 'sched.c', 'h_save', 'preload_state_save', unwind=6)
PROPS['C16'] = dict(obligations=[Ob('write', 'save.c', 'h_write', 'preload_state_write_file,write_state,write_header,write_map,write_badexe,write_exe,write_exemap,write_exe_exemaps,write_markov,write_vomm_node_callback', unwind=18), O_SAVE], native=dict(cases=(2500, 100000), wrap=['proc_foreach', 'proc_get_memstat', 'preload_cleanup_invalid_entries', 'open', 'open64', 'fsync', 'fdatasync', 'rename', 'g_rename', 'unlink', 'g_unlink', 'close'], leaks=0), assumptions=[])

REDIR = ['fopen', 'fopen64', 'fclose', 'open', 'open64', 'close', 'opendir', 'closedir', 'readlink', 'read', 'access', 'g_file_test', 'g_file_get_contents']
PF = 'monitoring/proc.c'
ACCEPT_LOOP = [dict(file=PF, subst=(r'(?<!const )\*prefix\b', '(*vp_pfx (prefix))')), dict(file=PF, function='accept_file', loop=0, count=1, text="""
   __CPROVER_assigns (prefix, vp_cur, vp_slot, __CPROVER_object_whole (vp_entry))
   __CPROVER_loop_invariant (__CPROVER_same_object (prefix, vp_list) && VP_IDX (prefix) >= 0 && VP_IDX (prefix) <= vp_w)
   __CPROVER_decreases (vp_n - VP_IDX (prefix))""")]
MAPS_LOOP = [dict(file=PF, function='proc_get_maps', loop=0, count=1, text="""
   __CPROVER_assigns (size, G)
   __CPROVER_loop_invariant (vp_open_ && size == vp_sum && vp_added == vp_links && LINE_DONE)""")]
PROC_LOOP = [dict(file=PF, function='proc_foreach', loop=0, count=1, text="""
   __CPROVER_assigns (entry, G)
   __CPROVER_loop_invariant (vp_dirs && ENTRY_DONE)""")]
O_SAN = Ob('sanitize', 'proc.c', 'h_sanitize', 'sanitize_file', defines=['VP_SANITIZE'], unwind=20)
O_ACC = Ob('accept', 'proc.c', 'h_accept', 'accept_file', defines=['VP_ACCEPT'], loops=True, inject=ACCEPT_LOOP)
O_MAPS = Ob('get_maps', 'proc.c', 'h_maps', 'proc_get_maps', defines=['VP_MAPS'], loops=True, replace=['sanitize_file', 'accept_file'], inject=MAPS_LOOP)
O_PROCS = Ob('foreach', 'proc.c', 'h_procs', 'proc_foreach', defines=['VP_PROCS'], loops=True, replace=['all_digits', 'sanitize_file', 'accept_file'], inject=PROC_LOOP)
O_DIG = Ob('all_digits', 'proc.c', 'h_digits', 'all_digits', defines=['VP_PROCS'], unwind=260)
PROPS['C20'] = dict(obligations=[O_SAN, O_ACC], native=dict(file='C21.c', cases=(6000, 200000), wrap=REDIR), assumptions=[])
PROPS['C21'] = dict(obligations=[O_MAPS, O_PROCS, O_DIG, O_SAN, O_ACC], native=dict(file='C21.c', cases=(6000, 200000), wrap=REDIR), assumptions=[])
PROPS['C22'] = dict(obligations=[Ob('get_memstat', 'proc.c', 'h_mem', 'proc_get_memstat', defines=['VP_MEM', 'VP_ESTIMATE'], unwind=20)], native=dict(cases=(6000, 200000), wrap=REDIR), assumptions=[])
PROPS['C25'] = dict(obligations=[Ob('on_battery', 'power.c', 'h_battery', 'preload_on_battery', unwind=60)], native=dict(cases=(3000, 100000), wrap=REDIR), assumptions=[])

PROPS['C19'] = dict(obligations=O_FORGET + [Ob('cleanup', 'cleanup.c', 'h_cleanup', 'preload_cleanup_invalid_entries,check_exe_validity,remove_invalid_exe', unwind=4), Ob('cleanup(NULL)', 'cleanup.c', 'h_cleanup_null', 'preload_cleanup_invalid_entries', unwind=4),
      Ob('validate_exe', 'cleanup.c', 'h_validate', 'preload_validate_exe', unwind=4)],
    native=dict(cases=(3000, 100000), wrap=['proc_foreach', 'proc_get_memstat', 'proc_get_maps', 'preload_readahead', 'preload_state_write_file', 'stat', 'stat64']), assumptions=[])
PROPS['C23'] = dict(obligations=[Ob('load', 'conf.c', 'h_load', 'preload_conf_load,set_default_conf', unwind=24)], native=dict(cases=(4000, 100000), leaks=0, wrap=['g_log']), assumptions=[])
PROPS['C03']['obligations'] += O_FORGET
PROPS['C24'] = dict(obligations=[Ob('first half', 'sched.c', 'h_first', 'preload_state_tick', unwind=6), Ob('second half', 'sched.c', 'h_second', 'preload_state_tick2', unwind=6), O_SAVE,
                 Ob('autosave', 'sched.c', 'h_autosave', 'preload_state_autosave', unwind=6), Ob('run', 'sched.c', 'h_run', 'preload_state_run', unwind=6)],
    native=dict(cases=(4000, 100000), leaks=0, wrap=['g_timeout_add', 'g_timeout_add_full', 'g_timeout_add_seconds', 'g_timeout_add_seconds_full', 'g_idle_add', 'g_source_remove', 'preload_on_battery', 'preload_spy_scan', 'preload_spy_update_model', 'preload_prophet_predict', 'preload_state_write_file', 'preload_cleanup_invalid_entries', 'proc_foreach', 'proc_get_memstat']), assumptions=['the model clock is below 2^30 s and the cycle below 2^28 s'])
PROPS['C26'] = dict(obligations=[Ob('signals', 'daemon.c', 'h_signals', 'set_sig_handlers,sig_handler,sig_handler_sync', unwind=8), Ob('main', 'daemon.c', 'h_main', 'main,daemonize', unwind=66),
                 Ob('log reopen', 'log.c', 'h_reopen', 'preload_log_reopen', unwind=6)],
    native=dict(cases=(2000, 50000), leaks=0, wrap=['g_timeout_add', 'g_timeout_add_full', 'g_timeout_add_seconds', 'g_idle_add', 'g_idle_add_full', 'signal', '__sysv_signal', 'sigaction', 'nice', 'fork', 'setsid', 'chdir', 'umask', 'execl', 'exit', 'preload_conf_load', 'preload_log_init', 'preload_log_reopen', 'preload_state_dump_log', 'preload_conf_dump_log', 'preload_state_save', 'preload_state_load', 'preload_state_run', 'preload_state_free', 'g_main_loop_quit', 'g_main_loop_run']), assumptions=[])
PROPS['C27'] = dict(obligations=[Ob('parse', 'cmdline.c', 'h_parse', 'preload_cmdline_parse,help_func,version_func', unwind=34, defines=['VP_PARSE']), Ob('context', 'cmdline.c', 'h_context', 'preload_context_new,preload_context_free', unwind=34)],
    native=dict(cases=(6000, 200000), wrap=['exit', 'printf', 'puts', 'putchar', 'fprintf', 'fwrite']), assumptions=[])
START = Ob('start', 'start.c', 'h_load', 'preload_state_load,set_running_process_callback,update_markov_state_callback', unwind=6)
for _p in ('C07', 'C04', 'C18'): PROPS[_p]['obligations'] = list(PROPS[_p]['obligations']) + [START]
PROPS['C26']['obligations'] = list(PROPS['C26']['obligations']) + [Ob('end', 'start.c', 'h_free', 'preload_state_free', unwind=6)]
SEED_LOOP = [dict(file=VF, function='vomm_hydrate_from_state', loop=0, count=2, text="""
   __CPROVER_assigns (key, value, hydrated_count, G, K, S.count, D.count, NS, ND)
   __CPROVER_loop_invariant (G.walking == 1 && hydrated_count >= 0 && hydrated_count <= G.total && SEED_DONE && (!G.open || G.next == vp_len))"""),
 dict(file=VF, function='vomm_hydrate_from_state', loop=1, count=2, text="""
   __CPROVER_assigns (i, hydrated_count, G, K, S.count, D.count, NS, ND)
   __CPROVER_loop_invariant (i >= 0 && i <= vp_len && i == G.next && G.open && G.walking == 1 && exe == &X && hydrated_count >= 0 && hydrated_count <= G.total && SEED_DONE)""")]
PROPS['C31'] = dict(obligations=[Ob('seed', 'seed.c', 'h_seed', 'vomm_hydrate_from_state,vomm_node_new', loops=True, inject=SEED_LOOP, unwind=12)], native=dict(cases=(3000, 100000), wrap=['proc_foreach', 'proc_get_memstat', 'preload_readahead', 'g_timeout_add', 'g_timeout_add_full', 'g_timeout_add_seconds', 'g_timeout_add_seconds_full']), assumptions=['the number of pair records is below 2^31'])
PROPS['C32'] = dict(obligations=[Ob('log', 'logging.c', 'h_log', 'preload_log', unwind=9), Ob('log init', 'logging.c', 'h_init', 'preload_log_init', unwind=12)],
    native=dict(cases=(3000, 60000), wrap=['exit', 'open', 'open64', 'dup2', 'close']), assumptions=['a message that GLib marks fatal but that is no error is at most as verbose as the verbosity'])
PROPS['C31']['obligations'] = list(PROPS['C31']['obligations']) + [Ob('run', 'sched.c', 'h_run', 'preload_state_run', unwind=6)]
