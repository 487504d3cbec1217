"""The registry of checks: property -> jobs (harness source, parameters per tier, reachability witnesses, bounds)."""
import os
JOBS = {}
def prop(pid, jobs, **kw): JOBS[pid] = dict(jobs=jobs, **kw)
def J(name, src, **kw): return dict(name=name, src=src, **kw)

prop("P01", [
    J("stream", "h/P01_stream.cpp", quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end", "read_at_end", "readback_at_start", "short_array_read"], bounds=""),
    J("file", "h/P01_stream.cpp", defs={"USE_FILE": 1}, quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end"], bounds=""),
    J("stream_long", "h/P01_long.cpp", quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end"]),
    J("file_long", "h/P01_long.cpp", defs={"USE_FILE": 1}, quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end"]),
    J("stream_big", "h/P01_big.cpp", quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end"]),
    J("file_big", "h/P01_big.cpp", defs={"USE_FILE": 1}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end"]),
])

prop("P08", [
    J("containers", "h/P08_containers.cpp", quick={"NOPS": 5}, thorough={"NOPS": 6, "CAP": 4}, cover=["queue", "stack", "vector", "queue_full"]),
    J("containers_box", "h/P08_containers.cpp", defs={"BOX": 1}, quick={"NOPS": 5}, thorough={"NOPS": 6}, cover=["queue", "stack", "vector"]),
])
prop("P10", [
    J("ipq_less", "h/P10_heaps.cpp", defs={"ONLY": 0}, quick={"NOPS": 2, "CAP": 4}, thorough={"NOPS": 3, "CAP": 4}, cover=["end", "pop_and_push"]),
    J("ipq_greater", "h/P10_heaps.cpp", defs={"ONLY": 1}, quick={"NOPS": 2, "CAP": 3}, thorough={"NOPS": 3, "CAP": 4}, cover=["end"]),
    J("merge_heap", "h/P10_heaps.cpp", defs={"ONLY": 2}, quick={"NOPS": 3, "CAP": 4}, thorough={"NOPS": 4, "CAP": 5}, cover=["end"]),
    J("overflow_heap", "h/P10_heaps.cpp", defs={"ONLY": 3}, quick={"NOPS": 3, "CAP": 4}, thorough={"NOPS": 5, "CAP": 5}, cover=["end", "spill"]),
    J("ami_heap", "h/P10_heaps.cpp", defs={"ONLY": 4}, quick={}, thorough={}, cover=["end"]),
])
THREADS = dict(sched=True, path_instrs=2000000) # the native replay follows the trace's schedule
prop("P19", [
    J("schedules", "h/P19_psort.cpp", defs={"KIND": 0, "MIN": 2, "MINITEMS": 3}, quick={"NITEMS": 4, "PREEMPT": 1}, thorough={"NITEMS": 5, "PREEMPT": 2}, cover=["end"], **THREADS),
    J("deep_schedules", "h/P19_psort.cpp", defs={"KIND": 0, "MIN": 2, "MINITEMS": 3}, quick={"NITEMS": 3, "PREEMPT": 2}, thorough={"NITEMS": 3, "PREEMPT": 4}, cover=["end"], **THREADS),
    J("three_workers", "h/P19_psort.cpp", defs={"KIND": 0, "MIN": 1, "MINITEMS": 3, "WORKERS": 3, "KEYBITS": 1}, quick={"NITEMS": 3, "PREEMPT": 1}, thorough={"NITEMS": 4, "PREEMPT": 2}, cover=["end"], **THREADS),
    J("inputs", "h/P19_psort.cpp", defs={"KIND": 0, "WORKERS": 1, "PREEMPT": 0, "MIN": 2, "MINITEMS": 0, "KEYBITS": 3}, quick={"NITEMS": 6}, thorough={"NITEMS": 7}, cover=["end"], **THREADS),
    J("inputs_wide", "h/P19_psort.cpp", defs={"KIND": 0, "WORKERS": 1, "PREEMPT": 0, "MIN": 2, "MINITEMS": 8, "KEYBITS": 1}, quick={"NITEMS": 11}, thorough={"NITEMS": 15}, cover=["end"], **THREADS),
    J("inputs_median", "h/P19_psort.cpp", defs={"KIND": 0, "WORKERS": 1, "PREEMPT": 0, "MIN": 6, "MINITEMS": 8, "KEYBITS": 2}, quick={"NITEMS": 8}, thorough={"NITEMS": 9}, cover=["end"], **THREADS),
    J("part", "h/P19_psort.cpp", defs={"KIND": 1, "WORKERS": 1, "PREEMPT": 0, "MIN": 3, "MINITEMS": 1, "ROUNDS": 2}, quick={"NITEMS": 6}, thorough={"NITEMS": 7}, cover=["end"], **THREADS),
    J("progress", "h/P19_psort.cpp", defs={"KIND": 2, "MIN": 1, "MINITEMS": 1}, quick={"NITEMS": 2, "PREEMPT": 2}, thorough={"NITEMS": 3, "PREEMPT": 3}, cover=["end"], **THREADS),
    J("public", "h/P19_psort.cpp", defs={"KIND": 3, "WORKERS": 1, "PREEMPT": 0, "MINITEMS": 0}, quick={"NITEMS": 5}, thorough={"NITEMS": 6}, cover=["end"], **THREADS),
])
P31 = lambda name, kinds, quick, cover=("end",), **d: J(name, "h/P31_streams.cpp", defs={"KINDS": kinds, **d}, quick=quick, thorough={"NOPS": 2, "PREEMPT": 2}, cover=list(cover), **THREADS)
prop("P31", [
    P31("pair_compressed", "{1,2}", {"NOPS": 1, "PREEMPT": 2, "FIRST": "{4}"}),
    P31("pair_mixed", "{0,2}", {"NOPS": 1, "PREEMPT": 2, "FIRST": "{3}"}),
    P31("pair_uncompressed", "{0,0}", {"NOPS": 2, "PREEMPT": 1, "OPS": "{1,2,3,4,5,6,7,9,10}"}),
    P31("rewrite", "{0}", {"NOPS": 1, "PREEMPT": 2, "OPS": "{3,9,10}", "FIRST": "{3,5,8}"}),
    P31("four", "{2,1,2,0}", {"NOPS": 1, "PREEMPT": 1}),
    P31("ops2", "{2,2}", {"NOPS": 2, "PREEMPT": 1, "FIRST": "{5}"}),
    P31("back", "{2}", {"NOPS": 3, "PREEMPT": 1, "OPS": "{0,1,2,9}"}),
    P31("long", "{2}", {"NOPS": 5, "PREEMPT": 0, "FIRST": "{1,2,5}", "OPS": "{0,2,3,4,8}"}),
    P31("long_uncompressed", "{0}", {"NOPS": 5, "PREEMPT": 0, "FIRST": "{1,2,5}", "OPS": "{0,2,3,4,8,11}"}),
    P31("overwrite", "{0}", {"NOPS": 3, "PREEMPT": 2, "FIRST": "{3}", "OPS": "{2,10,11}"}),
    P31("positions", "{2}", {"NOPS": 7, "PREEMPT": 0, "FIRST": "{3,5}", "OPS": "{0,3,4,8}", "FAR": 1}),
    P31("drop", "{2}", {"NOPS": 3, "PREEMPT": 1, "FIRST": "{5,7}", "OPS": "{0,2,12}"}, ["end", "dropped"]),
    P31("drop_far", "{2}", {"NOPS": 4, "PREEMPT": 0, "FIRST": "{7,8}", "OPS": "{0,1,2,3,8,12}"}, ["end", "dropped"]),
    P31("cut", "{2}", {"NOPS": 6, "PREEMPT": 0, "FIRST": "{3,5}", "OPS": "{0,4,8,9}"}, ["end", "truncated"]),
    P31("cut_boundary", "{2}", {"NOPS": 4, "PREEMPT": 0, "FIRST": "{4}", "OPS": "{0,2,3,4,7,8,9,12}"}, ["end", "truncated"], PREOPS="{8,0,8,9}"),
    P31("again", "{2}", {"NOPS": 1, "PREEMPT": 1, "AGAIN": 2}),
    P31("temps", "{0,1}", {"NOPS": 1, "PREEMPT": 1, "TEMP": 1}),
])
P28 = lambda name, kinds, quick, cover=("end", "ordered", "arbitrary"), **d: J(name, "h/P28_parallel.cpp", defs={"KINDS": kinds, **d}, quick=quick, thorough={"NITEMS": 3, "PREEMPT": 2, "BUFS": "{1,2}"}, cover=list(cover), **THREADS)
prop("P28", [
    P28("map", "{0}", {"NITEMS": 3, "PREEMPT": 1, "BUFS": "{1,2}"}, MINITEMS=0),
    P28("filter", "{1}", {"NITEMS": 2, "PREEMPT": 1, "BUFS": "{1,2}"}, MINITEMS=1),
    P28("expand", "{2}", {"NITEMS": 2, "PREEMPT": 1, "BUFS": "{2}"}, MINITEMS=1),
    P28("held", "{3}", {"NITEMS": 3, "PREEMPT": 1, "BUFS": "{1,2}"}, MINITEMS=1),
    P28("throws", "{0}", {"NITEMS": 2, "PREEMPT": 1, "BUFS": "{1}"}, ["end", "thrown"], MINITEMS=1, THROWS=1),
    P28("throws_expand", "{2}", {"NITEMS": 1, "PREEMPT": 1, "BUFS": "{1}"}, ["end", "thrown"], MINITEMS=1, THROWS=1),
    P28("three_workers", "{0,2}", {"NITEMS": 3, "PREEMPT": 2, "BUFS": "{1}"}, MINITEMS=3, JOBS=3, DELAY=1),
])
SHAPES = '{"()","(())","(()())","((()))"}'
prop("P24", [
    J("jobs", "h/P24_jobs.cpp", defs={"ONLY": 0}, quick={"NJOBS": 2, "ROUNDS": 2, "PREEMPT": 1}, thorough={"NJOBS": 3, "ROUNDS": 2, "PREEMPT": 2}, cover=["end", "polled"], **THREADS),
    J("trees", "h/P24_jobs.cpp", defs={"ONLY": 1, "SHAPES": SHAPES}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end", "again"], **THREADS),
    J("two_users", "h/P24_jobs.cpp", defs={"ONLY": 2}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end"], **THREADS),
    J("full", "h/P24_jobs.cpp", defs={"ONLY": 3}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end", "inline"], **THREADS),
    J("resize", "h/P24_jobs.cpp", defs={"ONLY": 4}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end"], **THREADS),
    J("startup", "h/P24_jobs.cpp", defs={"ONLY": 5}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end", "used"], **THREADS),
    J("meet", "h/P24_jobs.cpp", defs={"ONLY": 7}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end"], **THREADS),
    J("misuse", "h/P24_jobs.cpp", defs={"ONLY": 6, "WORKERS": 1}, quick={"PREEMPT": 1}, thorough={"PREEMPT": 2}, cover=["end"], **THREADS),
])
prop("P12", [
    J("sets", "h/P12_sets.cpp", quick={"NOPS": 3}, thorough={"NOPS": 5}, cover=["end", "union", "clear"]),
    J("sets_u8", "h/P12_sets.cpp", defs={"VT": "uint8_t"}, quick={"NOPS": 2, "NELEM": 5}, thorough={"NOPS": 4, "NELEM": 5}, cover=["end", "union"]),
])

prop("P09", [
    J("arrays", "h/P09_arrays.cpp", quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["arrays", "views", "self_assign"]),
    J("arrays_box", "h/P09_arrays.cpp", defs={"BOX": 1}, quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["arrays", "views"]),
] + [J(f"packed_{b}", "h/P09_packed.cpp", defs={"ET": t, "EB": b}, quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end"]) for t, b in (("bool", 1), ("uint8_t", 2), ("uint16_t", 4), ("uint8_t", 8), ("uint16_t", 16), ("uint32_t", 32), ("uint64_t", 64))])
TINY = ["set_less", "set_greater", "multiset_less", "multiset_greater", "map_less", "map_greater", "multimap_less", "multimap_greater"]
prop("P29", [J(f"nest_{n}{'_big' if big else ''}", "h/P29_nest.cpp", defs={"WHICH": i, "BIG": big}, quick={"STEPS": 2}, thorough={"STEPS": 3}, cover=["end", "sequence", "together", "nested"]) for i, n in enumerate(["steps", "shares", "ranges"]) for big in (0, 1)] + [
    J("fractions", "h/P29_fractions.cpp", quick={"PARTS": 3}, thorough={"PARTS": 4}, cover=["end", "whole", "wrapped", "plain"]),
    J("fractions_timed", "h/P29_fractions.cpp", defs={"TIMES": 1, "FRACS": "{0.3f}"}, quick={"PARTS": 2}, thorough={"PARTS": 3}, cover=["end", "timed"]),
    J("nodes", "h/P29_pipeline.cpp", defs={"ONLY": 0}, cover=["end", "wrapped", "plain"]),
    J("pipelines", "h/P29_pipeline.cpp", defs={"ONLY": 1}, quick={"COUNTS": "{0,3}"}, thorough={"COUNTS": "{0,1,2,5,9}"}, cover=["end", "wrapped", "plain"]),
    J("sort", "h/P29_pipeline.cpp", defs={"ONLY": 2}, quick={"COUNTS": "{0,3}"}, thorough={"COUNTS": "{0,1,2,5,9}"}, cover=["end", "wrapped", "plain"]),
])
prop("P36", [
    J("internal", "h/P36_pipeline.cpp", defs={"ONLY": 0, "PIPES": 8}, path_instrs=300000000, quick={"NITEMS": 2}, thorough={"NITEMS": 5}, cover=["end", "thrown"]),
    J("sorters", "h/P36_pipeline.cpp", defs={"ONLY": 1, "PIPES": 6}, path_instrs=300000000, quick={"NITEMS": 3}, thorough={"NITEMS": 6}, cover=["end", "thrown"]),
    J("files", "h/P36_pipeline.cpp", defs={"ONLY": 2, "PIPES": 4}, path_instrs=300000000, quick={"NITEMS": 2}, thorough={"NITEMS": 5}, cover=["end", "thrown"]),
] + [J("sorter_" + n, "h/P36_sorter.cpp", defs={"ONLY": i, "MAXPOINTS": 80}, path_instrs=300000000, quick={"COUNTS": "{2,5}"}, thorough={"COUNTS": "{1,2,3,5,9}"}, cover=["end", "thrown"]) for i, n in enumerate(["pointers", "explicit", "unique", "plain", "serialization"])]
+ [J(n, "h/P36_containers.cpp", defs={"ONLY": i}, path_instrs=300000000, quick={"PQN": 60, "NTH": 8, "STRIDE": 11}, thorough={"PQN": 100, "NTH": 40, "STRIDE": 1}, cover=["end", "thrown"] + (["bad_alloc"] if i in (1, 2) else [])) for i, n in enumerate(["streams", "ordered", "containers", "opens"])])
prop("P32", [J(n, "h/P32_bounds.cpp", defs={"ONLY": i}, quick={"CAP": 70}, thorough={"CAP": 300}, cover=["end", "small", "fits", "sums", "real"]) for i, n in enumerate(["arrays", "queues", "stacks", "pq_sets", "packed"])])
prop("P33", [J(n, "h/P33_tiny.cpp", defs={"ONLY": i}, quick={"NOPS": 2, "PRE": 2}, thorough={"NOPS": 3, "PRE": 3}, cover=["insert", "end"]) for i, n in enumerate(TINY)] + [J("sort", "h/P33_tiny.cpp", defs={"ONLY": 8}, cover=["sort"])])
prop("P34", [J(n, "h/P34_owning.cpp", defs={"ONLY": i}, quick={"NOPS": q}, thorough={"NOPS": th}, cover=["end"] + c) for i, (n, q, th, c) in enumerate([("maybe", 4, 6, ["construct"]), ("unique_ptr", 4, 5, ["big", "failed"]), ("vector", 3, 5, ["swap"]), ("deque", 3, 4, ["swap"]), ("list", 3, 5, ["swap"])])])
prop("P22", [J(n, "h/P22_memory.cpp", defs={"OP": i}, quick={"NOPS": q}, thorough={"NOPS": th}, cover=["end"] + c) for i, (n, q, th, c) in enumerate([("objects", 3, 4, ["ctor_failed", "limit", "array_ctor_failed"]), ("arrays", 2, 3, ["resize_ctor_failed", "fill_ctor_failed", "copy_ctor_failed"]), ("plain", 3, 5, ["resize_limit", "packed_limit"]), ("bad_alloc", 2, 3, ["bad_alloc"])])]
     + [J("amounts", "h/P22_amounts.cpp", quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "refused"])]
     + [J("threads", "h/P22_threads.cpp", quick={"PREEMPT": 3}, thorough={"PREEMPT": 5}, cover=["end", "refused"], atomics=True, **THREADS)])
prop("P13", [
    J("ordered", "h/P13_btree.cpp", defs={"ONLY": 0}, quick={"NOPS": 1, "MAXPRE": 22}, thorough={"NOPS": 2, "MAXPRE": 20}, cover=["end", "insert", "erase_key", "find_hit", "find_miss", "bound"]),
    J("greater_3_6", "h/P13_btree.cpp", defs={"ONLY": 1, "FA": 3, "FB": 6}, quick={"NOPS": 1, "MAXPRE": 14}, thorough={"NOPS": 2, "MAXPRE": 20}, cover=["end", "insert", "erase_key"]),
    J("tight_2_3", "h/P13_btree.cpp", defs={"ONLY": 0, "FA": 2, "FB": 3}, quick={"NOPS": 1, "MAXPRE": 12}, thorough={"NOPS": 2, "MAXPRE": 14}, cover=["end", "insert", "erase_key"]),
    J("scratch", "h/P13_btree.cpp", defs={"ONLY": 0}, quick={"NOPS": 4, "MAXPRE": 0}, thorough={"NOPS": 6, "MAXPRE": 0}, cover=["end", "insert", "erase_key"]),
    J("unordered", "h/P13_btree.cpp", defs={"ONLY": 2, "UNORDERED": 1}, quick={"NOPS": 1, "MAXPRE": 14}, thorough={"NOPS": 2, "MAXPRE": 20}, cover=["end", "insert", "erase_at"]),
])
prop("P06", [
    J("named", "h/P06_stack.cpp", defs={"ONLY": 0}, quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "reopen", "pop_empty"]),
    J("temp", "h/P06_stack.cpp", defs={"ONLY": 1}, quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "pop_empty"]),
    J("ami", "h/P06_stack.cpp", defs={"ONLY": 2}, quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "reopen", "pop_empty"]),
])
prop("P07", [J("queue", "h/P07_queue.cpp", quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "spill", "pop_empty"])])
prop("P02", [
    J("all", "h/P02_cstream.cpp", quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end", "save", "restore", "trunc_pos", "read_at_end", "back_at_start", "bad_write", "bad_trunc"]),
    J("normal", "h/P02_cstream.cpp", defs={"CMODE": 1, "USE_TEMP": 1, "PAD": -0x2130}, quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end", "save", "restore", "trunc_pos"]),
    J("none", "h/P02_cstream.cpp", defs={"CMODE": 0}, quick={"NOPS": 2, "INITS": "{0,7}"}, thorough={"NOPS": 3}, cover=["end", "save"]),
    J("factor2", "h/P02_cstream.cpp", defs={"BF": "2.0", "INITS": "{0,5,6,13}"}, quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end", "save"]),
    J("factor2_none", "h/P02_cstream.cpp", defs={"BF": "2.0", "CMODE": 0, "INITS": "{5,13}"}, quick={"NOPS": 1}, thorough={"NOPS": 2}, cover=["end", "save"]),
    J("long", "h/P02_long.cpp", quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "restored", "cut"], **THREADS),
    J("long_saved", "h/P02_long.cpp", defs={"PREOPS": "{3, 8}", "INITS": "{6}"}, quick={"NOPS": 4, "OPS": "{0, 1, 3, 4, 5, 6, 7, 9, 10, 11, 12}"}, thorough={"NOPS": 5}, cover=["end", "restored", "cut"], **THREADS),
    J("long_none", "h/P02_long.cpp", defs={"CMODE": 0, "INITS": "{5}"}, quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "restored", "cut"], **THREADS),
    J("long_normal", "h/P02_long.cpp", defs={"CMODE": 1, "PAD": -0x2130, "INITS": "{5}"}, quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end", "restored", "cut"], **THREADS),
    J("big_none", "h/P02_big.cpp", defs={"CMODE": 0}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "restored", "cut"]),
    J("big_normal", "h/P02_big.cpp", defs={"CMODE": 1}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "restored", "cut"]),
    J("big_all", "h/P02_big.cpp", quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "restored", "cut"]),
    J("ami_none", "h/P02_ami.cpp", defs={"CMODE": 0}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "end_of_stream", "short_read", "bad_seek", "reopened", "missing"]),
    J("ami_old", "h/P02_ami.cpp", defs={"OLD": 1}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "end_of_stream", "short_read", "bad_seek", "reopened", "missing"]),
    J("ami_all", "h/P02_ami.cpp", defs={"CMODE": 2}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "end_of_stream", "short_read", "bad_seek", "reopened", "refused"]),
    J("factor_third", "h/P02_cstream.cpp", defs={"BF": "0.34", "INITS": "{0,3}"}, quick={"NOPS": 2}, thorough={"NOPS": 3}, cover=["end", "save"]),
])
prop("P14", [
    J("ordered", "h/P14_xbtree.cpp", quick={"NOPS": 1, "MAXPRE": 10}, thorough={"NOPS": 2, "MAXPRE": 10}, cover=["end", "reopen", "insert", "erase_key", "find_hit", "find_miss", "bound", "move"]),
    J("unordered", "h/P14_xbtree.cpp", defs={"UNORDERED": 1}, quick={"NOPS": 1, "MAXPRE": 8}, thorough={"NOPS": 2, "MAXPRE": 8}, cover=["end", "reopen", "insert", "erase_at"]),
    J("evict", "h/P14_xbtree.cpp", quick={"NOPS": 1, "MAXPRE": 56, "MINPRE": 56}, thorough={"NOPS": 1, "MAXPRE": 120, "MINPRE": 90}, cover=["end", "reopen", "insert", "erase_key"]),
])
prop("P16", [
    J("blocks", "h/P16_blocks.cpp", quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "reuse", "reopen"]),
    J("cache1", "h/P16_blocks.cpp", defs={"CACHE": 1}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "reuse", "reopen"]),
    J("cache2", "h/P16_blocks.cpp", defs={"CACHE": 2, "PRE": 3}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "reuse", "reopen"]),
])
prop("P15", [
    J("internal_static", "h/P15_build.cpp", defs={"ONLY": 0}, quick={"MAXN": 14}, thorough={"MAXN": 30}, cover=["end", "find_hit", "find_miss", "bound"]),
    J("internal_dynamic", "h/P15_build.cpp", defs={"ONLY": 1}, quick={"MAXN": 14}, thorough={"MAXN": 30}, cover=["end", "find_hit", "bound"]),
    J("external", "h/P15_build.cpp", defs={"ONLY": 2}, quick={"MAXN": 10}, thorough={"MAXN": 24}, cover=["end", "find_hit", "bound", "reopen"]),
    J("serialized", "h/P15_build.cpp", defs={"ONLY": 3}, quick={"MAXN": 10}, thorough={"MAXN": 24}, cover=["end", "find_hit", "bound", "reopen", "damage", "v0"]),
    J("serialized_lz4", "h/P15_build.cpp", defs={"ONLY": 3, "FLAGS": "tpie::compress_lz4"}, quick={"MINN": 6, "MAXN": 7}, thorough={"MAXN": 16}, cover=["end", "find_hit", "bound", "reopen"]),
    J("serialized_snappy", "h/P15_build.cpp", defs={"ONLY": 3, "FLAGS": "tpie::compress_snappy"}, quick={"MINN": 6, "MAXN": 7}, thorough={"MAXN": 16}, cover=["end", "find_hit", "bound", "reopen"]),
    J("serialized_zstd", "h/P15_build.cpp", defs={"ONLY": 3, "FLAGS": "tpie::compress_zstd"}, quick={"MINN": 6, "MAXN": 7}, thorough={"MAXN": 16}, cover=["end", "find_hit", "bound", "reopen"]),
])
prop("P17", [J("serial", "h/P17_serial.cpp", quick={"LEN": 3}, thorough={"LEN": 4}, cover=["end"])])
NOT_APPLICABLE = {}
prop("P18", [
    J("forward", "h/P18_sstream.cpp", quick={"NV": 4, "LENS": "0,1,7,8,9,15,16,17,31,32,33"}, thorough={"NV": 5, "LENS": "0,1,7,8,9,15,16,17,31,32,33"}, cover=["end", "past_end", "stopped", "reopened", "opened_again", "unfinished"]),
    J("reverse", "h/P18_sstream.cpp", defs={"REVERSE": 1}, quick={"NV": 4, "LENS": "0,1,7,8,9,15,16,17,31,32,33"}, thorough={"NV": 5, "LENS": "0,1,7,8,9,15,16,17,31,32,33"}, cover=["end", "past_end", "stopped", "reopened", "opened_again", "unfinished"]),
    J("reverse_big", "h/P18_big.cpp", defs={"TPIE_SX_SERIALIZATION_BLOCK_SIZE": 16}, quick={"NV": 3}, thorough={"NV": 4}, cover=["end"]),
])
KINDS = ["uncompressed", "file", "file_stream", "normal", "all"]
prop("P03", [J(n, "h/P03_persist.cpp", defs={"KIND": i}, quick={"MAXI": 2, "ITEMSTEP": 3}, thorough={"MAXI": 7}, cover=["end", "refused", "user_data_only", "truncated", "rewritten", "read_session"]) for i, n in enumerate(KINDS)]
     + [J("reuse", "h/P03_reuse.cpp", quick={"SESSIONS": 3}, thorough={"SESSIONS": 4}, cover=["end", "missing"])])
prop("P04", [J(f"{w}_{n}", "h/P04_header.cpp", defs={"KIND": i, "ONLY": o}, cover=["end"] + c) for i, n in enumerate(KINDS) for o, (w, c) in enumerate((("header", ["accepted", "refused", "undamaged"]), ("short", ["refused", "missing"]), ("stopped", ["stopped", "finished"])))])
SOFT = "(SXF_READ_ERR|SXF_READ_SHORT|SXF_WRITE_SHORT|SXF_OPEN_ERR|SXF_CLOSE_ERR)"
HARD = "(SXF_WRITE_ERR|SXF_WRITE_ENOSPC|SXF_SEEK_ERR|SXF_EINTR)"
prop("P05",
     [J(f"faults_{n}", "h/P05_faults.cpp", defs={"KIND": i}, cover=["end", "injected", "beyond", "raised"]) for i, n in enumerate(KINDS[:2])]
     + [J(f"transfer_{n}", "h/P05_faults.cpp", defs={"KIND": i, "FAULTS": SOFT}, cover=["end", "injected", "beyond", "raised"]) for i, n in enumerate(KINDS) if i >= 2]
     + [J(f"write_errors_{n}", "h/P05_faults.cpp", max_viol=8, defs={"KIND": i, "FAULTS": HARD}, cover=["end", "injected", "beyond", "raised"]) for i, n in enumerate(KINDS) if i >= 2]
     + [J(f"truncate_{n}", "h/P05_faults.cpp", defs={"KIND": i, "OPS": 3, "NTH": 3, "FAULTS": "SXF_TRUNC_ERR", "MENU": "(TRUNC|APPEND|READ)"}, cover=["end", "injected", "beyond"]) for i, n in enumerate(KINDS)]
     + [J(f"serial_{n}", "h/P05_serial.cpp", defs={"REVERSE": i}, cover=["end", "open_failed", "read_retried", "raised", "serialize_failed"]) for i, n in enumerate(("forward", "reverse"))])
PK = KINDS + ["serial", "reverse_serial"]
prop("P23", [J(n, "h/P23_accounting.cpp", defs={"KIND": i}, quick={"STEPS": 4}, thorough={"STEPS": 6}, cover=["end", "closed", "released"] + (["truncated"] if i < 5 else [])) for i, n in enumerate(PK)]
     + [J(f"limit_{n}", "h/P23_accounting.cpp", defs={"KIND": i, "FAILING": 1}, quick={"STEPS": 3, "BITEMS": 2}, thorough={"STEPS": 5}, cover=["end", "failed_open"]) for i, n in enumerate(PK)]
     + [J(f"faults_{n}", "h/P23_accounting.cpp", defs={"KIND": i, "FAILING": 2}, quick={"STEPS": 3}, thorough={"STEPS": 4}, cover=["end", "failed_open"]) for i, n in enumerate(PK)]
     + [J("amounts", "h/P22_amounts.cpp", defs={"FILEMAN": 1}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "refused"])]
     + [J("usage", "h/P23_usage.cpp", quick={"NOPS": 4}, thorough={"NOPS": 5}, cover=["end"])]
     + [J("usage_threads", "h/P23_usage.cpp", defs={"THREADED": 1}, quick={"PREEMPT": 3}, thorough={"PREEMPT": 5}, cover=["end"], atomics=True, **THREADS)])
prop("P30", [J("files", "h/P30_temp.cpp", quick={"STEPS": 4}, thorough={"STEPS": 6}, cover=["end", "shared", "freed", "rebound", "assigned", "destroyed"])]
     + [J(f"anonymous_{n}", "h/P30_anon.cpp", defs={"KIND": i}, quick={"STEPS": 4}, thorough={"STEPS": 6}, cover=["end", "anonymous", "reopened", "named"]) for i, n in enumerate(KINDS)]
     + [J(f"names_{n}", "h/P30_names.cpp", defs={"HOW": i}, cover=["end", "collision", "other"]) for i, n in enumerate(("default", "user_directory", "directory", "extension", "user_directory_directory"))])
prop("P35", [
    J("two", "h/P35_shared.cpp", quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "shared", "read_at_end", "array_read", "detached"]),
    J("three", "h/P35_shared.cpp", defs={"NS": 3, "INITS": "{3}"}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "shared", "detached"]),
    J("single_item_blocks", "h/P35_shared.cpp", defs={"BITEMS": 1, "INITS": "{0,2}"}, quick={"NOPS": 3}, thorough={"NOPS": 4}, cover=["end", "shared", "detached"]),
])
prop("P11", [
    J("levels", "h/P11_pq.cpp", quick={"SIZES": "{14,58}", "POPS": "{1,20}", "PATTERNS": "{1,2,3}"}, thorough={"SIZES": "{14,30,45,58}", "POPS": "{1,5,20}"}, cover=["end", "files", "pop_equals"]),
    J("deep", "h/P11_pq.cpp", quick={"SIZES": "{187}", "POPS": "{40}", "PATTERNS": "{2}"}, thorough={"SIZES": "{60,187}", "POPS": "{1,40,100}", "PATTERNS": "{0,1,2,3}"}, cover=["end", "files"]),
    J("internal", "h/P11_pq.cpp", defs={"INTERNAL": 32}, quick={"SIZES": "{3,16}", "POPS": "{1,8}"}, thorough={"SIZES": "{3,7,16}", "POPS": "{1,8}", "SYMS": 2}, cover=["end", "pop_equals"]),
])
prop("P20", [
    J("runs", "h/P20_merge.cpp", quick={"COUNTS": "{0,1,2,3,4}"}, thorough={"COUNTS": "{0,1,2,3,4,5,6}", "RUNS": "{1,2,3}"}, cover=["end", "external", "in_memory", "evacuated_before_merging", "evacuated_before_reporting"]),
    J("levels", "h/P20_merge.cpp", defs={"SYMS": 1, "BITEMS": 3}, quick={"COUNTS": "{9,13,19}", "RUNS": "{2}", "FANOUTS": "{2,3}", "PATTERNS": 2}, thorough={"COUNTS": "{9,13,19,28,40}", "RUNS": "{1,2,3}", "FANOUTS": "{2,3,4}"}, cover=["end", "external"]),
    J("computed", "h/P20_merge.cpp", defs={"SYMS": 1, "COMPUTED": 1, "BITEMS": 3}, quick={"COUNTS": "{17,100}", "LIMITS": 3, "PATTERNS": 2}, thorough={"COUNTS": "{4,5,15,16,17,33,100,170}"}, cover=["end", "external"]),
] + [J(f"store_{x}", "h/P20_merge.cpp", defs={"STORE": i + 1}, quick={"COUNTS": "{0,2,3}", "FANOUTS": "{2}"}, thorough={"COUNTS": "{0,1,2,3,4,5}"}, cover=["end", "external"]) for i, x in enumerate(("pointer", "explicit_pointer", "unique_pointer"))] + [
    J(f"stream{x}", "h/P20_stream.cpp", defs={"COMPRESSED": c, "SMALLMEM": 1500000}, quick={"COUNTS": q}, thorough={"COUNTS": "{0,1,2,3,32,33,70,100}", "PATTERNS": 3}, cover=["end", "external"]) for x, c, q in (("", 0, "{0,3,70}"), ("_compressed", 1, "{3,40}"))])
prop("P21", [
    J("runs", "h/P21_sersort.cpp", quick={"COUNTS": "{0,1,2,3}", "SIZES": 3}, thorough={"COUNTS": "{0,1,2,3,4,5}"}, cover=["end", "several_runs", "evacuated_before_merging", "evacuated_before_reporting", "stopped"]),
    J("levels", "h/P21_sersort.cpp", defs={"SYMS": 1}, quick={"COUNTS": "{9}", "SIZES": 2, "LENS": "{0,16}"}, thorough={"COUNTS": "{7,9,13,17}"}, cover=["end", "several_runs", "stopped"]),
    J("limits", "h/P21_sersort.cpp", defs={"SYMS": 1, "LIMITS": 1}, quick={"COUNTS": "{2,4}", "LENS": "{3}", "SIZES": 1}, thorough={"COUNTS": "{0,1,2,4,7}"}, cover=["end", "refused"]),
])
prop("P25", [
    J("ami", "h/P25_ami.cpp", quick={"NMAX": 4}, thorough={"NMAX": 6}, cover=["end", "items"], path_instrs=300000000),
    J("dynamic", "h/P25_dynamic.cpp", quick={"LEN": 2, "NMAX": 3}, thorough={"LEN": 3}, cover=["end", "items"]),
] + [J(x, "h/P25_nodes.cpp", defs={"ONLY": i}, quick={"NMAX": 3}, thorough={"NMAX": 4}, cover=["end", "items"]) for i, x in enumerate(("push", "pull", "files", "phases"))
])
prop("P26", [
    J("pairs", "h/P26_phases.cpp", defs={"MODE": 0, "NODES": 3}, cover=["end", "ran", "refused"]),
    J("edges", "h/P26_phases.cpp", defs={"MODE": 1, "NODES": 4}, quick={"EDGES": 3}, thorough={"EDGES": 4}, cover=["end", "ran", "refused"]),
    J("order", "h/P26_phases.cpp", defs={"MODE": 2}, quick={"NODES": 4, "KINDS": 4}, thorough={"NODES": 5, "KINDS": 3}, cover=["end", "ran", "evacuated"]),
    J("sets", "h/P26_sets.cpp", thorough={"PIPES": 4}, cover=["end", "ordered", "refused"]),
    J("kinds", "h/P26_kinds.cpp", defs={"KIND": 0}, cover=["end", "depends"], **dict(THREADS, path_instrs=300000000)),
    J("kinds_sort", "h/P26_kinds.cpp", defs={"KIND": 1}, cover=["end", "depends"], path_instrs=300000000),
    J("kinds_ser", "h/P26_kinds.cpp", defs={"KIND": 2}, cover=["end", "depends"], path_instrs=300000000),
    J("many_bruteforce", "h/P26_large.cpp", quick={"SRC": 4, "SNK": 5, "EXTRA": 0}, thorough={"SRC": 5, "SNK": 5, "EXTRA": 1}, cover=["end", "taken over"], path_instrs=300000000),
    J("many_greedy", "h/P26_large.cpp", quick={"SRC": 6, "SNK": 6}, thorough={"SRC": 7, "SNK": 9}, cover=["end", "taken over"], path_instrs=300000000),
])
prop("P27", [
    J("memory", "h/P27_assign.cpp", defs={"RES": 0, "FRACTIONS": "{{1,1,0},{0.5,0.25,0},{0,1,0}}"}, quick={"TOP": 7}, thorough={"TOP": 31}, cover=["end", "scarce", "fits"]),
    J("files", "h/P27_assign.cpp", defs={"RES": 1, "FRACTIONS": "{{1,3,0},{0,0,0},{2,1,0}}"}, quick={"TOP": 7}, thorough={"TOP": 15}, cover=["end", "scarce", "fits"]),
    J("three", "h/P27_assign.cpp", defs={"RES": 0, "NODES": 3, "FRACTIONS": "{{1,1,1}}"}, quick={"TOP": 3}, thorough={"TOP": 7}, cover=["end", "scarce", "fits"]),
    J("shared", "h/P27_assign.cpp", defs={"RES": 0, "NODES": 2, "DS": 1, "FRACTIONS": "{{1,1,2}}"}, quick={"TOP": 3}, thorough={"TOP": 7}, cover=["end", "scarce", "fits"]),
    J("phases", "h/P27_assign.cpp", defs={"RES": 0, "NODES": 2, "DS": 1, "PHASES": 2, "FRACTIONS": "{{1,1,1},{1,3,1}}"}, quick={"TOP": 3}, thorough={"TOP": 7}, cover=["end", "scarce", "fits"]),
])
prop("P37", [
    J("graph", "h/P37_forward.cpp", quick={"NODES": 4, "EDGES": 3}, thorough={"NODES": 5, "EDGES": 4}, cover=["end", "reached"]),
    J("pipes", "h/P37_pipes.cpp", cover=["end", "forwarded"]),
    J("kinds", "h/P37_kinds.cpp", defs={"KIND": 0}, cover=["end", "behind", "through"], **dict(THREADS, path_instrs=300000000)),
    J("kinds_sort", "h/P37_kinds.cpp", defs={"KIND": 1}, cover=["end", "behind", "through"], path_instrs=300000000),
    J("kinds_ser", "h/P37_kinds.cpp", defs={"KIND": 2}, cover=["end", "behind", "through"], path_instrs=300000000),
])
prop("P38", [
    J("log", "h/P38_log.cpp", quick={"OPS": 3}, thorough={"OPS": 4}, cover=["end", "file"], path_instrs=100000000),
    J("groups", "h/P38_log.cpp", defs={"NESTING": 1}, quick={"OPS": 4}, thorough={"OPS": 6}, cover=["end", "file"]),
])
if os.environ.get("SX_DEV"): # self-tests of the engine, no property of TPIE
    prop("XFP", [J("fp", "h/XFP_engine.cpp", cover=["neg"])])
