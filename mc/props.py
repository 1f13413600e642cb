"""Registry of properties: statement text, anchors and how each is decided.
gen.py turns it into properties.jsonl and MANIFEST.json; check.py runs it."""
ASSUME = ["yacl, arrow, SEAL and the other third-party libraries are replaced by stand-ins of their documented behaviour (shim/)",
          "sequentially consistent memory; one thread runs at a time",
          "the public-key and hash primitives are exercised on enumerated small inputs with a seeded generator"]
PROPS = {}
NA = []
SEEDS = {}   # planted change -> checks that catch it (default: its own property)
FIXED = ""
FALSE = ""
def P(id, title, statement, over, qtext, why, files, mech, runs, level, technique, note, rule, **kw):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files.split(), mech=[dict(name=a, where=b) for a, b in mech],
                     runs=runs, level=level, technique=technique, note=note, rule=rule, **kw)

P("P01", "Two-party PSI outputs exactly the requested join of the two input tables",
  "For every pair of input tables, protocol and join type, each party entitled to the result ends up with exactly its own rows that the requested join (intersection, inner, left, right, full or difference) prescribes, each repeated as often as the peer's duplicates require, with blank rows standing for peer-only keys, under its own header. "
  "The reported row and key counts describe the true inputs and the true intersection, and the input files are left untouched.",
  ["inputs", "configurations"],
  "all key multisets over a small alphabet on both sides (multiplicity 0..2 per key), every protocol, join type, choice of left side, disclosure flag, row order, and the option sets listed in DESIGN.md",
  "The integration tests run a handful of fixed tables per protocol; duplicates, empty joins, side selection and the option cross product are sampled at single points, and they cannot run here at all.",
  "psi/interface.cc psi/algorithm/psi_operator.cc psi/algorithm/ecdh/sender.cc psi/algorithm/ecdh/receiver.cc psi/algorithm/kkrt/sender.cc psi/algorithm/kkrt/receiver.cc psi/algorithm/rr22/sender.cc psi/algorithm/rr22/receiver.cc psi/utils/join_processor.cc psi/utils/table_utils.cc psi/utils/key.cc psi/utils/index_store.cc",
  [("party lifecycle (init, pre-process, online, post-process)", "psi/interface.cc"), ("protocol operators", "psi/algorithm/*/{sender,receiver}.cc"), ("join of result indices with the input table", "psi/utils/join_processor.cc")],
  [("h_psi", {"PSI_SET": "join"}, []), ("h_psi", {"PSI_SET": "opts"}, []), ("h_psi", {"PSI_SET": "quote"}, [])], "exploration", "stateless model checking of the real two-party stack over an exhaustively enumerated input/configuration space",
  "every table pair and configuration within the bounds is executed on the real code under a controlled scheduler and compared with the relational definition of the join",
  "one case per (configuration, receiver multiset, sender multiset, row order); non-trivial = distinct case that completed with a compared result")

P("P02", "A party receives nothing about keys beyond the result it is entitled to",
  "Whatever the inputs, no key is ever sent in the clear, nor any value that is a function of a key alone, and keys that the result does not show change neither the number nor the sizes of the messages the other party receives. "
  "A party that is not given the result sees message sizes that depend only on set sizes, and cannot find out with its own secret which of its keys the peer holds.",
  ["inputs", "configurations"], "every observer (either party) x protocol x disclosure flag x option set x 12 (own, common) key patterns x 1..2 (3) private keys with and without duplicates, each compared with the same table with other private keys under two seeds (12 more to confirm); message sizes seen by a party without result for all receiver tables over 4 (5) keys",
  "The tests never look at the messages.",
  "psi/algorithm/ecdh/ecdh_psi.cc psi/algorithm/ecdh/sender.cc psi/algorithm/ecdh/receiver.cc psi/algorithm/kkrt/kkrt_psi.cc psi/algorithm/rr22/rr22_psi.cc psi/algorithm/rr22/rr22_oprf.cc psi/algorithm/rr22/rr22_utils.cc psi/utils/sync.cc psi/utils/bucket.cc psi/interface.cc experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc",
  [("masking and who is sent dual-masked items", "psi/algorithm/ecdh/ecdh_psi.cc"), ("oblivious evaluation", "psi/algorithm/{kkrt,rr22}/*.cc"), ("result broadcast", "psi/utils/bucket.cc")],
  [("h_net", {"NET_SET": "view"}, [])], "exploration", "exhaustive enumeration of two-party executions of the real code with a monitor comparing the complete message views of paired executions",
  "every pair of executions within the bounds is run on the real code; decides the stated observable conditions, not cryptographic indistinguishability; the stand-in oblivious transfer and vector OLE carry their choices outside the observed link; message sizes of bucketed runs depend on bucket occupancy by design and are not compared",
  "one case per (configuration, observer, tables); non-trivial = distinct case with compared views")

P("P04", "A run that crashed resumes to exactly the result of an undisturbed run",
  "With recovery enabled, whatever the point at which one or both parties are killed, starting both again with the same configuration ends normally with exactly the outputs and reports of an undisturbed run. "
  "A party that survives the crash of its peer ends with an error instead of hanging or working forever.",
  ["crash_points", "configurations"],
  "every file-system operation of either party x {killed before it, in the middle of a write, after it} x {peer killed too, peer lives on}, for ECDH, KKRT and RR22 with duplicates, with and without broadcast, unique keys, equal inputs, low-communication mode and threshold PSI; thorough adds outer joins, a second crash at every operation of the resumed run and crashes under every single schedule deviation",
  "The tests interrupt one protocol at one hand-picked batch through a hook; files are never cut short and no crash hits the bookkeeping itself.",
  "psi/checkpoint/recovery.cc psi/checkpoint/recovery.h psi/interface.cc psi/algorithm/ecdh/ecdh_psi.cc psi/algorithm/ecdh/sender.cc psi/algorithm/ecdh/receiver.cc psi/algorithm/kkrt/kkrt_psi.cc psi/algorithm/kkrt/sender.cc psi/algorithm/kkrt/receiver.cc psi/algorithm/rr22/rr22_psi.h psi/algorithm/rr22/sender.cc psi/algorithm/rr22/receiver.cc psi/utils/hash_bucket_cache.cc psi/utils/index_store.cc psi/utils/pb_helper.cc",
  [("checkpoint record", "psi/checkpoint/recovery.cc"), ("stores of dual-masked items", "psi/utils/hash_bucket_cache.cc"), ("result index file", "psi/utils/index_store.cc"), ("resume point of ECDH", "psi/algorithm/ecdh/ecdh_psi.cc"), ("resume point of the bucketed protocols", "psi/algorithm/{kkrt,rr22}/*.cc")],
  [("h_crash", {}, [])], "fault_enumeration", "exhaustive enumeration of crash points and torn writes of the real two-party stack, each followed by the real resumed run",
  "every crash point within the bounds is executed on the real code (forked process, file operations intercepted) and the resumed run compared with the relational definition; completed file operations survive a crash (process crash, not power loss); key batches of 2 items through the PSI_MC_BATCH_SIZE hook so that small inputs have several batches",
  "one evaluation per (configuration, party, peer mode, file operation, position in it); non-trivial = a crash happened and the resumed run was compared")

P("P06", "A failing file, tool or link never yields a wrong result reported as success",
  "When any file operation or helper command of a party fails, or its link breaks at any message, every party ends, and a party that reports success has produced exactly the right output. "
  "A failed send is always reported by the party that sent, and with recovery enabled the next run, once the failure is repaired, gives exactly the right result.",
  ["fault_points", "configurations"], "12 configurations (protocols, disclosure, recovery, full join, unique keys, buckets) x either party x every modifying file operation failing once or from then on, on tables of one and of several writes per file; every start of each command of the sort pipeline failing at once, after a part of its output, or killed; every send and receive failing from then on, on one or on all channels",
  "The tests run without failures only.",
  "psi/utils/io.cc psi/utils/join_processor.cc psi/utils/table_utils.cc psi/utils/key.cc psi/utils/index_store.cc psi/utils/hash_bucket_cache.cc psi/utils/sync.h psi/interface.cc psi/checkpoint/recovery.cc psi/algorithm/ecdh/ecdh_psi.cc psi/algorithm/kkrt/kkrt_psi.cc psi/algorithm/rr22/rr22_psi.cc",
  [("result and intermediate files", "psi/utils/{io,join_processor,table_utils,index_store}.cc"), ("external sort", "psi/utils/key.cc"), ("joint wait and error exchange", "psi/utils/sync.h")],
  [("h_net", {"NET_SET": "io"}, [])], "fault_enumeration", "exhaustive enumeration of single and permanent failures of file operations, helper commands and messages of the real two-party stack",
  "every failure point within the bounds is executed on the real code (forked process, operations intercepted); failures of reads and removals are not injected; a process that aborts counts as having reported the failure",
  "one evaluation per (configuration, party, failure point, mode); non-trivial = distinct failure whose outcome was judged")

P("P07", "Parties whose settings do not fit refuse before anything about keys is sent",
  "If the two parties differ in any setting that both must share, or one party's own settings are invalid, both end with an error, no output is written, and nothing sent until then depends on the keys or their number. "
  "Settings that concern one party only never make a run fail or change the result.",
  ["configurations"], "36 base configurations x 28 single-field changes x the party at which the field is changed; each refusal is repeated with other tables and the messages compared",
  "The tests check two mismatches.", "psi/interface.cc psi/apps/psi_launcher/factory.cc psi/utils/join_processor.cc psi/algorithm/ecdh/ecdh_psi.cc",
  [("self and peer configuration check", "psi/interface.cc")],
  [("h_net", {"NET_SET": "mismatch"}, [])], "exploration", "exhaustive enumeration of configuration pairs on the real two-party stack, with a monitor comparing the messages of paired executions",
  "every configuration pair within the bounds is executed on the real code",
  "one case per (base configuration, field, party); non-trivial = distinct case where the change applies")

P("P08", "Unbalanced PSI gives the exact join for every history of caches and queries",
  "For every server and client table, every way of producing the cache (at once, offline then online, or generated and transferred separately), every join type and every choice of who gets the result, each entitled party ends up with exactly the rows the join prescribes and a party not entitled to the result gets neither rows nor counts. "
  "The same holds for every later query over the same cache and after the cache was replaced by a newer one, and the online stage needs nothing of the server's table but the cache.",
  ["inputs", "configurations", "histories"],
  "all pairs of key multisets over 2 keys (multiplicity 0..2) x cache path x join type x side x disclosure; all pairs over 3 keys with server batches of 1, 2 and all, client batches of 2; histories of up to 2 (thorough 5) queries and cache replacements",
  "The tests run three fixed tables per mode; query sequences over one cache, replaced caches and duplicates split over batches are not sampled.",
  "psi/algorithm/ecdh/ub_psi/server.cc psi/algorithm/ecdh/ub_psi/client.cc psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc psi/utils/ec_point_store.cc psi/utils/join_processor.cc psi/interface.cc",
  [("server and client roles", "psi/algorithm/ecdh/ub_psi/{server,client}.cc"), ("oblivious evaluation and shuffling", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc"), ("server cache", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"), ("client stores and comparison", "psi/utils/ec_point_store.cc")],
  [("h_ub", {"UB_SET": "plain"}, [])], "exploration", "stateless model checking of the real two-party stack over exhaustively enumerated inputs, configurations and query histories",
  "every history within the bounds is executed on the real code under a controlled scheduler and compared with the relational definition of the join; the shuffles come from a seeded generator",
  "one case per (configuration, history, row order); non-trivial = distinct history prefix with a compared result")

P("P09", "A threshold limits the disclosed intersection to exactly that many keys",
  "When an intersection threshold is set, balanced or unbalanced, every entitled party obtains the join restricted to min(threshold, intersection size) of the common keys, the same keys for both parties, and nothing else. "
  "The optional count file holds the true and the restricted number of common keys, and equal inputs, duplicates, batches and recovery do not change any of this.",
  ["inputs", "configurations"],
  "all pairs of key multisets over 2 keys (multiplicity 0..2) and key sets over 3 keys, thresholds 1..3, join types, disclosure flags, batches, unique-key inputs, digest check, recovery; for unbalanced PSI also the cache paths, batches and repeated queries",
  "The tests use one table pair and look at the size of the result only.",
  "experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc experiment/psi/threshold_ecdh_psi/sender.cc experiment/psi/threshold_ecdh_psi/receiver.cc experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc experiment/psi/threshold_ub_psi/server.cc experiment/psi/threshold_ub_psi/client.cc experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.cc psi/interface.cc psi/utils/index_store.cc",
  [("shuffled masking and index restoration", "experiment/psi/threshold_ecdh_psi/*.cc"), ("threshold in unbalanced PSI", "experiment/psi/threshold_ub_psi/*.cc"), ("early stop on equal inputs", "psi/interface.cc")],
  [("h_psi", {"PSI_SET": "thr"}, []), ("h_ub", {"UB_SET": "threshold"}, [])], "exploration", "stateless model checking of the real two-party stacks over exhaustively enumerated inputs and configurations",
  "every table pair and configuration within the bounds is executed; which keys survive is free, so an execution is accepted if one choice of keys explains the outputs, counts and row alignment of both parties",
  "one case per (configuration, tables, row order); non-trivial = distinct case with a compared result")

P("P10", "Multi-party protocols give exactly the common items of all parties",
  "For any number of parties, any assignment of the roles, any curve and any item sets (empty, disjoint, nested, of unequal sizes, where the protocol accepts them), the receiver obtains exactly the items that every party holds, each once. "
  "The other parties obtain the same items if the result is broadcast and nothing otherwise, and all messages are consumed.",
  ["inputs", "configurations"],
  "in-memory KKRT 2-party, ECDH 3-party, ECDH and KKRT n-party for n = 2..7, the server-aided protocol for n = 3..5 with every role assignment, KMPRT17 for n = 2..4 (quick) or 2..5 (thorough) with every leader; every receiver, broadcast on and off; all distributions of up to 4 (thorough 6) keys over the subsets of 2 parties, up to 4 (5) over 3, up to 3 (4) over 4, one party without the common keys for more; 5 curves",
  "The tests run a few random sets of one shape with rank 0 or 1 as receiver.",
  "psi/legacy/memory_psi.cc psi/legacy/kkrt_2party_psi.cc psi/legacy/ecdh_3party_psi.cc psi/legacy/nparty_psi.cc psi/algorithm/ecdh/ecdh_3pc_psi.cc psi/algorithm/nty/nty_mp_psi.cc psi/algorithm/nty/server_aided_psi.cc experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc experiment/psi/kmprt17_mp_psi/kmprt17_opprf.cc experiment/psi/kmprt17_mp_psi/kmprt17_hashing.cc psi/algorithm/psi_operator.cc",
  [("tree of two-party intersections", "psi/legacy/nparty_psi.cc"), ("masking by three parties", "psi/algorithm/ecdh/ecdh_3pc_psi.cc"), ("zero sharing", "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc"), ("server-aided steps", "psi/algorithm/nty/*.cc")],
  [("h_multi", {"MU_SET": "mem"}, []), ("h_multi", {"MU_SET": "nty"}, []), ("h_multi", {"MU_SET": "kmprt"}, [])], "exploration", "stateless model checking of the real n-party stacks over exhaustively enumerated inputs, roles and configurations",
  "every case within the bounds is executed on the real code and the parties' outputs compared with the set intersection; the server-aided protocol is run with non-empty sets only",
  "one case per (protocol, roles, curve, sets, order); non-trivial = distinct case with compared results")

P("P11", "Table-level multi-party runs keep exactly the rows with common keys",
  "For every party entitled to the result, the output table has the input's header and exactly those of its rows whose key columns occur in every party's table, unchanged, in input order or, with sorting on, in the same key order for all parties, and the report holds the true counts. "
  "Parties that are not entitled get no output and no size, no intermediate file is left behind, and a table with repeated or empty keys, a missing column or no file is refused by all parties.",
  ["inputs", "configurations"],
  "KKRT 2-party, ECDH 3-party, ECDH and KKRT n-party over tables: every receiver, broadcast, sorting, one or two key columns at different positions, bucket sizes that give 1 to several buckets, all key distributions of up to 4 (2 parties) or 3 (3 parties) keys (quick) or 6 and 7 (thorough), both row orders; 7 kinds of unusable table at every party",
  "The tests use a couple of generated tables and compare the sorted key column.",
  "psi/legacy/bucket_psi.cc psi/legacy/nparty_psi.cc psi/legacy/kkrt_2party_psi.cc psi/legacy/ecdh_3party_psi.cc psi/utils/csv_checker.cc psi/utils/bucket.cc psi/utils/hash_bucket_cache.cc psi/utils/arrow_csv_batch_provider.cc psi/utils/key.cc",
  [("rows selected by index", "psi/legacy/bucket_psi.cc FilterFileByIndices"), ("bucket by bucket", "psi/legacy/bucket_psi.cc RunBucketPsi"), ("input check", "psi/utils/csv_checker.cc")],
  [("h_multi", {"MU_SET": "bucket"}, [])], "exploration", "stateless model checking of the real n-party table pipeline over exhaustively enumerated tables and configurations",
  "every case within the bounds is executed on the real code and each output table compared row by row with the relational definition; values contain no line breaks",
  "one case per (protocol, receiver, flags, bucket size, key distribution, row order) or (protocol, unusable table); non-trivial = distinct case with compared outputs")

P("P12", "The result does not depend on how threads are scheduled",
  "Whatever the order in which the threads of all parties run, a private set intersection run finishes on every side and yields exactly the defined result, the same one as in any other order. "
  "No order makes a party hang, fail, crash or drop, repeat or invent a row.",
  ["schedules"],
  "two-party PSI with all three protocols with and without broadcast and recovery, RR22 without buckets in both modes, threshold PSI, unbalanced PSI (offline/online, with cache, all result sides, threshold), ECDH 3-party and n-party, KKRT n-party, server-aided, OPPRF and the 3-party bucket pipeline: every execution with at most one forced switch at any scheduling point, around each of three default orders (round robin, oldest thread first, newest thread first); scheduling points are messages, locks, thread starts, atomics and every access to memory that the default execution leaves unordered (vector clocks); one input (quick) or two or three inputs and more configurations (thorough); parallel loops run one thread per chunk, batches hold two items",
  "A test run sees the one order the operating system happens to choose, and the races here need a preemption inside a window of a few instructions.",
  "psi/algorithm/rr22/rr22_utils.cc psi/algorithm/rr22/receiver.cc psi/algorithm/rr22/sender.cc psi/algorithm/rr22/rr22_psi.cc psi/algorithm/kkrt/kkrt_psi.cc psi/algorithm/ecdh/ecdh_psi.cc psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc psi/checkpoint/recovery.cc psi/utils/ec_point_store.cc psi/algorithm/nty/server_aided_psi.cc experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc psi/utils/sync.cc",
  [("result merged by several threads", "psi/algorithm/rr22/rr22_utils.cc GetIntersectionReceiver"), ("hash map built beside the receive", "psi/algorithm/rr22/rr22_utils.cc map_f"), ("mask and recv threads", "psi/algorithm/ecdh/ecdh_operator.cc"), ("shared checkpoint", "psi/checkpoint/recovery.cc"), ("evaluation threads", "psi/algorithm/ecdh/ub_psi/client.cc")],
  [("h_sched", {"PSI_SET": "sched"}, []), ("h_sched_ub", {"UB_SET": "sched"}, []), ("h_sched_multi", {"MU_SET": "sched"}, [])], "exploration", "delay-bounded stateless model checking of the real multi-threaded code under a controlled scheduler with happens-before reduction of memory points",
  "exhaustive within one deviation from three deterministic default orders; memory that is ordered by locks, joins and atomics in the default execution gets no scheduling points of its own; sequential consistency, so no weak-memory effects; every execution's rows are compared with the definition",
  "one execution per schedule; non-trivial = distinct case with compared outputs")

P("P37", "An unbalanced-PSI cache that was cut short is never silently used",
  "Whatever point at which building or replacing the offline caches is cut short (a party killed before, within or after any file operation, a failing file operation, a broken link), the next query either reports an error or is exactly right for a table whose caches are complete, and building the cache again makes queries exact. "
  "A query that is cut short in the same ways leaves the caches intact: it never reports a wrong result, and the same query repeated gives exactly the right one.",
  ["crash_points", "fault_points", "histories"], "5 configurations (disclosure, server key file, threshold) x {first cache, replacement of an older cache, query} x {one offline step, generation and transfer apart} x either party x every file operation {killed before, in the middle, after; with or without the peer; failing once or from then on} and every message of the party's link, each followed by a query, a rebuild, and a query",
  "The tests build each cache once, without failures.",
  "psi/utils/ec_point_store.cc psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc psi/algorithm/ecdh/ub_psi/client.cc psi/algorithm/ecdh/ub_psi/server.cc experiment/psi/threshold_ub_psi/client.cc psi/utils/join_processor.cc psi/utils/key.cc psi/utils/pb_helper.cc",
  [("client cache of the server's items", "psi/utils/ec_point_store.cc"), ("server cache", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"), ("order of replacement", "psi/algorithm/ecdh/ub_psi/client.cc")],
  [("h_ub", {"UB_SET": "fault"}, [])], "fault_enumeration", "exhaustive enumeration of crash points, failing file operations and broken links of the real cache build and query, each followed by real queries and rebuilds",
  "every point within the bounds is executed on the real code (forked process, operations intercepted) and every later query compared with the relational definition; completed file operations survive a crash (process crash, not power loss); failures of reads and removals are not injected",
  "one evaluation per (configuration, stage, party, fault, position); non-trivial = distinct fault whose later queries were judged")

P("P13", "Oblivious key-value store decodes every encoded key to its value",
  "For every set of distinct keys and every value vector, the key-value encoding used by the OKVS-based protocol decodes each encoded key to its value, whatever the instance size, dense-part type, sparse weight, randomisation, bin layout, thread count or decode batching. "
  "Multi-threaded encoding and decoding give the same values under every thread schedule.",
  ["inputs", "configurations", "schedules"],
  "every instance size 1..130 (quick) or 1..400 (thorough), 4 key families, both dense types, sparse weights 3 and 5, randomised and plain, bin sizes 8..512, 0..3 threads with all schedules up to the preemption bound",
  "The unit tests encode one random instance per parameter; duplicate rows in the gap, remainders of the 32/8-wide loops and schedules of the threaded solver are not reached.",
  "psi/algorithm/rr22/okvs/paxos.cc psi/algorithm/rr22/okvs/paxos.h psi/algorithm/rr22/okvs/paxos_utils.h psi/algorithm/rr22/okvs/paxos_hash.cc psi/algorithm/rr22/okvs/dense_mtx.cc psi/algorithm/rr22/okvs/baxos.cc psi/algorithm/rr22/okvs/aes_crhash.cc",
  [("triangulation and back-fill", "psi/algorithm/rr22/okvs/paxos.cc"), ("binning and threading", "psi/algorithm/rr22/okvs/baxos.cc")],
  [("h_okvs", {"OKVS_SET": "paxos"}, [])], "exploration", "exhaustive enumeration of bounded instances on the real code; schedule exploration of the threaded solver",
  "all instances within the bounds are executed on the real encoder and decoder; the threaded solver is explored with bounded deviations from the default schedule",
  "one evaluation per decoded key; non-trivial = distinct (instance, parameters, seed)")
P("P14", "GF(2^128) arithmetic is the field arithmetic of x^128+x^7+x^2+x+1",
  "Multiplication (hardware and portable), powers and inverses of 128-bit field elements agree with polynomial arithmetic modulo x^128+x^7+x^2+x+1 for all operands.",
  ["inputs"], "all 128 x 128 products of monomials (which determine every product, the operation being bilinear), all pairs and triples of 19 structured elements, all exponents 0..70",
  "The tests check a few random products.",
  "psi/algorithm/rr22/okvs/galois128.cc psi/algorithm/rr22/okvs/galois128.h",
  [("reduction of the 256-bit product", "psi/algorithm/rr22/okvs/galois128.cc")],
  [("h_okvs", {"OKVS_SET": "gf"}, [])], "exploration", "exhaustive enumeration of a basis of the bilinear operation plus law instances, on the real code",
  "every product of basis elements is evaluated on the real code; bilinearity is itself checked on structured triples only",
  "one evaluation per product or law instance; non-trivial = distinct operand pair")
P("P15", "Bin sizes keep the probability of an overflowing bin below the stated bound",
  "For every number of items and bins, the bin capacity chosen for a security parameter makes the probability that some bin receives more items than its capacity at most two to the minus that parameter, and the exact mode never exceeds the number of items.",
  ["inputs"], "every exact size for up to 40 bins and 200 (400) items, every cell 2^0..2^24 x 2^0..2^24 of the tables for four security parameters, and the item/bin ratios the PSI uses for up to 80 bins and 8 threads",
  "The tests compare one value; the tables have thousands of cells.",
  "psi/algorithm/rr22/okvs/simple_index.cc psi/algorithm/rr22/okvs/baxos.cc",
  [("bin size tables and interpolation", "psi/algorithm/rr22/okvs/simple_index.cc")],
  [("h_okvs", {"OKVS_SET": "bins"}, [])], "exploration", "exhaustive enumeration of parameters against the union bound computed independently",
  "every parameter cell within the bounds is evaluated on the real function", "one evaluation per (bins, items, security); non-trivial = distinct parameters")
P("P22", "Progress reports reflect the work tree and never go backwards",
  "At every moment of every history of a progress tree, a report equals the weighted completion of the tree: percentage within 0..100, finished, running and total job counts of the leaves, and the description of the active part. "
  "Completed nodes stay complete, and while workers and an observer run concurrently the observed percentages never decrease, no access races and no deadlock occurs.",
  ["histories", "schedules"], "all operation histories (update, done, set weights, set job count, add and advance sub-progress) over trees of up to 5 nodes to the stated depth, and all interleavings of three concurrent scenarios up to the preemption bound",
  "The tests run two fixed sequential histories.",
  "psi/utils/progress.cc psi/utils/progress.h",
  [("aggregation of weighted children", "psi/utils/progress.cc"), ("locking of the tree", "psi/utils/progress.cc")],
  [("h_progress", {}, [])], "model_checking", "explicit-state search of a reference model with every transition replayed on the implementation; stateless exploration of thread interleavings at memory-access granularity",
  "all reachable model states within the bounds, each transition validated on the real code; histories in which a completed node is updated again, or has more children than weights, are outside the property",
  "states = distinct abstract trees; transitions = operations applied to model and implementation and compared")
P("P16", "The cuckoo table stores every input exactly once in one of its own bins",
  "For every input sequence and every way of splitting it into insertions, the hash index holds each input exactly once, in a bin selected by one of that input's hashes and tagged with that hash, or in the stash. "
  "An input is refused only when the stash has no room, and the parameters the library selects never refuse.",
  ["inputs", "configurations"], "all hash placements of up to 5 inputs in the stated numbers of bins (12 shapes), and every size 1..700 (3000) under the selected parameters with two hash families and irregular insertion batches",
  "The tests insert random inputs; eviction cycles, colliding hashes of one input and full stashes almost never occur there.",
  "psi/utils/cuckoo_index.cc psi/utils/cuckoo_index.h",
  [("eviction walk and stash", "psi/utils/cuckoo_index.cc")],
  [("h_utils", {"UT_SET": "cuckoo"}, [])], "exploration", "exhaustive enumeration of hash placements on the real index",
  "every placement within the bounds is inserted into the real index and its whole content compared with the hashes", "one evaluation per placement; non-trivial = distinct (shape, placement)")
P("P17", "Sorting and key grouping keep every row, its order and its duplicate count",
  "For every table and choice of key columns, the sorted table is a stable permutation of the input rows ordered by key, and the grouped keys list each distinct key once with the number of its rows, whatever the read batch size. "
  "The reported numbers of rows, keys and duplicated keys are those of the input.",
  ["inputs"], "all key multisets over 3 (4) keys with multiplicity 0..2, four row orders, one or two key columns, four batch sizes; 171 (512) groupings of the nine rows around the borders of the 65536-row read batches",
  "The tests use one table; groups crossing a batch boundary are not reached.",
  "psi/utils/table_utils.cc psi/utils/table_utils.h psi/utils/key.cc",
  [("sorted table and key grouping", "psi/utils/table_utils.cc"), ("external sort", "psi/utils/key.cc")],
  [("h_utils", {"UT_SET": "keytab"}, [])], "exploration", "exhaustive enumeration of bounded tables on the real code",
  "every table within the bounds is sorted and grouped by the real code and compared with the definition", "one evaluation per row; non-trivial = distinct (multiset, order, batch size, key columns)")
P("P18", "Every batch reader yields each item once, in order, with its own metadata",
  "Every reader of input items yields all items exactly once in input order, in batches no larger than requested and empty only at the end, with the label, row number and duplicate count that belong to each item. "
  "Shuffling readers yield every item exactly once under its true row number, for every source batch size and every schedule of the read-ahead thread.",
  ["inputs", "configurations", "schedules"], "every item count 0..13 (24) times every batch size 1..14 (25) for five readers, six source batch sizes, plus read-ahead schedules up to the preemption bound",
  "The tests read one file at one or two batch sizes.",
  "psi/utils/batch_provider_impl.cc psi/utils/batch_provider_impl.h psi/utils/arrow_csv_batch_provider.cc",
  [("memory and shuffled readers", "psi/utils/batch_provider_impl.cc"), ("csv reader", "psi/utils/arrow_csv_batch_provider.cc")],
  [("h_utils", {"UT_SET": "batch"}, [])], "exploration", "exhaustive enumeration of sizes on the real code; schedule exploration of the read-ahead thread",
  "all sizes within the bounds are executed on the real readers", "one evaluation per item read; non-trivial = distinct (item count, batch size)")
P("P20", "The index file returns exactly what was written, in order",
  "Every sequence of index writes and commits is read back in order with its peer counts, including across reopening in append mode; committed entries are readable at once, and nothing else ever is. "
  "The in-memory reader yields every given index once in increasing order with the count given for it.",
  ["histories"], "all sequences of up to 4 (5) write batches of 0..3 entries with commits, three buffer sizes, fresh, truncated and appended files",
  "The tests write one sequence.", "psi/utils/index_store.cc psi/utils/index_store.h",
  [("buffered writer and readers", "psi/utils/index_store.cc")],
  [("h_utils", {"UT_SET": "index"}, [])], "exploration", "exhaustive enumeration of operation sequences on the real code",
  "every history within the bounds is executed on the real store", "one evaluation per stored entry; non-trivial = distinct history")
P("P23", "Differential-privacy noise parameters deliver the stated privacy",
  "For every privacy budget, failure probability and sensitivity, the calibrated noise level makes the privacy loss of the noise mechanism equal to the requested one, and scales with the sensitivity. "
  "The budget split between the two noise sources adds up to the requested budget and each part follows its defining formula.",
  ["inputs"], "a grid of 9 budgets x 14 failure probabilities x 4 sensitivities (both branches of the calibration), and the budget split for every set size 100..4000 (20000) and three large ranges, 3 budgets, 7 split points",
  "The tests compare a few constants.", "psi/legacy/dp_psi/dp_psi_utils.cc psi/legacy/dp_psi/dp_psi_utils.h",
  [("noise calibration and budget split", "psi/legacy/dp_psi/dp_psi_utils.cc")],
  [("h_utils", {"UT_SET": "dp"}, [])], "exploration", "exhaustive enumeration of a parameter grid on the real code against the defining formulas",
  "every grid point is evaluated on the real functions", "one evaluation and one distinct case per grid point")
P("P24", "Collective steps give every party the same, correct answer under every schedule",
  "Exchanging sizes and flags, agreeing on a bucket count, broadcasting a result and waiting for the slowest party give every party the same answer, determined by the inputs of all parties, under every schedule and speed of the parties. "
  "A result is accepted only from a single holder, a joint wait ends only after every party's work ended and a failing party's error is not lost, and pairwise channels never mix messages.",
  ["inputs", "schedules"], "2..4 parties: all size vectors 0..6, all holder sets and duplicate patterns of results of up to 3 items, all peer visiting orders, all speed vectors of 2 and 3 parties, with all schedules up to the preemption bound",
  "The tests run one schedule of one input.", "psi/utils/sync.cc psi/utils/sync.h psi/utils/communication.cc psi/utils/bucket.cc psi/utils/serialize.h",
  [("collectives", "psi/utils/sync.cc"), ("joint wait", "psi/utils/sync.h"), ("pairwise channels", "psi/utils/communication.cc")],
  [("h_utils", {"UT_SET": "coll"}, [])], "exploration", "stateless model checking of the real code: all inputs and schedules within bounds",
  "all schedules with at most the stated number of deviations from round-robin are executed; timeouts of blocking receives are not injected", "one evaluation per (input, party); non-trivial = distinct input")
P("P26", "Spiral index retrieval returns exactly the requested row",
  "For every database of fixed-length rows and every row index, the lattice-based index retrieval returns exactly that row, whatever the number and length of the rows, whether messages go through their wire form and whether the server was built directly or restored from a dump; an index outside the database is refused. "
  "Queries are freshly randomised and neither their length nor the length of the answer tells which row was asked for.",
  ["inputs", "configurations", "histories"], "every index of databases of 1..18 plaintexts (one row each), rows spanning one to three plaintexts, many rows per plaintext, five row lengths around the plaintext size, three parameter sets, four ways to build or restore the server; every plaintext count 1..300 (quick) or 1..5000 for usable parameters; every row/part length up to 24 (48) for the database layout and every bit width 1..16 for the coefficient packing",
  "The tests ask one random row of three large databases.",
  "psi/algorithm/spiral/spiral_server.cc psi/algorithm/spiral/spiral_client.cc psi/algorithm/spiral/params.cc psi/algorithm/spiral/util.cc psi/algorithm/spiral/serialize.cc psi/algorithm/spiral/arith/ntt.cc psi/algorithm/spiral/poly_matrix_utils.cc psi/algorithm/pir_interface/pir_db.cc",
  [("database packing and partition", "psi/algorithm/pir_interface/pir_db.cc"), ("query expansion, selection and folding", "psi/algorithm/spiral/spiral_server.cc"), ("query generation and decoding", "psi/algorithm/spiral/spiral_client.cc")],
  [("h_pir", {"PIR_SET": "spiral"}, [])], "exploration", "exhaustive enumeration of bounded databases, indices and server histories on the real code",
  "every index of every database within the bounds is retrieved with the real client and server and compared with the row",
  "one evaluation per retrieved row, layout round trip or parameter choice; non-trivial = distinct index or layout")
P("P27", "Piano retrieval returns the right entry along every query history",
  "Along every history of queries, repeated ones included, the sublinear retrieval client recovers exactly the requested entry, for every database size, entry size and preprocessing thread count and under every schedule of the preprocessing threads. "
  "Every message to the server names exactly one position per chunk, contains the wanted position no more often than chance, never reuses a set, and a repeated question is masked.",
  ["inputs", "histories", "schedules"], "every database size 1..126 (quick) or 1..300 with four complete sweep orders, all query sequences of length 3 and 4 over up to 6 (9) entries, four privacy sweeps of up to 600 entries over several keys, all single-deviation schedules of two and three preprocessing threads",
  "The test asks 1000 random entries of three large databases and never looks at the messages.",
  "experiment/pir/piano/client.cc experiment/pir/piano/server.cc experiment/pir/piano/util.cc",
  [("hint table, refresh and cache", "experiment/pir/piano/client.cc"), ("set parity answers", "experiment/pir/piano/server.cc")],
  [("h_pir", {"PIR_SET": "piano"}, [])], "exploration", "exhaustive enumeration of bounded query histories and thread schedules on the real code",
  "every history and schedule within the bounds is executed on the real client and server",
  "one evaluation per query; non-trivial = distinct database size and order, or sequence")
P("P28", "SimplePIR recovers every element for every modulus",
  "For every square database, ciphertext modulus, plaintext modulus and noise width whose noise fits the plaintext step, the recovered value equals the stored element for every index and every query order. "
  "Queries stay below the modulus, do not depend on the row asked for, and are freshly randomised.",
  ["inputs", "configurations", "histories"], "five ciphertext moduli (powers of two and primes), six plaintext moduli, sides 1..12 (16 for the default parameters), dimensions 1..1024, nine noise settings, three database shapes, several keys, every index in both orders",
  "The test reads one element with the power-of-two modulus, for which missing reductions cancel.",
  "experiment/pir/simplepir/client.cc experiment/pir/simplepir/server.cc experiment/pir/simplepir/util.cc",
  [("modular reduction of query, answer and phase", "experiment/pir/simplepir/client.cc")],
  [("h_pir", {"PIR_SET": "simple"}, [])], "exploration", "exhaustive enumeration of bounded parameters, databases and indices on the real code",
  "every index of every instance within the bounds is retrieved on the real code", "one evaluation per query; non-trivial = distinct index and database shape")
P("P29", "Puncturable-set retrieval answers correctly and hides the position",
  "Every query of the two-server puncturable-set retrieval that is not reported as aborted returns the stored bit, for every position, every database, and every history of repeated queries in the multi-query variant, also after all messages went over the wire. "
  "The set sent to a server has one element less than the full set and never contains the wanted position, and most queries are answered.",
  ["inputs", "histories"], "universes 16..1024 (powers of two and others) with set sizes around the square root, every position, two complete passes in four orders for the multi-query variant, three database shapes, ten (forty) keys each; every punctured element of every set",
  "The tests ask for one random position, and one pass in order.",
  "experiment/pir/pps/client.cc experiment/pir/pps/server.cc experiment/pir/pps/ggm_pset.cc experiment/pir/pps/sender.cc experiment/pir/pps/receiver.cc",
  [("punctured keys", "experiment/pir/pps/ggm_pset.cc"), ("hint refresh", "experiment/pir/pps/client.cc"), ("wire format", "experiment/pir/pps/sender.cc")],
  [("h_pir", {"PIR_SET": "pps"}, [])], "exploration", "exhaustive enumeration of bounded universes, positions and query histories on the real code",
  "every position and history within the bounds is executed on the real client and both servers", "one evaluation per query or punctured key; non-trivial = distinct position")
P("P19", "Ciphertext stores map every match back to the right rows",
  "Whatever is written to a ciphertext or cache store, in whatever batches and however many bins, the positions, duplicate counts and peer match counts computed from two stores are exactly those of the items both hold. "
  "Looking items up in a table returns exactly the rows that carry them, for one or several key columns, duplicates and every batch size.",
  ["inputs", "configurations"], "all pairs of multisets over up to 3 (4) items with multiplicity 0..2, one and three bins, file and memory stores, caches restored from disk; all item subsets of tables of up to 9 rows at four batch sizes",
  "The tests use one pair of random stores without duplicates.",
  "psi/utils/ec_point_store.cc psi/utils/arrow_csv_batch_provider.cc psi/utils/hash_bucket_cache.cc",
  [("matching of two ciphertext stores", "psi/utils/ec_point_store.cc FinalizeAndComputeIndices"), ("item lookup", "psi/utils/ec_point_store.cc GetIndicesByItems")],
  [("h_misc", {"MISC_SET": "store"}, [])], "exploration", "exhaustive enumeration of bounded store contents and configurations on the real code",
  "every pair of contents within the bounds is written to the real stores and the computed positions are compared with the definition",
  "one evaluation per pair of stores or looked-up subset; non-trivial = distinct pair or subset")
P("P30", "A keyed retrieval database is complete whatever interrupts its generation",
  "Generating a bucketed database distributes every row of the source table to exactly one bucket, and the finished database returns for each bucket exactly the keys and labels of that bucket. "
  "An error, crash, full disk or dying worker process at any point is reported instead of hanging, never leaves a database that is accepted although it is incomplete or mixed with rows of an earlier run, and generating again completes it. "
  "A generated database is not generated twice, other parameters and repeated keys are refused.",
  ["inputs", "crash points", "faults", "configurations"], "tables of 1..20 rows of four key kinds (separators, quotes, spaces, multi-byte) with and without labels, nine splits into groups and buckets, 0..5 worker processes; a crash before, in the middle of and after, and a full disk at, every file operation of the generation followed by use and by a second run; every worker process killed",
  "The tests generate one database without faults and check that files exist.",
  "psi/wrapper/apsi/utils/group_db.cc psi/wrapper/apsi/utils/bucket.cc psi/wrapper/apsi/utils/sender_db.cc psi/wrapper/apsi/utils/csv_reader.cc psi/wrapper/apsi/utils/common.cc psi/utils/multiplex_disk_cache.cc",
  [("group life cycle", "psi/wrapper/apsi/utils/group_db.cc"), ("bucket files", "psi/wrapper/apsi/utils/bucket.cc"), ("database loading", "psi/wrapper/apsi/utils/sender_db.cc")],
  [("h_misc", {"MISC_SET": "gdb"}, [])], "fault_enumeration", "stateless model checking of the real generation with exhaustive enumeration of inputs, crash points and disk faults",
  "every file operation of every run within the bounds is a crash point and a disk fault; what is left is opened, read and generated again on the real code; the APSI library itself is a stand-in that stores items and labels",
  "one case per (table, groups, buckets, processes) and per injected fault; non-trivial = distinct table or fault outcome")
P("P31", "Tables converted for keyed retrieval and their results keep every value",
  "Converting a table whose keys occur in several rows and converting the answers back gives for each queried key exactly its rows, in order, with every column value unchanged, whatever separators or quotes the values contain; values that cannot be kept are refused. "
  "The result file holds one row per match with the labels of that match and exactly one header, and a file that could not be written completely is reported.",
  ["inputs"], "tables of up to 4 (5) rows over 1..3 keys of four kinds (separators, quotes, spaces, multi-byte) with 1..3 label columns in two row orders; result files for up to 5 (8) queried keys with and without labels, all match subsets, in up to three batches",
  "The tests convert one table of plain words.",
  "psi/utils/csv_converter.cc psi/wrapper/apsi/utils/common.cc psi/wrapper/apsi/utils/csv_reader.cc",
  [("conversion there and back", "psi/utils/csv_converter.cc"), ("result files", "psi/wrapper/apsi/utils/common.cc")],
  [("h_misc", {"MISC_SET": "conv"}, [])], "exploration", "exhaustive enumeration of bounded tables and answers on the real code",
  "every table and answer within the bounds is converted by the real code and compared value by value", "one evaluation per table or result file; non-trivial = distinct table or file")
P("P32", "The legacy input check accepts exactly tables with usable unique keys",
  "A table is accepted exactly if its key columns exist, no key is empty and no key occurs twice, whatever the values look like, and a failing or missing system tool is an error instead of an accepted table. "
  "Two tables get the same key digest exactly if their key columns hold the same values in the same order.",
  ["inputs", "faults"], "all tables of up to 3 (4) rows with one key column and 2 (3) rows with two over cells such as the empty, quoted, concatenated and comma-holding ones; all pairs of key lists of up to 4 (5) cells for the digest; missing, failing, truncating and killed sort and uniq",
  "The tests check one table with and one without duplicates.",
  "psi/utils/csv_checker.cc psi/utils/key.cc",
  [("acceptance and digest", "psi/utils/csv_checker.cc"), ("sort and uniq", "psi/utils/key.cc")],
  [("h_misc", {"MISC_SET": "check"}, [])], "exploration", "exhaustive enumeration of bounded tables and tool faults on the real code",
  "every table within the bounds is checked by the real code; external tools are replaced by failing stand-ins on the search path", "one evaluation per table or fault; non-trivial = distinct table or fault")
P("P34", "A cluster task description is turned into the equivalent run configuration",
  "The task description of a cluster maps to exactly the run options given for the party that runs here, with this party listening on its allocated port and every other party under its published address. "
  "The parties are listed in the order of their names, so that every party derives the same ranks whatever the order of the description.",
  ["inputs", "configurations"], "2..5 parties, every own position, 8 shapes each (two orders of names, further services and ports, link options)",
  "The test reads one description.", "psi/apps/psi_launcher/kuscia_adapter.cc",
  [("translation", "psi/apps/psi_launcher/kuscia_adapter.cc")],
  [("h_misc", {"MISC_SET": "kuscia"}, [])], "exploration", "exhaustive enumeration of bounded task descriptions on the real code",
  "every description within the bounds is translated by the real code and compared with its definition", "one evaluation per description; non-trivial = distinct description")
P("P33", "Wire encodings round-trip every value",
  "Every size, index list, item list (arbitrary bytes) and duplicate-count map that is encoded decodes to the same value. The number of bytes compared per item keeps the collision probability of two sets below two to the minus forty.",
  ["inputs"], "13 sizes on varint boundaries, all 8192 index lists over them, all 16384 combinations of 7 item contents (empty, embedded zero, invalid UTF-8, long, ...) and duplicate maps, 18000 size pairs for the compared length",
  "The tests round-trip text items only.", "psi/utils/serialize.h psi/utils/serializable.proto",
  [("message encoding", "psi/utils/serialize.h")],
  [("h_utils", {"UT_SET": "serial"}, [])], "exploration", "exhaustive enumeration of bounded values on the real code",
  "every value within the bounds is encoded and decoded by the real code", "one evaluation per value; non-trivial = distinct value")
P("P35", "Bucketing partitions the keys identically on both sides and loses none",
  "For every key set, number of buckets and history of writes, each key lands in exactly one bucket, determined by the key alone, with its own row number and duplicate count. "
  "Bucketed processing yields, on every party entitled to it, each common key exactly once with the peer's duplicate count, and buckets that are empty on one side are skipped consistently.",
  ["inputs", "configurations"], "all pairs of key subsets of a 5-key pool (with separators, quotes and the empty key) with and without broadcast (and for sender keys that are all common every cyclic order, both directions), bucket counts 1..9 with up to 100 keys, readers of up to 12 items at every batch size",
  "The tests use one key set and one bucket count.", "psi/utils/bucket.cc psi/utils/hash_bucket_cache.cc psi/utils/multiplex_disk_cache.cc",
  [("bucket data and results", "psi/utils/bucket.cc"), ("bucket cache", "psi/utils/hash_bucket_cache.cc")],
  [("h_utils", {"UT_SET": "bucket"}, [])], "exploration", "stateless model checking of the real two-party bucketing over enumerated key sets",
  "every key set pair within the bounds is executed on the real code", "one evaluation per (key sets or sizes); non-trivial = distinct case")
