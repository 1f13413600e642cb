PROTOS = """psi/proto/psi.proto psi/proto/psi_v2.proto psi/proto/kuscia.proto psi/proto/pir.proto psi/proto/entry.proto
psi/algorithm/pir_interface/pir_type.proto psi/algorithm/ecdh/ub_psi/ub_psi_cache.proto psi/algorithm/spiral/serializable.proto
psi/algorithm/sealpir/serializable.proto psi/algorithm/dkpir/secret_key.proto psi/checkpoint/checkpoint.proto psi/utils/serializable.proto
psi/utils/table_utils.proto psi/wrapper/apsi/utils/group_db_status.proto experiment/pir/piano/piano.proto yacl/link/link.proto""".split()
def cc(d, names): return [f"{d}/{n}.cc" for n in names.split()]
GROUPS = {}
GROUPS["protos"] = [p for p in PROTOS if "sealpir" not in p]
GROUPS["utils"] = cc("psi/utils", "arrow_csv_batch_provider arrow_helper batch_provider_impl bucket communication csv_checker csv_converter cuckoo_index ec ec_point_store hash_bucket_cache index_store io join_processor key multiplex_disk_cache pb_helper progress resource resource_manager sync table_utils")
GROUPS["iface"] = ["psi/interface.cc", "psi/checkpoint/recovery.cc", "psi/trace_categories.cc", "psi/algorithm/psi_operator.cc"]
GROUPS["cryptor"] = cc("psi/cryptor", "ecc_cryptor sm2_cryptor fourq_cryptor sodium_curve25519_cryptor cryptor_selector hash_to_curve_elligator2")
GROUPS["ecdh"] = cc("psi/algorithm/ecdh", "ecdh_psi ecdh_operator sender receiver ecdh_3pc_psi")
GROUPS["ubpsi"] = cc("psi/algorithm/ecdh/ub_psi", "basic_ecdh_oprf client ecdh_oprf ecdh_oprf_psi ecdh_oprf_selector server ub_psi_cache")
GROUPS["kkrt"] = cc("psi/algorithm/kkrt", "common kkrt_operator kkrt_psi sender receiver")
GROUPS["okvs"] = cc("psi/algorithm/rr22/okvs", "aes_crhash baxos dense_mtx galois128 paxos paxos_hash paxos_utils simple_index")
GROUPS["rr22"] = cc("psi/algorithm/rr22", "common davis_meyer_hash receiver rr22_operator rr22_oprf rr22_psi rr22_utils sender") + ["okvs"]
GROUPS["nty"] = cc("psi/algorithm/nty", "nty_mp_psi server_aided_psi")
GROUPS["pirdb"] = cc("psi/algorithm/pir_interface", "pir_db")
GROUPS["spiral"] = cc("psi/algorithm/spiral", "discrete_gaussian gadget params poly_matrix poly_matrix_utils serialize spiral_client spiral_server util arith/ntt arith/ntt_table")
GROUPS["legacy"] = cc("psi/legacy", "base_operator bucket_psi ecdh_3party_psi kkrt_2party_psi memory_psi nparty_psi dp_2party_psi dp_psi/dp_psi dp_psi/dp_psi_utils")
GROUPS["launcher"] = cc("psi/apps/psi_launcher", "factory kuscia_adapter")
GROUPS["apsi"] = cc("psi/wrapper/apsi/utils", "common csv_reader bucket sender_db group_db")
GROUPS["threshold"] = cc("experiment/psi/threshold_ecdh_psi", "receiver sender threshold_ecdh_psi threshold_ecdh_psi_cache") + cc("experiment/psi/threshold_ub_psi", "client server threshold_ecdh_oprf_psi")
GROUPS["kmprt"] = cc("experiment/psi/kmprt17_mp_psi", "kmprt17_hashing kmprt17_mp_psi kmprt17_opprf")
GROUPS["piano"] = cc("experiment/pir/piano", "client server util")
GROUPS["pps"] = cc("experiment/pir/pps", "client ggm_pset receiver sender server")
GROUPS["simplepir"] = cc("experiment/pir/simplepir", "client network_util server util")
GROUPS["legacy/dp"] = ["psi/legacy/dp_psi/dp_psi_utils.cc"]
CORE = ["protos", "utils", "iface", "cryptor", "ecdh", "ubpsi", "kkrt", "rr22", "nty", "launcher", "threshold", "apsi"]
MC = ["@mc.cc", "@tsanrt.cc"]
KTS = ["psi/algorithm/kkrt/kkrt_psi.cc"]
# shared state of the multi-threaded protocols: their accesses are scheduling points
STS = KTS + ["psi/algorithm/rr22/rr22_utils.cc", "psi/algorithm/rr22/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/client.cc",
  "psi/checkpoint/recovery.cc", "psi/utils/ec_point_store.cc", "psi/utils/index_store.cc", "psi/algorithm/nty/server_aided_psi.cc", "psi/algorithm/nty/nty_mp_psi.cc", "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc", "psi/algorithm/ecdh/ecdh_3pc_psi.cc"]
TARGETS = {
 "try": {"src": ["@try.cc", "protos", "utils", "iface", "cryptor", "ecdh", "ubpsi", "kkrt", "rr22", "nty", "pirdb", "legacy", "spiral", "launcher", "apsi", "threshold", "kmprt", "piano", "pps", "simplepir"]},
 "selftest": {"src": ["@selftest.cc", "@mc.cc", "@tsanrt.cc"]},
 "h_psi": {"src": ["@h_psi.cc"] + MC + CORE, "tsan": KTS},
 "h_progress": {"src": ["@h_progress.cc"] + MC + ["psi/utils/progress.cc"], "tsan": ["psi/utils/progress.cc"]},
 "h_utils": {"src": ["@h_utils.cc"] + MC + ["protos", "utils", "psi/wrapper/apsi/utils/common.cc", "psi/checkpoint/recovery.cc", "psi/trace_categories.cc", "psi/algorithm/psi_operator.cc", "legacy/dp"]},
 "h_crash": {"src": ["@h_crash.cc"] + MC + CORE, "tsan": KTS, "variant": "b2", "opt": "-O1 -DPSI_MC_BATCH_SIZE=2"},
 "h_ub": {"src": ["@h_ub.cc"] + MC + CORE, "tsan": KTS, "variant": "b2", "opt": "-O1 -DPSI_MC_BATCH_SIZE=2"},
 "h_net": {"src": ["@h_net.cc"] + MC + CORE, "tsan": KTS},
 "h_multi": {"src": ["@h_multi.cc"] + MC + CORE + ["legacy", "kmprt"], "tsan": KTS},
 "h_sched": {"src": ["@h_psi.cc"] + MC + CORE, "tsan": STS, "variant": "b2", "opt": "-O1 -DPSI_MC_BATCH_SIZE=2"},
 "h_sched_ub": {"src": ["@h_ub.cc"] + MC + CORE, "tsan": STS, "variant": "b2", "opt": "-O1 -DPSI_MC_BATCH_SIZE=2"},
 "h_sched_multi": {"src": ["@h_multi.cc"] + MC + CORE + ["legacy", "kmprt"], "tsan": STS, "variant": "b2", "opt": "-O1 -DPSI_MC_BATCH_SIZE=2"},
 "h_okvs": {"src": ["@h_okvs.cc"] + MC + ["okvs"], "opt": "-O2", "variant": "o2"},
 "h_misc": {"src": ["@h_misc.cc"] + MC + ["protos", "utils", "apsi", "psi/apps/psi_launcher/kuscia_adapter.cc"]},
 "h_pir": {"src": ["@h_pir.cc"] + MC + ["protos", "pirdb", "spiral", "piano", "pps", "simplepir"], "opt": "-O2", "variant": "o2"},
}
