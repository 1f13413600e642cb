From 27bb58ccf4c8d6ada6b4415c1bacd1c73d3b1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 01/39] fix: GF(2^128) matrix inversion in Paxos wrote past its
 result buffer (n elements instead of n*n)

---
 psi/algorithm/rr22/okvs/paxos.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 0231ae2..c59924f 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -30,13 +30,12 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
                                              size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  auto inv = std::vector<uint128_t>(row_size, col_size);
+  auto inv = std::vector<uint128_t>(row_size * col_size);
   for (uint64_t i = 0; i < row_size; ++i) {
     inv[i * row_size + i] = yacl::MakeUint128(0, 1);
   }
 
   uint128_t zero_block = yacl::MakeUint128(0, 0);
-  uint128_t one_block = yacl::MakeUint128(0, 1);
 
   // for the ith row
   for (uint64_t i = 0; i < row_size; ++i) {
@@ -47,7 +46,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
       // for all lower row j, check if (j,i)
       // is non-zero
       for (uint64_t j = i + 1; j < row_size; ++j) {
-        if (mtx[j * row_size + i] == one_block) {
+        if (mtx[j * row_size + i] != zero_block) {
           // found one, swap the rows and break
           for (uint64_t k = 0; k < row_size; ++k) {
             std::swap(mtx[i * row_size + k], mtx[j * row_size + k]);
@@ -103,7 +102,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
     size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  std::vector<uint128_t> ret(row_size, col_size);
+  std::vector<uint128_t> ret(row_size * col_size);
 
   for (uint64_t i = 0; i < row_size; ++i) {
     for (uint64_t j = 0; j < col_size; ++j) {
-- 
2.43.0


From 323fcf95d4842cff0d43fbb3d43910f19a79486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 02/39] fix: randomized GF(2^128) Paxos encoding filled 16
 times the row length and overran the matrix

---
 psi/algorithm/rr22/okvs/paxos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index c59924f..7914257 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -834,7 +834,7 @@ void Paxos<IdxType>::BackfillGf128U64(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1035,7 +1035,7 @@ void Paxos<IdxType>::BackfillGf128(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
-- 
2.43.0


From 7e1a6c920bd7014a44d273cddcf7a9e5b2ed3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 03/39] fix: copying a non-owning PxVector lost its elements,
 so randomized binary Paxos encodings did not decode

---
 psi/algorithm/rr22/okvs/paxos_utils.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/psi/algorithm/rr22/okvs/paxos_utils.h b/psi/algorithm/rr22/okvs/paxos_utils.h
index 654a30a..483c78a 100644
--- a/psi/algorithm/rr22/okvs/paxos_utils.h
+++ b/psi/algorithm/rr22/okvs/paxos_utils.h
@@ -208,11 +208,19 @@ struct PxVector {
   PxVector(const PxVector& v) : PxVector(v.owning.size()) {
     std::memcpy(owning.data(), v.owning.data(),
                 v.owning.size() * sizeof(value_type));
+    // v may be a non-owning view
+    if (v.owning.empty()) {
+      elements = v.elements;
+    }
   }
 
   PxVector(PxVector&& v) : PxVector(v.owning.size()) {
     std::memcpy(owning.data(), v.owning.data(),
                 v.owning.size() * sizeof(value_type));
+    // v may be a non-owning view
+    if (v.owning.empty()) {
+      elements = v.elements;
+    }
   }
 
   PxVector(absl::Span<value_type> e) { elements = e; }
@@ -334,11 +342,19 @@ struct PxVectorU64 {
   PxVectorU64(const PxVectorU64& v) : PxVectorU64(v.owning.size()) {
     std::memcpy(owning.data(), v.owning.data(),
                 v.owning.size() * sizeof(value_type));
+    // v may be a non-owning view
+    if (v.owning.empty()) {
+      elements = v.elements;
+    }
   }
 
   PxVectorU64(PxVectorU64&& v) : PxVectorU64(v.owning.size()) {
     std::memcpy(owning.data(), v.owning.data(),
                 v.owning.size() * sizeof(value_type));
+    // v may be a non-owning view
+    if (v.owning.empty()) {
+      elements = v.elements;
+    }
   }
 
   PxVectorU64(absl::Span<value_type> e) { elements = e; }
-- 
2.43.0


From 9e0477f7096e6b1231b2e02d19db097d13df3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 04/39] fix: BroadcastResult accepted two result holders when
 one of them was rank 0

---
 psi/utils/sync.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/sync.cc b/psi/utils/sync.cc
index f3a28e0..68e4a6a 100644
--- a/psi/utils/sync.cc
+++ b/psi/utils/sync.cc
@@ -58,12 +58,14 @@ void BroadcastResult(
     std::unordered_map<ItemIndexType, ItemCntType>* res_dup_cnt) {
   size_t max_size = res->size();
   size_t broadcast_rank = 0;
+  bool found_holder = false;
   std::vector<size_t> res_size_list = AllGatherItemsSize(link_ctx, res->size());
   for (size_t i = 0; i < res_size_list.size(); ++i) {
     max_size = std::max(max_size, res_size_list[i]);
     if (res_size_list[i] > 0) {
       // in broadcast case, there should be only one party have results
-      YACL_ENFORCE(broadcast_rank == 0);
+      YACL_ENFORCE(!found_holder);
+      found_holder = true;
       broadcast_rank = i;
     }
   }
-- 
2.43.0


From d9025a58d205474e22fdb0238d0663bfbf1ab2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 05/39] fix: broadcast results after a non UTF-8 item were
 dropped by the receivers

---
 psi/utils/serializable.proto | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/serializable.proto b/psi/utils/serializable.proto
index 919ad81..af65ad3 100644
--- a/psi/utils/serializable.proto
+++ b/psi/utils/serializable.proto
@@ -32,7 +32,9 @@ message PsiDataBatchProto {
 }
 
 message StrItemsProto {
-  repeated string items = 1;
+  // Items are arbitrary byte strings: a string field is not parsed back when the
+  // content is not valid UTF-8.
+  repeated bytes items = 1;
   map<uint64, uint32> duplicate_item_cnt = 2;
 }
 
-- 
2.43.0


From 24bf342e78a5f769edfbfa106f9f40dd18e5e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 06/39] hook: PSI_MC_BATCH_SIZE overrides the key batch size

---
 psi/utils/table_utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psi/utils/table_utils.h b/psi/utils/table_utils.h
index 2a2a63d..253844f 100644
--- a/psi/utils/table_utils.h
+++ b/psi/utils/table_utils.h
@@ -36,7 +36,11 @@
 
 namespace psi {
 
+#ifdef PSI_MC_BATCH_SIZE  // small batches for model checking
+constexpr size_t kBatchSize = PSI_MC_BATCH_SIZE;
+#else
 constexpr size_t kBatchSize = 1 << 16;
+#endif
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns);
 
-- 
2.43.0


From 304f60695211deebe819531767b67e9a224f4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 07/39] fix: recovery checkpoint was rewritten in place and
 updated without its lock

A crash while checkpoint.json was being rewritten left it empty or partial and
the recovery folder could never be loaded again. Write a new file and rename it.
The ECDH worker threads also updated the record outside of the mutex which
guards its serialization.
---
 psi/checkpoint/recovery.cc | 24 ++++++++++++++++++------
 psi/checkpoint/recovery.h  |  9 +++++++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..3190dfc 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -81,8 +81,6 @@ RecoveryManager::RecoveryManager(const std::string& folder_path)
 }
 
 void RecoveryManager::SaveCheckpointFile() {
-  std::unique_lock<std::mutex> lock(mutex_);
-
   std::string checkpoint_json;
   google::protobuf::util::JsonPrintOptions json_print_options;
   json_print_options.preserve_proto_field_names = true;
@@ -90,15 +88,22 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
-  std::ofstream file;
-  file.open(checkpoint_file_path_);
-  file << checkpoint_json;
-  file.close();
+  // Replace the previous record at once, a crash must not leave a partial one.
+  std::filesystem::path tmp_path = checkpoint_file_path_;
+  tmp_path += ".tmp";
+  {
+    std::ofstream file(tmp_path);
+    file << checkpoint_json;
+    file.close();
+    YACL_ENFORCE(file.good(), "failed to write {}", tmp_path.string());
+  }
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
     const v2::PsiConfig& config,
     const std::vector<uint8_t>& input_hash_digest) {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() != v2::RecoveryCheckpoint::STAGE_UNSPECIFIED) {
     // Check whether config and input_hash_digest match the previous record.
     YACL_ENFORCE(::google::protobuf::util::MessageDifferencer::Equals(
@@ -121,6 +126,7 @@ void RecoveryManager::MarkInitEnd(
 
 void RecoveryManager::MarkPreProcessEnd(
     const std::shared_ptr<IEccCryptor>& cryptor) {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (cryptor) {
     if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END) {
       checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END);
@@ -200,6 +206,7 @@ bool RecoveryManager::MarkOnlineStart(
       "{}",
       parsed_bucket_count_from_peer_);
 
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_START) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
 
@@ -211,6 +218,7 @@ bool RecoveryManager::MarkOnlineStart(
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_self_count(cnt);
 
@@ -219,6 +227,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   SPDLOG_INFO("RecoveryManager::UpdateEcdhDualMaskedItemPeerCount, cnt = {}",
               cnt);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
@@ -229,6 +238,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
 }
 
 void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   SPDLOG_INFO("RecoveryManager::UpdateParsedBucketCount, cnt = {}", cnt);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_parsed_bucket_count(cnt);
@@ -238,6 +248,7 @@ void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
 }
 
 void RecoveryManager::MarkOnlineEnd() {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_END);
 
@@ -247,6 +258,7 @@ void RecoveryManager::MarkOnlineEnd() {
 }
 
 void RecoveryManager::MarkPostProcessEnd() {
+  std::unique_lock<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END);
 
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index d61f220..ae3fa30 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <filesystem>
+#include <mutex>
 #include <string>
 
 #include "yacl/link/link.h"
@@ -94,12 +95,16 @@ class RecoveryManager {
     return parsed_bucket_count_from_peer_;
   }
 
-  v2::RecoveryCheckpoint checkpoint() const { return checkpoint_; }
+  v2::RecoveryCheckpoint checkpoint() const {
+    std::unique_lock<std::mutex> lock(mutex_);
+    return checkpoint_;
+  }
 
  private:
+  // mutex_ must be held.
   void SaveCheckpointFile();
 
-  std::mutex mutex_;
+  mutable std::mutex mutex_;
 
   std::filesystem::path folder_path_;
 
-- 
2.43.0


From 8504a13360ce7ed0079b2ed0a09b64f4ce75f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 08/39] fix: resumed KKRT and RR22 runs failed on the part of
 the result written before the crash

A bucket which was finished but not yet recorded is processed again, so its
indices are written twice: keep each line once. A crash could also leave the
index file without header or with a partial last line, which the resumed run
then appended to.
---
 psi/interface.cc         |  2 +-
 psi/utils/index_store.cc | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 54f72b4..c9b8ed9 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -157,7 +157,7 @@ PsiResultReport AbstractPsiParty::Finalize() {
   SyncWait(lctx_, [&] {
     MultiKeySort(intersection_indices_writer_->path(),
                  sorted_intersection_indices_path,
-                 std::vector<std::string>{kIdx}, true, false);
+                 std::vector<std::string>{kIdx}, true, true);
 
     if (role_ == v2::ROLE_RECEIVER ||
         config_.protocol_config().broadcast_result()) {
diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..4afeca5 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -30,11 +30,32 @@
 
 namespace psi {
 
+namespace {
+
+// Drop an incomplete last line, which a crash may have left.
+void DropPartialLine(const std::filesystem::path& path) {
+  std::ifstream file(path, std::ios::binary);
+  uint64_t end = 0;
+  for (std::string line; std::getline(file, line) && !file.eof();) {
+    end += line.size() + 1;
+  }
+  file.close();
+  if (end != std::filesystem::file_size(path)) {
+    std::filesystem::resize_file(path, end);
+  }
+}
+
+}  // namespace
+
 IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
                          bool trunc)
     : path_(path), cache_size_(cache_size) {
   std::vector<std::string> fields = {kIdx, kPeerCnt};
-  if (trunc || !std::filesystem::exists(path_)) {
+  if (!trunc && std::filesystem::exists(path_)) {
+    DropPartialLine(path_);
+  }
+  if (trunc || !std::filesystem::exists(path_) ||
+      std::filesystem::file_size(path_) == 0) {
     // NOTE(junfeng): This is a hack to write the header without quotation masks
     // to make YACL csv utils happy.
     // Should be fixed as soon as possible.
-- 
2.43.0


From 747c984abae8e16abd9d7e3c711f972895edbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 09/39] fix: resumed ECDH runs mixed items stored before and
 after the crash

The stores restarted numbering their items at zero and could hold more items
than the checkpoint records, or fewer than the peer assumed, so a resumed run
failed with duplicated indices or returned the wrong rows. Both parties now
agree on the items which all stores have, and drop the others before they
continue. The duplicate counts of a partly processed batch were shifted too.
---
 psi/algorithm/ecdh/ecdh_psi.cc  | 41 ++++++++++++++++++++++-----------
 psi/checkpoint/checkpoint.proto |  2 ++
 psi/checkpoint/recovery.cc      |  6 +++++
 psi/checkpoint/recovery.h       |  7 ++++++
 psi/utils/ec_point_store.h      |  9 ++++++++
 psi/utils/hash_bucket_cache.cc  | 28 ++++++++++++++++++++++
 psi/utils/hash_bucket_cache.h   |  4 ++++
 7 files changed, 84 insertions(+), 13 deletions(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..372e53b 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -14,8 +14,10 @@
 
 #include "psi/algorithm/ecdh/ecdh_psi.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <future>
+#include <limits>
 #include <memory>
 #include <string>
 #include <unordered_map>
@@ -81,12 +83,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
@@ -461,18 +463,31 @@ void RunEcdhPsi(const EcdhPsiOptions& options,
 
   uint64_t processed_item_cnt = 0;
   if (options.recovery_manager) {
-    if (handler.SelfCanTouchResults() && handler.PeerCanTouchResults()) {
-      processed_item_cnt =
-          std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),
-                   options.recovery_manager->checkpoint()
-                       .ecdh_dual_masked_item_self_count());
-    } else if (handler.SelfCanTouchResults() &&
-               !handler.PeerCanTouchResults()) {
-      processed_item_cnt = options.recovery_manager->checkpoint()
-                               .ecdh_dual_masked_item_self_count();
-    } else {
-      processed_item_cnt =
-          options.recovery_manager->ecdh_dual_masked_cnt_from_peer();
+    // Items count as processed when every store which needs them has them: self
+    // items are stored by both parties, in the self store of this party and in
+    // the peer store of the peer, and vice versa.
+    const auto checkpoint = options.recovery_manager->checkpoint();
+    uint64_t self_cnt = std::numeric_limits<uint64_t>::max();
+    uint64_t peer_cnt = std::numeric_limits<uint64_t>::max();
+    if (handler.SelfCanTouchResults()) {
+      self_cnt = checkpoint.ecdh_dual_masked_item_self_count();
+      peer_cnt = checkpoint.ecdh_dual_masked_item_peer_count();
+    }
+    if (handler.PeerCanTouchResults()) {
+      self_cnt = std::min(
+          self_cnt, options.recovery_manager->ecdh_dual_masked_cnt_from_peer());
+      peer_cnt = std::min(
+          peer_cnt,
+          options.recovery_manager->ecdh_dual_masked_self_cnt_of_peer());
+    }
+    processed_item_cnt = self_cnt;
+
+    // Whatever else was stored before is going to be stored again.
+    if (handler.SelfCanTouchResults()) {
+      options.recovery_manager->UpdateEcdhDualMaskedItemSelfCount(self_cnt);
+      options.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(peer_cnt);
+      self_ec_point_store->Truncate(self_cnt);
+      peer_ec_point_store->Truncate(peer_cnt);
     }
 
     SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
diff --git a/psi/checkpoint/checkpoint.proto b/psi/checkpoint/checkpoint.proto
index 82c2335..5955506 100644
--- a/psi/checkpoint/checkpoint.proto
+++ b/psi/checkpoint/checkpoint.proto
@@ -48,4 +48,6 @@ message InternalRecoveryRecord {
   uint64 ecdh_dual_masked_item_peer_count = 2;
 
   uint64 parsed_bucket_count = 3;
+
+  uint64 ecdh_dual_masked_item_self_count = 4;
 }
diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 3190dfc..0ac3318 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -162,6 +162,8 @@ bool RecoveryManager::MarkOnlineStart(
     record.set_stage(checkpoint_.stage());
     record.set_ecdh_dual_masked_item_peer_count(
         checkpoint_.ecdh_dual_masked_item_peer_count());
+    record.set_ecdh_dual_masked_item_self_count(
+        checkpoint_.ecdh_dual_masked_item_self_count());
     record.set_parsed_bucket_count(checkpoint_.parsed_bucket_count());
     std::string record_str;
     YACL_ENFORCE(record.SerializeToString(&record_str));
@@ -189,10 +191,14 @@ bool RecoveryManager::MarkOnlineStart(
     if (lctx->Rank() == 0) {
       ecdh_dual_masked_cnt_from_peer_ =
           rank1.ecdh_dual_masked_item_peer_count();
+      ecdh_dual_masked_self_cnt_of_peer_ =
+          rank1.ecdh_dual_masked_item_self_count();
       parsed_bucket_count_from_peer_ = rank1.parsed_bucket_count();
     } else {
       ecdh_dual_masked_cnt_from_peer_ =
           rank0.ecdh_dual_masked_item_peer_count();
+      ecdh_dual_masked_self_cnt_of_peer_ =
+          rank0.ecdh_dual_masked_item_self_count();
       parsed_bucket_count_from_peer_ = rank0.parsed_bucket_count();
     }
   }
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index ae3fa30..c6f7b73 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -91,6 +91,11 @@ class RecoveryManager {
     return ecdh_dual_masked_cnt_from_peer_;
   }
 
+  // The count of its own dual masked items which the peer has saved.
+  uint64_t ecdh_dual_masked_self_cnt_of_peer() const {
+    return ecdh_dual_masked_self_cnt_of_peer_;
+  }
+
   uint64_t parsed_bucket_count_from_peer() const {
     return parsed_bucket_count_from_peer_;
   }
@@ -122,6 +127,8 @@ class RecoveryManager {
 
   uint64_t ecdh_dual_masked_cnt_from_peer_ = 0;
 
+  uint64_t ecdh_dual_masked_self_cnt_of_peer_ = 0;
+
   uint64_t parsed_bucket_count_from_peer_ = 0;
 };
 
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 4568028..7637830 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -25,6 +25,8 @@
 #include <utility>
 #include <vector>
 
+#include "yacl/base/exception.h"
+
 #include "psi/utils/batch_provider.h"
 #include "psi/utils/hash_bucket_cache.h"
 #include "psi/utils/index_store.h"
@@ -61,6 +63,11 @@ class IEcPointStore {
   }
 
   virtual uint64_t ItemCount() = 0;
+
+  // Keep the first `item_cnt` items only.
+  virtual void Truncate(uint64_t /*item_cnt*/) {
+    YACL_THROW("Truncate is not supported by this store.");
+  }
 };
 
 class MemoryEcPointStore : public IEcPointStore {
@@ -97,6 +104,8 @@ class HashBucketEcPointStore : public IEcPointStore {
 
   void Flush() override { cache_->Flush(); }
 
+  void Truncate(uint64_t item_cnt) override { cache_->Truncate(item_cnt); }
+
   uint64_t ItemCount() override;
 
   std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t bin_idx) {
diff --git a/psi/utils/hash_bucket_cache.cc b/psi/utils/hash_bucket_cache.cc
index 23679f2..703a13c 100644
--- a/psi/utils/hash_bucket_cache.cc
+++ b/psi/utils/hash_bucket_cache.cc
@@ -22,6 +22,7 @@
 #include <utility>
 
 #include "absl/strings/escaping.h"
+#include "absl/strings/numbers.h"
 
 #include "psi/utils/arrow_csv_batch_provider.h"
 
@@ -67,6 +68,33 @@ void HashBucketCache::Flush() {
   }
 }
 
+void HashBucketCache::Truncate(uint64_t item_cnt) {
+  bucket_os_vec_.clear();
+  for (uint32_t i = 0; i < bucket_num_; ++i) {
+    const std::string path = disk_cache_->GetPath(i);
+    const std::string tmp_path = path + ".tmp";
+    {
+      auto in = disk_cache_->CreateInputStream(i);
+      auto out = io::BuildOutputStream(io::FileIoOptions(tmp_path));
+      std::string line;
+      while (in->GetLine(&line)) {
+        // The last line may be incomplete after a crash.
+        uint64_t index;
+        auto pos = line.find(',');
+        if (pos != std::string::npos &&
+            absl::SimpleAtoi(line.substr(0, pos), &index) && index < item_cnt) {
+          out->Write(line);
+          out->Write("\n");
+        }
+      }
+      out->Close();
+    }
+    std::filesystem::rename(tmp_path, path);
+  }
+  disk_cache_->CreateOutputStreams(bucket_num_, &bucket_os_vec_);
+  item_index_ = item_cnt;
+}
+
 std::vector<HashBucketCache::BucketItem> HashBucketCache::LoadBucketItems(
     uint32_t index) {
   std::vector<BucketItem> ret;
diff --git a/psi/utils/hash_bucket_cache.h b/psi/utils/hash_bucket_cache.h
index 7b58cfa..29013f5 100644
--- a/psi/utils/hash_bucket_cache.h
+++ b/psi/utils/hash_bucket_cache.h
@@ -85,6 +85,10 @@ class HashBucketCache {
 
   void Flush();
 
+  // Keep the first `item_cnt` items in the files only, the next item to write
+  // will be number `item_cnt`.
+  void Truncate(uint64_t item_cnt);
+
   std::vector<BucketItem> LoadBucketItems(uint32_t index);
 
   uint32_t BucketNum() const { return bucket_num_; }
-- 
2.43.0


From cabd6855a5c3b36f751338baf434e90a9ea0b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 10/39] fix: a crash while a json meta file was written made
 later runs fail

The meta file of a table lies beside it and is loaded by every later run, which
cannot parse a partial one. Write a new file and rename it.
---
 psi/utils/pb_helper.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/psi/utils/pb_helper.cc b/psi/utils/pb_helper.cc
index edc16af..b184937 100644
--- a/psi/utils/pb_helper.cc
+++ b/psi/utils/pb_helper.cc
@@ -30,9 +30,15 @@ void DumpPbMessageToJsonFile(const google::protobuf::Message& msg,
   auto stat = ::google::protobuf::util::MessageToJsonString(msg, &json);
   YACL_ENFORCE(stat.ok(), "pb to json failed, status:{}", stat.ToString());
 
-  auto ofs = io::GetStdOutFileStream(json_file);
-  *ofs << json;
-  YACL_ENFORCE(ofs->good(), "save json file {} failed.", json_file);
+  // A crash must not leave a partial file, which could not be loaded anymore.
+  const std::string tmp_file = json_file + ".tmp";
+  {
+    auto ofs = io::GetStdOutFileStream(tmp_file);
+    *ofs << json;
+    ofs->close();
+    YACL_ENFORCE(ofs->good(), "save json file {} failed.", tmp_file);
+  }
+  std::filesystem::rename(tmp_file, json_file);
 }
 
 void LoadJsonFileToPbMessage(const std::string& json_file,
-- 
2.43.0


From c5fa34302f15a4aa0fa72ea7117ea0c7d36fbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 11/39] fix: different key lists had the same digest when their
 concatenations were equal

With check_hash_digest, which recovery turns on, {a, bc} against {ab, c} was
taken for equal inputs and every row was reported as intersection.
---
 psi/utils/table_utils.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..302a91d 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -277,6 +277,17 @@ std::shared_ptr<arrow::Schema> KeyInfo::GetSchema() {
                         arrow::field(KeyInfo::kDupCnt, arrow::int64())});
 }
 
+namespace {
+
+// The length keeps lists apart which only differ in the borders of their keys.
+void UpdateKeysHash(yacl::crypto::Sha256Hash& hash, const std::string& key) {
+  hash.Update(std::to_string(key.size()));
+  hash.Update(",");
+  hash.Update(key);
+}
+
+}  // namespace
+
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<SortedTable> sorted_table, std::string path) {
   auto meta_path = path + ".meta";
@@ -307,7 +318,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> start_index,
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
-      hash.Update(keys[i]);
+      UpdateKeysHash(hash, keys[i]);
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
@@ -402,7 +413,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   while (!batch.empty()) {
     lines += batch.size();
     for (auto& item : batch) {
-      hash.Update(item);
+      UpdateKeysHash(hash, item);
     }
     batch = provider->ReadNextBatch();
   }
-- 
2.43.0


From 1b74b0ca3ff09bce64e1d6436f24a4744b1fb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 12/39] fix: KKRT sender looped forever when receiving the
 corrections failed

When the peer was gone the receiving thread ended with an exception, but the
sender kept waiting for corrections at full load instead of reporting it.
---
 psi/algorithm/kkrt/kkrt_psi.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..4ad8459 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -14,6 +14,7 @@
 
 #include "psi/algorithm/kkrt/kkrt_psi.h"
 
+#include <chrono>
 #include <future>
 #include <numeric>
 #include <unordered_map>
@@ -249,7 +250,13 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
 
     // after stepSize attempts to encode items, lets see if more
     // corrections have arrived.
+    bool recv_finished = f_recv_corrections.wait_for(std::chrono::seconds(0)) ==
+                         std::future_status::ready;
     r = recv_idx.load(std::memory_order_acquire);
+    if (recv_finished && r != num_bins) {
+      // receiving failed, the error is thrown below.
+      break;
+    }
   }
 
   // Join receiving thread and throw exceptions if any thing is wrong.
-- 
2.43.0


From 348d5c48e20aa2447aee586e9d435a8591caec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 13/39] fix: RR22 waited forever when one stage of the pipeline
 failed

Reading, OPRF and intersection run in three threads; when one of them threw,
e.g. because the peer was gone, the next ones waited for its output and the
party never returned.
---
 psi/algorithm/rr22/rr22_psi.h | 42 +++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..80b89b4 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <cstddef>
+#include <functional>
 #include <future>
 #include <memory>
 #include <mutex>
@@ -200,23 +201,46 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // a stage which fails ends the other ones, they would wait for it forever.
+    bool failed = false;
+    auto run_stage = [&](const std::function<void()>& stage) {
+      try {
+        stage();
+      } catch (...) {
+        {
+          std::scoped_lock lock(prepare_mtx, oprf_mtx);
+          failed = true;
+        }
+        prepare_cv.notify_all();
+        oprf_cv.notify_all();
+        throw;
+      }
+    };
+    auto prepare_f = std::async(std::launch::async, run_stage, [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return failed || prepared_runner_queue.size() < cache_size;
+        });
+        if (failed) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
     });
-    auto run_f = std::async(std::launch::async, [&]() {
+    auto run_f = std::async(std::launch::async, run_stage, [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return failed || !prepared_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -229,12 +253,16 @@ class Rr22Runner {
         }
       }
     });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    auto intersection_f = std::async(std::launch::async, run_stage, [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return failed || !oprf_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
-- 
2.43.0


From 20ee7014aecac9480f98340086d98e6d0cacc4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 14/39] fix: result rows of unique-key inputs were sorted by
 all columns instead of the keys

The rows of both outputs did not correspond unless the key columns came first
in both tables and in the order of the keys.
---
 psi/utils/join_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..aee0952 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -274,7 +274,7 @@ KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
       Table::MakeFromCsv(sorted_intersect_path_)
-          ->SortInplace(GetInputTable()->Columns());
+          ->SortInplace(keys_);
     }
   }
   return stat;
-- 
2.43.0


From 0fbcc033763c9e0ddbbf28812dc15d6ab3c55692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 15/39] fix: keys and rows of quoted csv files were mixed up

Composite keys are joined with escaped separators ("a,b","c" and "a","b,c"
were one key), lines are sorted by the key values and not by what lies between
commas, and quotes inside of keys are escaped in the key info file.
---
 psi/utils/arrow_csv_batch_provider.cc |   2 +-
 psi/utils/csv_checker.cc              |   2 +-
 psi/utils/key.cc                      | 123 +++++++++++++++++++++++++-
 psi/utils/key.h                       |   6 ++
 psi/utils/table_utils.cc              |  22 ++++-
 5 files changed, 146 insertions(+), 9 deletions(-)

diff --git a/psi/utils/arrow_csv_batch_provider.cc b/psi/utils/arrow_csv_batch_provider.cc
index 0e90fbb..bb986a0 100644
--- a/psi/utils/arrow_csv_batch_provider.cc
+++ b/psi/utils/arrow_csv_batch_provider.cc
@@ -121,7 +121,7 @@ void ArrowCsvBatchProvider::ReadBatch(std::vector<std::string>* read_keys,
           values.emplace_back(arrays_[i]->Value(idx_in_batch_));
         }
 
-        read_keys->emplace_back(KeysJoin(values, delimiter_));
+        read_keys->emplace_back(CompositeKeyJoin(values, delimiter_));
       }
 
       if (read_labels != nullptr && !labels_.empty()) {
diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..f050530 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -100,7 +100,7 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       }
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
-      std::string combined_id = KeysJoin(chosen);
+      std::string combined_id = CompositeKeyJoin(chosen);
       hash_obj.Update(combined_id);
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 64b64d2..442b788 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -16,12 +16,15 @@
 
 #include <omp.h>
 
+#include <algorithm>
+#include <filesystem>
 #include <fstream>
 #include <sstream>
 
 #include "fmt/ranges.h"
 #include "spdlog/spdlog.h"
 #include "yacl/base/exception.h"
+#include "yacl/utils/scope_guard.h"
 
 #include "psi/utils/arrow_helper.h"
 #include "psi/utils/io.h"
@@ -106,6 +109,83 @@ int GetCpuCount() {
   return std::thread::hardware_concurrency();
 }
 
+bool HasQuote(const std::string& csv) {
+  std::ifstream in(csv, std::ios::binary);
+  std::vector<char> buf(1 << 20);
+  while (in) {
+    in.read(buf.data(), buf.size());
+    if (std::find(buf.begin(), buf.begin() + in.gcount(), '"') !=
+        buf.begin() + in.gcount()) {
+      return true;
+    }
+  }
+  return false;
+}
+
+std::vector<std::string> SplitCsvLine(const std::string& line) {
+  std::vector<std::string> fields(1);
+  bool quoted = false;
+  bool field_begin = true;
+  for (size_t i = 0; i != line.size(); ++i) {
+    char c = line[i];
+    if (quoted) {
+      if (c != '"') {
+        fields.back().push_back(c);
+      } else if (i + 1 != line.size() && line[i + 1] == '"') {
+        fields.back().push_back(c);
+        ++i;
+      } else {
+        quoted = false;
+      }
+    } else if (c == ',') {
+      fields.emplace_back();
+      field_begin = true;
+      continue;
+    } else if (c == '"' && field_begin) {
+      quoted = true;
+    } else {
+      fields.back().push_back(c);
+    }
+    field_begin = false;
+  }
+  return fields;
+}
+
+// `sort` knows nothing about quotes. Copy the csv body and put the sort keys in
+// front of each line: "hex(key1).hex(key2)...,line". The order of the prefixes
+// is the order of the keys.
+void WriteKeyPrefixedBody(const std::string& in_csv,
+                          const std::string& out_path,
+                          const std::vector<int>& key_indices) {
+  constexpr char kHex[] = "0123456789abcdef";
+  std::ifstream in(in_csv, std::ios::binary);
+  std::ofstream out(out_path, std::ios::binary);
+  std::string line;
+  std::getline(in, line);
+  while (std::getline(in, line)) {
+    std::string content = line;
+    if (!content.empty() && content.back() == '\r') {
+      content.pop_back();
+    }
+    auto fields = SplitCsvLine(content);
+    std::string prefix;
+    for (size_t i = 0; i != key_indices.size(); ++i) {
+      if (i != 0) {
+        prefix.push_back('.');
+      }
+      if (static_cast<size_t>(key_indices[i]) < fields.size()) {
+        for (unsigned char c : fields[key_indices[i]]) {
+          prefix.push_back(kHex[c >> 4]);
+          prefix.push_back(kHex[c & 15]);
+        }
+      }
+    }
+    out << prefix << ',' << line << '\n';
+  }
+  out.close();
+  YACL_ENFORCE(out.good(), "failed to write {}", out_path);
+}
+
 }  // namespace
 
 // Multiple-Key out-of-core sort.
@@ -143,11 +223,13 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 
   // Construct sort key indices.
   std::vector<std::string> sort_keys;
+  std::vector<int> key_indices;
   for (auto key : keys) {
     auto index = schema->GetFieldIndex(key);
     YACL_ENFORCE(index >= 0, "field {} is not found in {}", key, in_csv);
     // NOTE: `sort` cmd starts from index 1.
     auto sort_index = index + 1;
+    key_indices.push_back(index);
     // About `sort --key=KEYDEF`
     //
     // KEYDEF is F[.C][OPTS][,F[.C][OPTS]] for start and stop position, where
@@ -170,12 +252,25 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
   int mcpus = GetCpuCount();
 
   // Sort the csv body and append to out csv.
+  std::string read_body = fmt::format("tail -n +2 {}", in_csv);
+  std::string strip_prefix;
+  std::string prefixed_path = out_csv + ".prefixed";
+  ON_SCOPE_EXIT([&] {
+    std::error_code ec;
+    std::filesystem::remove(prefixed_path, ec);
+  });
+  if (!numeric_sort && HasQuote(in_csv)) {
+    WriteKeyPrefixedBody(in_csv, prefixed_path, key_indices);
+    read_body = fmt::format("cat {}", prefixed_path);
+    strip_prefix = "| LC_ALL=C cut -d, -f2-";
+    sort_keys = {"--key=1,1"};
+  }
   std::string cmd = fmt::format(
-      "tail -n +2 {} | LC_ALL=C sort {} --parallel={} --buffer-size=1G "
+      "{} | LC_ALL=C sort {} --parallel={} --buffer-size=1G "
       "--stable "
-      "--field-separator=, {} {} >>{}",
-      in_csv, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
-      unique ? "| LC_ALL=C uniq" : "", out_csv);
+      "--field-separator=, {} {} {} >>{}",
+      read_body, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
+      strip_prefix, unique ? "| LC_ALL=C uniq" : "", out_csv);
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
@@ -186,4 +281,24 @@ std::string KeysJoin(const std::vector<absl::string_view>& keys, char sep) {
   return absl::StrJoin(keys, std::string(&sep, 1));
 }
 
+std::string CompositeKeyJoin(const std::vector<absl::string_view>& keys,
+                             char sep) {
+  if (keys.size() == 1) {
+    return std::string(keys[0]);
+  }
+  std::string joined;
+  for (size_t i = 0; i != keys.size(); ++i) {
+    if (i != 0) {
+      joined.push_back(sep);
+    }
+    for (char c : keys[i]) {
+      if (c == sep || c == '\\') {
+        joined.push_back('\\');
+      }
+      joined.push_back(c);
+    }
+  }
+  return joined;
+}
+
 }  // namespace psi
diff --git a/psi/utils/key.h b/psi/utils/key.h
index 907cc61..df4e532 100644
--- a/psi/utils/key.h
+++ b/psi/utils/key.h
@@ -40,4 +40,10 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 std::string KeysJoin(const std::vector<absl::string_view>& keys,
                      char sep = ',');
 
+// join the components of a composite key. A separator or backslash inside of a
+// component is escaped, so that different keys never join to the same string.
+// The key of a single column is not changed.
+std::string CompositeKeyJoin(const std::vector<absl::string_view>& keys,
+                             char sep = ',');
+
 }  // namespace psi
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 302a91d..7cdff25 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -209,11 +209,27 @@ Table::Table(std::string path, std::string format)
   SPDLOG_INFO("table header: {}", MakeQuotedCsvLine(columns_));
 }
 
+namespace {
+
+std::string QuoteCsvField(const std::string& field) {
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted.push_back('"');
+    }
+    quoted.push_back(c);
+  }
+  quoted.push_back('"');
+  return quoted;
+}
+
+}  // namespace
+
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns) {
   std::ostringstream oss;
-  oss << '"' << columns[0] << '"';
+  oss << QuoteCsvField(columns[0]);
   for (size_t i = 1; i < columns.size(); ++i) {
-    oss << ',' << '"' << columns[i] << '"';
+    oss << ',' << QuoteCsvField(columns[i]);
   }
   return oss.str();
 }
@@ -319,7 +335,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
       UpdateKeysHash(hash, keys[i]);
-      out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
+      out << QuoteCsvField(keys[i]) << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
         duplicate_key_cnt++;
-- 
2.43.0


From b806f7598e17f755fa12cfb8095ebb238ceeda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 16/39] fix: stale key statistics of an edited unique-key input
 were reused

The meta file beside the input was trusted when the sizes were equal, so after
an edit, or with other key columns, the old digest decided about the result.
---
 psi/utils/table_utils.cc    | 14 ++++++++++++--
 psi/utils/table_utils.proto |  3 +++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 7cdff25..1625ede 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -403,6 +403,11 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<UniqueKeyTable> unique_key_table) {
   auto meta_path = unique_key_table->Path() + ".meta";
+  const auto source_keys = unique_key_table->Keys();
+  const int64_t source_write_time =
+      std::filesystem::last_write_time(unique_key_table->Path())
+          .time_since_epoch()
+          .count();
   if (std::filesystem::exists(meta_path) &&
       std::filesystem::file_size(meta_path)) {
     SPDLOG_INFO("meta file {} exists already.", meta_path);
@@ -410,12 +415,15 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     LoadJsonFileToPbMessage(meta_path, meta);
 
     if (meta.source_file_size() ==
-        std::filesystem::file_size(unique_key_table->Path())) {
+            std::filesystem::file_size(unique_key_table->Path()) &&
+        meta.source_write_time() == source_write_time &&
+        std::equal(source_keys.begin(), source_keys.end(),
+                   meta.source_keys().begin(), meta.source_keys().end())) {
       return std::shared_ptr<KeyInfo>(
           new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
     } else {
       SPDLOG_WARN(
-          "unique_key_table file size {} not match meta file size {}, rebuild.",
+          "unique_key_table (size {}) does not match meta (size {}), rebuild.",
           std::filesystem::file_size(unique_key_table->Path()),
           meta.source_file_size());
     }
@@ -442,6 +450,8 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   meta.set_original_cnt(lines);
   meta.set_source_file_size(
       std::filesystem::file_size(unique_key_table->Path()));
+  meta.set_source_write_time(source_write_time);
+  meta.mutable_source_keys()->Assign(source_keys.begin(), source_keys.end());
   DumpPbMessageToJsonFile(meta, meta_path);
 
   return std::shared_ptr<KeyInfo>(
diff --git a/psi/utils/table_utils.proto b/psi/utils/table_utils.proto
index 3de5c08..1c3aaa9 100644
--- a/psi/utils/table_utils.proto
+++ b/psi/utils/table_utils.proto
@@ -24,4 +24,7 @@ message KeyInfoMeta {
   uint32 unique_key_cnt = 3;
   uint32 original_cnt = 4;
   uint64 source_file_size = 5;
+  // only set for unique key tables, whose meta file lies beside the input
+  int64 source_write_time = 6;
+  repeated string source_keys = 7;
 }
-- 
2.43.0


From 090cb8263f1e1f063ab29e54a3e6f3f34e3dcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 17/39] fix: file names were pasted into the sort command
 without quoting

---
 psi/utils/key.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 442b788..c5f5cbb 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -109,6 +109,19 @@ int GetCpuCount() {
   return std::thread::hardware_concurrency();
 }
 
+std::string ShellQuote(const std::string& text) {
+  std::string quoted = "'";
+  for (char c : text) {
+    if (c == '\'') {
+      quoted += "'\\''";
+    } else {
+      quoted.push_back(c);
+    }
+  }
+  quoted.push_back('\'');
+  return quoted;
+}
+
 bool HasQuote(const std::string& csv) {
   std::ifstream in(csv, std::ios::binary);
   std::vector<char> buf(1 << 20);
@@ -252,7 +265,7 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
   int mcpus = GetCpuCount();
 
   // Sort the csv body and append to out csv.
-  std::string read_body = fmt::format("tail -n +2 {}", in_csv);
+  std::string read_body = fmt::format("tail -n +2 {}", ShellQuote(in_csv));
   std::string strip_prefix;
   std::string prefixed_path = out_csv + ".prefixed";
   ON_SCOPE_EXIT([&] {
@@ -261,7 +274,7 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
   });
   if (!numeric_sort && HasQuote(in_csv)) {
     WriteKeyPrefixedBody(in_csv, prefixed_path, key_indices);
-    read_body = fmt::format("cat {}", prefixed_path);
+    read_body = fmt::format("cat {}", ShellQuote(prefixed_path));
     strip_prefix = "| LC_ALL=C cut -d, -f2-";
     sort_keys = {"--key=1,1"};
   }
@@ -270,7 +283,8 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
       "--stable "
       "--field-separator=, {} {} {} >>{}",
       read_body, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
-      strip_prefix, unique ? "| LC_ALL=C uniq" : "", out_csv);
+      strip_prefix, unique ? "| LC_ALL=C uniq" : "",
+      ShellQuote(out_csv));
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
-- 
2.43.0


From 1c8a4078fe15544ecf2e9ed53d4ccb55c3b63b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 18/39] fix: threshold PSI stored the duplicate counts of the
 wrong items when it shuffled a batch

---
 experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index 8710228..c972d40 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -103,7 +103,7 @@ void ThresholdEcdhPsiCtx::MaskAndShufflePeer(
       for (size_t i = 0; i < dual_masked_peers.size(); ++i) {
         shuffled_items[i] = std::move(dual_masked_peers[shuffled_indices[i]]);
         cache->SaveData(item_count + i, item_count + shuffled_indices[i],
-                        dup_cnts[i]);
+                        dup_cnts[shuffled_indices[i]]);
       }
     }
 
-- 
2.43.0


From 034388b7ea964a14c40ff82beead767a0874b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 19/39] fix: equal inputs were disclosed beyond the
 intersection threshold

---
 psi/interface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index c9b8ed9..baae634 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -95,7 +95,9 @@ void AbstractPsiParty::Init() {
   // Check if the input are the same between receiver and sender.
   // current only support unique keys input check
   // TODO(huocun): support dup keys input
-  if (config_.check_hash_digest()) {
+  // With an intersection threshold even equal inputs must not be disclosed
+  // beyond the threshold, so that the early stop does not apply.
+  if (config_.check_hash_digest() && config_.intersection_threshold() == 0) {
     auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);
     auto all_unique = std::all_of(unique_flag.begin(), unique_flag.end(),
                                   [](auto flag) { return flag; });
-- 
2.43.0


From f367b20e9d969892b05e5f67e00b3265f093d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 20/39] fix: threshold PSI mixed the items of an interrupted
 attempt into a resumed one

---
 .../threshold_ecdh_psi/threshold_ecdh_psi.cc  | 42 +++++--------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index c972d40..4d8530e 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -23,29 +23,6 @@ namespace psi::ecdh {
 
 constexpr int kLogBatchInterval = 10;
 
-namespace {
-uint64_t GetProcessedItemCnt(const EcdhPsiOptions& options,
-                             const EcdhPsiContext& handler) {
-  uint64_t processed_item_cnt = 0;
-  if (handler.SelfCanTouchResults() && handler.PeerCanTouchResults()) {
-    processed_item_cnt =
-        std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),
-                 options.recovery_manager->checkpoint()
-                     .ecdh_dual_masked_item_self_count());
-  } else if (handler.SelfCanTouchResults() && !handler.PeerCanTouchResults()) {
-    processed_item_cnt = options.recovery_manager->checkpoint()
-                             .ecdh_dual_masked_item_self_count();
-  } else {
-    processed_item_cnt =
-        options.recovery_manager->ecdh_dual_masked_cnt_from_peer();
-  }
-
-  SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
-
-  return processed_item_cnt;
-}
-}  // namespace
-
 ThresholdEcdhPsiCtx::ThresholdEcdhPsiCtx(const EcdhPsiOptions& options)
     : EcdhPsiContext(options) {}
 
@@ -228,15 +205,12 @@ void RunSender(const EcdhPsiOptions& options,
   std::shared_ptr<ThresholdEcdhPsiCache> cache =
       std::make_shared<ThresholdEcdhPsiCache>(cache_path);
 
-  uint64_t processed_item_cnt = 0;
-  if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
-  }
-
+  // The shuffled indexes of a previous attempt can't be continued, so that the
+  // online stage always starts over.
   // Sender mask self items then send them to receiver.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
@@ -283,15 +257,19 @@ void RunReceiver(const EcdhPsiOptions& options,
   ThresholdEcdhPsiCtx handler(options);
   handler.CheckConfig();
 
-  uint64_t processed_item_cnt = 0;
+  // The sender always starts over and shuffles again, see RunSender. Whatever
+  // was stored by a previous attempt is of no use.
   if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
+    options.recovery_manager->UpdateEcdhDualMaskedItemSelfCount(0);
+    options.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(0);
+    self_ec_point_store->Truncate(0);
+    peer_ec_point_store->Truncate(0);
   }
 
   // Receiver mask self items then send them to sender.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
-- 
2.43.0


From 7bca2f1e7d1cdc75eefd2c38475763cfdcaf7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 21/39] fix: failed writes of result files went unnoticed

---
 psi/utils/io.cc             | 10 ++++++----
 psi/utils/join_processor.cc |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/psi/utils/io.cc b/psi/utils/io.cc
index 67d8ca6..b1c108b 100644
--- a/psi/utils/io.cc
+++ b/psi/utils/io.cc
@@ -111,10 +111,12 @@ std::shared_ptr<std::ofstream> GetStdOutFileStream(const std::string& filename,
                 filename, path.parent_path().string());
     std::filesystem::create_directories(path.parent_path());
   }
-  if (append) {
-    return std::make_shared<std::ofstream>(path, std::ios_base::app);
-  }
-  return std::make_shared<std::ofstream>(path);
+  auto stream = std::make_shared<std::ofstream>(
+      path, append ? std::ios_base::app : std::ios_base::out);
+  YACL_ENFORCE(stream->is_open(), "open file {} for writing failed.", filename);
+  // a failed write must not go unnoticed.
+  stream->exceptions(std::ios_base::failbit | std::ios_base::badbit);
+  return stream;
 }
 
 }  // namespace psi::io
diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index aee0952..038650d 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -337,6 +337,8 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
     write_na(peer_except_cnt);
   }
 
+  ofs->close();
+
   SPDLOG_INFO("end generate result file: {}", output_path_);
 }
 
-- 
2.43.0


From ceb4ad7201221d744a06003e71e7742aca8d6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 22/39] fix: failed writes of the key info and index files went
 unnoticed

---
 psi/utils/index_store.cc | 1 +
 psi/utils/table_utils.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index 4afeca5..ae9a310 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -64,6 +64,7 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
 
       file << absl::StrJoin(fields, ",") << '\n';
       file.close();
+      YACL_ENFORCE(file.good(), "write header of {} failed.", path_.string());
     }
   }
   outfile_ = io::GetArrowOutputStream(path_, true);
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 1625ede..80f126f 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -387,6 +387,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 
   write_to_csv({cur_key}, {cur_key_start_index}, {cur_key_dup_cnt});
   out.close();
+  YACL_ENFORCE(out.good(), "write key info file {} failed.", path);
 
   proto::KeyInfoMeta meta;
   auto keys_hash = hash.CumulativeHash();
-- 
2.43.0


From 440e59cd883b9b89370ac2cf9e3b881c51ea0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 23/39] fix: a failing stage of the sort pipeline went
 unnoticed

---
 psi/utils/key.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index c5f5cbb..4347841 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -264,6 +264,17 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 
   int mcpus = GetCpuCount();
 
+  // The shell only reports the status of the last command of a pipeline. Each
+  // of the others leaves a line in `done_path` when it succeeds.
+  std::string done_path = out_csv + ".done";
+  std::string and_done = fmt::format(" && echo >>{}", ShellQuote(done_path));
+  size_t stage_num = 2;
+  std::filesystem::remove(done_path);
+  ON_SCOPE_EXIT([&] {
+    std::error_code ec;
+    std::filesystem::remove(done_path, ec);
+  });
+
   // Sort the csv body and append to out csv.
   std::string read_body = fmt::format("tail -n +2 {}", ShellQuote(in_csv));
   std::string strip_prefix;
@@ -275,20 +286,25 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
   if (!numeric_sort && HasQuote(in_csv)) {
     WriteKeyPrefixedBody(in_csv, prefixed_path, key_indices);
     read_body = fmt::format("cat {}", ShellQuote(prefixed_path));
-    strip_prefix = "| LC_ALL=C cut -d, -f2-";
+    strip_prefix = fmt::format("| {{ LC_ALL=C cut -d, -f2-{}; }}", and_done);
+    stage_num++;
     sort_keys = {"--key=1,1"};
   }
-  std::string cmd = fmt::format(
-      "{} | LC_ALL=C sort {} --parallel={} --buffer-size=1G "
+  std::string sort_cmd = fmt::format(
+      "LC_ALL=C sort {} --parallel={} --buffer-size=1G "
       "--stable "
-      "--field-separator=, {} {} {} >>{}",
-      read_body, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
-      strip_prefix, unique ? "| LC_ALL=C uniq" : "",
-      ShellQuote(out_csv));
+      "--field-separator=, {}",
+      numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "));
+  std::string cmd =
+      fmt::format("{{ {}{}; }} | {{ {}{}; }} {} {} >>{}", read_body, and_done,
+                  sort_cmd, and_done, strip_prefix,
+                  unique ? "| LC_ALL=C uniq" : "", ShellQuote(out_csv));
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
-  YACL_ENFORCE(ret == 0, "failed to execute cmd={}, ret={}", cmd, ret);
+  YACL_ENFORCE(ret == 0 && std::filesystem::exists(done_path) &&
+                   std::filesystem::file_size(done_path) == stage_num,
+               "failed to execute cmd={}, ret={}", cmd, ret);
 }
 
 std::string KeysJoin(const std::vector<absl::string_view>& keys, char sep) {
-- 
2.43.0


From e7454359caeb05c688d14bc28c516a1269b3fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 24/39] fix: an incomplete unbalanced PSI cache was used as a
 complete one

---
 experiment/psi/threshold_ub_psi/client.cc |  3 +++
 psi/algorithm/ecdh/ub_psi/client.cc       |  7 +++++-
 psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc |  5 +++-
 psi/utils/ec_point_store.cc               | 28 +++++++++++++++++++++--
 psi/utils/ec_point_store.h                |  6 +++++
 5 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/experiment/psi/threshold_ub_psi/client.cc b/experiment/psi/threshold_ub_psi/client.cc
index 4474c87..32b9d85 100644
--- a/experiment/psi/threshold_ub_psi/client.cc
+++ b/experiment/psi/threshold_ub_psi/client.cc
@@ -42,6 +42,9 @@ void ThresholdEcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(UbPsiClientCacheFileStore::Exists(GetServerCachePath()),
+                 "no complete server cache {}, run the offline stage first",
+                 GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 69a9da8..3d9248e 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -59,8 +59,10 @@ void EcdhUbPsiClient::OfflineTransferCache() {
   std::shared_ptr<EcdhOprfPsiClient> ub_psi_client_transfer_cache =
       std::make_shared<EcdhOprfPsiClient>(psi_options_);
 
-  if (std::filesystem::exists(GetServerCachePath())) {
+  if (std::filesystem::exists(GetServerCachePath()) ||
+      std::filesystem::exists(GetServerCachePath() + ".meta")) {
     SPDLOG_INFO("old cache file exists, remove {}", GetServerCachePath());
+    UbPsiClientCacheFileStore::Remove(GetServerCachePath());
     std::filesystem::remove_all(config_.cache_path());
   }
 
@@ -100,6 +102,9 @@ void EcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(UbPsiClientCacheFileStore::Exists(GetServerCachePath()),
+                 "no complete server cache {}, run the offline stage first",
+                 GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
diff --git a/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc b/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
index 8317ece..2a6fd5c 100644
--- a/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
+++ b/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
@@ -132,14 +132,17 @@ UbPsiCache::UbPsiCache(const std::string& file_path, uint64_t data_len,
   meta_.mutable_key_cols()->Assign(selected_fields.begin(),
                                    selected_fields.end());
 
+  // The meta file of an older cache does not belong to the new data.
+  std::filesystem::remove(GetUbPsiCacheMetaName(file_path));
   out_stream_ = io::BuildOutputStream(
       io::FileIoOptions(GetUbPsiCacheFileName(file_path)));
 }
 
 void UbPsiCache::Flush() {
+  // The meta file is written last: without it the cache is incomplete.
+  out_stream_->Flush();
   meta_.set_item_count(cache_cnt_);
   DumpPbMessageToJsonFile(meta_, GetUbPsiCacheMetaName(file_path_));
-  out_stream_->Flush();
 }
 
 void UbPsiCache::SaveData(yacl::ByteContainerView item, size_t index,
diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 827c509..b7c0d31 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -371,6 +371,8 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
 void UbPsiClientCacheFileStore::LoadMeta() {
   std::ifstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.read(reinterpret_cast<char*>(&meta_), sizeof(CacheMeta));
+  YACL_ENFORCE(meta_stream.gcount() == sizeof(CacheMeta),
+               "ub psi cache meta {} is incomplete", meta_path_);
 }
 
 void UbPsiClientCacheFileStore::DumpMeta() {
@@ -378,6 +380,20 @@ void UbPsiClientCacheFileStore::DumpMeta() {
       .item_cnt = item_cnt_, .peer_cnt = peer_cnt_, .cipher_len = cipher_len_};
   std::ofstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.write(reinterpret_cast<const char*>(&meta_), sizeof(CacheMeta));
+  meta_stream.close();
+  YACL_ENFORCE(meta_stream.good(), "write ub psi cache meta {} failed",
+               meta_path_);
+}
+
+bool UbPsiClientCacheFileStore::Exists(const std::string& path) {
+  return std::filesystem::exists(path) &&
+         std::filesystem::exists(path + ".meta");
+}
+
+void UbPsiClientCacheFileStore::Remove(const std::string& path) {
+  // The meta file goes first, what is left without it is no cache.
+  std::filesystem::remove(path + ".meta");
+  std::filesystem::remove(path);
 }
 
 UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
@@ -408,11 +424,13 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
                  meta_.item_cnt);
     peer_cnt_ = meta_.peer_cnt;
   } else {
-    DumpMeta();
+    modified_ = true;
   }
 }
 
-UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() { Flush(); }
+// Only Flush completes the cache: a store that is given up halfway must not
+// look like a complete one.
+UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() = default;
 
 std::shared_ptr<IBasicBatchProvider>
 UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
@@ -421,8 +439,13 @@ UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
 }
 
 void UbPsiClientCacheFileStore::Flush() {
+  if (!modified_) {
+    return;
+  }
   output_stream_.flush();
+  YACL_ENFORCE(output_stream_.good(), "write ub psi cache {} failed", path_);
   DumpMeta();
+  modified_ = false;
 }
 
 void UbPsiClientCacheFileStore::Save(const std::string& ciphertext,
@@ -434,6 +457,7 @@ void UbPsiClientCacheFileStore::Save(const std::string& ciphertext,
   memcpy(item.ciphertext, ciphertext.data(), ciphertext.size());
   item.duplicate_cnt = duplicate_cnt;
   output_stream_.write(reinterpret_cast<char*>(&item), sizeof(CacheItem));
+  modified_ = true;
   item_cnt_++;
   peer_cnt_ += duplicate_cnt + 1;
 }
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 7637830..5746ebd 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -148,6 +148,11 @@ class UbPsiClientCacheFileStore : public IEcPointStore {
 
   std::string Path() const { return path_; }
 
+  // Whether there is a complete cache at path.
+  static bool Exists(const std::string& path);
+
+  static void Remove(const std::string& path);
+
  protected:
   void LoadMeta();
   void DumpMeta();
@@ -159,6 +164,7 @@ class UbPsiClientCacheFileStore : public IEcPointStore {
   uint32_t cipher_len_ = 0;
   uint32_t item_cnt_ = 0;
   uint32_t peer_cnt_ = 0;
+  bool modified_ = false;
   CacheMeta meta_;
 };
 
-- 
2.43.0


From fb7b71321078c80522cb8f5f5647f3505d737081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:08 +0000
Subject: [PATCH 25/39] fix: the MP-PSI share table had one row per item, not
 per party

---
 experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
index d8a38ec..5c88a15 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
@@ -97,7 +97,7 @@ auto KmprtParty::SwapShares(const std::vector<uint128_t>& items,
                             const std::vector<Share>& shares) const -> Share {
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = shares.front().size();
-  std::vector<Share> recv_shares(count);
+  std::vector<Share> recv_shares(wsize);
   std::vector<std::future<Share>> futures(wsize);
   // NOTE: First Send Then Receive for peers of smaller ranks
   for (size_t id{}; id != me; ++id) {
@@ -136,7 +136,7 @@ auto KmprtParty::Reconstruct(const std::vector<uint128_t>& items,
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = items.size();
   if (me == leader) {
-    std::vector<Share> recv_shares(count);
+    std::vector<Share> recv_shares(wsize);
     std::vector<std::future<Share>> futures(wsize);
     for (size_t src{}; src != wsize; ++src) {
       if (me != src) {
-- 
2.43.0


From 9b964c48f649611b8710fc185a1bab603a6083a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 26/39] fix: SimplePIR recovery and query noise were not
 reduced modulo q

---
 experiment/pir/simplepir/client.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/experiment/pir/simplepir/client.cc b/experiment/pir/simplepir/client.cc
index 3470a2a..8d56bd7 100644
--- a/experiment/pir/simplepir/client.cc
+++ b/experiment/pir/simplepir/client.cc
@@ -14,6 +14,7 @@
 
 #include "experiment/pir/simplepir/client.h"
 
+#include <cstdlib>
 #include <vector>
 
 #include "yacl/crypto/tools/prg.h"
@@ -72,8 +73,9 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
   std::vector<uint64_t> qu(row_num);
   for (size_t i = 0; i < row_num; i++) {
     qu[i] = InnerProductModq(A_[i], s_, q_) + u_i_col[i];
-    qu[i] += static_cast<uint64_t>(error_vec[i]);
-    qu[i] %= q_;
+    // A negative error is a subtraction modulo q
+    const uint64_t error = static_cast<uint64_t>(std::abs(error_vec[i])) % q_;
+    qu[i] = (qu[i] + (error_vec[i] < 0 ? q_ - error : error)) % q_;
   }
 
   return qu;
@@ -81,7 +83,8 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
 
 uint64_t SimplePirClient::Recover(const std::vector<uint64_t> &ans) {
   // Computes d_ = ans - hint*s mod q
-  uint64_t phase = ans[idx_row_] - InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t phase =
+      (ans[idx_row_] + q_ - InnerProductModq(hint_[idx_row_], s_, q_)) % q_;
 
   // Handles modular rounding: Map from Z_q to Z_p
   uint64_t d =
-- 
2.43.0


From f8b01b7657d37a1bd6536df0ac26fe889e2d2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 27/39] fix: Spiral refused databases of 5 to 16 or 33 to 64
 plaintexts

---
 psi/algorithm/spiral/params.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/psi/algorithm/spiral/params.cc b/psi/algorithm/spiral/params.cc
index ce417e6..46bee0a 100644
--- a/psi/algorithm/spiral/params.cc
+++ b/psi/algorithm/spiral/params.cc
@@ -135,6 +135,17 @@ size_t Params::UpdateByDatabaseInfo(const DatabaseMetaInfo& database_info) {
     while (static_cast<size_t>(1 << (v1 + v2)) < plaintext_size) {
       v2 += 1;
     }
+    // half of the expanded query must also hold v2 * t_gsw ciphertexts, see
+    // ValidCheck
+    auto second_dim_fits = [this](size_t v1, size_t v2) {
+      size_t gsw_num = v2 * TGsw();
+      size_t g = arith::Log2Ceil(static_cast<uint64_t>((1ULL << v1) + gsw_num));
+      return (1ULL << g) / 2 >= gsw_num;
+    };
+    while (v2 > 1 && !second_dim_fits(v1, v2)) {
+      v1 += 1;
+      v2 -= 1;
+    }
   }
   // set v1 and v2
   SetDbDim1(v1);
-- 
2.43.0


From d605690c94c467801582488ca6a121ca96fec4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 28/39] fix: legacy precheck gave different key lists the same
 digest

BucketPsi takes tables with equal digests for aligned, so that {a, bc} against
{ab, c} reported every row as intersection.
---
 psi/utils/csv_checker.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index f050530..7028b50 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -101,6 +101,9 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = CompositeKeyJoin(chosen);
+      // The length keeps lists apart which only differ in the borders of their
+      // keys.
+      hash_obj.Update(fmt::format("{},", combined_id.size()));
       hash_obj.Update(combined_id);
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
-- 
2.43.0


From 489c3e8eca3b46da0f7549a78bb21921e280b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 29/39] fix: duplicate precheck passed when sort failed

---
 psi/utils/csv_checker.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index 7028b50..f98a10c 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -128,10 +128,20 @@ CsvChecker::CsvChecker(const std::string& csv_path,
 
     int mcpus = omp_get_num_procs();
 
+    // The shell only reports the status of the last command of a pipeline, a
+    // failing sort would pass for a list without duplicates.
+    std::string sorted_keys_file =
+        fmt::format("sorted-keys.{}", GetRandomString());
+    ON_SCOPE_EXIT([&] {
+      std::error_code ec;
+      std::filesystem::remove(sorted_keys_file, ec);
+    });
+
     std::string cmd = fmt::format(
-        "LC_ALL=C sort --parallel={} --buffer-size=1G --stable {} | LC_ALL=C "
-        "uniq -d > {}",
-        mcpus, keys_file, duplicated_keys_file);
+        "LC_ALL=C sort --parallel={} --buffer-size=1G --stable {} > {} && "
+        "LC_ALL=C uniq -d {} > {}",
+        mcpus, keys_file, sorted_keys_file, sorted_keys_file,
+        duplicated_keys_file);
     SPDLOG_INFO("Executing duplicated scripts: {}", cmd);
     int ret = system(cmd.c_str());
     YACL_ENFORCE(ret == 0, "failed to execute cmd={}, ret={}", cmd, ret);
-- 
2.43.0


From 4ddbd7eafcfe74c657bf54ab413a25c863f95154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 30/39] fix: keys and labels with quotes were corrupted in
 bucket files

---
 psi/wrapper/apsi/utils/csv_reader.cc | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/psi/wrapper/apsi/utils/csv_reader.cc b/psi/wrapper/apsi/utils/csv_reader.cc
index ad96237..f16c6fd 100644
--- a/psi/wrapper/apsi/utils/csv_reader.cc
+++ b/psi/wrapper/apsi/utils/csv_reader.cc
@@ -75,6 +75,23 @@ std::vector<std::string> GetCsvColumnNames(const std::string& filename) {
   return column_names;
 }
 
+namespace {
+
+// A quoted csv field.
+std::string QuoteField(std::string_view field) {
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted.push_back('"');
+    }
+    quoted.push_back(c);
+  }
+  quoted.push_back('"');
+  return quoted;
+}
+
+}  // namespace
+
 ApsiCsvReader::ApsiCsvReader(const string& file_name) : file_name_(file_name) {
   throw_if_file_invalid(file_name_);
 
@@ -218,9 +235,10 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
       auto& out = bucket_os_vec[bucket_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("\"{}\"\n", item));
+        out->Write(fmt::format("{}\n", QuoteField(item)));
       } else {
-        out->Write(fmt::format("\"{}\",\"{}\"\n", item, arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},{}\n", QuoteField(item),
+                               QuoteField(arrays_[1]->Value(i))));
       }
     }
   }
@@ -297,10 +315,10 @@ void ApsiCsvReader::GroupBucketize(size_t bucket_cnt,
       auto& out = bucket_group_vec[group_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("{},\"{}\"\n", bucket_idx, item));
+        out->Write(fmt::format("{},{}\n", bucket_idx, QuoteField(item)));
       } else {
-        out->Write(fmt::format("{},\"{}\",\"{}\"\n", bucket_idx, item,
-                               arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},{},{}\n", bucket_idx, QuoteField(item),
+                               QuoteField(arrays_[1]->Value(i))));
       }
     }
   }
-- 
2.43.0


From 1dedf037282144b3634966e6f61f9d16c66b54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 31/39] fix: bucket files kept the rows of an interrupted run

---
 psi/wrapper/apsi/utils/csv_reader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/psi/wrapper/apsi/utils/csv_reader.cc b/psi/wrapper/apsi/utils/csv_reader.cc
index f16c6fd..117b119 100644
--- a/psi/wrapper/apsi/utils/csv_reader.cc
+++ b/psi/wrapper/apsi/utils/csv_reader.cc
@@ -90,6 +90,13 @@ std::string QuoteField(std::string_view field) {
   return quoted;
 }
 
+// The streams of the cache append, rows of an interrupted run would stay.
+void RemoveBins(const MultiplexDiskCache& disk_cache, size_t num_bins) {
+  for (size_t i = 0; i != num_bins; ++i) {
+    std::filesystem::remove(disk_cache.GetPath(i));
+  }
+}
+
 }  // namespace
 
 ApsiCsvReader::ApsiCsvReader(const string& file_name) : file_name_(file_name) {
@@ -190,6 +197,7 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
 
   MultiplexDiskCache disk_cache(bucket_folder, false);
 
+  RemoveBins(disk_cache, bucket_cnt);
   std::vector<std::unique_ptr<io::OutputStream>> bucket_os_vec;
   disk_cache.CreateOutputStreams(bucket_cnt, &bucket_os_vec);
   for (auto& out : bucket_os_vec) {
@@ -259,6 +267,7 @@ void ApsiCsvReader::GroupBucketize(size_t bucket_cnt,
     std::filesystem::create_directories(bucket_folder);
   }
 
+  RemoveBins(disk_cache, group_cnt);
   std::vector<std::unique_ptr<io::OutputStream>> bucket_group_vec;
   disk_cache.CreateOutputStreams(group_cnt, &bucket_group_vec);
   for (auto& out : bucket_group_vec) {
-- 
2.43.0


From 39a7378c67f7021f2ebf5d3f12fd5fb36381fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 32/39] fix: a half written group of a bucketed database was
 served after a crash

The status and meta files are written aside and renamed, the group file is
complete before its meta file.
---
 psi/wrapper/apsi/utils/group_db.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 9777c51..dd8eb93 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -393,12 +393,19 @@ void GroupDBItem::Generate() {
   }
 
   flush_proc();
+  ofs.close();
 
-  std::ofstream meta_ofs(meta_filename_);
+  // The group counts as generated once its meta file exists, it has to be
+  // complete then.
+  auto tmp_meta_filename = meta_filename_ + ".tmp";
+  std::ofstream meta_ofs(tmp_meta_filename);
   meta_ofs << bucket_offset_map_.size() << '\n';
   for (auto& [bucket_id, offset] : bucket_offset_map_) {
     meta_ofs << bucket_id << " " << offset << '\n';
   }
+  meta_ofs.close();
+  YACL_ENFORCE(meta_ofs.good(), "write {} failed.", tmp_meta_filename);
+  std::filesystem::rename(tmp_meta_filename, meta_filename_);
 
   complete_ = true;
 }
@@ -426,10 +433,13 @@ void SaveStatus(const std::string& status_file, const GroupDBStatus& status) {
     std::filesystem::create_directories(
         std::filesystem::path(status_file).parent_path());
   }
-  std::ofstream ofs(status_file);
+  auto tmp_status_file = status_file + ".tmp";
+  std::ofstream ofs(tmp_status_file);
   ofs << json;
+  ofs.close();
   YACL_ENFORCE(ofs.good(), "save {} to status file {} failed.", json,
                status_file);
+  std::filesystem::rename(tmp_status_file, status_file);
 }
 
 GroupDB::GroupDB(const std::string& db_path)
-- 
2.43.0


From 42efbb41970085848c7a912373da02ed20051e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 33/39] fix: a bucketed database was reported as generated
 although a subprocess failed

---
 psi/wrapper/apsi/utils/group_db.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index dd8eb93..ea249a3 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -188,6 +188,12 @@ void GenerateGroupBucketDB(GroupDB& group_db, size_t process_num) {
 
   ProcessGroupParallel(process_num, group_db);
 
+  // Load what the subprocesses have generated. A group they failed to generate
+  // fails here again instead of being reported as done.
+  for (size_t i = 0; i != group_db.GetGroupNum(); ++i) {
+    group_db.GenerateGroup(i);
+  }
+
   group_db.GenerateDone();
 }
 
-- 
2.43.0


From 7570258389a90cdf4c9a0b28bea3a8bc560130a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 34/39] fix: generating a bucketed database hung when a
 subprocess was killed

---
 psi/wrapper/apsi/utils/group_db.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index ea249a3..4e18294 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -23,6 +23,7 @@
 #include <sys/wait.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <csignal>
 #include <cstddef>
 #include <filesystem>
@@ -115,14 +116,18 @@ class GroupDBGenerator {
   }
 
   void WaitToFinish() {
-    int child_num = childs_.size();
-    sembuf sem;
-    sem.sem_num = 0;
-    sem.sem_op = -1 * child_num;
-    sem.sem_flg = 0;
-    if (semop(semid_, &sem, 1) == -1) {
-      SPDLOG_ERROR("failed to increase semaphore");
-      exit(1);
+    // A subprocess which died did not increase the semaphore.
+    auto died = [](pid_t pid) {
+      siginfo_t info{};
+      waitid(P_PID, pid, &info, WEXITED | WNOHANG | WNOWAIT);
+      return info.si_pid == pid &&
+             (info.si_code != CLD_EXITED ||
+              (info.si_status != 0 && info.si_status != 1));
+    };
+    while (semctl(semid_, 0, GETVAL) +
+               std::count_if(childs_.begin(), childs_.end(), died) <
+           static_cast<int64_t>(childs_.size())) {
+      usleep(1000);
     }
 
     for (auto pid : childs_) {
-- 
2.43.0


From f18d9503a8441972c6e8892a1200109885bd16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 35/39] fix: the header of a query result repeated the value
 column for each match

---
 psi/wrapper/apsi/api/receiver.cc | 3 ++-
 psi/wrapper/apsi/utils/common.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/psi/wrapper/apsi/api/receiver.cc b/psi/wrapper/apsi/api/receiver.cc
index 3d94832..c86a3f0 100644
--- a/psi/wrapper/apsi/api/receiver.cc
+++ b/psi/wrapper/apsi/api/receiver.cc
@@ -236,7 +236,8 @@ std::vector<size_t> Receiver::ProcessResult(
     result_size.push_back(psi::apsi_wrapper::print_intersection_results(
         context.items, context.item_vec, query_result, output_file,
         append_to_outfile));
-    append_to_outfile = true;
+    // the header depends on the first match
+    append_to_outfile = append_to_outfile || result_size.back() > 0;
   }
 
   return result_size;
diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 08c585e..1eaca0e 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -232,7 +232,7 @@ int print_intersection_results(
         msg << Colors::GreenBold << intersection[i].label.to_string()
             << Colors::Reset;
         csv_output << "," << intersection[i].label.to_string();
-        csv_header += ",value";
+        csv_header = "key,value";
       }
       csv_output << endl;
       APSI_LOG_INFO(msg.str());
-- 
2.43.0


From 2e6be15b7d724a8fba29d79e3d1ca4417719f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 36/39] fix: keys and labels with separators broke converted
 tables and query results

---
 psi/utils/csv_converter.cc       | 13 ++++++++-----
 psi/wrapper/apsi/utils/common.cc | 20 ++++++++++++++++++--
 psi/wrapper/apsi/utils/common.h  |  3 +++
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index b11c91a..074fdcf 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -31,6 +31,8 @@
 
 namespace psi {
 
+using apsi_wrapper::CsvField;
+
 void WriteCsvFile(
     const std::string& file_path,
     const std::unordered_map<std::string, std::pair<std::string, int>>&
@@ -45,9 +47,10 @@ void WriteCsvFile(
   writer << "key,value\n";
   for (const auto& [key, value_count_pair] : key_value_map) {
     if (is_count) {
-      writer << key << "," << value_count_pair.second << "\n";
+      writer << CsvField(key) << "," << value_count_pair.second << "\n";
     } else {
-      writer << key << "," << value_count_pair.first << "\n";
+      writer << CsvField(key) << "," << CsvField(value_count_pair.first)
+             << "\n";
     }
   }
 
@@ -200,7 +203,7 @@ void ApsiCsvConverter::ExtractQueryTo(const std::string& query_file_path) {
 
   writer << "key\n";
   for (const auto& query : queries) {
-    writer << query << "\n";
+    writer << CsvField(query) << "\n";
   }
 
   writer.close();
@@ -263,9 +266,9 @@ int ApsiCsvConverter::ExtractResult(
             "Incorrect value:{}, which cannot be split into {} labels.",
             row_value, label_names.size());
 
-        csv_output << current_key;
+        csv_output << CsvField(current_key);
         for (auto& label : current_labels) {
-          csv_output << "," << label;
+          csv_output << "," << CsvField(label);
         }
         csv_output << "\n";
       }
diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 1eaca0e..a5328e1 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -54,6 +54,22 @@ const string Colors::RedBold = "\033[1;31m";
 const string Colors::GreenBold = "\033[1;32m";
 const string Colors::Reset = "\033[0m";
 
+// A csv field, quoted if it has to be.
+std::string CsvField(const std::string &field) {
+  if (field.find_first_of(",\"\r\n") == std::string::npos) {
+    return field;
+  }
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted.push_back('"');
+    }
+    quoted.push_back(c);
+  }
+  quoted.push_back('"');
+  return quoted;
+}
+
 std::shared_ptr<arrow::csv::StreamingReader> MakeArrowCsvReader(
     const std::string &file_name, std::vector<std::string> column_names) {
   std::unordered_map<std::string, std::shared_ptr<arrow::DataType>>
@@ -226,12 +242,12 @@ int print_intersection_results(
     if (intersection[i].found) {
       match_cnt++;
       msg << Colors::GreenBold << orig_items[i] << Colors::Reset << "(FOUND) ";
-      csv_output << orig_items[i];
+      csv_output << CsvField(orig_items[i]);
       if (intersection[i].label) {
         msg << ": ";
         msg << Colors::GreenBold << intersection[i].label.to_string()
             << Colors::Reset;
-        csv_output << "," << intersection[i].label.to_string();
+        csv_output << "," << CsvField(intersection[i].label.to_string());
         csv_header = "key,value";
       }
       csv_output << endl;
diff --git a/psi/wrapper/apsi/utils/common.h b/psi/wrapper/apsi/utils/common.h
index 0284d52..13e7a04 100644
--- a/psi/wrapper/apsi/utils/common.h
+++ b/psi/wrapper/apsi/utils/common.h
@@ -45,6 +45,9 @@ void throw_if_directory_invalid(const std::string &dir_name);
 std::unique_ptr<::apsi::PSIParams> BuildPsiParams(
     const std::string &params_file);
 
+// A csv field, quoted if it has to be.
+std::string CsvField(const std::string &field);
+
 int print_intersection_results(
     const std::vector<std::string> &orig_items,
     const std::vector<::apsi::Item> &items,
-- 
2.43.0


From 0f7dd64f769646f851d3b79728a38682eeb8709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:55 +0000
Subject: [PATCH 37/39] fix: converted tables and query results cut short by a
 full disk were reported as written

---
 psi/utils/csv_converter.cc       |  3 +++
 psi/wrapper/apsi/utils/common.cc | 14 ++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index 074fdcf..b531d55 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -55,6 +55,7 @@ void WriteCsvFile(
   }
 
   writer.close();
+  YACL_ENFORCE(writer.good(), "Write file {} failed.", file_path);
 }
 
 std::shared_ptr<arrow::csv::StreamingReader> MakeStreamingReader(
@@ -207,6 +208,7 @@ void ApsiCsvConverter::ExtractQueryTo(const std::string& query_file_path) {
   }
 
   writer.close();
+  YACL_ENFORCE(writer.good(), "Write file {} failed.", query_file_path);
   SPDLOG_INFO("Write query file: {}", query_file_path);
 }
 
@@ -278,6 +280,7 @@ int ApsiCsvConverter::ExtractResult(
   std::ofstream writer(result_file_path);
   writer << csv_output.str();
   writer.close();
+  YACL_ENFORCE(writer.good(), "Write file {} failed.", result_file_path);
   SPDLOG_INFO("Write result file: {}", result_file_path);
 
   return total_row_cnt;
diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index a5328e1..9760804 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -259,13 +259,15 @@ int print_intersection_results(
   }
 
   if (!out_file.empty()) {
-    if (append_to_outfile) {
-      std::ofstream ofs(out_file, std::ios_base::app);
-      ofs << csv_output.str();
-    } else {
-      std::ofstream ofs(out_file);
+    std::ofstream ofs(out_file, append_to_outfile ? std::ios_base::app
+                                                  : std::ios_base::out);
+    if (!append_to_outfile) {
       ofs << csv_header << endl;
-      ofs << csv_output.str();
+    }
+    ofs << csv_output.str();
+    ofs.close();
+    if (!ofs.good()) {
+      throw runtime_error("failed to write " + out_file);
     }
 
     APSI_LOG_INFO("Wrote output to " << out_file);
-- 
2.43.0


From 187e04c87478029276b2888d2f7dba6053f64029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:03 +0000
Subject: [PATCH 38/39] fix: labels with a reserved delimiter came back as
 further rows

---
 psi/utils/csv_converter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index b531d55..f320f9e 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -147,6 +147,10 @@ void ApsiCsvConverter::MergeColumnAndRow(
       labels.reserve(arrays_.size() - 1);
       for (size_t j = 1; j < arrays_.size(); ++j) {
         labels.emplace_back(arrays_[j]->Value(i));
+        YACL_ENFORCE(
+            labels.back().find(kColumnDelimiter) == absl::string_view::npos &&
+                labels.back().find(kRowDelimiter) == absl::string_view::npos,
+            "A label of key {} holds a reserved delimiter.", current_key);
       }
 
       std::string current_value = absl::StrJoin(labels, column_delimiter_);
-- 
2.43.0


From 3119c3c942f577ea01fdc079d093f9c0f4ee7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:46 +0000
Subject: [PATCH 39/39] fix: output and cache paths without a directory were
 refused

---
 psi/utils/ec_point_store.cc    | 3 ++-
 psi/utils/hash_bucket_cache.cc | 3 ++-
 psi/utils/io.cc                | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index b7c0d31..eb2dc5c 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -405,7 +405,8 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
                cipher_len_, kMaxCipherSize);
   auto file_path = std::filesystem::path(path_);
 
-  if (!std::filesystem::exists(file_path.parent_path())) {
+  if (file_path.has_parent_path() &&
+      !std::filesystem::exists(file_path.parent_path())) {
     SPDLOG_INFO("create directory:{}", file_path.parent_path().string());
     std::filesystem::create_directories(file_path.parent_path());
   }
diff --git a/psi/utils/hash_bucket_cache.cc b/psi/utils/hash_bucket_cache.cc
index 703a13c..b4e1431 100644
--- a/psi/utils/hash_bucket_cache.cc
+++ b/psi/utils/hash_bucket_cache.cc
@@ -32,7 +32,8 @@ HashBucketCache::HashBucketCache(const std::string& target_dir,
                                  uint32_t bucket_num, bool use_scoped_tmp_dir)
     : bucket_num_(bucket_num), item_index_(0) {
   YACL_ENFORCE(bucket_num_ > 0);
-  if (!std::filesystem::exists(target_dir)) {
+  // An empty target dir is the working directory.
+  if (!target_dir.empty() && !std::filesystem::exists(target_dir)) {
     SPDLOG_INFO("target dir={} does not exists, create it", target_dir);
     std::filesystem::create_directories(target_dir);
   }
diff --git a/psi/utils/io.cc b/psi/utils/io.cc
index b1c108b..eb4410c 100644
--- a/psi/utils/io.cc
+++ b/psi/utils/io.cc
@@ -95,7 +95,8 @@ std::unique_ptr<Writer> BuildWriter(const std::any& io_options,
 std::shared_ptr<arrow::io::FileOutputStream> GetArrowOutputStream(
     const std::string& filename, bool append) {
   auto path = std::filesystem::path(filename);
-  if (!std::filesystem::exists(path.parent_path())) {
+  if (path.has_parent_path() &&
+      !std::filesystem::exists(path.parent_path())) {
     SPDLOG_INFO("path for output file {} doesn't exist, creating path: {}",
                 filename, path.parent_path().string());
     std::filesystem::create_directories(path.parent_path());
@@ -106,7 +107,8 @@ std::shared_ptr<arrow::io::FileOutputStream> GetArrowOutputStream(
 std::shared_ptr<std::ofstream> GetStdOutFileStream(const std::string& filename,
                                                    bool append) {
   auto path = std::filesystem::path(filename);
-  if (!std::filesystem::exists(path.parent_path())) {
+  if (path.has_parent_path() &&
+      !std::filesystem::exists(path.parent_path())) {
     SPDLOG_INFO("path for output file {} doesn't exist, creating path: {}",
                 filename, path.parent_path().string());
     std::filesystem::create_directories(path.parent_path());
-- 
2.43.0

