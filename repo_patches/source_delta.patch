From c436bcbbf03bc0b1b13de1b95ac926bbb998ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 01/27] fix: pair up all rows of a duplicated key in aligned
 join outputs

When a key occurred several times on both sides, both parties repeated every
single row, so that reading the two outputs line by line some pairs of rows
came up several times and others never. One party now repeats the whole group
of rows instead.
---
 psi/utils/join_processor.cc |  5 ++++-
 psi/utils/table_utils.cc    | 15 +++++++++++++--
 psi/utils/table_utils.h     |  7 ++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..dd93a23 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -269,7 +269,10 @@ std::shared_ptr<KeyInfo> JoinProcessor::GetUniqueKeysInfo() {
 
 KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   ResultDumper dumper(sorted_intersect_path_, sorted_except_path_);
-  auto stat = GetUniqueKeysInfo()->ApplyPeerDupCnt(index, dumper);
+  // Exactly one of the two parties repeats whole groups of equal keys.
+  auto stat = GetUniqueKeysInfo()->ApplyPeerDupCnt(
+      index, dumper,
+      role_ == v2::ROLE_RECEIVER || role_ == v2::ROLE_CLIENT);
   dumper.Flush();
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..9d020c6 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -495,7 +495,8 @@ std::vector<std::string> KeyInfo::SourceFileColumns() const {
 }
 
 KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
-                                           ResultDumper& dumper) {
+                                           ResultDumper& dumper,
+                                           bool repeat_group) {
   uint32_t self_intersection_count = 0;
   uint32_t peer_intersection_count = 0;
   uint32_t inter_unique_cnt = 0;
@@ -519,9 +520,19 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
         dumper.ToExcept(line);
         sorted_file_index++;
       }
+      std::vector<std::string> group;
       for (uint32_t i = 0; i <= info.self_dup_cnt; ++i) {
         std::getline(sorted_file, line);
-        dumper.ToIntersect(line, info.peer_dup_cnt);
+        if (repeat_group) {
+          group.push_back(line);
+        } else {
+          dumper.ToIntersect(line, info.peer_dup_cnt);
+        }
+      }
+      for (uint32_t i = 0; repeat_group && i <= info.peer_dup_cnt; ++i) {
+        for (const auto& group_line : group) {
+          dumper.ToIntersect(group_line);
+        }
       }
       sorted_file_index += info.self_dup_cnt + 1;
       self_intersection_count += info.self_dup_cnt + 1;
diff --git a/psi/utils/table_utils.h b/psi/utils/table_utils.h
index 2a2a63d..cbb7623 100644
--- a/psi/utils/table_utils.h
+++ b/psi/utils/table_utils.h
@@ -288,7 +288,12 @@ class KeyInfo : public Table {
   uint32_t OriginCnt() const { return meta_.original_cnt(); }
 
   // assume first col is index:int64, second col is peer_cnt:int64
-  StatInfo ApplyPeerDupCnt(IndexReader& reader, ResultDumper& dumper);
+  // Rows of a key that occurs m times here and n times at the peer are dumped
+  // m * n times. One party must repeat every single row n times and the other
+  // one must repeat the whole group (repeat_group), so that line by line both
+  // outputs form all m * n pairs.
+  StatInfo ApplyPeerDupCnt(IndexReader& reader, ResultDumper& dumper,
+                           bool repeat_group = false);
 
   std::shared_ptr<arrow::csv::StreamingReader> GetStreamReader() const;
 
-- 
2.43.0


From 794e76572d819f6392f1c8c4a1d1381a35aa6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 02/27] fix: order the aligned output of a unique-key table by
 its keys

---
 psi/utils/join_processor.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index dd93a23..5ef9298 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -276,8 +276,7 @@ KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   dumper.Flush();
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
-      Table::MakeFromCsv(sorted_intersect_path_)
-          ->SortInplace(GetInputTable()->Columns());
+      Table::MakeFromCsv(sorted_intersect_path_)->SortInplace(keys_);
     }
   }
   return stat;
-- 
2.43.0


From e7fe6b8fead74dcfe96043cda0207367a66d9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 03/27] fix: keep the key boundaries in the hash that decides
 equal key sets

---
 psi/utils/table_utils.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 9d020c6..d002190 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -49,6 +49,17 @@
 
 namespace psi {
 
+namespace {
+
+// Prefixes each key with its length, so that different key lists never hash
+// the same bytes.
+void UpdateKeysHash(yacl::crypto::Sha256Hash& hash, const std::string& key) {
+  hash.Update(std::to_string(key.size()) + ":");
+  hash.Update(key);
+}
+
+}  // namespace
+
 UniqueKeyTable::UniqueKeyTable(std::string path, std::string format,
                                std::vector<std::string> keys)
     : TableWithKeys(std::move(path), std::move(format)),
@@ -307,7 +318,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> start_index,
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
-      hash.Update(keys[i]);
+      UpdateKeysHash(hash, keys[i]);
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
@@ -402,7 +413,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   while (!batch.empty()) {
     lines += batch.size();
     for (auto& item : batch) {
-      hash.Update(item);
+      UpdateKeysHash(hash, item);
     }
     batch = provider->ReadNextBatch();
   }
-- 
2.43.0


From f79d74c45b8af8cca7c8154acb6083fb0ff72363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 04/27] fix: rebuild the key info of a unique-key table that
 was rewritten

---
 psi/utils/table_utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index d002190..1e9eda1 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -387,8 +387,11 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<UniqueKeyTable> unique_key_table) {
   auto meta_path = unique_key_table->Path() + ".meta";
+  // The source is the user's file: a meta file older than it is stale.
   if (std::filesystem::exists(meta_path) &&
-      std::filesystem::file_size(meta_path)) {
+      std::filesystem::file_size(meta_path) &&
+      std::filesystem::last_write_time(meta_path) >
+          std::filesystem::last_write_time(unique_key_table->Path())) {
     SPDLOG_INFO("meta file {} exists already.", meta_path);
     proto::KeyInfoMeta meta;
     LoadJsonFileToPbMessage(meta_path, meta);
-- 
2.43.0


From 34ec832904d922fffcaf800b8072068e0055f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 05/27] fix: keep the duplicate counts when masking resumes
 inside a batch

---
 psi/algorithm/ecdh/ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..78b7633 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -81,12 +81,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
-- 
2.43.0


From 60609251c07eecbdf0cfefbf8e4e3518098bd68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 06/27] fix: resume the ECDH stores exactly where masking
 resumes

---
 psi/algorithm/ecdh/ecdh_psi.cc | 11 +++++++++++
 psi/utils/ec_point_store.h     |  7 +++++++
 psi/utils/hash_bucket_cache.cc | 36 ++++++++++++++++++++++++++++++++++
 psi/utils/hash_bucket_cache.h  |  4 ++++
 4 files changed, 58 insertions(+)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index 78b7633..8195eff 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -29,6 +29,7 @@
 
 #include "psi/cryptor/cryptor_selector.h"
 #include "psi/utils/batch_provider_impl.h"
+#include "psi/utils/sync.h"
 
 namespace psi::ecdh {
 
@@ -476,6 +477,16 @@ void RunEcdhPsi(const EcdhPsiOptions& options,
     }
 
     SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
+
+    // Both parties continue right after the processed items: drop what is
+    // stored beyond them.
+    auto processed_cnts =
+        AllGatherItemsSize(options.link_ctx, processed_item_cnt);
+    if (handler.SelfCanTouchResults()) {
+      self_ec_point_store->Truncate(processed_item_cnt);
+      peer_ec_point_store->Truncate(
+          processed_cnts[options.link_ctx->NextRank()]);
+    }
   }
 
   std::future<void> f_mask_self = std::async([&] {
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 4568028..14b4565 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -61,6 +61,11 @@ class IEcPointStore {
   }
 
   virtual uint64_t ItemCount() = 0;
+
+  // Keeps the first `item_cnt` items only.
+  virtual void Truncate(uint64_t item_cnt) {
+    YACL_ENFORCE_EQ(ItemCount(), item_cnt, "store cannot be truncated.");
+  }
 };
 
 class MemoryEcPointStore : public IEcPointStore {
@@ -97,6 +102,8 @@ class HashBucketEcPointStore : public IEcPointStore {
 
   void Flush() override { cache_->Flush(); }
 
+  void Truncate(uint64_t item_cnt) override { cache_->Truncate(item_cnt); }
+
   uint64_t ItemCount() override;
 
   std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t bin_idx) {
diff --git a/psi/utils/hash_bucket_cache.cc b/psi/utils/hash_bucket_cache.cc
index 23679f2..c163741 100644
--- a/psi/utils/hash_bucket_cache.cc
+++ b/psi/utils/hash_bucket_cache.cc
@@ -67,6 +67,42 @@ void HashBucketCache::Flush() {
   }
 }
 
+void HashBucketCache::Truncate(uint64_t item_cnt) {
+  // Close files.
+  bucket_os_vec_.clear();
+
+  for (uint32_t i = 0; i < bucket_num_; ++i) {
+    std::string kept;
+    bool dropped = false;
+    {
+      auto in = disk_cache_->CreateInputStream(i);
+      std::string line;
+      while (in->GetLine(&line)) {
+        std::vector<absl::string_view> tokens = absl::StrSplit(line, ',');
+        uint64_t index = 0;
+        // The last line may be incomplete after an interruption.
+        if (tokens.size() == 3 && absl::SimpleAtoi(tokens[0], &index) &&
+            index < item_cnt) {
+          kept.append(line).append("\n");
+        } else {
+          dropped = true;
+        }
+      }
+    }
+    if (dropped) {
+      const auto path = disk_cache_->GetPath(i);
+      const auto tmp_path = path + ".tmp";
+      auto out = io::BuildOutputStream(io::FileIoOptions(tmp_path));
+      out->Write(kept);
+      out->Close();
+      std::filesystem::rename(tmp_path, path);
+    }
+  }
+
+  disk_cache_->CreateOutputStreams(bucket_num_, &bucket_os_vec_);
+  item_index_ = item_cnt;
+}
+
 std::vector<HashBucketCache::BucketItem> HashBucketCache::LoadBucketItems(
     uint32_t index) {
   std::vector<BucketItem> ret;
diff --git a/psi/utils/hash_bucket_cache.h b/psi/utils/hash_bucket_cache.h
index 7b58cfa..c670fa8 100644
--- a/psi/utils/hash_bucket_cache.h
+++ b/psi/utils/hash_bucket_cache.h
@@ -85,6 +85,10 @@ class HashBucketCache {
 
   void Flush();
 
+  // Keeps the first `item_cnt` items only. Used when a cache which already has
+  // items on disk is opened again.
+  void Truncate(uint64_t item_cnt);
+
   std::vector<BucketItem> LoadBucketItems(uint32_t index);
 
   uint32_t BucketNum() const { return bucket_num_; }
-- 
2.43.0


From fcd616658cbccb4c98474c3cc7339d231c8b2832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 07/27] fix: replace the recovery checkpoint as a whole

---
 psi/checkpoint/recovery.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..5a678ec 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -90,10 +90,15 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
+  // Replace the file as a whole, an interruption must not leave half of it.
+  auto tmp_path = checkpoint_file_path_;
+  tmp_path += ".tmp";
   std::ofstream file;
-  file.open(checkpoint_file_path_);
+  file.open(tmp_path);
   file << checkpoint_json;
   file.close();
+  YACL_ENFORCE(file.good(), "write {} failed.", tmp_path.string());
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
-- 
2.43.0


From 971bdc8dca6bcd2d89b3727935c7598e9bd8c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 08/27] fix: count the indices of a bucket processed again
 after a resume once

---
 psi/interface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 54f72b4..b2d8d6a 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -155,9 +155,11 @@ PsiResultReport AbstractPsiParty::Finalize() {
   SPDLOG_INFO("[AbstractPsiParty::Finalize][Generate result] start");
 
   SyncWait(lctx_, [&] {
+    // A bucket that was committed before an interruption and is processed again
+    // by the resumed task has its indices in the file twice.
     MultiKeySort(intersection_indices_writer_->path(),
                  sorted_intersection_indices_path,
-                 std::vector<std::string>{kIdx}, true, false);
+                 std::vector<std::string>{kIdx}, true, true);
 
     if (role_ == v2::ROLE_RECEIVER ||
         config_.protocol_config().broadcast_result()) {
-- 
2.43.0


From 657e52c0f28b26860d3fc3433f44d39a113e75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 09/27] fix: write the header of an index file a crash left
 empty

---
 psi/utils/index_store.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..284a5a4 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -34,7 +34,9 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
                          bool trunc)
     : path_(path), cache_size_(cache_size) {
   std::vector<std::string> fields = {kIdx, kPeerCnt};
-  if (trunc || !std::filesystem::exists(path_)) {
+  // A crash right after the file was created leaves it without its header.
+  if (trunc || !std::filesystem::exists(path_) ||
+      std::filesystem::file_size(path_) == 0) {
     // NOTE(junfeng): This is a hack to write the header without quotation masks
     // to make YACL csv utils happy.
     // Should be fixed as soon as possible.
-- 
2.43.0


From fb6dfae8528e1c203c9a96d7050d0ec9ab5baa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 10/27] fix: do not wait for KKRT corrections after the link is
 lost

---
 psi/algorithm/kkrt/kkrt_psi.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..fc8f28c 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -14,6 +14,7 @@
 
 #include "psi/algorithm/kkrt/kkrt_psi.h"
 
+#include <chrono>
 #include <future>
 #include <numeric>
 #include <unordered_map>
@@ -247,9 +248,16 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
       t = (t + 1) % self_size;
     }
 
+    // no more corrections arrive if the receiving thread has failed.
+    bool recv_done = f_recv_corrections.wait_for(std::chrono::seconds(0)) ==
+                     std::future_status::ready;
+
     // after stepSize attempts to encode items, lets see if more
     // corrections have arrived.
     r = recv_idx.load(std::memory_order_acquire);
+    if (recv_done && r != num_bins) {
+      break;
+    }
   }
 
   // Join receiving thread and throw exceptions if any thing is wrong.
-- 
2.43.0


From 0e7f955d3d9da6b3f128d2d3f1b50bcfade25404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 11/27] fix: end all stages of the RR22 runner when one of them
 fails

---
 psi/algorithm/rr22/rr22_psi.h | 51 ++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..45c1287 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <cstddef>
+#include <functional>
 #include <future>
 #include <memory>
 #include <mutex>
@@ -200,23 +201,44 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // a stage that fails ends the other stages, which would wait for it forever
+    bool failed = false;
+    auto run_stage = [&](const std::function<void()>& stage) {
+      try {
+        stage();
+      } catch (...) {
+        std::scoped_lock lock(prepare_mtx, oprf_mtx);
+        failed = true;
+        prepare_cv.notify_all();
+        oprf_cv.notify_all();
+        throw;
+      }
+    };
+    auto prepare_stage = [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return failed || prepared_runner_queue.size() < cache_size;
+        });
+        if (failed) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
-    });
-    auto run_f = std::async(std::launch::async, [&]() {
+    };
+    auto oprf_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return failed || !prepared_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -228,20 +250,29 @@ class Rr22Runner {
           oprf_cv.notify_all();
         }
       }
-    });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    };
+    auto intersection_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return failed || !oprf_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
         }
         runner->GetIntersection(intersection_lctx_);
       }
-    });
+    };
+    auto prepare_f =
+        std::async(std::launch::async, [&] { run_stage(prepare_stage); });
+    auto run_f = std::async(std::launch::async, [&] { run_stage(oprf_stage); });
+    auto intersection_f =
+        std::async(std::launch::async, [&] { run_stage(intersection_stage); });
     run_f.get();
     prepare_f.get();
     intersection_f.get();
-- 
2.43.0


From 2aea8dd06e880839c16cbbcfa1e75cfedcc2fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 12/27] fix: report a KKRT sender item that occurs once with
 count 1

---
 psi/algorithm/kkrt/kkrt_psi.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index fc8f28c..0152e19 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -412,9 +412,13 @@ std::vector<PsiResultIndex> KkrtPsiRecvIndices(
 
         auto it = oprf_encode_map[j].find(encode_sub_str);
         if (it != oprf_encode_map[j].end()) {
-          ret_intersection.emplace_back(
-              PsiResultIndex{.data = it->second,
-                             .peer_item_cnt = batch.duplicate_item_cnt[i]});
+          PsiResultIndex res_index{.data = it->second};
+          // only items that occur more than once are in duplicate_item_cnt
+          auto cnt_iter = batch.duplicate_item_cnt.find(i);
+          if (cnt_iter != batch.duplicate_item_cnt.end()) {
+            res_index.peer_item_cnt = cnt_iter->second;
+          }
+          ret_intersection.emplace_back(res_index);
         }
       }
     }
-- 
2.43.0


From b2cd0dbd91b07cf92b7578928d6c15caa6a1831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 13/27] fix: take KKRT corrections in the configured batch size

---
 psi/algorithm/kkrt/kkrt_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 0152e19..a1d4d75 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -135,7 +135,7 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
 
   yacl::crypto::KkrtOtExtSender sender;
   sender.Init(link_ctx, ot_recv, option.NumBins());
-  sender.SetBatchSize(kKkrtOtBatchSize);
+  sender.SetBatchSize(kkrt_psi_options.ot_batch_size);
   uint64_t kkrtOtBatchSize = sender.GetBatchSize();
 
   std::atomic<uint64_t> recv_idx(0);
-- 
2.43.0


From 283006e45cedbf64e2fa2da68f68c7b59563ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:05 +0000
Subject: [PATCH 14/27] fix: RR22 ParallelRun starts from the requested bucket

---
 psi/algorithm/rr22/rr22_psi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index 45c1287..4cc9c21 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -294,7 +294,7 @@ class Rr22Runner {
                 run_lctx_->Spawn(std::to_string(thread_idx));
             std::shared_ptr<yacl::link::Context> spawn_intersection_lctx =
                 intersection_lctx_->Spawn(std::to_string(thread_idx));
-            for (size_t j = 0; j < bucket_num_; j++) {
+            for (size_t j = start_idx; j < bucket_num_; j++) {
               if (j % parallel_num == thread_idx) {
                 auto runner = CreateBucketRunner(j, is_sender);
                 runner->Prepare(spawn_read_lctx);
-- 
2.43.0


From 5f6566539a97042fd6930d8b37fe21daf3651715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:05 +0000
Subject: [PATCH 15/27] fix: refuse a broadcast when rank 0 and another party
 both have a result

---
 psi/utils/sync.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/sync.cc b/psi/utils/sync.cc
index f3a28e0..e249c63 100644
--- a/psi/utils/sync.cc
+++ b/psi/utils/sync.cc
@@ -58,12 +58,14 @@ void BroadcastResult(
     std::unordered_map<ItemIndexType, ItemCntType>* res_dup_cnt) {
   size_t max_size = res->size();
   size_t broadcast_rank = 0;
+  bool has_result = false;
   std::vector<size_t> res_size_list = AllGatherItemsSize(link_ctx, res->size());
   for (size_t i = 0; i < res_size_list.size(); ++i) {
     max_size = std::max(max_size, res_size_list[i]);
     if (res_size_list[i] > 0) {
       // in broadcast case, there should be only one party have results
-      YACL_ENFORCE(broadcast_rank == 0);
+      YACL_ENFORCE(!has_result);
+      has_result = true;
       broadcast_rank = i;
     }
   }
-- 
2.43.0


From fe855552258dc8447d981cfbb7749465c9523482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 16/27] fix: never take an interrupted transfer of the UB-PSI
 server cache for a complete one

The meta file of the client's copy was written when the store was opened and
again by its destructor, so a transfer that broke off (or an online phase
without any transfer) left a partial or empty cache that looked complete, and
the online phase silently gave too small an intersection. Write the meta file
only when everything was received, and have the online phase refuse a cache
without it.
---
 psi/algorithm/ecdh/ub_psi/client.cc |  4 ++++
 psi/utils/ec_point_store.cc         | 10 ++++++++--
 psi/utils/ec_point_store.h          |  3 +++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 69a9da8..efaf1e1 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -100,6 +100,10 @@ void EcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(UbPsiClientCacheFileStore::IsComplete(GetServerCachePath()),
+                 "server cache {} does not exist or is incomplete, please "
+                 "transfer it first.",
+                 GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 827c509..88b9265 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -408,11 +408,17 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
                  meta_.item_cnt);
     peer_cnt_ = meta_.peer_cnt;
   } else {
-    DumpMeta();
+    // The meta file is written by Flush, i.e. once all items are saved.
+    YACL_ENFORCE(item_cnt_ == 0, "cache {} is incomplete", path_);
   }
 }
 
-UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() { Flush(); }
+UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() = default;
+
+bool UbPsiClientCacheFileStore::IsComplete(const std::string& path) {
+  return std::filesystem::exists(path) &&
+         std::filesystem::exists(path + ".meta");
+}
 
 std::shared_ptr<IBasicBatchProvider>
 UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 14b4565..38735f1 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -146,6 +146,9 @@ class UbPsiClientCacheFileStore : public IEcPointStore {
 
   std::string Path() const { return path_; }
 
+  // Whether all items were saved to `path` and flushed.
+  static bool IsComplete(const std::string& path);
+
  protected:
   void LoadMeta();
   void DumpMeta();
-- 
2.43.0


From a1cf4e5c914f8aa5bd4e04194a609431258f1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 17/27] fix: NTY multi-party PSI with an empty set divides by
 zero

The OKVS of zero items has zero items per bin. If any party has no items the
intersection is empty, which all parties know from the gathered sizes.
---
 psi/algorithm/nty/nty_mp_psi.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index ba0debd..55a9ccc 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -87,6 +87,11 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
                             std::vector<uint128_t>& intersection) {
   auto [ctx, wsize, self_rank] = CollectContext();
   auto counts = AllGatherItemsSize(ctx, inputs.size());
+  if (std::find(counts.begin(), counts.end(), 0) != counts.end()) {
+    SPDLOG_INFO("party{} some party has no items, intersection is empty",
+                self_rank);
+    return;
+  }
   // It is recommended that the party with smaller set be designated as
   // p0 and pi(i > 2), the party with larger set be designated as p1 and p2.
   if (self_rank == options_.aided_server_rank) {
@@ -233,6 +238,11 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
                             std::vector<uint128_t>& intersection) {
   auto [ctx, wsize, self_rank] = CollectContext();
   auto counts = AllGatherItemsSize(ctx, inputs.size());
+  if (std::find(counts.begin(), counts.end(), 0) != counts.end()) {
+    SPDLOG_INFO("party{} some party has no items, intersection is empty",
+                self_rank);
+    return;
+  }
 
   if (self_rank == options_.aided_server_rank) {
     // gen okvs and prf key
-- 
2.43.0


From 6fc460e03fe08b7358e7e7c7015fce5ecc5ddfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 18/27] fix: keep tables whose keys run together apart in the
 legacy digest

---
 psi/utils/csv_checker.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..e4b96c9 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -101,6 +101,9 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = KeysJoin(chosen);
+      // The length in front keeps apart tables whose keys run together to the
+      // same bytes, such as "ab" and "a", "b".
+      hash_obj.Update(std::to_string(combined_id.size()) + ":");
       hash_obj.Update(combined_id);
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
-- 
2.43.0


From 2b136b9a7e5e8adfb28b7d7f7c61ea373f3e8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:22 +0000
Subject: [PATCH 19/27] fix: a copied DenseMtx refers to its own data

---
 psi/algorithm/rr22/okvs/dense_mtx.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/dense_mtx.h b/psi/algorithm/rr22/okvs/dense_mtx.h
index 00eacb8..c78437d 100644
--- a/psi/algorithm/rr22/okvs/dense_mtx.h
+++ b/psi/algorithm/rr22/okvs/dense_mtx.h
@@ -196,10 +196,16 @@ class DenseMtx {
   uint64_t cols_ = 0;
 
   DenseMtx() = default;
-  DenseMtx(const DenseMtx&) = default;
+  // the view must refer to the matrix's own data, not to that of the source.
+  DenseMtx(const DenseMtx& m)
+      : data_(m.data_),
+        data_mtx_(data_.data(), m.cols_, m.rows_),
+        bit_rows_(m.bit_rows_),
+        rows_(m.rows_),
+        cols_(m.cols_) {}
   DenseMtx(DenseMtx&&) = default;
 
-  DenseMtx& operator=(const DenseMtx&) = default;
+  DenseMtx& operator=(const DenseMtx& m) { return *this = DenseMtx(m); }
   DenseMtx& operator=(DenseMtx&&) = default;
 
   DenseMtx(uint64_t rows, uint64_t cols) { resize(rows, cols); }
-- 
2.43.0


From 3a89482b542e1de38ba7af7a6a22f14ecc1255cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:22 +0000
Subject: [PATCH 20/27] fix: RR22 refuses a paxos vector larger than announced

---
 psi/algorithm/rr22/rr22_utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psi/algorithm/rr22/rr22_utils.h b/psi/algorithm/rr22/rr22_utils.h
index 10352a5..b3bf64d 100644
--- a/psi/algorithm/rr22/rr22_utils.h
+++ b/psi/algorithm/rr22/rr22_utils.h
@@ -61,6 +61,11 @@ std::vector<ValueType> RecvChunked(
     yacl::Buffer paxos_solve_buf =
         lctx->Recv(lctx->NextRank(), fmt::format("recv paxos_solve"));
 
+    YACL_ENFORCE(paxos_solve_buf.size() % sizeof(ValueType) == 0 &&
+                     paxos_solve_buf.size() / sizeof(ValueType) <=
+                         paxos_size - recv_item_count,
+                 "invalid paxos_solve size: {}", paxos_solve_buf.size());
+
     std::memcpy(paxos_solve_v.data() + recv_item_count, paxos_solve_buf.data(),
                 paxos_solve_buf.size());
 
-- 
2.43.0


From 4e48375f2fdc90dc3f5ca1a9efab8ae286a6a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:26 +0000
Subject: [PATCH 21/27] fix: the inverse of a GF(2^128) matrix has room for all
 its entries

---
 psi/algorithm/rr22/okvs/paxos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 0231ae2..3a0363c 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -30,7 +30,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
                                              size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  auto inv = std::vector<uint128_t>(row_size, col_size);
+  auto inv = std::vector<uint128_t>(row_size * col_size);
   for (uint64_t i = 0; i < row_size; ++i) {
     inv[i * row_size + i] = yacl::MakeUint128(0, 1);
   }
@@ -103,7 +103,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
     size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  std::vector<uint128_t> ret(row_size, col_size);
+  std::vector<uint128_t> ret(row_size * col_size);
 
   for (uint64_t i = 0; i < row_size; ++i) {
     for (uint64_t j = 0; j < col_size; ++j) {
-- 
2.43.0


From eac70acac78810f068afbc60ec3bdb0f40cedc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:58 +0000
Subject: [PATCH 22/27] fix: a randomised paxos fills one row of its matrix at
 a time

---
 psi/algorithm/rr22/okvs/paxos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 3a0363c..927d909 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -835,7 +835,7 @@ void Paxos<IdxType>::BackfillGf128U64(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1036,7 +1036,7 @@ void Paxos<IdxType>::BackfillGf128(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
-- 
2.43.0


From 94a47154435e036a6dcc9bb693f54d7b8e5699e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:00 +0000
Subject: [PATCH 23/27] fix: a randomised GF(2^128) paxos takes its random
 columns off the gap's values

---
 psi/algorithm/rr22/okvs/paxos.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 927d909..478a651 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -830,6 +830,19 @@ void Paxos<IdxType>::BackfillGf128U64(
           EE[i * size + k] = EE[i * size + k] ^ fcbk.get<uint128_t>(0);
         }
       }
+
+      if (prng) {
+        // take off what the free sparse columns, already random, contribute.
+        auto sub_row = [&](uint64_t row_idx) {
+          for (uint64_t k = 0; k < weight; ++k) {
+            helper.Add(xx[i], output[rows_[row_idx * weight + k]]);
+          }
+        };
+        sub_row(gap_rows[i][0]);
+        for (auto j : fcinv.mtx[i]) {
+          sub_row(j);
+        }
+      }
     }
 
     if (prng) {
@@ -1031,6 +1044,19 @@ void Paxos<IdxType>::BackfillGf128(
           EE[i * size + k] = EE[i * size + k] ^ fcbk.get<uint128_t>(0);
         }
       }
+
+      if (prng) {
+        // take off what the free sparse columns, already random, contribute.
+        auto sub_row = [&](uint64_t row_idx) {
+          for (uint64_t k = 0; k < weight; ++k) {
+            helper.Add(xx[i], output[rows_[row_idx * weight + k]]);
+          }
+        };
+        sub_row(gap_rows[i][0]);
+        for (auto j : fcinv.mtx[i]) {
+          sub_row(j);
+        }
+      }
     }
 
     if (prng) {
-- 
2.43.0


From 3cfaaa9b97378ad499f477960ddf2f617d4b7c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:53 +0000
Subject: [PATCH 24/27] fix: a copy of a paxos vector keeps its elements

---
 psi/algorithm/rr22/okvs/paxos_utils.h | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos_utils.h b/psi/algorithm/rr22/okvs/paxos_utils.h
index 654a30a..2c698dd 100644
--- a/psi/algorithm/rr22/okvs/paxos_utils.h
+++ b/psi/algorithm/rr22/okvs/paxos_utils.h
@@ -17,6 +17,7 @@
 #include <cstdint>
 #include <memory>
 #include <set>
+#include <utility>
 #include <vector>
 
 #include "absl/types/span.h"
@@ -205,15 +206,15 @@ struct PxVector {
   absl::Span<value_type> elements;
 
   PxVector() = default;
-  PxVector(const PxVector& v) : PxVector(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
+  // a copy of an owning vector has its own elements, a copy of a view refers
+  // to the same elements.
+  PxVector(const PxVector& v) : owning(v.owning), elements(v.elements) {
+    if (!owning.empty()) {
+      elements = absl::MakeSpan(owning.data(), owning.size());
+    }
   }
 
-  PxVector(PxVector&& v) : PxVector(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
-  }
+  PxVector(PxVector&& v) : owning(std::move(v.owning)), elements(v.elements) {}
 
   PxVector(absl::Span<value_type> e) { elements = e; }
 
@@ -331,15 +332,15 @@ struct PxVectorU64 {
   absl::Span<value_type> elements;
 
   PxVectorU64() = default;
-  PxVectorU64(const PxVectorU64& v) : PxVectorU64(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
+  // a copy of an owning vector has its own elements, a copy of a view refers
+  // to the same elements.
+  PxVectorU64(const PxVectorU64& v) : owning(v.owning), elements(v.elements) {
+    if (!owning.empty()) {
+      elements = absl::MakeSpan(owning.data(), owning.size());
+    }
   }
 
-  PxVectorU64(PxVectorU64&& v) : PxVectorU64(v.owning.size()) {
-    std::memcpy(owning.data(), v.owning.data(),
-                v.owning.size() * sizeof(value_type));
-  }
+  PxVectorU64(PxVectorU64&& v) : owning(std::move(v.owning)), elements(v.elements) {}
 
   PxVectorU64(absl::Span<value_type> e) { elements = e; }
 
-- 
2.43.0


From d7fd27d830e1b1be4fab7f2d07c124c71882fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:42 +0000
Subject: [PATCH 25/27] fix: keys with quotes inside survive the key info file

---
 psi/utils/table_utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 1e9eda1..f710493 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -23,6 +23,7 @@
 #include <filesystem>
 #include <fstream>
 #include <future>
+#include <iomanip>
 #include <ios>
 #include <memory>
 #include <numeric>
@@ -319,7 +320,8 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
       UpdateKeysHash(hash, keys[i]);
-      out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
+      // quotes inside of a key are doubled
+      out << std::quoted(keys[i], '"', '"') << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
         duplicate_key_cnt++;
-- 
2.43.0


From 9fbc9b362cfe53f7ca27d41f2c41d5d3bff8efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:42 +0000
Subject: [PATCH 26/27] fix: empty lines of a table do not shift the rows of
 its result

---
 psi/utils/table_utils.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index f710493..5753b2e 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -518,7 +518,16 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
   uint32_t inter_unique_cnt = 0;
   std::string line;
   std::ifstream sorted_file(table_->Path());
-  std::getline(sorted_file, line);
+  // Empty lines are no rows: the csv readers skip them as well.
+  auto next_line = [&]() {
+    while (std::getline(sorted_file, line)) {
+      if (!line.empty() && line != "\r") {
+        return true;
+      }
+    }
+    return false;
+  };
+  next_line();
   // dump schema line
   dumper.ToIntersect(line);
   dumper.ToExcept(line);
@@ -532,13 +541,13 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_unique_cnt += inter_index_info.size();
     for (auto& info : inter_index_info) {
       while (sorted_file_index < info.start_index) {
-        std::getline(sorted_file, line);
+        next_line();
         dumper.ToExcept(line);
         sorted_file_index++;
       }
       std::vector<std::string> group;
       for (uint32_t i = 0; i <= info.self_dup_cnt; ++i) {
-        std::getline(sorted_file, line);
+        next_line();
         if (repeat_group) {
           group.push_back(line);
         } else {
@@ -558,7 +567,7 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_index_info = processor.GetBatchInfo();
   }
 
-  while (std::getline(sorted_file, line)) {
+  while (next_line()) {
     dumper.ToExcept(line);
     sorted_file_index++;
   }
-- 
2.43.0


From 56aa128e9a3c9b80418de2023b0e381aaa971c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:11 +0000
Subject: [PATCH 27/27] fix: empty lines of a table do not shift the rows
 picked from it

---
 psi/legacy/bucket_psi.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psi/legacy/bucket_psi.cc b/psi/legacy/bucket_psi.cc
index e042d6c..dc6c56f 100644
--- a/psi/legacy/bucket_psi.cc
+++ b/psi/legacy/bucket_psi.cc
@@ -136,6 +136,9 @@ size_t FilterFileByIndices(const std::string& input, const std::string& output,
     if (idx < header_line_count) {
       out->Write(line);
       out->Write("\n");
+    } else if (line.empty() || line == "\r") {
+      // not a row for the readers of the table either.
+      continue;
     } else {
       if (!output_difference) {
         if (indices_iter == indices.end()) {
@@ -191,6 +194,9 @@ size_t FilterFileByIndices(const std::string& input, const std::string& output,
     if (idx < header_line_count) {
       out->Write(line);
       out->Write("\n");
+    } else if (line.empty() || line == "\r") {
+      // not a row for the readers of the table either.
+      continue;
     } else {
       if (!output_difference) {
         if (!intersection_index.has_value()) {
-- 
2.43.0

