From 0bfb99555a742d6e5b498c6be1c9b3aaa6804353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:00 +0000
Subject: [PATCH 01/44] fix: reject unmasking responses with the wrong number
 of key shares

The server indexed the list of key shares once per neighbor without checking
its length. A client that sent a short list crashed the whole aggregation
instead of only being aborted itself.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..38babc7 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,11 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  if (unmasking_response.noise_or_prf_key_shares_size() !=
+      number_of_neighbors()) {
+    return ::absl::InvalidArgumentError(
+        "Client did not send the expected number of key shares.");
+  }
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From f19bc8c748d845b110795e483196fa3dfe5e7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:42 +0000
Subject: [PATCH 02/44] fix: report missing key shares instead of terminating
 the server

When every neighbor of a client that sent its masked input is gone before the
unmasking round, the server holds no share of that client's key. It terminated
in that case. It now fails key reconstruction, so that only the aggregation is
aborted.
---
 fcp/secagg/shared/aes_key.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcp/secagg/shared/aes_key.cc b/fcp/secagg/shared/aes_key.cc
index 721399f..3a9037c 100644
--- a/fcp/secagg/shared/aes_key.cc
+++ b/fcp/secagg/shared/aes_key.cc
@@ -46,7 +46,9 @@ StatusOr<AesKey> AesKey::CreateFromShares(
       FCP_CHECK(shares[i].data.empty());
     }
   }
-  FCP_CHECK(key_length != 0);
+  if (key_length == 0) {
+    return FCP_STATUS(FAILED_PRECONDITION) << "No key shares were provided";
+  }
   std::string reconstructed;
   FCP_ASSIGN_OR_RETURN(
       reconstructed, reconstructor.Reconstruct(threshold, shares, key_length));
-- 
2.43.0


From bc0c4c5e803d2862e59458b90a59f014b7caa179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:55 +0000
Subject: [PATCH 03/44] fix: do not overflow when adding field elements in
 secret reconstruction

---
 fcp/secagg/shared/shamir_secret_sharing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/shared/shamir_secret_sharing.cc b/fcp/secagg/shared/shamir_secret_sharing.cc
index 2d96a79..57c060e 100644
--- a/fcp/secagg/shared/shamir_secret_sharing.cc
+++ b/fcp/secagg/shared/shamir_secret_sharing.cc
@@ -137,8 +137,10 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
         subshare += static_cast<uint8_t>(
             shares[share_index].data[kSubsecretSize * i + k]);
       }
-      subsecrets[i] += MultiplyMod(subshare, coefficients[j], kPrime);
-      subsecrets[i] %= kPrime;
+      // The sum of two field elements may not fit into 32 bits.
+      uint64_t sum = subsecrets[i];
+      sum += MultiplyMod(subshare, coefficients[j], kPrime);
+      subsecrets[i] = static_cast<uint32_t>(sum % kPrime);
     }
   }
 
-- 
2.43.0


From aea5a19fb9496873df552c2ed8d1369be3a17810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:55 +0000
Subject: [PATCH 04/44] fix: abandon the promise that a move assignment
 replaces

---
 fcp/base/future.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fcp/base/future.h b/fcp/base/future.h
index f464f49..9c986ee 100644
--- a/fcp/base/future.h
+++ b/fcp/base/future.h
@@ -167,7 +167,17 @@ template <typename T>
 class Promise {
  public:
   Promise(Promise&&) = default;
-  Promise& operator=(Promise&&) = default;
+
+  // The promise held so far, if any, is abandoned.
+  Promise& operator=(Promise&& other) {
+    if (this != &other) {
+      if (state_.has_value()) {
+        (*state_)->Set(std::nullopt);
+      }
+      state_ = std::move(other.state_);
+    }
+    return *this;
+  }
 
   ~Promise() {
     if (state_.has_value()) {
-- 
2.43.0


From be06a8cb595679fb0142a0a2523ae406623ede58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:57 +0000
Subject: [PATCH 05/44] fix: report write errors that only show when a file is
 closed

---
 fcp/base/platform.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..f125533 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -94,6 +94,7 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -116,6 +117,12 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  // Buffered data is only written out here.
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 1dd40ef6d83fe16d7f914cd26011285a75795ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:57 +0000
Subject: [PATCH 06/44] fix: never serve partially written or outdated cached
 resources

---
 .../cache/file_backed_resource_cache.cc       | 51 ++++++++++++-------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..529a006 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -182,29 +182,46 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
-  // Write the manifest back to disk before we write the file.
-  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
-  FCP_RETURN_IF_ERROR(
-      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
-
-  // Write file if it doesn't exist.
-  std::error_code exists_error;
-  bool cached_file_exists =
-      std::filesystem::exists(cached_file_path, exists_error);
-  if (exists_error.value() != 0) {
+  // Remove a resource stored earlier under the same id, so that its bytes can
+  // never be served with the new manifest entry.
+  std::error_code remove_error;
+  std::filesystem::remove(cached_file_path, remove_error);
+  if (remove_error.value() != 0) {
     log_manager_.LogDiag(
         ProdDiagCode::RESOURCE_CACHE_PUT_FAILED_TO_CHECK_IF_FILE_EXISTS);
     return absl::InternalError(absl::StrCat(
-        "Failed to check if cached resource already exists with error code: ",
-        exists_error.value()));
+        "Failed to remove previously cached resource with error code: ",
+        remove_error.value()));
   }
-  if (!cached_file_exists) {
-    auto status = WriteCordToFile(cached_file_path.string(), resource);
-    if (!status.ok()) {
-      log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
-      return status;
+
+  // Write the manifest back to disk before we write the file.
+  (*manifest.mutable_cache())[cache_id_str] = cached_resource;
+  // A partially written file must not be mistaken for the resource, so it is
+  // written under a name that is not in the manifest and then renamed.
+  std::string partial_file_name = absl::StrCat(cache_id_str, ".partial");
+  while (manifest.cache().contains(partial_file_name)) {
+    absl::StrAppend(&partial_file_name, "_");
+  }
+  FCP_RETURN_IF_ERROR(
+      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
+
+  std::filesystem::path partial_file_path = cache_dir_path_ / partial_file_name;
+  absl::Status status = WriteCordToFile(partial_file_path.string(), resource);
+  if (status.ok()) {
+    std::error_code rename_error;
+    std::filesystem::rename(partial_file_path, cached_file_path, rename_error);
+    if (rename_error.value() != 0) {
+      status = absl::InternalError(
+          absl::StrCat("Failed to rename cached resource with error code: ",
+                       rename_error.value()));
     }
   }
+  if (!status.ok()) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    std::error_code ignored_error;
+    std::filesystem::remove(partial_file_path, ignored_error);
+    return status;
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 223997e07069acda443a869f1320113e6ec52f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:37 +0000
Subject: [PATCH 07/44] fix: report read errors instead of returning truncated
 file contents

---
 fcp/base/platform.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index f125533..67c8f61 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -67,8 +67,13 @@ absl::StatusOr<T> ReadFile(absl::string_view file_name) {
         absl::StrCat("cannot read file ", file_name_str));
   }
   std::ostringstream buffer;
-  buffer << is.rdbuf();
-  if (!is) {
+  char chunk[4096];
+  do {
+    is.read(chunk, sizeof(chunk));
+    buffer.write(chunk, is.gcount());
+  } while (is);
+  // The stream is bad rather than just at its end if reading failed.
+  if (is.bad()) {
     return absl::InternalError(
         absl::StrCat("error reading file ", file_name_str));
   }
-- 
2.43.0


From b2d45c42951c7297c311b8dac32fc9611ee643aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:37 +0000
Subject: [PATCH 08/44] fix: return an error when the scratch directory cannot
 be listed

---
 fcp/client/cache/temp_files.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fcp/client/cache/temp_files.cc b/fcp/client/cache/temp_files.cc
index 625897c..36ddc05 100644
--- a/fcp/client/cache/temp_files.cc
+++ b/fcp/client/cache/temp_files.cc
@@ -47,7 +47,11 @@ absl::Status DeleteFilesInDirectory(const std::filesystem::path& directory) {
   absl::Status status = absl::OkStatus();
   // Note this only iterates through the top level directory and will not
   // traverse subdirectories.
-  for (auto& de : std::filesystem::directory_iterator(directory)) {
+  std::error_code iterator_error;
+  std::filesystem::directory_iterator it(directory, iterator_error);
+  for (; !iterator_error && it != std::filesystem::directory_iterator();
+       it.increment(iterator_error)) {
+    const std::filesystem::directory_entry& de = *it;
     std::error_code error;
     // Save the first error, but attempt to delete the other files.
     if (!std::filesystem::remove(de.path(), error)) {
@@ -57,6 +61,10 @@ absl::Status DeleteFilesInDirectory(const std::filesystem::path& directory) {
       }
     }
   }
+  if (iterator_error && status.ok()) {
+    status = absl::InternalError(absl::StrCat(
+        "Failed to list directory with error code: ", iterator_error.value()));
+  }
   return status;
 }
 
-- 
2.43.0


From 0ced236a505d6786f05e3ce980111a7dee3019d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:24 +0000
Subject: [PATCH 09/44] fix: keep other runs' statistics when a run is
 committed again

A run that was committed without being stored, because the write failed or
because its entry had no events and was dropped, replaced the previous run's
entry with its next commit. The trustworthy-since time could also move back
when such an entry was dropped.
---
 fcp/client/opstats/opstats_logger_impl.cc   | 38 +++++++++++----------
 fcp/client/opstats/opstats_logger_impl.h    |  4 ++-
 fcp/client/opstats/pds_backed_opstats_db.cc |  6 +++-
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..ce6abe2 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -20,6 +20,7 @@
 #include <string>
 #include <utility>
 
+#include "google/protobuf/util/message_differencer.h"
 #include "google/protobuf/util/time_util.h"
 #include "absl/status/status.h"
 #include "absl/strings/string_view.h"
@@ -204,28 +205,29 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
                               OperationalStats::PhaseStats::UNSPECIFIED) {
     *copy.add_phase_stats() = current_phase_stats_;
   }
-  auto status = already_committed_
-                    ? db_->Transform([&copy](OpStatsSequence& data) {
-                        // Check if opstats on disk somehow got cleared between
-                        // the first commit and now, and handle appropriately.
-                        // This can happen e.g. if the ttl for the opstats db
-                        // is incorrectly configured to have a very low ttl,
-                        // causing the entire history to be lost as part of the
-                        // update.
-                        if (data.opstats_size() == 0) {
-                          *data.add_opstats() = copy;
-                        } else {
-                          *data.mutable_opstats(data.opstats_size() - 1) = copy;
-                        }
-                      })
-                    : db_->Transform([&copy](OpStatsSequence& data) {
-                        *data.add_opstats() = copy;
-                      });
+  auto status = db_->Transform([this, &copy](OpStatsSequence& data) {
+    mutex_.AssertHeld();
+    // Replace the entry stored by an earlier commit of this run. It may be
+    // missing if that commit failed or if the data on disk was cleared or
+    // expired since; the last entry then belongs to another run.
+    for (const OperationalStats& committed : committed_) {
+      if (data.opstats_size() > 0 &&
+          google::protobuf::util::MessageDifferencer::Equals(
+              data.opstats(data.opstats_size() - 1), committed)) {
+        *data.mutable_opstats(data.opstats_size() - 1) = copy;
+        return;
+      }
+    }
+    *data.add_opstats() = copy;
+  });
   const absl::Time after_commit_time = absl::Now();
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  if (status.ok()) {
+    committed_.clear();
+  }
+  committed_.push_back(std::move(copy));
   return status;
 }
 
diff --git a/fcp/client/opstats/opstats_logger_impl.h b/fcp/client/opstats/opstats_logger_impl.h
index ef62883..36b4ba6 100644
--- a/fcp/client/opstats/opstats_logger_impl.h
+++ b/fcp/client/opstats/opstats_logger_impl.h
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "absl/base/thread_annotations.h"
 #include "absl/container/flat_hash_map.h"
@@ -122,7 +123,8 @@ class OpStatsLoggerImpl : public OpStatsLogger {
   absl::flat_hash_map<std::string, absl::Time> collection_first_access_time_map_
       ABSL_GUARDED_BY(mutex_);
   OperationalStats stats_ ABSL_GUARDED_BY(mutex_);
-  bool already_committed_ ABSL_GUARDED_BY(mutex_) = false;
+  // What the last successful commit, and any failed ones since, tried to store.
+  std::vector<OperationalStats> committed_ ABSL_GUARDED_BY(mutex_);
   std::unique_ptr<OpStatsDb> db_;
   LogManager* log_manager_;
   OperationalStats::PhaseStats current_phase_stats_ ABSL_GUARDED_BY(mutex_);
diff --git a/fcp/client/opstats/pds_backed_opstats_db.cc b/fcp/client/opstats/pds_backed_opstats_db.cc
index 09dac40..7123185 100644
--- a/fcp/client/opstats/pds_backed_opstats_db.cc
+++ b/fcp/client/opstats/pds_backed_opstats_db.cc
@@ -188,7 +188,11 @@ void RemoveOutdatedData(OpStatsSequence& data, absl::Duration ttl) {
                      }),
       op_stats->end());
   int64_t num_entries_after_purging = op_stats->size();
-  if (num_entries_after_purging < original_num_entries) {
+  // The time must never move back: history from before it is already lost.
+  if (num_entries_after_purging < original_num_entries &&
+      absl::ToUnixMillis(earliest_accepted_time) >
+          TimeUtil::TimestampToMilliseconds(
+              data.earliest_trustworthy_time())) {
     *(data.mutable_earliest_trustworthy_time()) =
         TimeUtil::MillisecondsToTimestamp(
             absl::ToUnixMillis(earliest_accepted_time));
-- 
2.43.0


From d079d8d5cb96bfceb90928a3efcd0afc269afa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:45 +0000
Subject: [PATCH 10/44] fix: never hand out an existing file as a new scratch
 file

---
 fcp/client/cache/temp_files.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/cache/temp_files.cc b/fcp/client/cache/temp_files.cc
index 36ddc05..b497ce6 100644
--- a/fcp/client/cache/temp_files.cc
+++ b/fcp/client/cache/temp_files.cc
@@ -121,6 +121,10 @@ absl::StatusOr<std::string> TempFiles::CreateTempFile(
   } while ((fd = open(candidate_path.c_str(), O_CREAT | O_EXCL | O_RDWR,
                       S_IRWXU)) == -1 &&
            errno == EEXIST);
+  if (fd == -1) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("could not create file ", candidate_path.string()));
+  }
   close(fd);
   std::ofstream tmp_file(candidate_path);
   if (!tmp_file) {
-- 
2.43.0


From c51322499878b189899ecb171ef2b525225224fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:13 +0000
Subject: [PATCH 11/44] fix: keep the separation index when phase statistics
 are flattened

---
 fcp/client/opstats/opstats_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..dea2dd3 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -187,6 +187,10 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      if (op_stats.has_min_sep_policy_index()) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From 51a9155fc1a2400f6d84012c7154523000076fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:11 +0000
Subject: [PATCH 12/44] fix: apply each eligibility policy to its own tasks
 even if names repeat

---
 fcp/client/eligibility_decider.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fcp/client/eligibility_decider.cc b/fcp/client/eligibility_decider.cc
index c205afe..8bb69c9 100644
--- a/fcp/client/eligibility_decider.cc
+++ b/fcp/client/eligibility_decider.cc
@@ -419,12 +419,12 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // unfilled.
   TaskEligibilityInfo eligibility_result;
 
-  // Initialize map of policy name -> task names that use that policy, and check
-  // that the implementation versions for each policy are supported by the
-  // client.
-  // This map must only contain names of policies that are implemented.
-  absl::flat_hash_map<std::string, absl::flat_hash_set<std::string>>
-      policy_name_to_task_names;
+  // Initialize map of policy index -> task names that use that policy, and
+  // check that the implementation versions for each policy are supported by the
+  // client. Policies are told apart by index, since names may repeat.
+  // This map must only contain policies that are implemented.
+  absl::flat_hash_map<int, absl::flat_hash_set<std::string>>
+      policy_index_to_task_names;
 
   // Track task names that use unimplemented policies. After we build the policy
   // name -> task name map, we'll prune any task names that use unimplemented
@@ -498,7 +498,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
     if (!policy_implemented) {
       continue;
     }
-    policy_name_to_task_names[policy_spec.name()] = task_names;
+    policy_index_to_task_names[policy_index] = task_names;
   }
 
   // Initialize the list of task names to compute eligibility for. Task names
@@ -524,7 +524,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // For each policy:
   // 1. If eligible tasks is now empty due to the previous iteration, quit
   // early.
-  // 2. Get task names from policy_name_to_task_names.
+  // 2. Get task names from policy_index_to_task_names.
   // 3. Intersect with eligible_tasks to get the set of tasks names that we
   // should use to compute eligibility for this policy.
   // 4. Call compute x policy, get back a set of task names. This set will only
@@ -533,24 +533,27 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // 5. Remove all tasks from eligible_tasks that are not eligible according to
   // the policy computation.
 
-  for (const EligibilityPolicyEvalSpec& policy_spec :
-       population_eligibility_spec.eligibility_policies()) {
+  for (int policy_index = 0;
+       policy_index < population_eligibility_spec.eligibility_policies_size();
+       policy_index++) {
+    const EligibilityPolicyEvalSpec& policy_spec =
+        population_eligibility_spec.eligibility_policies(policy_index);
     // Check if there are no more eligible tasks due to previous policy
     // computations. If so, there's no point in continuing to evaluate policies.
     if (eligible_tasks.empty()) {
       break;
     }
 
-    // policy_name_to_task_names contains our map of *implemented* policies to
+    // policy_index_to_task_names contains our map of *implemented* policies to
     // the tasks that use them. First check if it's in the map. If not, there's
     // no point in evaulating this policy.
-    if (!policy_name_to_task_names.contains(policy_spec.name())) {
+    if (!policy_index_to_task_names.contains(policy_index)) {
       continue;
     }
 
     // The task names this policy applies to.
     absl::flat_hash_set<std::string> policy_task_names =
-        policy_name_to_task_names.at(policy_spec.name());
+        policy_index_to_task_names.at(policy_index);
     // Remove those tasks that already aren't eligible anymore.
     absl::erase_if(policy_task_names,
                    [&eligible_tasks](const std::string& policy_task_name) {
-- 
2.43.0


From 6fb186e0fd929be7124610b729b7ca46178ff950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:44 +0000
Subject: [PATCH 13/44] fix: reject a gzip stream that ends before its trailer

---
 fcp/base/compression.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/fcp/base/compression.cc b/fcp/base/compression.cc
index 20b969d..83ff7bf 100644
--- a/fcp/base/compression.cc
+++ b/fcp/base/compression.cc
@@ -17,6 +17,7 @@
 #include "fcp/base/compression.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <string>
 
 #include "absl/status/status.h"
@@ -33,6 +34,24 @@ using ::google::protobuf::io::GzipInputStream;
 using ::google::protobuf::io::GzipOutputStream;
 using ::google::protobuf::io::StringOutputStream;
 
+namespace {
+
+// Returns true if the last four bytes of the compressed data are the (little
+// endian) size of the uncompressed data, see RFC 1952.
+bool EndsWithGzipTrailer(absl::string_view compressed_data,
+                         size_t uncompressed_size) {
+  constexpr size_t kMinGzipSize = 18;
+  if (compressed_data.size() < kMinGzipSize) return false;
+  uint32_t size = 0;
+  for (size_t i = 1; i <= 4; ++i) {
+    size = (size << 8) | static_cast<unsigned char>(
+                             compressed_data[compressed_data.size() - i]);
+  }
+  return size == static_cast<uint32_t>(uncompressed_size);
+}
+
+}  // namespace
+
 absl::StatusOr<std::string> CompressWithGzip(
     absl::string_view uncompressed_data) {
   int starting_pos = 0;
@@ -95,6 +114,11 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
         absl::StrCat("An error has occurred during decompression:",
                      input_stream.ZlibErrorMessage()));
   }
+  // The input stream does not report it when the data ends before the end of
+  // the gzip stream is reached, hence compare the size recorded in the trailer.
+  if (!EndsWithGzipTrailer(compressed_data, out.size())) {
+    return absl::InternalError("Uncompress failed: truncated gzip stream.");
+  }
 
   return out;
 }
-- 
2.43.0


From a290dd5418ee450b295442bf0d4d3dc014b4c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:50 +0000
Subject: [PATCH 14/44] fix: report a failed last secure aggregation message

---
 fcp/client/secagg_runner.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcp/client/secagg_runner.cc b/fcp/client/secagg_runner.cc
index 590a940..e5373ab 100644
--- a/fcp/client/secagg_runner.cc
+++ b/fcp/client/secagg_runner.cc
@@ -199,7 +199,9 @@ absl::Status SecAggRunnerImpl::Run(ComputationResults results) {
             return absl::CancelledError("SecAgg aborted: " + error_message);
           }
         }
-        return absl::OkStatus();
+        // The last message is not followed by another one from the server, but
+        // sending it may still have failed.
+        return this->protocol_delegate_->ReceiveServerMessage().status();
       },
       [this]() {
         AbortInternal();
-- 
2.43.0


From 2415a0675305eeb79b2857a959ac67af127cea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:14 +0000
Subject: [PATCH 15/44] fix: remove the scratch file of a failed slice fetch

---
 fcp/client/federated_select.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..8790020 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -204,6 +204,8 @@ HttpFederatedSelectExampleIteratorFactory::CreateExampleIterator(
   bytes_received_acc_ += bytes_received;
   if (!slices.ok()) {
     log_manager_.LogDiag(ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_FAILED);
+    // No iterator will ever delete the scratch file.
+    std::filesystem::remove(*scratch_filename);
     return absl::Status(slices.status().code(),
                         absl::StrCat("Failed to fetch slice data: ",
                                      slices.status().message()));
-- 
2.43.0


From fe1293bd85485588c25f9bbe3169d7a8ef52fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:19 +0000
Subject: [PATCH 16/44] fix: notice a slice that could not be written
 completely

---
 fcp/client/federated_select.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 8790020..06d73c6 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -286,7 +286,11 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
       return absl::InternalError("Failed to write slice to file");
     }
   }
+  // Data may still be buffered, in which case closing the file writes it.
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From 300c2ff068484e1a054c5de44365f94ef24e47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:23 +0000
Subject: [PATCH 17/44] fix: reject client payload headers that do not fit
 their declared size

---
 fcp/confidentialcompute/client_payload.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..1fea4cc 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -87,9 +87,15 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
 
+  if (serialized_payload_size >
+      encoded_data.size() - coded_in.CurrentPosition()) {
+    return absl::InvalidArgumentError("Serialized payload is truncated");
+  }
+
   auto limit = coded_in.PushLimit(serialized_payload_size);
   AggregationClientPayloadHeader payload_header;
-  if (!payload_header.ParseFromCodedStream(&coded_in)) {
+  if (!payload_header.ParseFromCodedStream(&coded_in) ||
+      !coded_in.ConsumedEntireMessage()) {
     return absl::InvalidArgumentError("Could not parse serialized payload");
   }
   coded_in.PopLimit(limit);
-- 
2.43.0


From fe8497f09819cb2261085bd3aac67392c598ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:23 +0000
Subject: [PATCH 18/44] fix: check the types in a COSE_Signature before
 decoding it

---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From 784f98308d30c3a10648d41176041cf701720314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:23 +0000
Subject: [PATCH 19/44] fix: reject encryption configs whose token carries no
 public key

---
 fcp/client/attestation/attestation_verifier.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/attestation/attestation_verifier.cc b/fcp/client/attestation/attestation_verifier.cc
index ae502d3..cf63ac0 100644
--- a/fcp/client/attestation/attestation_verifier.cc
+++ b/fcp/client/attestation/attestation_verifier.cc
@@ -45,6 +45,10 @@ absl::StatusOr<OkpKey> AlwaysPassingAttestationVerifier::Verify(
         "Parsing confidential aggregation public key failed.";
     return absl::Status(cwt.status().code(), error_msg);
   }
+  if (!cwt->public_key.has_value()) {
+    return absl::InvalidArgumentError(
+        "Confidential aggregation public key is missing.");
+  }
   return *cwt->public_key;
 }
 
-- 
2.43.0


From 9c7aa915d47c65226d1b15e1e7f851337142b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 20/44] fix: send the caller's Accept-Encoding header

---
 fcp/client/http/curl/curl_http_request_handle.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index b7af189..bbe6215 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -367,9 +367,7 @@ CURLcode CurlHttpRequestHandle::InitializeHeaders(
   }
 
   for (auto& [key, value] : extra_headers) {
-    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr)) {
-      continue;
-    } else if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
+    if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
       if (method == HttpRequest::Method::kPost) {
         // For post less than 2GB
         CURL_RETURN_IF_ERROR(
-- 
2.43.0


From 997ba7aac197bd67d1440101fb115da0db87a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 21/44] fix: report the start of the final HTTP response only,
 and only once

---
 fcp/client/http/curl/curl_header_parser.cc    | 26 +++++++++--
 fcp/client/http/curl/curl_header_parser.h     |  5 +++
 .../http/curl/curl_http_request_handle.cc     | 44 +++++++++++++------
 .../http/curl/curl_http_request_handle.h      |  3 ++
 fcp/client/http/http_client_util.h            |  1 +
 5 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..cc46146 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -29,6 +29,8 @@ namespace fcp::client::http::curl {
 
 CurlHeaderParser::CurlHeaderParser()
     : status_code_(-1),
+      has_location_(false),
+      is_end_of_headers_(false),
       is_last_header_line_(false),
       use_curl_encoding_(false) {}
 
@@ -57,6 +59,9 @@ bool CurlHeaderParser::ParseAsStatus(const std::string& header_string) {
   }
 
   status_code_ = status_code;
+  has_location_ = false;
+  is_end_of_headers_ = false;
+  is_last_header_line_ = false;
   // It is required that we store only the final header list. So we keep the
   // last set of headers
   header_list_.clear();
@@ -73,6 +78,10 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
+  if (absl::EqualsIgnoreCase(key, kLocationHdr)) {
+    has_location_ = true;
+  }
+
   // Removes the "Content-Encoding", "Content-Length", and "Content-Length"
   // headers from the response when the curl encoding in use because they
   // reflect in-flight encoded values
@@ -88,10 +97,17 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
 bool CurlHeaderParser::ParseAsLastLine(const std::string& header_string) {
   // In general, it is impossible to tell when curl will reach the last
   // header because there could another one in some special cases. In
-  // particular, it happens when curl hits a redirect status code (301).
-  // In this case, we need to proceed.
-  if (std::string(header_string) == "\r\n" &&
-      status_code_ != HttpResponseCode::kHttpMovedPermanently) {
+  // particular, it happens when curl hits a redirect status code (301, or any
+  // other 3xx code with a location to follow), or an interim (1xx) response.
+  // In these cases, we need to proceed.
+  bool is_redirect =
+      status_code_ == HttpResponseCode::kHttpMovedPermanently ||
+      (status_code_ >= 300 && status_code_ < 400 && has_location_);
+  if (std::string(header_string) != "\r\n") {
+    return false;
+  }
+  is_end_of_headers_ = true;
+  if (status_code_ >= 200 && !is_redirect) {
     is_last_header_line_ = true;
     return true;
   }
@@ -103,6 +119,8 @@ void CurlHeaderParser::UseCurlEncoding() { use_curl_encoding_ = true; }
 
 bool CurlHeaderParser::IsLastHeader() const { return is_last_header_line_; }
 
+bool CurlHeaderParser::IsEndOfHeaders() const { return is_end_of_headers_; }
+
 int CurlHeaderParser::GetStatusCode() const { return status_code_; }
 
 HeaderList CurlHeaderParser::GetHeaderList() const { return header_list_; }
diff --git a/fcp/client/http/curl/curl_header_parser.h b/fcp/client/http/curl/curl_header_parser.h
index 7c9ca31..f3dcae7 100644
--- a/fcp/client/http/curl/curl_header_parser.h
+++ b/fcp/client/http/curl/curl_header_parser.h
@@ -41,6 +41,9 @@ class CurlHeaderParser {
   void UseCurlEncoding();
   // Indicates that the parser reached the last header
   ABSL_MUST_USE_RESULT bool IsLastHeader() const;
+  // Indicates that the parser reached the end of the headers of a response,
+  // which might be followed by another response
+  ABSL_MUST_USE_RESULT bool IsEndOfHeaders() const;
   ABSL_MUST_USE_RESULT int GetStatusCode() const;
   ABSL_MUST_USE_RESULT HeaderList GetHeaderList() const;
 
@@ -54,6 +57,8 @@ class CurlHeaderParser {
 
   int status_code_;
   HeaderList header_list_;
+  bool has_location_;
+  bool is_end_of_headers_;
   bool is_last_header_line_;
   bool use_curl_encoding_;
 };
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index bbe6215..05cd182 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -75,30 +75,41 @@ curl_slist* AddToCurlHeaderList(curl_slist* header_list, const std::string& key,
 
 }  // namespace
 
+bool CurlHttpRequestHandle::StartResponse() {
+  {
+    absl::MutexLock lock(&mutex_);
+    response_ = std::make_unique<CurlHttpResponse>(
+        header_parser_.GetStatusCode(), header_parser_.GetHeaderList());
+  }
+
+  FCP_CHECK(callback_ != nullptr);
+  absl::Status status = callback_->OnResponseStarted(*request_, *response_);
+
+  if (!status.ok()) {
+    FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
+    absl::MutexLock lock(&mutex_);
+    is_completed_ = true;
+  }
+  return status.ok();
+}
+
 size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
                                              size_t n_items, void* user_data) {
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
   std::string str_header(static_cast<char*>(buffer), size * n_items);
 
-  self->header_parser_.ParseHeader(str_header);
-  if (!self->header_parser_.IsLastHeader()) {
+  if (self->response_ != nullptr) {
+    // The response has started already, so this is a trailer.
     return size * n_items;
   }
 
-  self->response_ =
-      std::make_unique<CurlHttpResponse>(self->header_parser_.GetStatusCode(),
-                                         self->header_parser_.GetHeaderList());
-
-  FCP_CHECK(self->callback_ != nullptr);
-  absl::Status status =
-      self->callback_->OnResponseStarted(*self->request_, *self->response_);
-
-  if (!status.ok()) {
-    FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
-    self->callback_->OnResponseError(*self->request_, status);
+  self->header_parser_.ParseHeader(str_header);
+  if (!self->header_parser_.IsLastHeader()) {
+    return size * n_items;
   }
 
-  return size * n_items;
+  // Any other size makes curl abort the transfer.
+  return self->StartResponse() ? size * n_items : 0;
 }
 
 size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
@@ -106,6 +117,11 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
   absl::string_view str_body(static_cast<char*>(body), size * nmemb);
 
+  // A redirect status code without a location to follow.
+  if (self->response_ == nullptr && !self->StartResponse()) {
+    return CURL_WRITEFUNC_ERROR;
+  }
+
   absl::Status status = self->callback_->OnResponseBody(
       *self->request_, *self->response_, str_body);
 
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 3b0147c..d6e5133 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -71,6 +71,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   CURLcode InitializeHeaders(const HeaderList& extra_headers,
                              HttpRequest::Method method)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  // Reports the start of the final response. Returns false if the callback
+  // refused it, in which case the transfer is to be aborted.
+  bool StartResponse() ABSL_NO_THREAD_SAFETY_ANALYSIS;
   // A helper function called _sequentially_ when a response header received.
   static size_t HeaderCallback(char* buffer, size_t size, size_t n_items,
                                void* user_data) ABSL_NO_THREAD_SAFETY_ANALYSIS;
diff --git a/fcp/client/http/http_client_util.h b/fcp/client/http/http_client_util.h
index 5c56709..961abd6 100644
--- a/fcp/client/http/http_client_util.h
+++ b/fcp/client/http/http_client_util.h
@@ -34,6 +34,7 @@ inline static constexpr char kContentLengthHdr[] = "Content-Length";
 inline static constexpr char kContentEncodingHdr[] = "Content-Encoding";
 inline static constexpr char kContentTypeHdr[] = "Content-Type";
 inline static constexpr char kExpectHdr[] = "Expect";
+inline static constexpr char kLocationHdr[] = "Location";
 inline static constexpr char kTransferEncodingHdr[] = "Transfer-Encoding";
 inline static constexpr char kApiKeyHdr[] = "x-goog-api-key";
 // The "Transfer-Encoding" header value when the header is present but indicates
-- 
2.43.0


From 6c7e1658624ecadcf532b2a7208793fe21415afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 22/44] fix: end an HTTP transfer whose response body was
 refused

---
 fcp/client/http/curl/curl_http_request_handle.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 05cd182..bad0e7a 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -127,8 +127,9 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseBody. Received status: " << status;
-    self->callback_->OnResponseBodyError(*self->request_, *self->response_,
-                                         status);
+    absl::MutexLock lock(&self->mutex_);
+    self->is_completed_ = true;
+    return CURL_WRITEFUNC_ERROR;
   }
 
   return size * nmemb;
-- 
2.43.0


From 5d4b3c1c22fad2f87263fc6de690ad390e137fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 23/44] fix: report failed HTTP transfers as errors instead of
 as completed

---
 fcp/client/http/curl/curl_http_client.cc      |  2 +-
 .../http/curl/curl_http_request_handle.cc     | 22 +++++++++++++++++--
 .../http/curl/curl_http_request_handle.h      |  8 +++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index c5f75e7..aa86abf 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -45,7 +45,7 @@ void ReadCompleteMessages(CurlMultiHandle* multi_handle) {
       FCP_CHECK(user_data != nullptr);
 
       auto handle = static_cast<CurlHttpRequestHandle*>(user_data);
-      handle->MarkAsCompleted();
+      handle->MarkAsCompleted(msg->data.result);
       handle->RemoveFromMulti(multi_handle);
     }
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index bad0e7a..317ffe7 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -147,6 +147,7 @@ size_t CurlHttpRequestHandle::UploadCallback(char* buffer, size_t size,
   } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {
     return 0;
   }
+  self->read_status_ = read_size.status();
   return CURL_READFUNC_ABORT;
 }
 
@@ -205,12 +206,29 @@ void CurlHttpRequestHandle::Cancel() {
   is_cancelled_ = true;
 }
 
-void CurlHttpRequestHandle::MarkAsCompleted() {
+void CurlHttpRequestHandle::MarkAsCompleted(CURLcode code) {
+  if (code == CURLE_OK && response_ == nullptr &&
+      header_parser_.IsEndOfHeaders()) {
+    // A redirect status code without a location to follow and without a body.
+    StartResponse();
+  }
+
   absl::MutexLock lock(&mutex_);
 
   FCP_CHECK(callback_ != nullptr);
   if (!is_cancelled_ && !is_completed_) {
-    if (response_ != nullptr) {
+    if (code != CURLE_OK) {
+      absl::Status error =
+          !read_status_.ok() ? read_status_
+          : code == CURLE_TOO_MANY_REDIRECTS
+              ? absl::OutOfRangeError(CurlEasyHandle::StrError(code))
+              : absl::UnavailableError(CurlEasyHandle::StrError(code));
+      if (response_ != nullptr) {
+        callback_->OnResponseBodyError(*request_, *response_, error);
+      } else {
+        callback_->OnResponseError(*request_, error);
+      }
+    } else if (response_ != nullptr) {
       callback_->OnResponseCompleted(*request_, *response_);
     } else {
       callback_->OnResponseError(*request_,
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index d6e5133..ab8d6e1 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -55,8 +55,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   // Removes this request from the corresponding multi-handle.
   void RemoveFromMulti(CurlMultiHandle* multi_handle)
       ABSL_LOCKS_EXCLUDED(mutex_);
-  // Marks the request as completed which fires the OnComplete callback.
-  void MarkAsCompleted() ABSL_LOCKS_EXCLUDED(mutex_);
+  // Marks the request as completed which fires the OnComplete callback, or the
+  // corresponding error callback if the transfer ended with an error `code`.
+  void MarkAsCompleted(CURLcode code) ABSL_LOCKS_EXCLUDED(mutex_);
 
   // HttpRequestHandle overrides:
   ABSL_MUST_USE_RESULT HttpRequestHandle::SentReceivedBytes
@@ -96,6 +97,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   const std::unique_ptr<CurlEasyHandle> easy_handle_ ABSL_GUARDED_BY(mutex_);
   // Used only in the HeaderCallback sequentially.
   CurlHeaderParser header_parser_{};
+  // The error returned by the request's ReadBody method, if any. Used only in
+  // the callbacks sequentially.
+  absl::Status read_status_;
   // Owned by the caller. Initialized in AddToMulti and then read-only.
   HttpRequestCallback* callback_ ABSL_GUARDED_BY(mutex_);
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
-- 
2.43.0


From 01fef2fe075cf598725a14c8ae45f2c7427e5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 24/44] fix: report unsupported HTTP requests instead of
 crashing

---
 fcp/client/http/curl/curl_http_request_handle.cc | 16 +++++++++++-----
 fcp/client/http/curl/curl_http_request_handle.h  |  2 ++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 317ffe7..070b68b 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -177,13 +177,12 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
   FCP_CHECK(request_ != nullptr);
   FCP_CHECK(easy_handle_ != nullptr);
 
-  CURLcode code = InitializeConnection(test_cert_path);
-  if (code != CURLE_OK) {
+  init_code_ = InitializeConnection(test_cert_path);
+  if (init_code_ != CURLE_OK) {
+    // Reported to the callback once there is one.
     FCP_LOG(ERROR) << "easy_handle initialization failed with code "
-                   << CurlEasyHandle::StrError(code);
+                   << CurlEasyHandle::StrError(init_code_);
     FCP_LOG(ERROR) << error_buffer_;
-    callback_->OnResponseError(*request_, absl::InternalError(error_buffer_));
-    return;
   }
 }
 
@@ -256,6 +255,13 @@ absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
   is_being_performed_ = true;
   callback_ = callback;
 
+  if (init_code_ != CURLE_OK) {
+    is_completed_ = true;
+    callback_->OnResponseError(
+        *request_, absl::InternalError(CurlEasyHandle::StrError(init_code_)));
+    return absl::OkStatus();
+  }
+
   CURLMcode code = multi_handle->AddEasyHandle(easy_handle_.get());
   if (code != CURLM_OK) {
     FCP_LOG(ERROR) << "AddEasyHandle failed with code " << code;
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index ab8d6e1..6c370b4 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -97,6 +97,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   const std::unique_ptr<CurlEasyHandle> easy_handle_ ABSL_GUARDED_BY(mutex_);
   // Used only in the HeaderCallback sequentially.
   CurlHeaderParser header_parser_{};
+  // The result of the initialization in the constructor.
+  CURLcode init_code_ = CURLE_OK;
   // The error returned by the request's ReadBody method, if any. Used only in
   // the callbacks sequentially.
   absl::Status read_status_;
-- 
2.43.0


From cad3b308d24d04dc077af4da470a15f13dedee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 25/44] fix: keep HTTP requests cancelled that were cancelled
 before being performed

---
 fcp/client/http/curl/curl_http_request_handle.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 070b68b..ccae1b5 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -193,10 +193,12 @@ CurlHttpRequestHandle::~CurlHttpRequestHandle() {
 void CurlHttpRequestHandle::Cancel() {
   absl::MutexLock lock(&mutex_);
 
-  if (callback_ == nullptr || is_cancelled_ || is_completed_) {
+  if (is_cancelled_ || is_completed_) {
     return;
   }
-  if (response_ != nullptr) {
+  if (callback_ == nullptr) {
+    // Not being performed yet.
+  } else if (response_ != nullptr) {
     callback_->OnResponseBodyError(*request_, *response_,
                                    absl::CancelledError());
   } else {
-- 
2.43.0


From d34be0833967451b781034d3ae3658dd356a9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:05 +0000
Subject: [PATCH 26/44] fix: end all HTTP requests of a batch that is given up

---
 fcp/client/http/curl/curl_http_client.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index aa86abf..96cda82 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -101,14 +101,25 @@ absl::Status CurlHttpClient::PerformRequests(
       curl_api_->CreateMultiHandle();
   FCP_CHECK(multi_handle != nullptr);
 
+  std::vector<CurlHttpRequestHandle*> added_handles;
   for (const auto& [request_handle, callback] : requests) {
     FCP_CHECK(request_handle != nullptr);
     FCP_CHECK(callback != nullptr);
 
     auto http_request_handle =
         static_cast<CurlHttpRequestHandle*>(request_handle);
-    FCP_RETURN_IF_ERROR(
-        http_request_handle->AddToMulti(multi_handle.get(), callback));
+    absl::Status status =
+        http_request_handle->AddToMulti(multi_handle.get(), callback);
+    if (!status.ok()) {
+      // The callbacks must not be used once this method has returned, so the
+      // other requests end here.
+      for (CurlHttpRequestHandle* added_handle : added_handles) {
+        added_handle->MarkAsCompleted(CURLE_ABORTED_BY_CALLBACK);
+        added_handle->RemoveFromMulti(multi_handle.get());
+      }
+      return status;
+    }
+    added_handles.push_back(http_request_handle);
   }
 
   return PerformMultiHandlesBlocked(multi_handle.get());
-- 
2.43.0


From 7a1dd887110dbe8233be63debed573883b60069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 27/44] fix: refuse request paths that are not valid UTF-8

Escapes that do not form UTF-8 were replaced silently, so different names
reached the handler as the same one. The handler for UnicodeError shows that
they were meant to be refused.
---
 fcp/demo/http_actions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..cc35ae5 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -112,7 +112,7 @@ def proto_action(*,
     # Set any fields from the request path.
     for prop, value in match.groupdict().items():
       try:
-        unescaped = urllib.parse.unquote(value)
+        unescaped = urllib.parse.unquote(value, errors='strict')
       except UnicodeError as e:
         raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
       setattr(request, prop, unescaped)
@@ -162,7 +162,10 @@ def http_action(*, method: str,
   def handler(match: Match[str], body: bytes,
               fn: Callable[[bytes], HttpResponse]) -> HttpResponse:
     try:
-      args = {k: urllib.parse.unquote(v) for k, v in match.groupdict().items()}
+      args = {
+          k: urllib.parse.unquote(v, errors='strict')
+          for k, v in match.groupdict().items()
+      }
     except UnicodeError as e:
       raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
     return fn(body, **args)
-- 
2.43.0


From 001ef077f64daa0f4979f7c996210c98170bdc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 28/44] fix: refuse requests whose body does not have the
 declared length

A missing or unreadable length dropped the connection without an answer, and
a body that broke off was handed to the handler as if it were complete.
---
 fcp/demo/http_actions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index cc35ae5..fc2a12e 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -242,7 +242,15 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
 
     def _read_body(self) -> bytes:
       """Reads the body of the request."""
-      body = self.rfile.read(int(self.headers['Content-Length']))
+      try:
+        content_length = int(self.headers['Content-Length'])
+      except (TypeError, ValueError) as e:
+        raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
+      if content_length < 0:
+        raise HttpError(http.HTTPStatus.BAD_REQUEST)
+      body = self.rfile.read(content_length)
+      if len(body) != content_length:
+        raise HttpError(http.HTTPStatus.BAD_REQUEST)
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-- 
2.43.0


From e962fd56c854f71edfaae1bac6671fa1f6c53e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 29/44] fix: refuse truncated gzip bodies

The decompressor reports them with EOFError, which dropped the connection
without an answer.
---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index fc2a12e..e477951 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -254,7 +254,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (EOFError, gzip.BadGzipFile, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From c56cbc4b5b137a99bb45266935f96dc6079d00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 30/44] fix: refuse clients that start an upload while their
 session ends

A session may be completed or aborted between taking the token and
registering the client. The protocol's error then escaped from the handler,
or the client's upload was registered with nobody left to clean it up.
---
 fcp/demo/aggregations.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e74b308..a226960 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -380,14 +380,26 @@ class Service:
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
 
-    client_id = state.agg_protocol.AddClients(1)
+    try:
+      client_id = state.agg_protocol.AddClients(1)
+    except absl_status.StatusNotOk as e:
+      # AddClients should only fail if the AggregationProtocol has ended.
+      raise http_actions.HttpError(
+          self._get_http_status(e.status.code())) from e
     client_token = str(uuid.uuid4())
     upload_name = self._media_service.register_upload()
 
     with self._sessions_lock:
-      state.active_clients[client_token] = _ActiveClientData(
-          client_id, upload_name
-      )
+      # The session may have been completed or aborted in the meantime, in which
+      # case nobody would clean up the client's upload later.
+      active = self._sessions.get(request.aggregation_id) is state
+      if active:
+        state.active_clients[client_token] = _ActiveClientData(
+            client_id, upload_name
+        )
+    if not active:
+      self._media_service.finalize_upload(upload_name)
+      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
 
     forwarding_info = self._forwarding_info()
     response = aggregations_pb2.StartAggregationDataUploadResponse(
-- 
2.43.0


From ed415c0352b9ec9db755b455b98fed4ba3daac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 31/44] fix: hold the lock while cleaning up an aggregation
 session

Requests that started before the session ended still change its clients and
waiters, so cleaning up failed in the middle of an iteration and left uploads
and waiters behind.
---
 fcp/demo/aggregations.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index a226960..c109ebe 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -351,17 +351,19 @@ class Service:
     Args:
       state: The session state to clean up.
     """
-    state.authorization_tokens.clear()
-    for client_data in state.active_clients.values():
-      self._media_service.finalize_upload(client_data.resource_name)
-    state.active_clients.clear()
-    # Anyone waiting on the session should be notified that it's finished.
-    if state.pending_waits:
-      status = self._get_session_status(state)
-      for data in state.pending_waits:
-        data.loop.call_soon_threadsafe(
-            functools.partial(data.status_future.set_result, status))
-      state.pending_waits.clear()
+    # Requests that started before the session ended may still be in progress.
+    with self._sessions_lock:
+      state.authorization_tokens.clear()
+      for client_data in state.active_clients.values():
+        self._media_service.finalize_upload(client_data.resource_name)
+      state.active_clients.clear()
+      # Anyone waiting on the session should be notified that it's finished.
+      if state.pending_waits:
+        status = self._get_session_status(state)
+        for data in state.pending_waits:
+          data.loop.call_soon_threadsafe(
+              functools.partial(data.status_future.set_result, status))
+        state.pending_waits.clear()
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.Aggregations',
-- 
2.43.0


From 6ef828f181dc0aa1493836234449eaef4a08a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 32/44] fix: keep a client that submits a wrong resource name

It was forgotten, so its upload was never cleaned up and it could not
report any more.
---
 fcp/demo/aggregations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index c109ebe..f709831 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -429,14 +429,14 @@ class Service:
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
       try:
-        client_data = state.active_clients.pop(request.client_token)
+        client_data = state.active_clients[request.client_token]
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
-
-    # Ensure the client is using the resource name provided when they called
-    # StartAggregationDataUpload.
-    if request.resource_name != client_data.resource_name:
-      raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
+      # Ensure the client is using the resource name provided when they called
+      # StartAggregationDataUpload.
+      if request.resource_name != client_data.resource_name:
+        raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
+      del state.active_clients[request.client_token]
 
     # The aggregation protocol may have already closed the connect (e.g., if
     # an error occurred). If so, clean up the upload and return the error.
-- 
2.43.0


From c5e7bbcc5a3dfa3ed080c0f1aa09b45a92a58354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 33/44] fix: assign a task only while it is published

The task could be removed and its session ended between choosing it and
authorizing the client, which failed with an internal error.
---
 fcp/demo/task_assignments.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/fcp/demo/task_assignments.py b/fcp/demo/task_assignments.py
index 2d69f54..6be5a01 100644
--- a/fcp/demo/task_assignments.py
+++ b/fcp/demo/task_assignments.py
@@ -17,7 +17,7 @@ import collections
 import dataclasses
 import http
 import threading
-from typing import Callable, Optional
+from typing import Callable
 import uuid
 
 from absl import logging
@@ -100,15 +100,6 @@ class Service:
           return
       raise KeyError(aggregation_session_id)
 
-  @property
-  def _current_task(self) -> Optional[_Task]:
-    with self._tasks_lock:
-      return (
-          self._single_assignment_tasks[0]
-          if self._single_assignment_tasks
-          else None
-      )
-
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.TaskAssignments',
       method='StartTaskAssignment')
@@ -123,16 +114,25 @@ class Service:
     # supports `request.client_version` before assigning the client. Given that
     # all clients may not be eligible for all tasks, consider more sophisticated
     # assignment than a FIFO queue.
-    task = self._current_task
+    with self._tasks_lock:
+      task = (
+          self._single_assignment_tasks[0]
+          if self._single_assignment_tasks
+          else None
+      )
+      if task:
+        # The lock is held so that the task isn't removed -- and its aggregation
+        # session ended -- before the client has been authorized.
+        #
+        # NOTE: If a production implementation of the Aggregations service
+        # cannot always pre-authorize clients (e.g., due to rate-limiting
+        # incoming clients), this code should either retry the operation or
+        # return a non-permanent error to the client (e.g., UNAVAILABLE).
+        authorization_token = self._aggregations_service.pre_authorize_clients(
+            task.aggregation_session_id, num_tokens=1)[0]
     if task:
       logging.debug('[%s] StartTaskAssignment: assigned %s', request.session_id,
                     task.task_name)
-      # NOTE: If a production implementation of the Aggregations service cannot
-      # always pre-authorize clients (e.g., due to rate-limiting incoming
-      # clients), this code should either retry the operation or return a
-      # non-permanent error to the client (e.g., UNAVAILABLE).
-      authorization_token = self._aggregations_service.pre_authorize_clients(
-          task.aggregation_session_id, num_tokens=1)[0]
       response = task_assignments_pb2.StartTaskAssignmentResponse(
           task_assignment=task_assignments_pb2.TaskAssignment(
               aggregation_data_forwarding_info=self._forwarding_info(),
-- 
2.43.0


From 93ed77cd80a02bfdcf07b8b45414e95e5f9b8a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 34/44] fix: keep track of eligibility tasks that share a name

Two computations with the same task name overwrote each other's entry, and
the second one to finish failed when it removed its own.
---
 fcp/demo/eligibility_eval_tasks.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fcp/demo/eligibility_eval_tasks.py b/fcp/demo/eligibility_eval_tasks.py
index ef826ad..337996f 100644
--- a/fcp/demo/eligibility_eval_tasks.py
+++ b/fcp/demo/eligibility_eval_tasks.py
@@ -49,18 +49,23 @@ class Service:
                forwarding_info: Callable[[], common_pb2.ForwardingInfo]):
     self._population_name = population_name
     self._forwarding_info = forwarding_info
-    self._tasks: dict[str, _Task] = {}
+    self._tasks: list[_Task] = []
     self._tasks_lock = threading.Lock()
 
   def add_task(self, task_name: str, task_assignment_mode: _TaskAssignmentMode):
     """Informs the service that a new task has been added to the system."""
     with self._tasks_lock:
-      self._tasks[task_name] = _Task(task_name, task_assignment_mode)
+      self._tasks.append(_Task(task_name, task_assignment_mode))
 
   def remove_task(self, task_name: str):
     """Informs the service that a task has been removed from the system."""
     with self._tasks_lock:
-      del self._tasks[task_name]
+      # There may be several tasks with the same name.
+      for task in self._tasks:
+        if task.task_name == task_name:
+          self._tasks.remove(task)
+          return
+      raise KeyError(task_name)
 
   @property
   def _population_eligibility_spec(
@@ -73,7 +78,7 @@ class Service:
                   task_name=task.task_name,
                   task_assignment_mode=task.task_assignment_mode,
               )
-              for task in self._tasks.values()
+              for task in dict.fromkeys(self._tasks)
           ]
       )
 
-- 
2.43.0


From e3c698715e29f943df6b2273d5c9373682a078ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 35/44] fix: announce a computation only once its task is
 accepted

A computation with an unsupported assignment mode failed but stayed
announced to clients forever.
---
 fcp/demo/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/server.py b/fcp/demo/server.py
index 1a1a78e..094f97b 100644
--- a/fcp/demo/server.py
+++ b/fcp/demo/server.py
@@ -127,9 +127,7 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
                   gzip.compress(slice_data),
                   content_type=_CHECKPOINT_CONTENT_TYPE,
               )
-          self._eligibility_eval_tasks_service.add_task(
-              task_name, task_assignment_mode
-          )
+          # This fails if the task assignment mode isn't supported.
           self._task_assignments_service.add_task(
               task_name,
               task_assignment_mode,
@@ -138,6 +136,9 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
               common_pb2.Resource(uri=checkpoint_url),
               group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE,
           )
+          self._eligibility_eval_tasks_service.add_task(
+              task_name, task_assignment_mode
+          )
           try:
             status = await self._aggregations_service.wait(
                 session_id,
-- 
2.43.0


From db9b7ebf21aa0677df51a1ecbac669558a0a5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:00 +0000
Subject: [PATCH 36/44] fix: write each traced line as a whole

The text recorder is shared by all threads but wrote to its stream without
synchronization, so concurrent events lost, repeated or mixed up lines.
---
 fcp/tracing/text_tracing_recorder_impl.cc | 2 ++
 fcp/tracing/text_tracing_recorder_impl.h  | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcp/tracing/text_tracing_recorder_impl.cc b/fcp/tracing/text_tracing_recorder_impl.cc
index a8bfdf5..5e95b18 100644
--- a/fcp/tracing/text_tracing_recorder_impl.cc
+++ b/fcp/tracing/text_tracing_recorder_impl.cc
@@ -43,6 +43,7 @@ TextTracingRecorderImpl::TextTracingRecorderImpl(absl::TimeZone time_zone)
 void TextTracingRecorderImpl::TraceImpl(TracingSpanId id,
                                         flatbuffers::DetachedBuffer&& buf,
                                         const TracingTraitsBase& traits) {
+  absl::MutexLock lock(&stream_lock_);
   LogTime();
   *stream_ << id << ": " << TracingTraitsBase::SeverityString(traits.Severity())
            << " " << traits.Name() << traits.TextFormat(buf) << endl;
@@ -64,6 +65,7 @@ void TextTracingRecorderImpl::LogSpan(bool begin, TracingSpanId id,
                                       TracingSpanId parent_id,
                                       absl::string_view name,
                                       absl::string_view text_format) {
+  absl::MutexLock lock(&stream_lock_);
   LogTime();
   *stream_ << id << (begin ? ": BEGIN" : ": END");
   if (!name.empty()) {
diff --git a/fcp/tracing/text_tracing_recorder_impl.h b/fcp/tracing/text_tracing_recorder_impl.h
index 5c99334..37db1d6 100644
--- a/fcp/tracing/text_tracing_recorder_impl.h
+++ b/fcp/tracing/text_tracing_recorder_impl.h
@@ -23,6 +23,8 @@
 #include <string>
 #include <vector>
 
+#include "absl/base/thread_annotations.h"
+#include "absl/synchronization/mutex.h"
 #include "absl/time/time.h"
 #include "fcp/tracing/tracing_recorder.h"
 #include "fcp/tracing/tracing_recorder_impl.h"
@@ -66,7 +68,7 @@ class TextTracingRecorderImpl : public TracingRecorderImpl {
 
  private:
   // Log a timestamp of the current time to the filestream.
-  void LogTime();
+  void LogTime() ABSL_EXCLUSIVE_LOCKS_REQUIRED(stream_lock_);
   // Common method for logging begin or end of a span.
   void LogSpan(bool begin, TracingSpanId id, TracingSpanId parent_id,
                absl::string_view name, absl::string_view text_format);
@@ -78,6 +80,9 @@ class TextTracingRecorderImpl : public TracingRecorderImpl {
   // the function that originally created the root tracing span.
   std::optional<std::ofstream> fstream_;
 
+  // Serializes writing, since spans may be used by several threads.
+  absl::Mutex stream_lock_;
+
   // Pointer to an output stream to which tracing events are written.
   std::ostream* stream_;
 
-- 
2.43.0


From 2d39d510262659988c7f3978c7bd569e9cef63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:07 +0000
Subject: [PATCH 37/44] fix: do not hand out a tracing recorder that is being
 destroyed

---
 fcp/tracing/tracing_recorder_impl.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/tracing/tracing_recorder_impl.cc b/fcp/tracing/tracing_recorder_impl.cc
index cb9c7be..2d0372d 100644
--- a/fcp/tracing/tracing_recorder_impl.cc
+++ b/fcp/tracing/tracing_recorder_impl.cc
@@ -52,8 +52,11 @@ class TracingState {
     TracingRecorderImpl* tracing_recorder =
         using_thread_local_state_ ? GetThreadLocalState().tracing_recorder
                                   : global_tracing_recorder_;
-    return tracing_recorder ? tracing_recorder->shared_from_this()
-                            : GetOrCreateDefaultRecorder();
+    // A recorder that is being destroyed uninstalls itself in its destructor;
+    // until then it can still be found here but must not be used any more.
+    std::shared_ptr<TracingRecorderImpl> current =
+        tracing_recorder ? tracing_recorder->weak_from_this().lock() : nullptr;
+    return current ? current : GetOrCreateDefaultRecorder();
   }
 
   void SetGlobalRecorderImpl(TracingRecorderImpl* impl) {
-- 
2.43.0


From ae697120fdc5c3584a6ab4794a72a1299a0aa1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:28 +0000
Subject: [PATCH 38/44] fix: write example query vectors of bytes from the
 values of their own kind

---
 fcp/client/engine/example_query_plan_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index bbbe1b2..8acd25e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -176,7 +176,7 @@ absl::Status WriteCheckpoint(
             output_vector_spec, ExampleQuerySpec::OutputVectorSpec::BYTES));
         int64_t size = values.bytes_values().value_size();
         std::vector<tf::tstring> tf_string_vector;
-        for (const auto& value : values.string_values().value()) {
+        for (const auto& value : values.bytes_values().value()) {
           tf_string_vector.emplace_back(value);
         }
         FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size,
-- 
2.43.0


From a7b3bd1b8b676a220824fa6c0d96f21691c87d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:28 +0000
Subject: [PATCH 39/44] fix: store nonfatal and fatal initialization errors
 under their own event kinds

---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From f26e67fb3a2f8dcd1e47bbbb88a77cd690e38cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:28 +0000
Subject: [PATCH 40/44] fix: do not count a task as contributed when its
 results cannot be uploaded

---
 fcp/client/fl_runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 7a33f0b..d69df10 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -1869,6 +1869,10 @@ RunPlanResults RunComputation(
       GetNetworkStatsSince(federated_protocol, fedselect_manager,
                            run_plan_start_network_stats),
       run_plan_start_time, reference_time);
+  if (outcome == engine::PlanOutcome::kSuccess && !computation_results.ok()) {
+    // A computation without results that can be uploaded did not succeed.
+    outcome = engine::PlanOutcome::kTensorflowError;
+  }
   return RunPlanResults{.outcome = outcome,
                         .computation_results = std::move(computation_results),
                         .run_plan_start_time = run_plan_start_time};
-- 
2.43.0


From 73378444bf52a1f2f491d9e82801b187517f9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:28 +0000
Subject: [PATCH 41/44] fix: log an outcome for local computations no plan
 engine can run

---
 fcp/client/lc_runner.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/client/lc_runner.cc b/fcp/client/lc_runner.cc
index e4abbc0..76cb1df 100644
--- a/fcp/client/lc_runner.cc
+++ b/fcp/client/lc_runner.cc
@@ -271,7 +271,13 @@ absl::Status RunPlanWithTensorflowSpec(
                         run_plan_start_time, reference_time);
   return ConvertPlanOutcomeToStatus(outcome);
 #else
-  return absl::InternalError("No plan engine enabled");
+  engine::PlanResult plan_result(
+      engine::PlanOutcome::kTensorflowError,
+      absl::InternalError("No plan engine enabled"));
+  engine::PlanOutcome outcome = plan_result.outcome;
+  LogComputationOutcome(std::move(plan_result), phase_logger,
+                        run_plan_start_time, reference_time);
+  return ConvertPlanOutcomeToStatus(outcome);
 #endif
 }
 }  // anonymous namespace
-- 
2.43.0


From ec1b312d752727a1f7eb8a81f9c88e04d6efade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:28 +0000
Subject: [PATCH 42/44] fix: refuse attested tokens that hold no public key
 instead of reading past it

---
 fcp/client/attestation/oak_rust_attestation_verifier.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/client/attestation/oak_rust_attestation_verifier.cc b/fcp/client/attestation/oak_rust_attestation_verifier.cc
index d840655..b1cdecb 100644
--- a/fcp/client/attestation/oak_rust_attestation_verifier.cc
+++ b/fcp/client/attestation/oak_rust_attestation_verifier.cc
@@ -110,11 +110,17 @@ absl::StatusOr<OkpKey> OakRustAttestationVerifier::Verify(
             cwt.status().message()));
   }
 
+  if (!cwt->public_key.has_value()) {
+    return absl::InvalidArgumentError(
+        "Confidential aggregation public key is missing.");
+  }
+
   // Ensure that the CWT is signed using the expected ECDSA256 signing
   // algorithm.
   if (!cwt->algorithm.has_value() || *cwt->algorithm != kAlgorithmES256) {
     return absl::FailedPreconditionError(absl::Substitute(
-        "Unsupported COSE signing algorithm ($0).", *cwt->algorithm));
+        "Unsupported COSE signing algorithm ($0).",
+        cwt->algorithm.has_value() ? *cwt->algorithm : 0));
   }
 
   // Extract the protected parts of the CWT (the COSE Sig_structure), which are
-- 
2.43.0


From 843934d8699bac206c84dd0a5efb618769db24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:26 +0000
Subject: [PATCH 43/44] fix: destroy unregistered host objects after releasing
 the registry's lock

---
 fcp/tensorflow/host_object.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcp/tensorflow/host_object.cc b/fcp/tensorflow/host_object.cc
index 5db753b..0d577a1 100644
--- a/fcp/tensorflow/host_object.cc
+++ b/fcp/tensorflow/host_object.cc
@@ -52,10 +52,14 @@ void HostObjectRegistryImpl::Register(RandomToken token,
 }
 
 void HostObjectRegistryImpl::Unregister(RandomToken token) {
+  // Outlives the lock: destroying an object may de-register others.
+  std::shared_ptr<void> p;
   absl::WriterMutexLock lock{&mutex_};
-  size_t erased = objects_.erase(token);
-  FCP_CHECK(erased == 1)
+  auto it = objects_.find(token);
+  FCP_CHECK(it != objects_.end())
       << "An object is not currently registered for the provided token";
+  p = std::move(it->second);
+  objects_.erase(it);
 }
 
 }  // namespace host_object_internal
-- 
2.43.0


From 254556cea84b3706ac7fb6c3a92ec21a872956ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:26 +0000
Subject: [PATCH 44/44] fix: de-register the previous host object when a
 registration is assigned to

---
 fcp/tensorflow/host_object.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fcp/tensorflow/host_object.h b/fcp/tensorflow/host_object.h
index e7803ed..7c2dd3e 100644
--- a/fcp/tensorflow/host_object.h
+++ b/fcp/tensorflow/host_object.h
@@ -89,7 +89,15 @@ class HostObjectRegistryImpl {
 class HostObjectRegistration final {
  public:
   HostObjectRegistration(HostObjectRegistration&&) = default;
-  HostObjectRegistration& operator=(HostObjectRegistration&&) = default;
+  HostObjectRegistration& operator=(HostObjectRegistration&& other) {
+    if (this != &other) {
+      // De-registers what was registered so far, when going out of scope.
+      HostObjectRegistration previous(std::move(*this));
+      registry_ = other.registry_;
+      token_ = std::move(other.token_);
+    }
+    return *this;
+  }
 
   ~HostObjectRegistration() {
     if (token_.has_value()) {
-- 
2.43.0

