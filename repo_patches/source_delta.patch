From c723156ba77dfaf67fb4eca0847bdab6af10da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 01/35] fix: retry: avoid overflow of the back-off time

With large values for the initial or maximal back-off, doubling the
back-off as well as adding the jitter could overflow, resulting in
(almost) no waiting at all between attempts.
---
 src/buildtool/common/remote/retry_config.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/common/remote/retry_config.hpp b/src/buildtool/common/remote/retry_config.hpp
index ed4b010..9db8154 100644
--- a/src/buildtool/common/remote/retry_config.hpp
+++ b/src/buildtool/common/remote/retry_config.hpp
@@ -15,6 +15,9 @@
 #ifndef INCLUDED_SRC_BUILDTOOL_COMMON_RETRY_PARAMETERS_HPP
 #define INCLUDED_SRC_BUILDTOOL_COMMON_RETRY_PARAMETERS_HPP
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <mutex>
 #include <optional>
 #include <random>
@@ -50,13 +53,18 @@ class RetryConfig final {
         // on the first attempt, we don't double the backoff time
         // also we do it in a for loop to avoid overflow
         for (auto x = 1U; x < attempt; ++x) {
-            backoff <<= 1U;
-            if (backoff >= max_backoff_seconds_) {
+            // doubling would reach the maximum; check first, as the shift could
+            // overflow for large values
+            if (backoff > (max_backoff_seconds_ - 1) / 2) {
                 backoff = max_backoff_seconds_;
                 break;
             }
+            backoff <<= 1U;
         }
-        return backoff + Jitter(backoff);
+        auto const sleep_time = std::uint64_t{backoff} + Jitter(backoff);
+        return static_cast<unsigned int>(
+            std::min<std::uint64_t>(sleep_time,
+                                    std::numeric_limits<unsigned int>::max()));
     }
 
   private:
-- 
2.43.0


From 9a1cd9c7eaf6d82e24d929415eccf6076a202da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 02/35] fix: file system: report failures to write a file

The state of the stream was never looked at after writing the contents.
So, e.g., on a full disk, the truncated file was reported as written.
---
 src/buildtool/file_system/file_system_manager.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 146e6db..bc71014 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -1104,6 +1104,11 @@ class FileSystemManager {
             }
             writer << content;
             writer.close();
+            if (not writer) {
+                Logger::Log(
+                    LogLevel::Error, "can not write file {}", file.string());
+                return false;
+            }
             return true;
         } catch (std::exception const& e) {
             Logger::Log(
-- 
2.43.0


From 297e27db66b5a9be8ce2ff142f4ed6b76d4560dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 03/35] fix: file system: honor abnormal end of fd-less helper
 processes

A helper process killed by a signal was reported as a successful copy or
write, and so was an interrupted wait for the helper.
---
 .../file_system/file_system_manager.hpp       | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index bc71014..8153517 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -342,11 +342,7 @@ class FileSystemManager {
                     opt == std::filesystem::copy_options::skip_existing));
             }
 
-            int status{};
-            ::waitpid(pid, &status, 0);
-
-            // NOLINTNEXTLINE(hicpp-signed-bitwise)
-            int retval = WEXITSTATUS(status);
+            int const retval = WaitForChild(pid);
 
             if (retval != 0) {
                 Logger::Log(LogLevel::Error,
@@ -919,11 +915,7 @@ class FileSystemManager {
                     LowLevel::WriteFile(content_cstr, content_size, file_cstr));
             }
 
-            int status{};
-            ::waitpid(pid, &status, 0);
-
-            // NOLINTNEXTLINE(hicpp-signed-bitwise)
-            int retval = WEXITSTATUS(status);
+            int const retval = WaitForChild(pid);
 
             if (retval != 0) {
                 Logger::Log(LogLevel::Error,
@@ -1117,6 +1109,25 @@ class FileSystemManager {
         }
     }
 
+    /// \brief Wait for a child process performing a low-level operation.
+    /// \returns The return value of the child; a non-zero value with the signal
+    /// bit set, if the child did not terminate regularly.
+    [[nodiscard]] static auto WaitForChild(pid_t pid) noexcept -> int {
+        int status{};
+        while (::waitpid(pid, &status, 0) == -1) {
+            if (errno != EINTR) {
+                return LowLevel::kSignalBit;
+            }
+        }
+        // NOLINTNEXTLINE(hicpp-signed-bitwise)
+        if (WIFEXITED(status)) {
+            // NOLINTNEXTLINE(hicpp-signed-bitwise)
+            return WEXITSTATUS(status);
+        }
+        // NOLINTNEXTLINE(hicpp-signed-bitwise)
+        return LowLevel::kSignalBit | WTERMSIG(status);
+    }
+
     /// \brief Set special permissions for files.
     /// By default, we set to 0444 for non-executables and set to 0555 for
     /// executables. When we install or install-cas, we add the owner write
@@ -1212,6 +1223,8 @@ class FileSystemManager {
             S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH;  // NOLINT
 
       public:
+        static constexpr int kSignalBit = 0x80;
+
         template <std::size_t kChunkSize = kDefaultChunkSize>
         [[nodiscard]] static auto CopyFile(char const* src,
                                            char const* dst,
@@ -1318,7 +1331,6 @@ class FileSystemManager {
             LAST_ERROR_CODE      // marker for first unused error code
         };
 
-        static constexpr int kSignalBit = 0x80;
         static constexpr int kAvailableBits = 7;  // 8 bits - 1 signal bit
         static constexpr int kCodeWidth = detail::BitWidth(LAST_ERROR_CODE - 1);
         static constexpr int kCodeMask = (1 << kCodeWidth) - 1;  // NOLINT
-- 
2.43.0


From d17acc1fa36daa75f6ea02c4f2edd3a4d6ac9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 04/35] fix: hash function: do not terminate on files that
 cannot be accessed

The function hashing a file is noexcept and reports failures by its return
value; a file that vanished or cannot be accessed has to be reported in
the same way.
---
 src/buildtool/crypto/hash_function.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/crypto/hash_function.cpp b/src/buildtool/crypto/hash_function.cpp
index 985ef88..2b56aed 100644
--- a/src/buildtool/crypto/hash_function.cpp
+++ b/src/buildtool/crypto/hash_function.cpp
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <exception>
 #include <string_view>
+#include <system_error>
 
 #include "src/buildtool/logging/log_level.hpp"
 #include "src/buildtool/logging/logger.hpp"
@@ -71,7 +72,15 @@ auto HashFunction::HashTreeFile(std::filesystem::path const& path) const
 auto HashFunction::HashTaggedFile(std::filesystem::path const& path,
                                   TagCreator const& tag_creator) const noexcept
     -> std::optional<std::pair<Hasher::HashDigest, std::uintmax_t>> {
-    auto const size = std::filesystem::file_size(path);
+    std::error_code ec{};
+    auto const size = std::filesystem::file_size(path, ec);
+    if (ec) {
+        Logger::Log(LogLevel::Debug,
+                    "Failed to obtain the size of {}: {}",
+                    path.string(),
+                    ec.message());
+        return std::nullopt;
+    }
 
     static constexpr std::size_t kChunkSize{4048};
     auto hasher = MakeHasher();
-- 
2.43.0


From 88541333c54bc6363d9779ec57e5f305304bad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 05/35] fix: backend description: properly initialize by
 default

Comparing a default-constructed description with a different one
dereferenced a null pointer.
---
 src/buildtool/storage/backend_description.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buildtool/storage/backend_description.cpp b/src/buildtool/storage/backend_description.cpp
index 0f1a340..a4c3cb8 100644
--- a/src/buildtool/storage/backend_description.cpp
+++ b/src/buildtool/storage/backend_description.cpp
@@ -26,9 +26,11 @@ BackendDescription::BackendDescription() noexcept {
     if (auto dummy = Describe(
             /*address=*/std::nullopt, /*properties=*/{}, /*dispatch=*/{})) {
         description_ = dummy->description_;
+        sha256_ = dummy->sha256_;
     }
     else {
         description_ = std::make_shared<std::string>();
+        sha256_ = std::make_shared<std::string>();
     }
 }
 
-- 
2.43.0


From 2f7a4e0417a14af3b9fb4d5a0482f31068f8a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 06/35] fix: compactification: keep objects without a large
 entry

Splitting reports success even if the large entry for the object could not
be written, e.g., because the disk is full. In this case, compactification
deleted the only copy of the object.
---
 src/buildtool/storage/compactifier.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/buildtool/storage/compactifier.cpp b/src/buildtool/storage/compactifier.cpp
index ab1f557..07842e5 100644
--- a/src/buildtool/storage/compactifier.cpp
+++ b/src/buildtool/storage/compactifier.cpp
@@ -300,6 +300,17 @@ template <ObjectType kType>
         return true;
     }
 
+    // Splitting succeeds even if the large entry could not be stored. Without
+    // that entry, the object cannot be restored, so it must not be deleted.
+    auto const large_entry =
+        task.cas.StorageRoot(kType, /*large=*/true) / key;
+    if (not FileSystemManager::IsFile(large_entry)) {
+        task.Log(LogLevel::Error,
+                 "Failed to store the large entry for {}",
+                 digest->hash());
+        return false;
+    }
+
     if (not FileSystemManager::RemoveFile(path)) {
         task.Log(LogLevel::Error, "Failed to remove {}", path.string());
         return false;
-- 
2.43.0


From adc686a03515b3704c246f5d3a7f19bf9bbeff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 07/35] fix: large object CAS: handle objects split and removed
 concurrently

---
 src/buildtool/storage/large_object_cas.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buildtool/storage/large_object_cas.tpp b/src/buildtool/storage/large_object_cas.tpp
index adc9570..4ea0549 100644
--- a/src/buildtool/storage/large_object_cas.tpp
+++ b/src/buildtool/storage/large_object_cas.tpp
@@ -152,6 +152,11 @@ auto LargeObjectCAS<kDoGlobalUplink, kType>::Split(ArtifactDigest const& digest)
     // Split file into chunks:
     FileChunker chunker{*file_path};
     if (not chunker.IsOpen()) {
+        // The file may have been split and removed concurrently; compactifying
+        // executables and files does so for blobs stored as both.
+        if (auto large_entry = ReadEntry(digest)) {
+            return std::move(*large_entry);
+        }
         return unexpected{
             LargeObjectError{LargeObjectErrorCode::Internal,
                              fmt::format("could not split {}", digest.hash())}};
-- 
2.43.0


From 80f94ac6ed221d5a087993eeabf919ca1d935a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 08/35] fix: file storage: remove the temporary file of a
 failed store

It is read-only and named after process and thread, hence it made later
attempts of the same thread to store that object fail.
---
 src/buildtool/file_system/file_storage.hpp | 30 +++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/buildtool/file_system/file_storage.hpp b/src/buildtool/file_system/file_storage.hpp
index 5748ae4..f5dfeea 100644
--- a/src/buildtool/file_system/file_storage.hpp
+++ b/src/buildtool/file_system/file_storage.hpp
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <string>
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -124,9 +125,16 @@ class FileStorage {
                 // of the file. Create the file in a process/thread-local
                 // temporary path and stage it.
                 auto unique_path = CreateUniquePath(file_path);
-                return unique_path and
-                       CreateFileFromPath(*unique_path, path, is_owner) and
-                       StageFile(*unique_path, file_path);
+                if (not unique_path) {
+                    return false;
+                }
+                if (CreateFileFromPath(*unique_path, path, is_owner) and
+                    StageFile(*unique_path, file_path)) {
+                    return true;
+                }
+                // A read-only leftover would make retries fail.
+                std::ignore = FileSystemManager::RemoveFile(*unique_path);
+                return false;
             };
             if (direct_create ? create_directly() : create_and_stage()) {
                 Logger::Log(
@@ -151,12 +159,16 @@ class FileStorage {
             not FileSystemManager::Exists(file_path)) {
             auto unique_path = CreateUniquePath(file_path);
             if (unique_path and
-                FileSystemManager::CreateDirectory(file_path.parent_path()) and
-                CreateFileFromBytes(*unique_path, bytes) and
-                StageFile(*unique_path, file_path)) {
-                Logger::Log(
-                    LogLevel::Trace, "created entry {}.", file_path.string());
-                return true;
+                FileSystemManager::CreateDirectory(file_path.parent_path())) {
+                if (CreateFileFromBytes(*unique_path, bytes) and
+                    StageFile(*unique_path, file_path)) {
+                    Logger::Log(LogLevel::Trace,
+                                "created entry {}.",
+                                file_path.string());
+                    return true;
+                }
+                // A read-only leftover would make retries fail.
+                std::ignore = FileSystemManager::RemoveFile(*unique_path);
             }
         }
         return FileSystemManager::IsFile(file_path);
-- 
2.43.0


From 5ed32d5732d051a00afb6420808a09c716454c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 09/35] fix: large object CAS: report failures to write a
 spliced object

---
 src/buildtool/storage/large_object_cas.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buildtool/storage/large_object_cas.tpp b/src/buildtool/storage/large_object_cas.tpp
index 4ea0549..3a038a7 100644
--- a/src/buildtool/storage/large_object_cas.tpp
+++ b/src/buildtool/storage/large_object_cas.tpp
@@ -243,6 +243,11 @@ auto LargeObjectCAS<kDoGlobalUplink, kType>::Splice(
             }
         }
         stream.close();
+        if (not stream.good()) {
+            return unexpected{LargeObjectError{
+                LargeObjectErrorCode::Internal,
+                fmt::format("could not splice {}", digest.hash())}};
+        }
     } catch (...) {
         return unexpected{LargeObjectError{LargeObjectErrorCode::Internal,
                                            "an unknown error occurred"}};
-- 
2.43.0


From 924f36a57c7afb4746c4936752cd047715880589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/35] fix: local CAS: do not use content of trees that could
 not be read

---
 src/buildtool/storage/local_cas.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buildtool/storage/local_cas.tpp b/src/buildtool/storage/local_cas.tpp
index 91edb1f..689243a 100644
--- a/src/buildtool/storage/local_cas.tpp
+++ b/src/buildtool/storage/local_cas.tpp
@@ -120,6 +120,9 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkGitTree(
 
     // Determine tree entries.
     auto content = FileSystemManager::ReadFile(*tree_path);
+    if (not content) {
+        return false;
+    }
     auto skip_symlinks = [](auto const& /*unused*/) { return true; };
     auto tree_entries = GitRepo::ReadTreeData(*content,
                                               digest.hash(),
@@ -201,6 +204,9 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBazelDirectory(
 
     // Determine bazel directory entries.
     auto content = FileSystemManager::ReadFile(*dir_path);
+    if (not content) {
+        return false;
+    }
     bazel_re::Directory dir{};
     if (not dir.ParseFromString(*content)) {
         return false;
-- 
2.43.0


From b6ac77c72cb9914a31676dc838211fd73d6ffd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 11/35] fix: local CAS: do not ignore failure to carry over a
 large object

If the spliced object itself is not stored in the youngest generation, the
large entry is needed for trees and cache entries referring to the object.
---
 src/buildtool/storage/local_cas.tpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/buildtool/storage/local_cas.tpp b/src/buildtool/storage/local_cas.tpp
index 689243a..9203c52 100644
--- a/src/buildtool/storage/local_cas.tpp
+++ b/src/buildtool/storage/local_cas.tpp
@@ -60,9 +60,12 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBlob(
         // to BlobPath might return different results: The first call splices
         // and uplinks the object, but fails at large entry uplinking. The
         // second call finds the tree in the youngest generation and returns.
-        std::ignore = LocalUplinkLargeObject<ObjectType::File>(latest, digest);
+        bool const uplinked =
+            LocalUplinkLargeObject<ObjectType::File>(latest, digest);
         if (not splice_result) {
-            return true;
+            // The large entry is all that is uplinked, so it must be there.
+            return uplinked and
+                   latest.cas_file_large_.GetEntryPath(digest).has_value();
         }
     }
 
@@ -166,9 +169,12 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkGitTree(
         // to TreePath might return different results: The first call splices
         // and uplinks the object, but fails at large entry uplinking. The
         // second call finds the tree in the youngest generation and returns.
-        std::ignore = LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
+        bool const uplinked =
+            LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
         if (not splice_result) {
-            return true;
+            // The large entry is all that is uplinked, so it must be there.
+            return uplinked and
+                   latest.cas_tree_large_.GetEntryPath(digest).has_value();
         }
     }
 
@@ -244,7 +250,13 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBazelDirectory(
         // splices and uplinks the object, but fails at large entry
         // uplinking. The second call finds the tree in the youngest
         // generation and returns.
-        std::ignore = LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
+        bool const uplinked =
+            LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
+        if (not splice_result and not dir_path_latest and
+            not(uplinked and latest.cas_tree_large_.GetEntryPath(digest))) {
+            // The large entry is all that is uplinked, so it must be there.
+            return false;
+        }
     }
 
     bool const skip_store = spliced != nullptr and not splice_result;
-- 
2.43.0


From fc826c5dc80ab8d03abb65a84e7f228914ea87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 12/35] fix: incremental reader: take the content size from the
 opened file

When the path is replaced by another file between opening it and asking for
its size, the content was cut to the size of the other file, so that a reader
of an atomically replaced file could obtain a torn content.
---
 src/utils/cpp/incremental_reader.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utils/cpp/incremental_reader.cpp b/src/utils/cpp/incremental_reader.cpp
index a7bcc18..f8d2707 100644
--- a/src/utils/cpp/incremental_reader.cpp
+++ b/src/utils/cpp/incremental_reader.cpp
@@ -55,7 +55,15 @@ auto IncrementalReader::FromFile(std::size_t chunk_size,
                             path.string())};
         }
 
-        std::size_t const content_size = std::filesystem::file_size(path);
+        // Take the size from the opened file, as the path might be replaced
+        // by another file at any time:
+        if (std::fseek(file.get(), 0, SEEK_END) != 0) {
+            return unexpected{fmt::format(
+                "IncrementalReader: failed to seek in the file:\n{}",
+                path.string())};
+        }
+        auto const content_size =
+            gsl::narrow<std::size_t>(std::ftell(file.get()));
         return IncrementalReader{chunk_size,
                                  content_size,
                                  std::move(file),
-- 
2.43.0


From c5f99c4e3123a1852d25b110c3e6f138e0e4e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 13/35] fix: lock file: release the previous lock on move
 assignment

Assigning to a handle dropped its open file without closing it, so that the
lock was held until the end of the process.
---
 src/utils/cpp/file_locking.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/cpp/file_locking.cpp b/src/utils/cpp/file_locking.cpp
index 3467070..62c7d69 100644
--- a/src/utils/cpp/file_locking.cpp
+++ b/src/utils/cpp/file_locking.cpp
@@ -127,6 +127,13 @@ LockFile::LockFile(LockFile&& other) noexcept
 }
 
 auto LockFile::operator=(LockFile&& other) noexcept -> LockFile& {
+    if (this == &other) {
+        return *this;
+    }
+    if (file_handle_ != nullptr) {
+        // give up the lock held so far
+        fclose(file_handle_);
+    }
     file_handle_ = other.file_handle_;
     other.file_handle_ = nullptr;
     lock_file_ = std::move(other.lock_file_);
-- 
2.43.0


From b0c17f47bf4cefabb353b2cb4ec9537f761deb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 14/35] fix: lock file: do not block unrelated acquisitions
 while waiting

The process-wide mutex was held while waiting for a lock, so that no other
thread of the process could acquire any other lock; if the lock waited for is
held by a thread that needs another one to proceed, this is a deadlock.
---
 src/utils/cpp/file_locking.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/cpp/file_locking.cpp b/src/utils/cpp/file_locking.cpp
index 62c7d69..b1e7499 100644
--- a/src/utils/cpp/file_locking.cpp
+++ b/src/utils/cpp/file_locking.cpp
@@ -56,6 +56,8 @@ auto LockFile::Acquire(std::filesystem::path const& fspath,
                         lock_file->string());
             return std::nullopt;
         }
+        // waiting for this lock must not keep others from acquiring theirs
+        lock.unlock();
         // attach flock
         auto err = flock(fileno(file_handle), is_shared ? LOCK_SH : LOCK_EX);
         if (err != 0) {
-- 
2.43.0


From 33105d3032b8f5e5688d1bc54a63a837a2458d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 15/35] fix: system command: handle failure to create the
 temporary stdin

The null handle returned on a full disk or when out of file descriptors was
dereferenced.
---
 src/buildtool/system/system_command.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/buildtool/system/system_command.hpp b/src/buildtool/system/system_command.hpp
index 86f63e6..487a953 100644
--- a/src/buildtool/system/system_command.hpp
+++ b/src/buildtool/system/system_command.hpp
@@ -163,6 +163,14 @@ class SystemCommand {
         // file system and will be removed automatically once the descriptor is
         // closed.
         gsl::owner<FILE*> in_file = std::tmpfile();
+        if (in_file == nullptr) {
+            logger_.Emit(LogLevel::Error,
+                         "Failed to execute '{}': cannot create a temporary "
+                         "file for stdin: {}",
+                         *cmd,
+                         strerror(errno));
+            return std::nullopt;
+        }
         auto in_fd = fileno(in_file);
 
         // fork child process
-- 
2.43.0


From c220bd8ce0fbbe107ecf3a59d1f174aa2b9a49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 16/35] fix: system command: continue waiting when interrupted

The execution was reported as failed while the command was still running.
---
 src/buildtool/system/system_command.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buildtool/system/system_command.hpp b/src/buildtool/system/system_command.hpp
index 487a953..64e4c8b 100644
--- a/src/buildtool/system/system_command.hpp
+++ b/src/buildtool/system/system_command.hpp
@@ -213,6 +213,9 @@ class SystemCommand {
         std::optional<int> retval{std::nullopt};
         while (not retval) {
             if (::waitpid(pid, &status, 0) == -1) {
+                if (errno == EINTR) {
+                    continue;
+                }
                 // this should never happen
                 logger_.Emit(LogLevel::Error,
                              "Waiting for child failed with: {}",
-- 
2.43.0


From 69c2a37727c5321e7ab2ba2427686deed5d02e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 17/35] fix: system command: do not run the command if its
 setup failed

If changing to the working directory or redirecting the standard streams
failed, the command was run in the directory of the caller, or with its output
lost, and its success was reported.
---
 src/buildtool/system/system_command.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/buildtool/system/system_command.hpp b/src/buildtool/system/system_command.hpp
index 64e4c8b..86505a0 100644
--- a/src/buildtool/system/system_command.hpp
+++ b/src/buildtool/system/system_command.hpp
@@ -184,12 +184,21 @@ class SystemCommand {
 
         // dispatch child/parent process
         if (pid == 0) {
-            ::chdir(cwd_cstr);
+            auto redirect = [](int from, int to) -> bool {
+                int res{};
+                do {  // NOLINT(cppcoreguidelines-avoid-do-while)
+                    res = ::dup2(from, to);
+                } while (res == -1 and errno == EINTR);
+                return res != -1;
+            };
 
-            // redirect and close fds
-            ::dup2(in_fd, STDIN_FILENO);
-            ::dup2(out_fd, STDOUT_FILENO);
-            ::dup2(err_fd, STDERR_FILENO);
+            // redirect and close fds; never run the command in the wrong
+            // directory or without its output being captured
+            if (::chdir(cwd_cstr) != 0 or not redirect(in_fd, STDIN_FILENO) or
+                not redirect(out_fd, STDOUT_FILENO) or
+                not redirect(err_fd, STDERR_FILENO)) {
+                System::ExitWithoutCleanup(EXIT_FAILURE);
+            }
             ::close(in_fd);
             ::close(out_fd);
             ::close(err_fd);
-- 
2.43.0


From 44143dea53d2326a67638a1e26c872ddb0180629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 18/35] fix: local CAS: store spliced executables as copies

A spliced executable was hard linked into the CAS although its file was opened
for writing in this process, so that it could not be executed as long as a
concurrently forked child holds the inherited file descriptor.
---
 src/buildtool/storage/local_cas.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/storage/local_cas.tpp b/src/buildtool/storage/local_cas.tpp
index 9203c52..85cbcd8 100644
--- a/src/buildtool/storage/local_cas.tpp
+++ b/src/buildtool/storage/local_cas.tpp
@@ -423,7 +423,10 @@ auto LocalCAS<kDoGlobalUplink>::Splice(ArtifactDigest const& digest,
         }
     }
 
-    static constexpr bool kOwner = true;
+    // Executables must be stored as copies made in a child process, as the
+    // spliced file might be held open for writing by concurrently forked
+    // children.
+    static constexpr bool kOwner = not kIsExec;
     auto const stored_digest = kIsTree ? StoreTree<kOwner>(file_path)
                                        : StoreBlob<kOwner>(file_path, kIsExec);
     if (not stored_digest) {
-- 
2.43.0


From 95418346152721df997161432947535ed770af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 19/35] fix: keep the type of every entry when parsing a git
 tree for an overlay

Entries of a git tree are grouped by hash, and all entries of a group got the
type of the first one. A blob that appears both as file and as executable or
symlink in one tree hence changed its type in a tree overlay.
---
 .../tree_operations/tree_operations_utils.cpp             | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp b/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp
index fb7d3bf..7049bd3 100644
--- a/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp
+++ b/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp
@@ -117,8 +117,10 @@ auto TreeOperationsUtils::ParseGitTree(std::string const& tree_data,
     tree_entries.reserve(git_entries->size());
     for (auto const& [git_hash, entries] : *git_entries) {
         // Pick the first entry for that git hash to calculate the
-        // object info once, since all follow-up entries will be the
-        // same object, just with a different name.
+        // digest once, since all follow-up entries will be the same
+        // object, just with a different name. The type may differ,
+        // however: the same blob can be a file, an executable, or a
+        // symlink.
         auto const& first_entry = entries.front();
         auto digest =
             ArtifactDigestFactory::Create(hash_type,
@@ -134,7 +136,7 @@ auto TreeOperationsUtils::ParseGitTree(std::string const& tree_data,
             tree_entries.insert(
                 {entry.name,
                  TreeEntry{.info = Artifact::ObjectInfo{
-                               .digest = *digest, .type = first_entry.type}}});
+                               .digest = *digest, .type = entry.type}}});
         }
     }
     return tree_entries;
-- 
2.43.0


From 8736a2df78cdfbeeccd292b192d2e27245d9cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 20/35] fix: find all symlinks among the expected outputs of an
 action

An output directory may be a symlink, which is reported as directory symlink,
and symlinks are reported as output symlinks in case of output paths. The check
for expected outputs did not look for those, so that a successful action with
such an output was never served from the action cache.
---
 src/buildtool/execution_api/utils/outputscheck.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buildtool/execution_api/utils/outputscheck.hpp b/src/buildtool/execution_api/utils/outputscheck.hpp
index 026fce3..b22f231 100644
--- a/src/buildtool/execution_api/utils/outputscheck.hpp
+++ b/src/buildtool/execution_api/utils/outputscheck.hpp
@@ -52,6 +52,9 @@
         for (auto const& dir : result.output_directories()) {
             actual_output_dirs.emplace(dir.path());
         }
+        for (auto const& dir : result.output_directory_symlinks()) {
+            actual_output_dirs.emplace(dir.path());
+        }
         return std::all_of(expected_dirs.begin(),
                            expected_dirs.end(),
                            [&actual_output_dirs](auto const& expected) {
@@ -77,6 +80,9 @@
         for (auto const& file : result.output_directory_symlinks()) {
             actual_output_paths.emplace(file.path());
         }
+        for (auto const& link : result.output_symlinks()) {
+            actual_output_paths.emplace(link.path());
+        }
         for (auto const& dir : result.output_directories()) {
             actual_output_paths.emplace(dir.path());
         }
-- 
2.43.0


From 2567938dcab20193524bdadfc8573196dd018ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 21/35] fix: do not report an action result without its
 captured output

If storing stdout or stderr of a locally executed action failed, the result
was nevertheless returned, and cached, as if the command had not written
anything.
---
 .../execution_api/local/local_action.cpp        | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/buildtool/execution_api/local/local_action.cpp b/src/buildtool/execution_api/local/local_action.cpp
index 8050c3d..7b6b084 100644
--- a/src/buildtool/execution_api/local/local_action.cpp
+++ b/src/buildtool/execution_api/local/local_action.cpp
@@ -214,14 +214,17 @@ auto LocalAction::Run(ArtifactDigest const& action_id) const noexcept
     if (exit_code.has_value()) {
         Output result{};
         result.action.set_exit_code(*exit_code);
-        if (auto const digest = DigestFromOwnedFile(*exec_path / "stdout")) {
-            *result.action.mutable_stdout_digest() =
-                ArtifactDigestFactory::ToBazel(*digest);
-        }
-        if (auto const digest = DigestFromOwnedFile(*exec_path / "stderr")) {
-            *result.action.mutable_stderr_digest() =
-                ArtifactDigestFactory::ToBazel(*digest);
+        auto const stdout_digest = DigestFromOwnedFile(*exec_path / "stdout");
+        auto const stderr_digest = DigestFromOwnedFile(*exec_path / "stderr");
+        if (not stdout_digest or not stderr_digest) {
+            logger_.Emit(LogLevel::Error,
+                         "failed to store the captured output");
+            return std::nullopt;
         }
+        *result.action.mutable_stdout_digest() =
+            ArtifactDigestFactory::ToBazel(*stdout_digest);
+        *result.action.mutable_stderr_digest() =
+            ArtifactDigestFactory::ToBazel(*stderr_digest);
 
         if (CollectAndStoreOutputs(&result.action, build_root / cwd_)) {
             if (cache_flag_ == CacheFlag::CacheOutput) {
-- 
2.43.0


From 618fee05dc5a7af50ade309f12436d5da71164af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 22/35] fix: install copies of remote artifacts

RetrieveToPaths hard linked the temporary file of a blob to every output
path with that content, changing its permissions each time. So installing
the same content as file and as executable left both paths with the type
of the last one.
---
 .../execution_api/remote/bazel/bazel_api.cpp          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/buildtool/execution_api/remote/bazel/bazel_api.cpp b/src/buildtool/execution_api/remote/bazel/bazel_api.cpp
index 11cb765..923ec43 100644
--- a/src/buildtool/execution_api/remote/bazel/bazel_api.cpp
+++ b/src/buildtool/execution_api/remote/bazel/bazel_api.cpp
@@ -247,11 +247,12 @@ auto BazelApi::CreateAction(
         if (auto const path = blobs[i].GetFilePath()) {
             if (FileSystemManager::CreateDirectory(dst.parent_path()) and
                 FileSystemManager::RemoveFile(dst)) {
-                written = IsSymlinkObject(type)
-                              ? FileSystemManager::CopySymlinkAs<
-                                    /*kSetEpochTime=*/true>(*path, dst)
-                              : FileSystemManager::CreateFileHardlinkAs<
-                                    /*kSetEpochTime=*/true>(*path, dst, type);
+                // Copy, as the same blob might be staged several times with
+                // different types.
+                written =
+                    FileSystemManager::CopyFileAs</*kSetEpochTime=*/true,
+                                                  /*kSetWritable=*/true>(
+                        *path, dst, type);
             }
         }
 
-- 
2.43.0


From 458b21245da9aba39bcd65479208a40173e6dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 23/35] fix: do not take an unreadable tree for an empty one

When the entries of a tree are read in order to synchronize it to
another CAS, failing to read the tree was treated as the tree being
empty. If the subsequent transfer of the tree object itself succeeded,
the synchronization was reported as successful, although parts of the
tree were missing in the target CAS.
---
 src/buildtool/execution_api/common/tree_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/execution_api/common/tree_reader.hpp b/src/buildtool/execution_api/common/tree_reader.hpp
index 42bf20e..2285233 100644
--- a/src/buildtool/execution_api/common/tree_reader.hpp
+++ b/src/buildtool/execution_api/common/tree_reader.hpp
@@ -61,14 +61,14 @@ class TreeReader final {
 
         if (not impl_.IsNativeProtocol()) {
             auto tree = impl_.ReadDirectory(digest);
-            if (tree and
+            if (not tree or
                 not TreeReaderUtils::ReadObjectInfos(*tree, store_info)) {
                 return std::nullopt;
             }
         }
         else {
             auto tree = impl_.ReadGitTree(digest);
-            if (tree and
+            if (not tree or
                 not TreeReaderUtils::ReadObjectInfos(*tree, store_info)) {
                 return std::nullopt;
             }
-- 
2.43.0


From 4cd2b8b1625d6f41c690e4fb85e581b02a678afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 24/35] fix: keep one representation of output directories in
 the action cache

In compatible mode, the execution service stored action results in the
local action cache with output directories referring to a bazel Tree,
whereas everything else in the local storage (the execution of actions,
uplinking between generations) expects them to refer to the Directory.
Hence, if the service executes an action for which a result was stored
that way in the meantime, as it happens if a second client requests the
same action at the same time, the execution failed, and such results
could never be uplinked. Therefore, always store the digest of the
directory and compute the bazel Tree when answering the client.
---
 .../execution_api/execution_service/TARGETS   |  2 ++
 .../execution_service/ac_server.cpp           | 26 +++++++++++++++++++
 .../execution_service/execution_server.cpp    | 16 +++++++++++-
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/execution_api/execution_service/TARGETS b/src/buildtool/execution_api/execution_service/TARGETS
index 798c4f2..bf51707 100644
--- a/src/buildtool/execution_api/execution_service/TARGETS
+++ b/src/buildtool/execution_api/execution_service/TARGETS
@@ -58,7 +58,9 @@
     [ ["@", "fmt", "", "fmt"]
     , ["@", "json", "", "json"]
     , ["src/buildtool/common", "common"]
+    , ["src/buildtool/common", "protocol_traits"]
     , ["src/buildtool/crypto", "hash_function"]
+    , ["src/buildtool/execution_api/local", "local_api"]
     , ["src/buildtool/logging", "log_level"]
     , ["src/buildtool/storage", "garbage_collector"]
     , ["src/utils/cpp", "expected"]
diff --git a/src/buildtool/execution_api/execution_service/ac_server.cpp b/src/buildtool/execution_api/execution_service/ac_server.cpp
index dc8139f..6f358cc 100644
--- a/src/buildtool/execution_api/execution_service/ac_server.cpp
+++ b/src/buildtool/execution_api/execution_service/ac_server.cpp
@@ -22,7 +22,9 @@
 #include "nlohmann/json.hpp"
 #include "src/buildtool/common/artifact_digest.hpp"
 #include "src/buildtool/common/artifact_digest_factory.hpp"
+#include "src/buildtool/common/protocol_traits.hpp"
 #include "src/buildtool/crypto/hash_function.hpp"
+#include "src/buildtool/execution_api/local/local_cas_reader.hpp"
 #include "src/buildtool/logging/log_level.hpp"
 #include "src/buildtool/storage/garbage_collector.hpp"
 #include "src/utils/cpp/expected.hpp"
@@ -57,6 +59,30 @@ auto ActionCacheServiceImpl::GetActionResult(
             grpc::StatusCode::NOT_FOUND,
             fmt::format("{} missing from AC", action_digest->hash())};
     }
+    if (not ProtocolTraits::IsNative(storage_.GetHashFunction().GetType())) {
+        // In compatible mode, output directories are represented in the local
+        // storage by their digests, but for the client by digests of the
+        // corresponding bazel Tree.
+        LocalCasReader const reader(&storage_.CAS());
+        for (auto& dir : *action_result->mutable_output_directories()) {
+            auto const digest = ArtifactDigestFactory::FromBazel(
+                storage_.GetHashFunction().GetType(), dir.tree_digest());
+            auto const tree = digest ? reader.MakeTree(*digest) : std::nullopt;
+            auto const tree_digest =
+                tree ? storage_.CAS().StoreBlob(tree->SerializeAsString(),
+                                                /*is_executable=*/false)
+                     : std::nullopt;
+            if (not tree_digest) {
+                return grpc::Status{
+                    grpc::StatusCode::NOT_FOUND,
+                    fmt::format("Output directory {} of {} missing from CAS",
+                                nlohmann::json(dir.path()).dump(),
+                                action_digest->hash())};
+            }
+            (*dir.mutable_tree_digest()) =
+                ArtifactDigestFactory::ToBazel(*tree_digest);
+        }
+    }
     *response = *std::move(action_result);
     return ::grpc::Status::OK;
 }
diff --git a/src/buildtool/execution_api/execution_service/execution_server.cpp b/src/buildtool/execution_api/execution_service/execution_server.cpp
index b18dd77..828caea 100644
--- a/src/buildtool/execution_api/execution_service/execution_server.cpp
+++ b/src/buildtool/execution_api/execution_service/execution_server.cpp
@@ -314,8 +314,22 @@ auto ExecutionServiceImpl::Execute(
 
     // Store the result in action cache
     if (i_execution_response->ExitCode() == 0 and not action->do_not_cache()) {
+        auto const artifacts = local_response->Artifacts();
+        if (not artifacts) {
+            logger_.Emit(LogLevel::Error, "{}", artifacts.error());
+            return ::grpc::Status{grpc::StatusCode::INTERNAL,
+                                  artifacts.error()};
+        }
+        // In the local storage, output directories are represented by their
+        // digests (also in compatible mode, where for the client a digest of
+        // the bazel Tree is created on the fly).
+        auto cache_entry = response.result();
+        for (auto& dir : *cache_entry.mutable_output_directories()) {
+            (*dir.mutable_tree_digest()) = ArtifactDigestFactory::ToBazel(
+                (*artifacts)->at(dir.path()).digest);
+        }
         if (not storage_.ActionCache().StoreResult(*action_digest,
-                                                   response.result())) {
+                                                   cache_entry)) {
             auto const str =
                 fmt::format("Could not store action result for action {}",
                             action_digest->hash());
-- 
2.43.0


From 67bf533fe8d8a036997e8bccfa1e4b20387ea31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 25/35] fix: report captured output by the digest obtained at
 execution

When creating the response for the client, the execution service read
the captured standard output and error back from the local CAS to store
it again. However, if reading fails, the content is considered empty, so
that a result with empty output was reported and put into the action
cache.
---
 .../execution_service/execution_server.cpp    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/buildtool/execution_api/execution_service/execution_server.cpp b/src/buildtool/execution_api/execution_service/execution_server.cpp
index 828caea..1afa6dc 100644
--- a/src/buildtool/execution_api/execution_service/execution_server.cpp
+++ b/src/buildtool/execution_api/execution_service/execution_server.cpp
@@ -166,24 +166,24 @@ auto ExecutionServiceImpl::ToBazelExecuteResponse(
 
     action_result.set_exit_code(local_response->ExitCode());
     if (local_response->HasStdErr()) {
-        auto const cas_digest =
-            storage_.CAS().StoreBlob(local_response->StdErr(),
-                                     /*is_executable=*/false);
+        // already stored when executing the action
+        auto const cas_digest = local_response->StdErrDigest();
         if (not cas_digest) {
-            return unexpected{fmt::format("Could not store stderr of action {}",
-                                          local_response->ActionDigest())};
+            return unexpected{
+                fmt::format("Could not get digest of stderr of action {}",
+                            local_response->ActionDigest())};
         }
         (*action_result.mutable_stderr_digest()) =
             ArtifactDigestFactory::ToBazel(*cas_digest);
     }
 
     if (local_response->HasStdOut()) {
-        auto const cas_digest =
-            storage_.CAS().StoreBlob(local_response->StdOut(),
-                                     /*is_executable=*/false);
+        // already stored when executing the action
+        auto const cas_digest = local_response->StdOutDigest();
         if (not cas_digest) {
-            return unexpected{fmt::format("Could not store stdout of action {}",
-                                          local_response->ActionDigest())};
+            return unexpected{
+                fmt::format("Could not get digest of stdout of action {}",
+                            local_response->ActionDigest())};
         }
         (*action_result.mutable_stdout_digest()) =
             ArtifactDigestFactory::ToBazel(*cas_digest);
-- 
2.43.0


From e1d5f2fc3a94edb83bf187038bfd2cffa8c20346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 26/35] fix: report failure to write an artifact to a file
 descriptor

When dumping artifacts to file descriptors, the result of closing the
buffered stream was ignored (as well as the number of bytes written, in
case of artifacts taken from git), so that success was reported, even if
not all data could be written, e.g., due to a full disk.
---
 src/buildtool/execution_api/common/common_api.cpp |  9 ++++++++-
 src/buildtool/execution_api/git/git_api.cpp       | 10 ++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/execution_api/common/common_api.cpp b/src/buildtool/execution_api/common/common_api.cpp
index 68b49be..863adfd 100644
--- a/src/buildtool/execution_api/common/common_api.cpp
+++ b/src/buildtool/execution_api/common/common_api.cpp
@@ -62,7 +62,14 @@ auto CommonRetrieveToFds(
                             ex.what());
                 return false;
             }
-            std::fclose(out);
+            if (std::fclose(out) != 0) {
+                // buffered data could not be written
+                Logger::Log(LogLevel::Error,
+                            "writing {} to file descriptor {} failed.",
+                            info.ToString(),
+                            fd);
+                return false;
+            }
             if (not success) {
                 Logger::Log(
                     LogLevel::Debug,
diff --git a/src/buildtool/execution_api/git/git_api.cpp b/src/buildtool/execution_api/git/git_api.cpp
index 2c083e6..5d4c822 100644
--- a/src/buildtool/execution_api/git/git_api.cpp
+++ b/src/buildtool/execution_api/git/git_api.cpp
@@ -154,8 +154,14 @@ auto GitApi::RetrieveToFds(
         }
 
         if (gsl::owner<FILE*> out = fdopen(fds[i], "wb")) {  // NOLINT
-            std::fwrite(content.data(), 1, content.size(), out);
-            std::fclose(out);
+            auto const written =
+                std::fwrite(content.data(), 1, content.size(), out);
+            if (std::fclose(out) != 0 or written != content.size()) {
+                Logger::Log(LogLevel::Error,
+                            "writing to file descriptor {} failed.",
+                            fds[i]);
+                return false;
+            }
         }
         else {
             Logger::Log(LogLevel::Error,
-- 
2.43.0


From b6873f1b672b1b224d455475fb0e2a8c302ab389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 27/35] fix: do not ignore output directories that cannot be
 read

When obtaining the output directories of an action executed remotely in
compatible mode, Tree messages that could not be read were skipped, so
that output directories were missing or associated with the content of a
different output directory.
---
 .../execution_api/remote/bazel/bazel_response.cpp          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/execution_api/remote/bazel/bazel_response.cpp b/src/buildtool/execution_api/remote/bazel/bazel_response.cpp
index 3103c21..dbf64d4 100644
--- a/src/buildtool/execution_api/remote/bazel/bazel_response.cpp
+++ b/src/buildtool/execution_api/remote/bazel/bazel_response.cpp
@@ -260,8 +260,13 @@ auto BazelResponse::Populate() noexcept -> std::optional<std::string> {
 
     // collect root digests from trees and store them
     auto reader = network_->CreateReader();
+    auto const tree_blobs = reader.ReadOrdered(tree_digests);
+    if (tree_blobs.size() != tree_digests.size()) {
+        return std::string{
+            "BazelResponse: failed to read all Trees of output directories"};
+    }
     int pos = 0;
-    for (auto const& tree_blob : reader.ReadOrdered(tree_digests)) {
+    for (auto const& tree_blob : tree_blobs) {
         try {
             std::optional<bazel_re::Tree> tree;
             if (auto const content = tree_blob.ReadContent()) {
-- 
2.43.0


From a565abc3289632b417783b3c19ba4d41d7863bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 28/35] fix: do not dereference the content of an unreadable
 symlink

When creating a tree in compatible mode, the targets of symlinks are
read from the local CAS, which might fail. In this case, the tree cannot
be created, which is checked for by the caller.
---
 src/buildtool/execution_api/local/local_api.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/execution_api/local/local_api.cpp b/src/buildtool/execution_api/local/local_api.cpp
index d746c8e..89fefa7 100644
--- a/src/buildtool/execution_api/local/local_api.cpp
+++ b/src/buildtool/execution_api/local/local_api.cpp
@@ -280,8 +280,12 @@ auto LocalApi::UploadTree(
             for (auto const& digest : digests) {
                 auto p = cas.BlobPath(digest,
                                       /*is_executable=*/false);
-                auto content = FileSystemManager::ReadFile(*p);
-                targets->emplace_back(*content);
+                auto content =
+                    p ? FileSystemManager::ReadFile(*p) : std::nullopt;
+                if (not content) {
+                    return;  // reported by the caller as not resolved
+                }
+                targets->emplace_back(*std::move(content));
             }
         });
 }
-- 
2.43.0


From ed1c0358a270a6a19bb70030886b5ed933211ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 29/35] fix: do not answer with an empty blob if reading fails

If the file of a blob to be served in a BatchReadBlobs request could not
be opened, e.g., due to too many open files, an empty blob was sent as
the requested one.
---
 .../execution_api/execution_service/TARGETS       |  1 +
 .../execution_service/cas_server.cpp              | 15 +++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/buildtool/execution_api/execution_service/TARGETS b/src/buildtool/execution_api/execution_service/TARGETS
index bf51707..9b9de20 100644
--- a/src/buildtool/execution_api/execution_service/TARGETS
+++ b/src/buildtool/execution_api/execution_service/TARGETS
@@ -92,6 +92,7 @@
     , ["@", "protoc", "", "libprotobuf"]
     , ["src/buildtool/common", "common"]
     , ["src/buildtool/crypto", "hash_function"]
+    , ["src/buildtool/file_system", "file_system_manager"]
     , ["src/buildtool/logging", "log_level"]
     , ["src/buildtool/storage", "garbage_collector"]
     , ["src/utils/cpp", "expected"]
diff --git a/src/buildtool/execution_api/execution_service/cas_server.cpp b/src/buildtool/execution_api/execution_service/cas_server.cpp
index 2277efc..2d16007 100644
--- a/src/buildtool/execution_api/execution_service/cas_server.cpp
+++ b/src/buildtool/execution_api/execution_service/cas_server.cpp
@@ -16,8 +16,6 @@
 
 #include <algorithm>
 #include <filesystem>
-#include <fstream>
-#include <iterator>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -32,6 +30,7 @@
 #include "src/buildtool/common/artifact_digest_factory.hpp"
 #include "src/buildtool/crypto/hash_function.hpp"
 #include "src/buildtool/execution_api/execution_service/cas_utils.hpp"
+#include "src/buildtool/file_system/file_system_manager.hpp"
 #include "src/buildtool/logging/log_level.hpp"
 #include "src/buildtool/storage/garbage_collector.hpp"
 #include "src/utils/cpp/expected.hpp"
@@ -211,10 +210,14 @@ auto CASServiceImpl::BatchReadBlobs(
             r->mutable_status()->CopyFrom(status);
             continue;
         }
-        std::ifstream cert{*path};
-        std::string tmp((std::istreambuf_iterator<char>(cert)),
-                        std::istreambuf_iterator<char>());
-        *(r->mutable_data()) = std::move(tmp);
+        auto content = FileSystemManager::ReadFile(*path);
+        if (not content) {
+            google::rpc::Status status;
+            status.set_code(grpc::StatusCode::INTERNAL);
+            r->mutable_status()->CopyFrom(status);
+            continue;
+        }
+        *(r->mutable_data()) = *std::move(content);
 
         r->mutable_status()->CopyFrom(google::rpc::Status{});
     }
-- 
2.43.0


From 4888164007e4668034f3cdaeae5411d5f0091a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 30/35] fix: remove left-over directories of interrupted
 repository garbage collections

---
 .../storage/repository_garbage_collector.cpp  | 44 +++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/storage/repository_garbage_collector.cpp b/src/buildtool/storage/repository_garbage_collector.cpp
index 95b90f9..e5009f7 100644
--- a/src/buildtool/storage/repository_garbage_collector.cpp
+++ b/src/buildtool/storage/repository_garbage_collector.cpp
@@ -15,7 +15,10 @@
 #include "src/buildtool/storage/repository_garbage_collector.hpp"
 
 #include <cstddef>
+#include <filesystem>
 #include <string>
+#include <utility>
+#include <vector>
 
 #include "fmt/core.h"
 #include "src/buildtool/execution_api/common/ids.hpp"
@@ -76,6 +79,8 @@ auto RepositoryGarbageCollector::TriggerGarbageCollection(
         }
     }
 
+    std::vector<std::filesystem::path> to_remove{remove_me};
+
     // after releasing the shared lock, wait to get an exclusive lock for doing
     // the critical renaming
     {
@@ -85,6 +90,38 @@ auto RepositoryGarbageCollector::TriggerGarbageCollection(
                         "Failed to exclusively lock the local repository root");
             return false;
         }
+
+        // Any directory to be removed that exists already was left over by an
+        // interrupted collection, so take care of it.
+        std::vector<std::filesystem::path> left_over{};
+        if (not FileSystemManager::ReadDirectory(
+                storage_config.RepositoryRoot(),
+                [&](auto const& name, auto /*type*/) {
+                    if (name.string().starts_with(remove_me_prefix)) {
+                        left_over.emplace_back(storage_config.RepositoryRoot() /
+                                               name);
+                    }
+                    return true;
+                })) {
+            Logger::Log(LogLevel::Warning, "Failed to look for left overs");
+        }
+        for (auto const& dir : left_over) {
+            auto new_name = storage_config.RepositoryRoot() /
+                            fmt::format("{}{}-{}",
+                                        remove_me_prefix,
+                                        *pid,
+                                        to_remove.size());
+            if (FileSystemManager::Rename(dir, new_name)) {
+                to_remove.emplace_back(std::move(new_name));
+            }
+            else {
+                Logger::Log(LogLevel::Warning,
+                            "Failed to rename {} to {}",
+                            dir.string(),
+                            new_name.string());
+            }
+        }
+
         if (drop_only) {
             if (not FileSystemManager::CreateDirectory(remove_me)) {
                 Logger::Log(LogLevel::Error,
@@ -134,11 +171,12 @@ auto RepositoryGarbageCollector::TriggerGarbageCollection(
                         "Failed to get a shared lock for the repository root");
             return false;
         }
-        if (FileSystemManager::IsDirectory(remove_me)) {
-            if (not FileSystemManager::RemoveDirectory(remove_me)) {
+        for (auto const& dir : to_remove) {
+            if (FileSystemManager::IsDirectory(dir) and
+                not FileSystemManager::RemoveDirectory(dir)) {
                 Logger::Log(LogLevel::Error,
                             "Failed to remove directory {}",
-                            remove_me.string());
+                            dir.string());
                 return false;
             }
         }
-- 
2.43.0


From ac43ac34eb1bc2e5da42189bee81483ad738e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 31/35] fix: verify the id of a git tree imported from the
 local CAS

---
 src/other_tools/ops_maps/git_tree_fetch_map.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/other_tools/ops_maps/git_tree_fetch_map.cpp b/src/other_tools/ops_maps/git_tree_fetch_map.cpp
index 34c693a..3c067d4 100644
--- a/src/other_tools/ops_maps/git_tree_fetch_map.cpp
+++ b/src/other_tools/ops_maps/git_tree_fetch_map.cpp
@@ -119,6 +119,15 @@ void MoveCASTreeToGit(
                           /*fatal=*/true);
                 return;
             }
+            // sanity check: we should get the expected tree
+            if (values[0]->first != tree_hash.Hash()) {
+                (*logger)(fmt::format("Mismatch in imported git tree id: "
+                                      "expected {}, but got {}",
+                                      tree_hash.Hash(),
+                                      values[0]->first),
+                          /*fatal=*/true);
+                return;
+            }
             // backup to remote if needed and in compatibility mode
             if (backup_to_remote and remote_api != nullptr) {
                 // back up only native digests, as that is what Git stores
-- 
2.43.0


From 633c15e82f9d6e63c3ffa588cd8a36a9f9c2553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 32/35] fix: stage empty directories of trees from the local
 CAS

---
 src/buildtool/execution_api/common/TARGETS       |  1 +
 .../execution_api/common/tree_reader.hpp         | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/execution_api/common/TARGETS b/src/buildtool/execution_api/common/TARGETS
index 31a308a..2a1fda4 100644
--- a/src/buildtool/execution_api/common/TARGETS
+++ b/src/buildtool/execution_api/common/TARGETS
@@ -20,6 +20,7 @@
     , ["src/buildtool/crypto", "hash_function"]
     , ["src/buildtool/execution_engine/dag", "dag"]
     , ["src/buildtool/file_system", "git_repo"]
+    , ["src/buildtool/file_system", "file_system_manager"]
     , ["src/buildtool/file_system", "object_type"]
     , ["src/buildtool/logging", "logging"]
     , ["src/utils/cpp", "expected"]
diff --git a/src/buildtool/execution_api/common/tree_reader.hpp b/src/buildtool/execution_api/common/tree_reader.hpp
index 2285233..cc9d598 100644
--- a/src/buildtool/execution_api/common/tree_reader.hpp
+++ b/src/buildtool/execution_api/common/tree_reader.hpp
@@ -26,6 +26,7 @@
 #include "src/buildtool/common/artifact_digest.hpp"
 #include "src/buildtool/common/bazel_types.hpp"
 #include "src/buildtool/execution_api/common/tree_reader_utils.hpp"
+#include "src/buildtool/file_system/file_system_manager.hpp"
 #include "src/buildtool/file_system/object_type.hpp"
 
 struct ReadTreeResult final {
@@ -122,10 +123,21 @@ class TreeReader final {
         for (std::size_t i = 0; i < infos.size(); ++i) {
             auto const& info = infos[i];
             if (IsTreeObject(info.type)) {
-                auto result = RecursivelyReadTreeLeafs(info.digest, outputs[i]);
-                if (not result or not StageTo(result->infos, result->paths)) {
+                auto result = RecursivelyReadTreeLeafs(
+                    info.digest, outputs[i], /*include_trees=*/true);
+                if (not result) {
                     return false;
                 }
+                for (std::size_t j = 0; j < result->infos.size(); ++j) {
+                    // the only trees among the leafs are empty ones
+                    if (IsTreeObject(result->infos[j].type)
+                            ? not FileSystemManager::CreateDirectory(
+                                  result->paths[j])
+                            : not impl_.StageBlobTo(result->infos[j],
+                                                    result->paths[j])) {
+                        return false;
+                    }
+                }
             }
             else if (not impl_.StageBlobTo(info, outputs[i])) {
                 return false;
-- 
2.43.0


From bf5f9a193af6832a2ccbdc31e60b7e4cd4c76521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 33/35] fix: report a temporary repository that cannot be
 initialized as fatal

---
 src/buildtool/file_system/git_repo.cpp             |  5 +++++
 src/other_tools/git_operations/git_repo_remote.cpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/buildtool/file_system/git_repo.cpp b/src/buildtool/file_system/git_repo.cpp
index b5df417..143f8af 100644
--- a/src/buildtool/file_system/git_repo.cpp
+++ b/src/buildtool/file_system/git_repo.cpp
@@ -1637,6 +1637,11 @@ auto GitRepo::LocalFetchViaTmpRepo(StorageConfig const& storage_config,
         // explicitly.
         auto tmp_repo = GitRepo::InitAndOpen(tmp_path, /*is_bare=*/true);
         if (tmp_repo == std::nullopt) {
+            std::invoke(*logger,
+                        fmt::format("Failed to initialize temporary Git "
+                                    "repository {}",
+                                    tmp_path.string()),
+                        /*fatal=*/true);
             return false;
         }
         // add backend, with max priority
diff --git a/src/other_tools/git_operations/git_repo_remote.cpp b/src/other_tools/git_operations/git_repo_remote.cpp
index 15740b9..ac00858 100644
--- a/src/other_tools/git_operations/git_repo_remote.cpp
+++ b/src/other_tools/git_operations/git_repo_remote.cpp
@@ -425,6 +425,11 @@ auto GitRepoRemote::UpdateCommitViaTmpRepo(
             auto tmp_repo =
                 GitRepoRemote::InitAndOpen(tmp_path / "git", /*is_bare=*/true);
             if (tmp_repo == std::nullopt) {
+                std::invoke(*logger,
+                            fmt::format("Failed to initialize temporary Git "
+                                        "repository {}",
+                                        (tmp_path / "git").string()),
+                            /*fatal=*/true);
                 return std::nullopt;
             }
             // setup wrapped logger
@@ -564,6 +569,11 @@ auto GitRepoRemote::FetchViaTmpRepo(StorageConfig const& storage_config,
             auto tmp_repo =
                 GitRepoRemote::InitAndOpen(tmp_path / "git", /*is_bare=*/true);
             if (tmp_repo == std::nullopt) {
+                std::invoke(*logger,
+                            fmt::format("Failed to initialize temporary Git "
+                                        "repository {}",
+                                        (tmp_path / "git").string()),
+                            /*fatal=*/true);
                 return false;
             }
             // add backend, with max priority
-- 
2.43.0


From 110d1e609b03ba96099936e8eae1328d4b2c3c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 34/35] fix: do not return an initialized Git repository that
 failed to open

---
 src/buildtool/file_system/git_repo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/file_system/git_repo.cpp b/src/buildtool/file_system/git_repo.cpp
index 143f8af..c13ffaa 100644
--- a/src/buildtool/file_system/git_repo.cpp
+++ b/src/buildtool/file_system/git_repo.cpp
@@ -418,7 +418,7 @@ auto GitRepo::InitAndOpen(std::filesystem::path const& repo_path,
                                         repo_path.c_str(),
                                         GIT_REPOSITORY_OPEN_NO_SEARCH,
                                         nullptr) == 0) {
-                return GitRepo(repo_path);  // success
+                return Open(repo_path);  // success
             }
 
             // Initialization must be guarded across processes trying to
@@ -439,7 +439,7 @@ auto GitRepo::InitAndOpen(std::filesystem::path const& repo_path,
 
             if (err == 0) {
                 git_repository_free(tmp_repo);
-                return GitRepo(repo_path);  // success
+                return Open(repo_path);  // success
             }
             err_mess = GitLastError();      // store last error message
             git_repository_free(tmp_repo);  // cleanup before next attempt
-- 
2.43.0


From e4e95c45981b36437fb5b80b9ef6ed8ac98cfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 35/35] fix: remove Git locks left behind by an interrupted
 initialization

---
 src/buildtool/file_system/git_repo.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/buildtool/file_system/git_repo.cpp b/src/buildtool/file_system/git_repo.cpp
index c13ffaa..3c4f88b 100644
--- a/src/buildtool/file_system/git_repo.cpp
+++ b/src/buildtool/file_system/git_repo.cpp
@@ -426,6 +426,17 @@ auto GitRepo::InitAndOpen(std::filesystem::path const& repo_path,
             if (auto const lock_file = LockFile::Acquire(
                     repo_path.parent_path() / "init_open.lock",
                     /*is_shared=*/false)) {
+                // No repository could be opened and we are the only ones
+                // initializing it, so any Git lock was left behind by an
+                // interrupted initialization and would never be released.
+                auto const git_dir = is_bare ? repo_path : repo_path / ".git";
+                for (auto const* name : {"config.lock", "HEAD.lock"}) {
+                    if (not FileSystemManager::RemoveFile(git_dir / name)) {
+                        Logger::Log(LogLevel::Warning,
+                                    "Failed to remove stale lock {}",
+                                    (git_dir / name).string());
+                    }
+                }
                 err = git_repository_init(&tmp_repo,
                                           repo_path.c_str(),
                                           static_cast<std::size_t>(is_bare));
-- 
2.43.0

