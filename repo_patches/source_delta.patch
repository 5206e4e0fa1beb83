From d959c7ddbd3de57008e8782ee51b2b2725c06928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:23 +0000
Subject: [PATCH 01/31] fix: recompile objects when all precompiled headers are
 removed

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..736772b 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,9 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
+      // NOTE, pchs differ here only when all of them have been removed
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From 1b6526106f593df6d2168c9779f5c56c164e663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:55 +0000
Subject: [PATCH 02/31] fix: rebuild the precompiled header when its language
 changes

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 6 ++++++
 buildcc/schema/include/schema/target_schema.h        | 5 +++++
 buildcc/schema/src/target_serialization.cpp          | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..602319e 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -100,6 +100,10 @@ void CompilePch::BuildCompile() {
                !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
+    } else if (load_target_schema.pch_cpp != user_target_schema.pch_cpp) {
+      // The same headers need to be precompiled for another language
+      target_.dirty_ = true;
+      target_.PathChanged();
     } else if (!load_target_schema.pch_compiled) {
       // TODO, Replace this with fs::exists to check if compiled pch file is
       // present or no
@@ -170,6 +174,8 @@ void CompilePch::PreCompile() {
   target_user_schema.headers.ComputeHashForAll();
 
   target_user_schema.pchs.ComputeHashForAll();
+
+  target_user_schema.pch_cpp = target_.GetState().ContainsCpp();
 }
 
 } // namespace buildcc::internal
diff --git a/buildcc/schema/include/schema/target_schema.h b/buildcc/schema/include/schema/target_schema.h
index 474bcb8..2e3677c 100644
--- a/buildcc/schema/include/schema/target_schema.h
+++ b/buildcc/schema/include/schema/target_schema.h
@@ -53,6 +53,8 @@ struct TargetSchema {
 
   // TODO, Verify this using fs::exists
   bool pch_compiled{false};
+  // The language (C++ or C) the pch was compiled for
+  bool pch_cpp{false};
   bool target_linked{false};
 
 private:
@@ -83,6 +85,7 @@ private:
   static constexpr const char *const kLinkDependencies = "link_dependencies";
 
   static constexpr const char *const kPchCompiled = "pch_compiled";
+  static constexpr const char *const kPchCpp = "pch_cpp";
   static constexpr const char *const kTargetLinked = "target_linked";
 
 public:
@@ -109,6 +112,7 @@ public:
     j[kCompileDependencies] = schema.compile_dependencies;
     j[kLinkDependencies] = schema.link_dependencies;
     j[kPchCompiled] = schema.pch_compiled;
+    j[kPchCpp] = schema.pch_cpp;
     j[kTargetLinked] = schema.target_linked;
   }
 
@@ -135,6 +139,7 @@ public:
     j.at(kCompileDependencies).get_to(schema.compile_dependencies);
     j.at(kLinkDependencies).get_to(schema.link_dependencies);
     j.at(kPchCompiled).get_to(schema.pch_compiled);
+    j.at(kPchCpp).get_to(schema.pch_cpp);
     j.at(kTargetLinked).get_to(schema.target_linked);
   }
 };
diff --git a/buildcc/schema/src/target_serialization.cpp b/buildcc/schema/src/target_serialization.cpp
index 5582606..8951320 100644
--- a/buildcc/schema/src/target_serialization.cpp
+++ b/buildcc/schema/src/target_serialization.cpp
@@ -22,6 +22,7 @@ namespace buildcc::internal {
 void TargetSerialization::UpdatePchCompiled(const TargetSchema &store) {
   store_.pchs = store.pchs;
   store_.pch_compiled = true;
+  store_.pch_cpp = store.pch_cpp;
 }
 
 // TODO, When you add source here you need to add it with the hash
@@ -39,6 +40,7 @@ void TargetSerialization::UpdateStore(const TargetSchema &store) {
   TargetSchema temp = store;
   temp.pchs = store_.pchs;
   temp.pch_compiled = store_.pch_compiled;
+  temp.pch_cpp = store_.pch_cpp;
   temp.sources = store_.sources;
   temp.target_linked = store_.target_linked;
   store_ = std::move(temp);
-- 
2.43.0


From ab623f21d7f77c7317f6f233876f37e071ae8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 03/31] fix: do not lose header edits made while the
 precompiled header is built

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 736772b..d36ec7e 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -220,7 +220,11 @@ void CompileObject::PreObjectCompile() {
   target_user_schema.sources.ComputeHashForAll();
 
   // Convert user_header_files to current_header_files
-  target_user_schema.headers.ComputeHashForAll();
+  // NOTE, The pch has been compiled with the hashes computed before it, a header
+  // edited since then must still be seen as changed by the next build
+  if (!target_.GetState().ContainsPch()) {
+    target_user_schema.headers.ComputeHashForAll();
+  }
 
   // Convert user_compile_dependencies to current_compile_dependencies
   target_user_schema.compile_dependencies.ComputeHashForAll();
-- 
2.43.0


From e621bc09f8fe662a6e377f92763f53fe21a4539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:46 +0000
Subject: [PATCH 04/31] fix: do not lose generator input edits made while the
 generator runs

---
 buildcc/lib/target/include/target/custom_generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..a46165f 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -49,9 +49,10 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
     std::shared_ptr<CustomBlobHandler> blob_handler{nullptr};
   };
 
+  // NOTE, The ids are stored with the hashes computed before their callbacks were
+  // invoked, an input edited since then must still be seen as changed
   void ConvertToInternal() {
-    for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
+    for (const auto &[id_key, id_info] : ids) {
       auto [_, success] = internal_ids.try_emplace(id_key, id_info);
       env::assert_fatal(success, fmt::format("Could not save {}", id_key));
     }
-- 
2.43.0


From 21caba920abc60687076dfcdf30e4d076b117399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:26 +0000
Subject: [PATCH 05/31] fix: adding, removing or retyping a generator blob is a
 change, not an error

---
 .../custom_generator/custom_blob_handler.h      | 17 ++++++++++++-----
 .../src/custom_generator/custom_generator.cpp   |  3 +++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
index 3b64d23..8b0fa97 100644
--- a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
+++ b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
@@ -36,13 +36,12 @@ public:
 
   bool CheckChanged(const std::vector<uint8_t> &previous,
                     const std::vector<uint8_t> &current) const {
-    env::assert_fatal(
-        Verify(previous),
-        "Stored blob is corrupted or User verification is incorrect");
     env::assert_fatal(
         Verify(current),
         "Current blob is corrupted or User verification is incorrect");
-    return !IsEqual(previous, current);
+    // A stored blob that cannot be used (not stored earlier, corrupted) counts as
+    // changed
+    return !Verify(previous) || !IsEqual(previous, current);
   };
 
   std::vector<uint8_t> GetSerializedData() const {
@@ -88,7 +87,15 @@ private:
 
   bool Verify(const std::vector<uint8_t> &serialized_data) const override {
     json j = json::from_msgpack(serialized_data, true, false);
-    return !j.is_discarded();
+    if (j.is_discarded()) {
+      return false;
+    }
+    try {
+      (void)j.get<Type>();
+    } catch (const json::exception &) {
+      return false;
+    }
+    return true;
   }
 
   bool IsEqual(const std::vector<uint8_t> &previous,
diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 138bb9f..34bf158 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -80,6 +80,9 @@ struct Comparator {
       // to run only when changed == false
       changed = current_id_info.blob_handler->CheckChanged(
           previous_id_info.userblob, current_id_info.userblob);
+    } else if (!changed) {
+      // Blob handler removed
+      changed = !previous_id_info.userblob.empty();
     }
     return changed;
   }
-- 
2.43.0


From fb0ad91b0cb4c5bb47bcf168e5bdee08e3b67a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:12 +0000
Subject: [PATCH 06/31] fix: regenerate templates when a substituted value
 changes

---
 buildcc/lib/env/include/env/command.h                   | 7 +++++++
 buildcc/lib/target/include/target/template_generator.h  | 2 ++
 buildcc/lib/target/src/generator/template_generator.cpp | 7 ++++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/command.h b/buildcc/lib/env/include/env/command.h
index c054e6b..271297f 100644
--- a/buildcc/lib/env/include/env/command.h
+++ b/buildcc/lib/env/include/env/command.h
@@ -86,6 +86,13 @@ public:
    */
   const std::string &GetDefaultValueByKey(const std::string &key) const;
 
+  /**
+   * @brief Get all the key/value pairs added through DefaultArgument(s)
+   */
+  const std::unordered_map<std::string, std::string> &GetDefaultValues() const {
+    return default_values_;
+  }
+
 private:
   std::unordered_map<std::string, std::string> default_values_;
 };
diff --git a/buildcc/lib/target/include/target/template_generator.h b/buildcc/lib/target/include/target/template_generator.h
index 73c892e..b613360 100644
--- a/buildcc/lib/target/include/target/template_generator.h
+++ b/buildcc/lib/target/include/target/template_generator.h
@@ -53,6 +53,8 @@ private:
 
 private:
   std::vector<TemplateInfo> template_infos_;
+  // Values substituted in the templates
+  std::unordered_map<std::string, std::string> values_;
 };
 
 } // namespace buildcc
diff --git a/buildcc/lib/target/src/generator/template_generator.cpp b/buildcc/lib/target/src/generator/template_generator.cpp
index 45cab89..2e99e09 100644
--- a/buildcc/lib/target/src/generator/template_generator.cpp
+++ b/buildcc/lib/target/src/generator/template_generator.cpp
@@ -62,12 +62,17 @@ std::string TemplateGenerator::Parse(const std::string &pattern) const {
  * Use `GetTaskflow` for the registered tasks
  */
 void TemplateGenerator::Build() {
+  // Templates need to be generated again when the substituted values change
+  values_ = ConstCommand().GetDefaultValues();
+  auto values_blob_handler = std::make_shared<
+      TypedCustomBlobHandler<std::unordered_map<std::string, std::string>>>(
+      values_);
   for (const auto &info : template_infos_) {
     std::string name = string_as_path(ParsePattern(info.input_pattern))
                            .lexically_relative(Project::GetRootDir())
                            .string();
     AddIdInfo(name, {info.input_pattern}, {info.output_pattern},
-              template_generate_cb);
+              template_generate_cb, values_blob_handler);
   }
   this->CustomGenerator::Build();
 }
-- 
2.43.0


From ae3626a7d4f28f23cf39fad7ac17db77ad729a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 07/31] fix: save_file reports data that could not be written
 out

---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..782e60c 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  ofs.write(buf, len);
+  // Buffered data is only written out (and might fail to) on close
+  ofs.close();
+  return ofs.good();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
-- 
2.43.0


From 86a912f22cf545423e3041f1d98161bab12a725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:40 +0000
Subject: [PATCH 08/31] fix: an interrupted rebuild does not leave a record
 that matches stale outputs

---
 .../target/src/custom_generator/custom_generator.cpp | 11 ++++++++---
 .../lib/target/src/target/friend/compile_object.cpp  |  4 ++++
 buildcc/lib/target/src/target/friend/compile_pch.cpp |  1 +
 buildcc/lib/target/src/target/friend/link_target.cpp |  1 +
 .../schema/interface/serialization_interface.h       | 12 ++++++++++++
 5 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 34bf158..a2ed7f1 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -122,9 +122,10 @@ struct TaskFunctor {
   TaskFunctor(const std::string &id,
               UserCustomGeneratorSchema::UserIdInfo &id_info,
               const Comparator &comparator, const env::Command &command,
+              const internal::CustomGeneratorSerialization &serialization,
               TaskState &state)
       : id_(id), id_info_(id_info), comparator(comparator), command_(command),
-        state_(state) {}
+        serialization_(serialization), state_(state) {}
 
   void operator()() {
     if (env::get_task_state() != env::TaskState::SUCCESS) {
@@ -138,6 +139,7 @@ struct TaskFunctor {
 
       // Invoke generator callback
       if (state_.should_run) {
+        serialization_.RemoveFile();
         const auto input_paths = id_info_.inputs.GetPaths();
         CustomGeneratorContext ctx(command_, input_paths,
                                    id_info_.outputs.GetPaths(),
@@ -159,6 +161,7 @@ private:
 
   const Comparator &comparator;
   const env::Command &command_;
+  const internal::CustomGeneratorSerialization &serialization_;
 
   TaskState &state_;
 };
@@ -280,14 +283,16 @@ void CustomGenerator::GenerateTask() {
       for (const auto &id : comparator.GetAddedIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, serialization_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
       for (const auto &id : comparator.GetCheckLaterIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, serialization_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index d36ec7e..32d3902 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -211,6 +211,10 @@ void CompileObject::BuildObjectCompile(
   } else {
     RecompileSources(source_files, dummy_source_files);
   }
+
+  if (target_.dirty_) {
+    serialization.RemoveFile();
+  }
 }
 
 void CompileObject::PreObjectCompile() {
diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index 602319e..b61084b 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -112,6 +112,7 @@ void CompilePch::BuildCompile() {
   }
 
   if (target_.dirty_) {
+    serialization.RemoveFile();
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
       const std::string p = fmt::format("{}", source_path_);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..e6b5ff1 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -101,6 +101,7 @@ void LinkTarget::BuildLink() {
   }
 
   if (target_.dirty_) {
+    serialization.RemoveFile();
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
diff --git a/buildcc/schema/include/schema/interface/serialization_interface.h b/buildcc/schema/include/schema/interface/serialization_interface.h
index c09bdde..3ecb05c 100644
--- a/buildcc/schema/include/schema/interface/serialization_interface.h
+++ b/buildcc/schema/include/schema/interface/serialization_interface.h
@@ -56,6 +56,18 @@ public:
 
   bool StoreToFile() { return Store(serialized_file_); }
 
+  /**
+   * @brief Removes the serialized file
+   * Invoke before outputs are rebuilt. The stored data does not describe these
+   * outputs anymore, even when the rebuild is interrupted and never stored
+   */
+  void RemoveFile() const {
+    std::error_code errcode;
+    if (fs::is_regular_file(serialized_file_, errcode)) {
+      fs::remove(serialized_file_, errcode);
+    }
+  }
+
   const fs::path &GetSerializedFile() const noexcept {
     return serialized_file_;
   }
-- 
2.43.0


From 733fe84609ba4d760485d572705c198b19bc6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:23 +0000
Subject: [PATCH 09/31] fix: a failing test fails the run instead of hanging it

---
 buildcc/lib/args/src/tasks.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..25afb28 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -44,11 +44,20 @@ void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
   test_tf.for_each(
       tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+      [](const std::pair<std::string, TestInfo> &p) {
+        // NOTE, Exceptions must not escape to the executor workers
+        try {
+          p.second.TestRunner();
+        } catch (...) {
+          env::set_task_state(env::TaskState::FAILURE);
+        }
+      });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Tests are not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From 3420ae081744d4475db8ce60b494161a6c8dcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:52 +0000
Subject: [PATCH 10/31] fix: reject a dependency of a builder on itself, visit
 every builder once

---
 buildcc/lib/args/src/register.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..38c1011 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -18,6 +18,7 @@
 
 #include <filesystem>
 #include <queue>
+#include <unordered_set>
 
 #include "fmt/format.h"
 
@@ -45,6 +46,12 @@ void DepDetectDuplicate(const tf::Task &target_task, const std::string &match) {
 
 void DepDetectCyclicDependency(const tf::Task &target_task,
                                const std::string &match) {
+  buildcc::env::assert_fatal(
+      !(target_task.name() == match),
+      fmt::format("Cyclic dependency detected when adding '{}'", match));
+
+  // Every task is only expanded once
+  std::unordered_set<std::string> visited{target_task.name()};
   std::queue<tf::Task> taskqueue;
   taskqueue.push(target_task);
 
@@ -54,7 +61,9 @@ void DepDetectCyclicDependency(const tf::Task &target_task,
 
     current_task.for_each_successor([&](const tf::Task &t) {
       buildcc::env::log_trace("for_each_successor", t.name());
-      taskqueue.push(t);
+      if (visited.insert(t.name()).second) {
+        taskqueue.push(t);
+      }
       buildcc::env::assert_fatal(
           !(t.name() == match),
           fmt::format("Cyclic dependency detected when adding '{}'", t.name()));
-- 
2.43.0


From 9fe2279dc4cdb1afc9f638e4fb9010ea521296db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:19 +0000
Subject: [PATCH 11/31] fix: out of root sources with different paths get
 different objects

---
 .../src/target/friend/compile_object.cpp      | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 32d3902..12f103f 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -16,6 +16,8 @@
 
 #include "target/friend/compile_object.h"
 
+#include <algorithm>
+
 #include "target/target.h"
 
 namespace {
@@ -113,8 +115,8 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // Expects to convert
   // 1. {project_root_dir} / file.cpp -> file.cpp
   // 2. {project_root_dir} / folder / file.cpp -> folder / file.cpp
-  fs::path relative =
-      absolute_source_file.lexically_relative(target_.GetTargetRootDir());
+  fs::path relative = absolute_source_file.lexically_relative(
+      target_.GetTargetRootDir().lexically_normal());
 
   // Expects to convert
   // 1. {project_root_dir} / .. / file.cpp -> .. / file.cpp
@@ -122,8 +124,11 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // - Check if out of root
   // - Convert .. to __
   // NOTE, Similar to how CMake handles out of root files
-  std::string relstr = relative.string();
-  if (relstr.find("..") != std::string::npos) {
+  const std::string relstr = relative.string();
+  const bool out_of_root =
+      std::any_of(relative.begin(), relative.end(),
+                  [](const fs::path &part) { return part == ".."; });
+  if (out_of_root) {
     env::log_warning(
         __FUNCTION__,
         fmt::format("Out of Root Source detected '{}' -> '{}'. Use "
@@ -131,11 +136,16 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
                     "path -> absolute target build path. By "
                     "default converts '..' to '__'",
                     absolute_source_file.string(), relstr));
-    std::replace(relstr.begin(), relstr.end(), '.', '_');
     // Converts above
     // .. / file.cpp -> __ / file.cpp
     // .. / folder / file.cpp -> __ / folder / file.cpp
-    relative = relstr;
+    // NOTE, Only `..`, every other part is kept so that different sources do not
+    // end up with the same object
+    fs::path converted;
+    for (const auto &part : relative) {
+      converted /= (part == "..") ? fs::path("__") : part;
+    }
+    relative = converted;
 
     // TODO, path replacement found
     // * API
-- 
2.43.0


From fca0be3e61a346a68064f77c6d66f09fdf14a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:59 +0000
Subject: [PATCH 12/31] fix: compile a source that is added more than once only
 once

---
 .../target/src/target/friend/compile_object.cpp    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 12f103f..6f6efa8 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -247,8 +247,13 @@ void CompileObject::PreObjectCompile() {
 void CompileObject::CompileSources(
     std::vector<internal::PathInfo> &source_files) {
   const auto &target_user_schema = target_.user_;
-  target_user_schema.sources.GetPathInfos();
-  source_files = target_user_schema.sources.GetPathInfos();
+  // A source added more than once is only compiled once
+  std::unordered_set<std::string> current_paths;
+  for (const auto &path_info : target_user_schema.sources.GetPathInfos()) {
+    if (current_paths.insert(path_info.path).second) {
+      source_files.push_back(path_info);
+    }
+  }
 }
 
 void CompileObject::RecompileSources(
@@ -259,9 +264,14 @@ void CompileObject::RecompileSources(
   auto previous_source_files =
       serialization.GetLoad().sources.GetUnorderedPathInfos();
 
+  // A source added more than once is only compiled once
+  std::unordered_set<std::string> current_paths;
   for (const auto &current_path_info :
        user_target_schema.sources.GetPathInfos()) {
     const auto &current_path = current_path_info.path;
+    if (!current_paths.insert(current_path).second) {
+      continue;
+    }
     if (previous_source_files.count(current_path) == 0) {
       // Added
       source_files.push_back(current_path_info);
-- 
2.43.0


From 5239633cca2b5e8f6206f21182b2db812b1a5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:22 +0000
Subject: [PATCH 13/31] fix: reject two sources that would share one object

---
 .../target/include/target/friend/compile_object.h |  1 +
 .../target/src/target/friend/compile_object.cpp   | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/include/target/friend/compile_object.h b/buildcc/lib/target/include/target/friend/compile_object.h
index 3e2e8ec..d19670b 100644
--- a/buildcc/lib/target/include/target/friend/compile_object.h
+++ b/buildcc/lib/target/include/target/friend/compile_object.h
@@ -76,6 +76,7 @@ private:
   Target &target_;
 
   std::unordered_map<std::string, ObjectData> object_files_;
+  std::unordered_set<std::string> object_paths_;
   tf::Task compile_task_;
 };
 
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 6f6efa8..20fa655 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -36,9 +36,18 @@ void CompileObject::AddObjectData(const fs::path &absolute_source_path) {
       ConstructObjectPath(absolute_source_path);
   fs::create_directories(absolute_object_path.parent_path());
 
-  object_files_.try_emplace(
-      internal::PathInfo::ToPathString(absolute_source_path),
-      absolute_object_path, "");
+  const bool added =
+      object_files_
+          .try_emplace(internal::PathInfo::ToPathString(absolute_source_path),
+                       absolute_object_path, "")
+          .second;
+  if (added) {
+    // One source would silently overwrite the other
+    env::assert_fatal(
+        object_paths_.insert(path_as_string(absolute_object_path)).second,
+        fmt::format("Object {} is already used by another source",
+                    absolute_object_path));
+  }
 }
 
 void CompileObject::CacheCompileCommands() {
-- 
2.43.0


From 918c0154d578fa426c5816cd9dcb00eb1ffe2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:33 +0000
Subject: [PATCH 14/31] fix: project directories given with . or .. still
 contain their files

---
 buildcc/lib/env/src/env.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/src/env.cpp b/buildcc/lib/env/src/env.cpp
index 64ed840..ae18c7f 100644
--- a/buildcc/lib/env/src/env.cpp
+++ b/buildcc/lib/env/src/env.cpp
@@ -22,8 +22,9 @@ namespace buildcc {
 void Project::Init(const fs::path &project_root_dir,
                    const fs::path &project_build_dir) {
   // State
-  fs::path root_dir = project_root_dir;
-  fs::path build_dir = project_build_dir;
+  // NOTE, Paths relative to these directories are computed lexically
+  fs::path root_dir = project_root_dir.lexically_normal();
+  fs::path build_dir = project_build_dir.lexically_normal();
   root_dir.make_preferred();
   build_dir.make_preferred();
 
-- 
2.43.0


From 6ff63e8878d17a5f92b4b207cf4f9da6cc3fd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:00 +0000
Subject: [PATCH 15/31] fix: link again when the type of a target changes

---
 buildcc/lib/target/src/target/friend/link_target.cpp | 3 +++
 buildcc/lib/target/src/target/target.cpp             | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index e6b5ff1..9c4b8ec 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -77,6 +77,9 @@ void LinkTarget::BuildLink() {
   } else {
     if (target_.dirty_) {
       // Skip all the other else if checks
+    } else if (target_load_schema.type != target_user_schema.type) {
+      // Same objects, another kind of output
+      target_.dirty_ = true;
     } else if (!(target_load_schema.link_flags ==
                  target_user_schema.link_flags)) {
       target_.dirty_ = true;
diff --git a/buildcc/lib/target/src/target/target.cpp b/buildcc/lib/target/src/target/target.cpp
index 48481da..4703446 100644
--- a/buildcc/lib/target/src/target/target.cpp
+++ b/buildcc/lib/target/src/target/target.cpp
@@ -54,6 +54,10 @@ void Target::Initialize() {
   env::assert_fatal(IsValidTargetType(type_), "Invalid Target Type");
   fs::create_directories(GetTargetBuildDir());
 
+  // Stored with the build
+  user_.name = name_;
+  user_.type = type_;
+
   // String updates
   unique_id_ = fmt::format("[{}] {}", toolchain_.GetName(), name_);
   std::string path = fmt::format(
-- 
2.43.0


From 52f9dc123b1e8724bee4fc1b05258f7f9fe5eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:08 +0000
Subject: [PATCH 16/31] fix: quote include directories, library directories and
 libraries with spaces

---
 buildcc/lib/target/src/target/build.cpp           | 15 +++++++++++----
 .../lib/target/src/target/friend/link_target.cpp  |  5 ++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 18ae8fa..0f46304 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -41,6 +41,11 @@ constexpr const char *const kCppCompiler = "cpp_compiler";
 constexpr const char *const kArchiver = "archiver";
 constexpr const char *const kLinker = "linker";
 
+// As paths, so that they are quoted when required
+std::vector<fs::path> ToPaths(const std::vector<std::string> &dirs) {
+  return std::vector<fs::path>(dirs.begin(), dirs.end());
+}
+
 } // namespace
 
 namespace buildcc {
@@ -72,10 +77,12 @@ void Target::Build() {
   // Target default arguments
   command_.AddDefaultArguments({
       {kIncludeDirs,
-       internal::aggregate_with_prefix<std::vector<std::string>>(
-           toolchain_.GetConfig().prefix_include_dir, GetIncludeDirs())},
-      {kLibDirs, internal::aggregate_with_prefix<std::vector<std::string>>(
-                     toolchain_.GetConfig().prefix_lib_dir, GetLibDirs())},
+       internal::aggregate_with_prefix(
+           toolchain_.GetConfig().prefix_include_dir,
+           ToPaths(GetIncludeDirs()))},
+      {kLibDirs,
+       internal::aggregate_with_prefix(toolchain_.GetConfig().prefix_lib_dir,
+                                       ToPaths(GetLibDirs()))},
       {kPreprocessorFlags, internal::aggregate(GetPreprocessorFlags())},
       {kCommonCompileFlags, internal::aggregate(GetCommonCompileFlags())},
       //  TODO, Cache more flags here
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index 9c4b8ec..e0f9d09 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -35,6 +35,9 @@ void LinkTarget::CacheLinkCommand() {
 
   const std::string output_target = fmt::format("{}", output_);
   const auto &target_user_schema = target_.user_;
+  // As paths, so that they are quoted when required
+  const auto libs = target_user_schema.libs.GetPaths();
+  const std::vector<fs::path> lib_paths(libs.begin(), libs.end());
   command_ = target_.command_.Construct(
       target_.GetConfig().link_command,
       {
@@ -42,7 +45,7 @@ void LinkTarget::CacheLinkCommand() {
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
            fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+                       internal::aggregate(lib_paths),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From a9513b5eab1ea114b63727f848773264982b9bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:13 +0000
Subject: [PATCH 17/31] fix: compile_commands.json is valid JSON and describes
 every target

---
 .../plugins/src/clang_compile_commands.cpp    | 67 +++++++------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..f7d9749 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -16,28 +16,14 @@
 
 #include "plugins/clang_compile_commands.h"
 
-#include <algorithm>
-
 // env
 #include "env/assert_fatal.h"
 #include "env/util.h"
 
 // third party
-#include "fmt/format.h"
-#include "fmt/ranges.h"
-
-namespace {
+#include "nlohmann/json.hpp"
 
-// clang-format off
-constexpr const char *const clang_compile_command_format =
-R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
-}})";
-// clang-format on
-
-} // namespace
+using json = nlohmann::ordered_json;
 
 namespace buildcc::plugin {
 
@@ -47,17 +33,8 @@ void ClangCompileCommands::AddTarget(const BaseTarget *target) {
 }
 
 void ClangCompileCommands::Generate() {
-  // Early terminate if rebuild is not required
-  const bool regenerate =
-      std::any_of(targets_.begin(), targets_.end(),
-                  [](const BaseTarget *target) { return target->IsBuilt(); });
-  if (!regenerate) {
-    env::log_trace("ClangCompileCommands", "Generate -> false");
-    return;
-  }
-  env::log_trace("ClangCompileCommands", "Generate -> true");
-
-  std::vector<std::string> compile_command_list;
+  // JSON takes care of quotes and backslashes in commands and paths
+  json compile_command_list = json::array();
 
   for (const auto *t : targets_) {
     const auto &source_files = t->GetSourceFiles();
@@ -65,27 +42,31 @@ void ClangCompileCommands::Generate() {
       // DONE, Get source list name
       // DONE, Get std::vector<std::string> CompileCommand
       // DONE, Get intermediate directory from env
-      std::string sf = fmt::format("{}", source);
-      const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
-
-      std::string temp = fmt::format(
-          clang_compile_command_format, fmt::arg("directory", directory),
-          fmt::arg("command", command), fmt::arg("file", sf));
-      compile_command_list.push_back(temp);
+      compile_command_list.push_back({
+          {"directory", path_as_string(Project::GetBuildDir())},
+          {"command", t->GetCompileCommand(source)},
+          {"file", path_as_string(source)},
+      });
     }
   }
 
-  std::string compile_commands =
-      fmt::format("[\n{}\n]", fmt::join(compile_command_list, ",\n"));
-
   // DONE, Convert to json
   // DONE, Save file
-  std::filesystem::path file =
-      std::filesystem::path(buildcc::Project::GetBuildDir()) /
-      "compile_commands.json";
-  bool saved =
-      env::save_file(path_as_string(file).c_str(), compile_commands, false);
+  const std::string compile_commands = compile_command_list.dump(2);
+  const std::string file =
+      path_as_string(Project::GetBuildDir() / "compile_commands.json");
+
+  // The file describes all the targets, not only the ones that were built in
+  // this run
+  std::string current;
+  if (env::load_file(file.c_str(), false, &current) &&
+      current == compile_commands) {
+    env::log_trace("ClangCompileCommands", "Generate -> false");
+    return;
+  }
+  env::log_trace("ClangCompileCommands", "Generate -> true");
+
+  bool saved = env::save_file(file.c_str(), compile_commands, false);
   env::assert_fatal(saved, "Could not save compile_commands.json");
 }
 
-- 
2.43.0


From abefdc2ec66cfc82d2d53af2c73e834ae4ecf818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:06 +0000
Subject: [PATCH 18/31] fix: reject a second object with the identifier of a
 stored one

---
 buildcc/lib/env/include/env/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..5cb598b 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -38,6 +38,8 @@ public:
 
   template <typename T, typename... Params>
   T &Add(const std::string &identifier, Params &&...params) {
+    env::assert_fatal(!Contains(identifier),
+                      fmt::format("Duplicate identifier '{}'", identifier));
     T *ptr = new T(std::forward<Params>(params)...);
     env::assert_fatal(ptr != nullptr, "System out of memory");
 
-- 
2.43.0


From 0f3e83138ece93208594eca19cec75cd1ee5ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:03 +0000
Subject: [PATCH 19/31] fix: a static library does not keep objects of removed
 sources

---
 buildcc/lib/target/src/target/friend/link_target.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index e0f9d09..9e09ac4 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -108,6 +108,12 @@ void LinkTarget::BuildLink() {
 
   if (target_.dirty_) {
     serialization.RemoveFile();
+    if (target_.type_ == TargetType::StaticLibrary) {
+      // Archivers update an existing archive, it would keep the objects of
+      // sources that have been removed
+      std::error_code ec;
+      fs::remove(output_, ec);
+    }
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
-- 
2.43.0


From 46838d00de4922efb3a1a7633f7ad94ead1e047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:50 +0000
Subject: [PATCH 20/31] fix: the precompiled header source is written in build
 directories with spaces

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index b61084b..c6b047c 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -115,7 +115,7 @@ void CompilePch::BuildCompile() {
     serialization.RemoveFile();
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
-- 
2.43.0


From 4eace22bb067ba358d650d98760b4d569430143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:54 +0000
Subject: [PATCH 21/31] fix: quote sources with spaces in compile commands

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 20fa655..c008fc9 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -55,7 +55,8 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input =
+        fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
-- 
2.43.0


From bfde1a84af0be8e509db4afb84806ae48a78a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:54 +0000
Subject: [PATCH 22/31] fix: find a toolchain by the exact names of its
 executables

---
 .../lib/toolchain/src/api/toolchain_find.cpp    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..07d59a2 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -42,18 +42,25 @@ std::vector<std::string> ParseEnvVarToPaths(const std::string &env_var) {
 bool ContainsToolchainExecutables(
     const fs::directory_iterator &directory_iterator,
     const buildcc::ToolchainExecutables &executables) {
-  std::unordered_set<std::string> exes(
-      {executables.assembler, executables.c_compiler, executables.cpp_compiler,
-       executables.archiver, executables.linker});
+  constexpr const char *const executable_ext =
+      buildcc::env::get_os_executable_extension();
+  buildcc::env::assert_fatal<executable_ext != nullptr>(
+      "Host executable extension not supported");
+
+  std::unordered_set<std::string> exes;
+  for (const auto &name :
+       {executables.assembler, executables.c_compiler, executables.cpp_compiler,
+        executables.archiver, executables.linker}) {
+    exes.insert(fmt::format("{}{}", name, executable_ext));
+  }
   std::error_code ec;
   for (const auto &dir_iter : directory_iterator) {
     bool is_regular_file = dir_iter.is_regular_file(ec);
     if (!is_regular_file || ec) {
       continue;
     }
-    const auto &filename_without_ext = dir_iter.path().stem().string();
     // NOTE, Must match the entire filename
-    exes.erase(filename_without_ext);
+    exes.erase(dir_iter.path().filename().string());
   }
   return exes.empty();
 }
-- 
2.43.0


From 45b3a7931d04b91c317ab688d3db78a95f7b0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:54 +0000
Subject: [PATCH 23/31] fix: an unusable search path does not end the search
 for a toolchain

---
 buildcc/lib/toolchain/src/api/toolchain_find.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 07d59a2..9b750d8 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -90,11 +90,11 @@ ToolchainFind<T>::Find(const ToolchainFindConfig &config) const {
   // - Find ALL Toolchain binaries in ONE directory
   // - If matched, store that path
   for (const auto &search_path : absolute_search_paths) {
-    if (!fs::exists(search_path)) {
+    std::error_code ec;
+    if (!fs::exists(search_path, ec)) {
       continue;
     }
 
-    std::error_code ec;
     auto directory_iterator = fs::directory_iterator(search_path, ec);
     if (ec) {
       continue;
-- 
2.43.0


From 6387b917c6fb4d5f6e754894348ff5892245941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 24/31] fix: the compiler version and architecture are the
 whole output of the compiler, without line ends

---
 buildcc/toolchains/src/toolchain_infos.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1b7a1fc..4e4b329 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -19,6 +19,7 @@
 #include "env/assert_fatal.h"
 #include "env/command.h"
 #include "env/logging.h"
+#include "env/util.h"
 
 namespace {
 
@@ -38,6 +39,15 @@ buildcc::ToolchainConfig GetGccToolchainConfig() {
   return config;
 }
 
+// The output of a command arrives in one or many parts
+std::string JoinOutput(const std::vector<std::string> &stdout_data) {
+  std::string output;
+  for (const auto &part : stdout_data) {
+    output += part;
+  }
+  return buildcc::env::trim(output);
+}
+
 buildcc::env::optional<std::string>
 GetGccCompilerVersion(const buildcc::env::Command &command) {
   std::vector<std::string> stdout_data;
@@ -46,7 +56,7 @@ GetGccCompilerVersion(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  return JoinOutput(stdout_data);
 }
 
 buildcc::env::optional<std::string>
@@ -57,7 +67,7 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  return JoinOutput(stdout_data);
 }
 
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
-- 
2.43.0


From 407462300394f0fad6c9b5258d7763aa039532e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:23 +0000
Subject: [PATCH 25/31] fix: verify toolchains in directories with spaces

---
 buildcc/toolchains/src/toolchain_infos.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 4e4b329..99b8de3 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -21,6 +21,8 @@
 #include "env/logging.h"
 #include "env/util.h"
 
+#include "schema/path.h"
+
 namespace {
 
 // GCC
@@ -73,7 +75,8 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
 GetGccToolchainInfo(const buildcc::ToolchainExecutables &executables) {
   buildcc::env::Command command;
-  command.AddDefaultArgument("compiler", executables.cpp_compiler);
+  command.AddDefaultArgument(
+      "compiler", fmt::format("{}", fs::path(executables.cpp_compiler)));
 
   auto op_compiler_version = GetGccCompilerVersion(command);
   auto op_target_arch = GetGccTargetArchitecture(command);
-- 
2.43.0


From 3043b6ea6c5bee98a44d50e56a7884e643aa2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:08 +0000
Subject: [PATCH 26/31] fix: report the library directories of a BUILDCC_HOME
 with spaces unquoted

---
 buildexe/src/args_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/args_setup.cpp b/buildexe/src/args_setup.cpp
index edee4ad..6ef969d 100644
--- a/buildexe/src/args_setup.cpp
+++ b/buildexe/src/args_setup.cpp
@@ -114,7 +114,7 @@ void ArgLibsInfo::Add(CLI::App &app) {
 
     LibInfo lib_info;
     lib_info.lib_name = lib_name;
-    lib_info.absolute_lib_path = fmt::format("{}", lib_path);
+    lib_info.absolute_lib_path = path_as_string(lib_path);
     libs_info.push_back(lib_info);
 
     auto add_lib_files_cb_func = [lib_path,
-- 
2.43.0


From 172a64344e9a560779d15a530813611c7bb87d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:08 +0000
Subject: [PATCH 27/31] fix: run the toolchain verification program from a
 build directory with spaces

---
 buildexe/src/toolchain_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/toolchain_setup.cpp b/buildexe/src/toolchain_setup.cpp
index 4d483da..6e8e5b1 100644
--- a/buildexe/src/toolchain_setup.cpp
+++ b/buildexe/src/toolchain_setup.cpp
@@ -72,7 +72,7 @@ int main() {
 
   // Run
   bool execute = env::Command::Execute(fmt::format(
-      "{executable}", fmt::arg("executable", target.GetTargetPath().string())));
+      "{executable}", fmt::arg("executable", target.GetTargetPath())));
   env::assert_fatal(execute, "Could not execute verification target");
 
   env::log_info(kTag, "*** Toolchain verification done ***");
-- 
2.43.0


From 5ef841800fc284862ea6aa4e593a64ee4c76e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:08 +0000
Subject: [PATCH 28/31] fix: hand configuration files with spaces in their
 names to the script

---
 buildexe/src/build_env_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index d36360e..30922b4 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -42,7 +42,7 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
   std::transform(arg_script_info.configs.begin(), arg_script_info.configs.end(),
                  std::back_inserter(configs),
                  [](const std::string &c) -> std::string {
-                   return fmt::format("--config {}", c);
+                   return fmt::format("--config \"{}\"", c);
                  });
   std::string aggregated_configs = fmt::format("{}", fmt::join(configs, " "));
 
-- 
2.43.0


From 83859e17c9f8b8b14d06b4b9361b2fbb694a1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:08 +0000
Subject: [PATCH 29/31] fix: buildexe fails when the script it runs fails

---
 buildexe/src/build_env_setup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index 30922b4..ca354c5 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -52,7 +52,9 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
                   fmt::arg("executable",
                            fmt::format("{}", GetUserTarget().GetTargetPath())),
                   fmt::arg("configs", aggregated_configs));
-  env::Command::Execute(command_str);
+  const bool executed = env::Command::Execute(command_str);
+  env::assert_fatal(executed, fmt::format("Could not execute '{}'",
+                                          buildexe_args_.GetTargetInfo().name));
 }
 
 // Private
-- 
2.43.0


From 4ce5ed673310e939978faebf6b1746d242a686c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:08 +0000
Subject: [PATCH 30/31] fix: do not rewrite an unchanged buildexe_lib_dirs.h,
 the script was rebuilt on every run

---
 buildexe/src/build_env_setup.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index ca354c5..0bcfd10 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -190,7 +190,13 @@ struct BuildExeLibDir {{
         user_target.GetTargetBuildDir() / "buildexe_lib_dirs.h";
     std::string data = fmt::format(
         kLibDirsFormat, fmt::arg("lib_dirs", fmt::join(lib_constants, "\r\n")));
-    env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    // NOTE, Only write when different, a rewritten header is a changed header
+    std::string previous_data;
+    const bool loaded = env::load_file(lib_dirs_filename.string().c_str(),
+                                       false, &previous_data);
+    if (!loaded || previous_data != data) {
+      env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    }
 
     user_target.AddIncludeDirAbsolute(user_target.GetTargetBuildDir(), true);
   }
-- 
2.43.0


From 36927e87c7158455f0545f9b2fdd15d37c86af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 31/31] fix: ids that are up to date stay recorded when another
 id of their generator fails

---
 .../lib/target/src/custom_generator/custom_generator.cpp  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index a2ed7f1..dafcc1e 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -128,9 +128,6 @@ struct TaskFunctor {
         serialization_(serialization), state_(state) {}
 
   void operator()() {
-    if (env::get_task_state() != env::TaskState::SUCCESS) {
-      return;
-    }
     try {
       id_info_.ConvertToInternal();
       // Compute runnable
@@ -139,6 +136,11 @@ struct TaskFunctor {
 
       // Invoke generator callback
       if (state_.should_run) {
+        // Nothing new is started after a failure, ids that are up to date are
+        // kept in the record
+        if (env::get_task_state() != env::TaskState::SUCCESS) {
+          return;
+        }
         serialization_.RemoveFile();
         const auto input_paths = id_info_.inputs.GetPaths();
         CustomGeneratorContext ctx(command_, input_paths,
-- 
2.43.0

