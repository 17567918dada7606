From 956ee0716d1733197c31c61bb8ed877da8cf3c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 01/35] fix: do not lose work when a worker quits while another
 holds a directory

Workers counted themselves as waiting until after they had taken work from
the queue, so the others could all quit, and the run could finish with files
never compiled. Count the outstanding work instead and quit when it is zero.
---
 src/worker_pool.rs | 100 ++++++++-------------------------------------
 1 file changed, 18 insertions(+), 82 deletions(-)

diff --git a/src/worker_pool.rs b/src/worker_pool.rs
index fe1dbfb..45a27c0 100644
--- a/src/worker_pool.rs
+++ b/src/worker_pool.rs
@@ -9,12 +9,6 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 use std::thread;
 use std::time::Duration;
 
-#[derive(Debug)]
-enum Message {
-    Work(Work),
-    Quit,
-}
-
 #[derive(Debug)]
 enum WorkResult {
     MoreWork(Vec<Work>),
@@ -121,13 +115,11 @@ impl Work {
 
 struct Worker<'a> {
     pool: &'a WorkerPool,
-    is_waiting: bool,
-    is_quitting: bool,
     aggregate: WorkAggregateResult,
-    num_waiting: &'a AtomicUsize,
-    num_quitting: &'a AtomicUsize,
-    tx: channel::Sender<Message>,
-    rx: channel::Receiver<Message>,
+    /// Amount of work that is queued or being worked on
+    num_outstanding: &'a AtomicUsize,
+    tx: channel::Sender<Work>,
+    rx: channel::Receiver<Work>,
 }
 
 impl<'a> Worker<'a> {
@@ -143,7 +135,8 @@ impl<'a> Worker<'a> {
                 }
                 WorkResult::MoreWork(additional_work) => {
                     for work in additional_work {
-                        self.tx.send(Message::Work(work)).unwrap();
+                        self.num_outstanding.fetch_add(1, Ordering::SeqCst);
+                        self.tx.send(work).unwrap();
                     }
                 }
                 WorkResult::DirIoError(io_error, path) => {
@@ -152,6 +145,8 @@ impl<'a> Worker<'a> {
                     );
                 }
             }
+            // Only now, with any additional work accounted for, is this work done.
+            self.num_outstanding.fetch_sub(1, Ordering::SeqCst);
         }
         self.aggregate
     }
@@ -159,74 +154,18 @@ impl<'a> Worker<'a> {
     fn pop_work(&mut self) -> Option<Work> {
         loop {
             match self.rx.try_recv() {
-                Ok(Message::Work(work)) => {
-                    self.set_waiting(false);
-                    self.set_quitting(false);
-                    return Some(work);
-                }
-                Ok(Message::Quit) => {
-                    self.set_waiting(true);
-                    self.set_quitting(true);
-                    loop {
-                        let nwait = self.num_waiting();
-                        let nquit = self.num_quitting();
-                        let threads = self.pool.thread_count;
-                        // If the number of waiting workers dropped, then abort our attempt to quit.
-                        // Sometimes work will come back.
-                        if nwait < threads {
-                            break;
-                        }
-                        // If all workers are in this quit loop, then we can stop.
-                        if nquit == threads {
-                            return None;
-                        }
-                    }
-                }
+                Ok(work) => return Some(work),
                 Err(_) => {
-                    let threads = self.pool.thread_count;
-                    self.set_waiting(true);
-                    self.set_quitting(false);
-                    if self.num_waiting() == threads {
-                        for _ in 0..threads {
-                            self.tx.send(Message::Quit).unwrap();
-                        }
-                    } else {
-                        // This is a bit weird, I know, but we want producers to catch up
-                        // without burning the CPU too hard.
-                        thread::sleep(Duration::from_millis(1));
+                    if self.num_outstanding.load(Ordering::SeqCst) == 0 {
+                        return None;
                     }
+                    // This is a bit weird, I know, but we want producers to catch up
+                    // without burning the CPU too hard.
+                    thread::sleep(Duration::from_millis(1));
                 }
             }
         }
     }
-
-    fn num_waiting(&self) -> usize {
-        self.num_waiting.load(Ordering::SeqCst)
-    }
-
-    fn num_quitting(&self) -> usize {
-        self.num_quitting.load(Ordering::SeqCst)
-    }
-
-    fn set_waiting(&mut self, desired: bool) {
-        if desired && !self.is_waiting {
-            self.is_waiting = true;
-            self.num_waiting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_waiting {
-            self.is_waiting = false;
-            self.num_waiting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
-
-    fn set_quitting(&mut self, desired: bool) {
-        if desired && !self.is_quitting {
-            self.is_quitting = true;
-            self.num_quitting.fetch_add(1, Ordering::SeqCst);
-        } else if !desired && self.is_quitting {
-            self.is_quitting = false;
-            self.num_quitting.fetch_sub(1, Ordering::SeqCst);
-        }
-    }
 }
 
 pub struct WorkerPool {
@@ -247,23 +186,20 @@ impl WorkerPool {
     }
 
     pub fn work(&self) -> impl ExitInformation {
-        let num_waiting = AtomicUsize::new(0);
-        let num_quitting = AtomicUsize::new(0);
+        // The initial work
+        let num_outstanding = AtomicUsize::new(1);
 
         let mut aggregate = thread::scope(|s| {
             let (tx, rx) = channel::unbounded();
-            let initial_work = Message::Work(Work::DirEntry(self.root_dir_path.clone()));
+            let initial_work = Work::DirEntry(self.root_dir_path.clone());
             tx.send(initial_work).unwrap();
 
             let handles = (0..self.thread_count)
                 .map(|_| {
                     let worker = Worker {
                         pool: self,
-                        num_quitting: &num_quitting,
-                        num_waiting: &num_waiting,
+                        num_outstanding: &num_outstanding,
                         aggregate: WorkAggregateResult::new(),
-                        is_quitting: false,
-                        is_waiting: false,
                         tx: tx.clone(),
                         rx: rx.clone(),
                     };
-- 
2.43.0


From d1a430ce0da089910bf26f4f2b879891626aa7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 02/35] fix: use at least one worker thread

--num-threads 0 (or numThreads 0) compiled nothing and exited with status 0.
---
 src/cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index bb46df6..3704afc 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -442,7 +442,9 @@ impl RuntimeConfig {
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8)),
+                .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
+                // Without a single thread nothing would ever be compiled
+                .max(1),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From cd3a5f54834ff90eaff484cb55e7986a45ad343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 03/35] fix: honour customScalarPrefix of the config file with
 --use-custom-scalars

The prefix was dropped unless useCustomScalars was in the same file.
---
 src/cli.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3704afc..d3bae46 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -434,11 +434,9 @@ impl RuntimeConfig {
                 || config_file_args.use_custom_scalars.unwrap_or(false),
             disable_readonly_types: cli_args.disable_readonly_types
                 || config_file_args.disable_readonly_types.unwrap_or(false),
-            custom_scalar_prefix: cli_args.custom_scalar_prefix.or_else(|| {
-                config_file_args
-                    .use_custom_scalars
-                    .and(config_file_args.custom_scalar_prefix)
-            }),
+            custom_scalar_prefix: cli_args
+                .custom_scalar_prefix
+                .or(config_file_args.custom_scalar_prefix),
             number_threads: cli_args
                 .num_threads
                 .or(config_file_args.num_threads)
-- 
2.43.0


From 1ddf8c6101a40341f64c0f8f1f7ba3e2fc1d4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 04/35] fix: pluralize the warning summary by the number of
 warnings

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index d3bae46..cad0a90 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -544,7 +544,7 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
         );
     }
     if warning_count > 0 {
-        let plural = if error_count > 1 { "s" } else { "" };
+        let plural = if warning_count > 1 { "s" } else { "" };
         println!(
             "{}",
             PrintableMessage::new_simple_compile_warning(&format!(
-- 
2.43.0


From f4bb7a8c4d6ecad83144cd1fd2f1f086784e5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 05/35] fix: do not panic on an import without closing quote

rfind found the opening quote, which made the range start after its end.
---
 src/graphql.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index a07afad..6b37d63 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -104,10 +104,9 @@ fn get_file_path_of_fragment(
     import_comment: &str,
     current_dir: &Path,
 ) -> PathBuf {
-    let last_quote = import_comment
-        .rfind('"')
-        .unwrap_or(import_comment.len() - 1);
-    let import_path = &import_comment[IMPORT_START.len()..last_quote];
+    let import_path = &import_comment[IMPORT_START.len()..];
+    let last_quote = import_path.rfind('"').unwrap_or(import_path.len());
+    let import_path = &import_path[..last_quote];
 
     config
         .root_dir_import_prefix
-- 
2.43.0


From 75b4e56a1e849049fc911ed551b7d4ed568760d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 06/35] fix: keep prefixed paths inside the root directory

With a root import prefix that does not end in a slash, such as `@`, removing
it left an absolute path, so `@/a.graphql` was read from and the global types
module `@/globals` written to the root of the file system.
---
 src/graphql.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 6b37d63..b0ae39a 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -112,7 +112,12 @@ fn get_file_path_of_fragment(
         .root_dir_import_prefix
         .as_deref()
         .and_then(|root_dir_prefix| import_path.strip_prefix(root_dir_prefix))
-        .map(|import_path_without_prefix| config.root_dir.join(import_path_without_prefix))
+        .map(|import_path_without_prefix| {
+            // With a prefix such as `@`, a leading slash must not make the path absolute
+            config
+                .root_dir
+                .join(import_path_without_prefix.trim_start_matches('/'))
+        })
         .unwrap_or_else(|| {
             if import_path.starts_with('.') {
                 current_dir.join(import_path)
@@ -281,7 +286,7 @@ pub fn compile_global_types_file(
         .as_deref()
         .and_then(|root_prefix| config.global_types_module_name.strip_prefix(root_prefix))
         .map(|global_types_module_name_without_prefix| {
-            root_path.join(global_types_module_name_without_prefix)
+            root_path.join(global_types_module_name_without_prefix.trim_start_matches('/'))
         })
         .unwrap_or_else(|| root_path.join(&config.global_types_module_name));
     let output_path_with_ext = if output_path.extension().is_some() {
-- 
2.43.0


From 767b2c6379f47b3690b78e79d2fa3dac689c6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 07/35] fix: do not stop looking for imports at an indented
 comment

---
 src/graphql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index b0ae39a..3d84bee 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -141,7 +141,7 @@ fn add_imported_fragments(
             continue;
         }
         let doesnt_start_with_import = !line.starts_with(IMPORT_START);
-        if doesnt_start_with_import && line.starts_with('#') {
+        if doesnt_start_with_import && line.trim_start().starts_with('#') {
             // We keep going for comments
             continue;
         } else if doesnt_start_with_import {
-- 
2.43.0


From b07703c87ea97176573f3dd4ff1670c20b212533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 08/35] fix: name the right file in two errors

A document without definitions was reported without its name, and a failure
to write the global types named the root directory.
---
 src/graphql.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 3d84bee..cc27dff 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -76,8 +76,9 @@ fn parse_graphql_file<'a>(
     })?;
     let num_defintions = parsed.definitions.len();
     if num_defintions == 0 {
-        let message =
+        let mut message =
             PrintableMessage::new_simple_compile_error("missing defintion in the document");
+        message.with_source_information(file_path, None);
         return Err(message);
     } else if num_defintions > 1 {
         let mut message =
@@ -294,8 +295,8 @@ pub fn compile_global_types_file(
     } else {
         output_path.with_extension("ts")
     };
-    std::fs::write(output_path_with_ext, the_compile.contents).map_err(|io_error| {
-        PrintableMessage::new_compile_error_from_write_io_error(&io_error, root_path)
+    std::fs::write(&output_path_with_ext, the_compile.contents).map_err(|io_error| {
+        PrintableMessage::new_compile_error_from_write_io_error(&io_error, &output_path_with_ext)
     })?;
     Ok(())
 }
-- 
2.43.0


From 05abb20303b09c834ec7ebad89d3753f351264cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 09/35] fix: read every imported file once and in a fixed order

Files importing each other overflowed the stack, and a chain of diamonds took
exponential time. Which of two imported fragments of one name was used
depended on the random order of a hash map.
---
 src/graphql.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index cc27dff..7f99b39 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -2,8 +2,8 @@ use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
 use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
 use schema::Schema;
-use std::collections::{HashMap, HashSet};
-use std::fs::File;
+use std::collections::{BTreeMap, HashMap, HashSet};
+use std::fs::{self, File};
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
 
@@ -13,6 +13,9 @@ pub mod variable;
 
 const IMPORT_START: &str = "#import \"";
 
+/// Contents of every imported file by its real path, and where it was first imported
+type ImportedContents = BTreeMap<PathBuf, (String, LocationInformation)>;
+
 pub type ParsedTextType = String;
 
 #[derive(Debug)]
@@ -132,7 +135,7 @@ fn add_imported_fragments(
     config: &CompileConfig,
     current_file: &Path,
     current_file_contents: &str,
-    import_contents: &mut HashMap<PathBuf, (String, LocationInformation)>,
+    import_contents: &mut ImportedContents,
     messages: &mut Vec<PrintableMessage>,
 ) {
     let mut current_dir = current_file.to_owned();
@@ -152,6 +155,11 @@ fn add_imported_fragments(
         let location =
             LocationInformation::new_from_line_and_column(line_index + 1, line, IMPORT_START.len());
         let file_path = get_file_path_of_fragment(config, line, &current_dir);
+        // Files may import each other, and one file can be named in many ways
+        let real_path = fs::canonicalize(&file_path).unwrap_or_else(|_| file_path.clone());
+        if import_contents.contains_key(&real_path) {
+            continue;
+        }
         let other_file_contents = match read_graphql_file(&file_path) {
             Ok(c) => c,
             Err(mut sub_message) => {
@@ -160,6 +168,7 @@ fn add_imported_fragments(
                 continue;
             }
         };
+        import_contents.insert(real_path, (other_file_contents.clone(), location));
         add_imported_fragments(
             config,
             &file_path,
@@ -167,13 +176,12 @@ fn add_imported_fragments(
             import_contents,
             messages,
         );
-        import_contents.insert(file_path, (other_file_contents, location));
     }
 }
 
 fn parse_foreign_fragments<'a>(
     path: &Path,
-    imported_contents: &'a HashMap<PathBuf, (String, LocationInformation)>,
+    imported_contents: &'a ImportedContents,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
@@ -213,7 +221,7 @@ pub fn compile_file(
     let parsed = parse_graphql_file(&contents, path).map_err(|e| vec![e])?;
 
     let mut messages = Vec::new();
-    let mut imported_contents = HashMap::new();
+    let mut imported_contents = ImportedContents::new();
     add_imported_fragments(
         config,
         path,
-- 
2.43.0


From 39500c15c3e79af4d7ea53c564f55418a23fad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 10/35] fix: do not overflow the stack on recursive input
 objects

---
 src/typescript.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 8ac2104..929ca6e 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -171,8 +171,10 @@ fn add_sub_input_object_field<'a>(
             let global_type = schema
                 .get_type_for_name(type_name)
                 .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
-            name_to_type.insert(type_name, global_type);
-            add_sub_input_objects(name_to_type, schema, global_type)?;
+            // Input objects may refer to each other
+            if name_to_type.insert(type_name, global_type).is_none() {
+                add_sub_input_objects(name_to_type, schema, global_type)?;
+            }
         }
         schema_field::FieldTypeDefinition::Enum => {
             let global_type = schema
-- 
2.43.0


From 34f3fd9e095f8f5fcde17f20c52806b32472a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 11/35] fix: keep the inner list of a nullable list of non-null
 lists

`[[X]!]` was printed as if it were `[X]`.
---
 src/graphql/schema/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 6bd21e4..34d72eb 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -121,7 +121,7 @@ impl ModifierBuilder {
             }
             old_concrete => {
                 self.higher_order_modifiers.push(old_concrete.clone());
-                FieldTypeModifier::new()
+                FieldTypeModifier::ListOfNullable
             }
         };
     }
-- 
2.43.0


From 000b342ce0a4d8dbf8c362d43d1721721c74bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 12/35] fix: locate the import of a non-fragment in the file
 that has it

The error named the compiled document as the imported one, and gave the line
of an import in another file when the import was indirect.
---
 src/graphql.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 7f99b39..60cd464 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -14,7 +14,7 @@ pub mod variable;
 const IMPORT_START: &str = "#import \"";
 
 /// Contents of every imported file by its real path, and where it was first imported
-type ImportedContents = BTreeMap<PathBuf, (String, LocationInformation)>;
+type ImportedContents = BTreeMap<PathBuf, (String, PathBuf, LocationInformation)>;
 
 pub type ParsedTextType = String;
 
@@ -168,7 +168,14 @@ fn add_imported_fragments(
                 continue;
             }
         };
-        import_contents.insert(real_path, (other_file_contents.clone(), location));
+        import_contents.insert(
+            real_path,
+            (
+                other_file_contents.clone(),
+                current_file.to_owned(),
+                location,
+            ),
+        );
         add_imported_fragments(
             config,
             &file_path,
@@ -180,12 +187,11 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
-    path: &Path,
     imported_contents: &'a ImportedContents,
     messages: &mut Vec<PrintableMessage>,
 ) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
     let mut parsed_imported_fragments = HashMap::new();
-    for (other_path, (contents, location)) in imported_contents.iter() {
+    for (other_path, (contents, importing_path, location)) in imported_contents.iter() {
         if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
             // throws away documents that contain more or less than one defintion.
@@ -198,11 +204,11 @@ fn parse_foreign_fragments<'a>(
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
                             "cannot import non-fragment GraphQL document `{}`",
-                            path.display()
+                            other_path.display()
                         ));
                         let mut location = location.clone();
                         location.with_help_text("This document is not a fragment, and importing it is probably a mistake.");
-                        message.with_source_information(path, Some(location));
+                        message.with_source_information(importing_path, Some(location));
                         messages.push(message);
                     }
                 }
@@ -229,8 +235,7 @@ pub fn compile_file(
         &mut imported_contents,
         &mut messages,
     );
-    let parsed_imported_fragments =
-        parse_foreign_fragments(path, &imported_contents, &mut messages);
+    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
-- 
2.43.0


From 408fc6c2463706877a79ea2e21edb6858db2e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 13/35] fix: print every list level of input object fields

Only the innermost level was used, so `[[ID!]!]!` was printed as `ID[]`, and
the innermost nullability decided whether the field was optional.
---
 src/graphql/schema/field.rs |  4 ++++
 src/typescript.rs           | 28 ++++++++++++----------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 34d72eb..41dd708 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -145,6 +145,10 @@ impl FieldTypeModifiers {
         &self.last
     }
 
+    pub fn outermost(&self) -> &FieldTypeModifier {
+        self.rest.last().unwrap_or(&self.last)
+    }
+
     pub fn rest_modifiers_iter(&self) -> impl Iterator<Item = &'_ FieldTypeModifier> {
         self.rest.iter()
     }
diff --git a/src/typescript.rs b/src/typescript.rs
index 929ca6e..4974d60 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -102,23 +102,19 @@ fn input_def_from_type(
     for (name, field) in sorted.into_iter() {
         let doc = compile_documentation(&field.documentation, field.deprecated, 2);
         let field_type = from_input_def_field_def(config, name, field)?;
-        let ts_field = match field.type_description.type_modifiers().last() {
-            schema_field::FieldTypeModifier::None => format!("  {doc}{name}: {field_type};"),
-            schema_field::FieldTypeModifier::Nullable => {
-                format!("  {doc}{name}?: {field_type} | null;")
-            }
-            schema_field::FieldTypeModifier::NullableList => {
-                format!("  {doc}{name}?: {field_type}[] | null;")
-            }
-            schema_field::FieldTypeModifier::List => {
-                format!("  {doc}{name}: {field_type}[];")
-            }
-            schema_field::FieldTypeModifier::ListOfNullable => {
-                format!("  {doc}{name}: ({field_type} | null)[];")
-            }
-            schema_field::FieldTypeModifier::NullableListOfNullable => {
-                format!("  {doc}{name}?: ({field_type} | null)[] | null;")
+        let type_modifiers = field.type_description.type_modifiers();
+        let type_def = prop_type_def(
+            type_modifiers.rest_modifiers_iter(),
+            type_modifiers.last(),
+            field_type,
+        );
+        let ts_field = match type_modifiers.outermost() {
+            schema_field::FieldTypeModifier::Nullable
+            | schema_field::FieldTypeModifier::NullableList
+            | schema_field::FieldTypeModifier::NullableListOfNullable => {
+                format!("  {doc}{name}?: {type_def};")
             }
+            _ => format!("  {doc}{name}: {type_def};"),
         };
         fields.push(ts_field);
     }
-- 
2.43.0


From 289e08e6d401655380628474182cdec1b512b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 14/35] fix: do not let a description end its comment

Removing `*/` from `**//` left another one behind.
---
 src/typescript.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typescript.rs b/src/typescript.rs
index 4974d60..286bcb5 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -244,7 +244,8 @@ fn compile_documentation(
     let processed_documentation = documentation.as_deref().map(|docs| {
         docs.replace('\n', &format!("\n {tab}* "))
             .replace("/*", EMPTY)
-            .replace("*/", EMPTY)
+            // Removing it could join two others into a new one, as in `**//`
+            .replace("*/", "* /")
     });
 
     let wrap = |content: &str| format!("/**\n {tab}* {content}\n {tab}*/\n{tab}");
-- 
2.43.0


From 89f00658a7404179f49094064d9b4adc64b251ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 15/35] fix: locate the use of an unknown or input type in the
 document

These errors did not even name the file.
---
 src/graphql/ir.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index c726853..0c6e5be 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -99,7 +99,7 @@ pub enum Error {
         possible_field_names: Vec<String>,
     },
     Variable(variable::Error),
-    MissingType(String),
+    MissingType(String, Pos),
     UnexpectedComplexTravseral(String),
     InputObjectOnSelection {
         field_name: String,
@@ -175,8 +175,12 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
             Error::Variable(var_error) => {
                 PrintableMessage::from((contents, file_path, var_error))
             }
-            Error::MissingType(type_name) => PrintableMessage::new_simple_program_error(
+            Error::MissingType(type_name, position) => PrintableMessage::new_program_error(
                 &format!("failed lookup of type `{type_name}`"),
+                file_path,
+                contents,
+                &position,
+                None,
             ),
             Error::InputObjectOnSelection { type_name, field_name } => {
                 PrintableMessage::new_simple_program_error(
@@ -402,7 +406,7 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
         let schema_type = context
             .schema
             .get_type_for_name(type_name)
-            .ok_or_else(|| Error::MissingType(type_name.to_string()))?;
+            .ok_or_else(|| Error::MissingType(type_name.to_string(), position))?;
         let fields_lookup = schema_type
             .definition
             .get_fields_lookup()
@@ -420,7 +424,12 @@ impl<'a, 'b> TryFrom<(&'a CompileContext<'a, 'b>, &'a str, Pos)> for ComplexTrav
                     .map(|possible_type| (possible_type.as_ref(), UniqueFields::new()))
                     .collect()
             }
-            _ => return Err(Error::UnexpectedComplexTravseral(type_name.to_string())),
+            _ => {
+                return Err(Error::SelectionSetOnWrongType(
+                    type_name.to_string(),
+                    position,
+                ))
+            }
         };
         Ok(ComplexTraversal {
             type_name,
-- 
2.43.0


From ef0ead20346c606dd7c5c059757174769c0edd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 16/35] fix: report fragments that spread each other

Collecting the fields of a fragment that spreads itself, directly or through
others, overflowed the stack.
---
 src/graphql/ir.rs | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 0c6e5be..62f100a 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -89,6 +89,7 @@ impl ForeignFragmentJumpState {
 pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
+    FragmentCycle(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -134,6 +135,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     Some(&format!("This fragment name doesn't appear to be in scope.{extra}")),
                 )
             }
+            Error::FragmentCycle(name, position) => PrintableMessage::new_compile_error(
+                &format!("spread of fragment `{name}` never ends"),
+                file_path,
+                contents,
+                &position,
+                Some("Fragments must not spread themselves, neither directly nor through other fragments."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -212,12 +220,19 @@ pub struct CompileContext<'a, 'b> {
     show_deprecation_warnings: bool,
     imported_fragments: ImportedFragments<'b>,
     warnings: std::cell::RefCell<Vec<Warning>>,
+    /// Names of the fragments whose spreads are being collected, outermost first
+    active_spreads: std::cell::RefCell<Vec<String>>,
 }
 
 impl<'a, 'b> CompileContext<'a, 'b> {
     fn push_warning(&self, warning: Warning) {
         self.warnings.borrow_mut().push(warning);
     }
+
+    fn is_spreading(&self, fragment_name: &str) -> bool {
+        let active_spreads = self.active_spreads.borrow();
+        active_spreads.iter().any(|name| name == fragment_name)
+    }
 }
 
 // For a few conversions with ?
@@ -533,6 +548,7 @@ impl<'a, 'b> Operation<'a> {
             show_deprecation_warnings,
             imported_fragments,
             warnings: std::cell::RefCell::new(Vec::new()),
+            active_spreads: std::cell::RefCell::new(Vec::new()),
         };
         let operation = match definition {
             parsed_query::Definition::Operation(op_def) => {
@@ -724,6 +740,7 @@ fn collect_fields_from_selection_set<'a, 'b>(
 ) -> ResultMany<()> {
     let mut errors = Vec::new();
     for selection in &selection_set.items {
+        let mut spread_fragment_name = None;
         let (spread_type_name, spread_position, sub_selection_set, new_jump_state) = match selection
         {
             parsed_query::Selection::Field(selection_field) => {
@@ -751,7 +768,15 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 }
             }
             parsed_query::Selection::FragmentSpread(spread) => {
+                spread_fragment_name = Some(&spread.fragment_name);
                 match context.imported_fragments.get(&spread.fragment_name) {
+                    Some(_) if context.is_spreading(&spread.fragment_name) => {
+                        errors.push(Error::FragmentCycle(
+                            spread.fragment_name.clone(),
+                            spread.position,
+                        ));
+                        continue;
+                    }
                     Some(fragment_def) => {
                         let parsed_query::TypeCondition::On(ref type_name) =
                             fragment_def.type_condition;
@@ -789,18 +814,33 @@ fn collect_fields_from_selection_set<'a, 'b>(
                 continue;
             }
         };
-        match collect_fields_from_selection_set(
+        if let Some(fragment_name) = spread_fragment_name {
+            let mut active_spreads = context.active_spreads.borrow_mut();
+            active_spreads.push(fragment_name.clone());
+        }
+        let sub_result = collect_fields_from_selection_set(
             context,
             sub_selection_set,
             &mut sub_parent,
             new_jump_state,
-        ) {
+        );
+        if spread_fragment_name.is_some() {
+            context.active_spreads.borrow_mut().pop();
+        }
+        match sub_result {
             Ok(_) => {
                 complex_parent.extend_from(sub_parent)?;
             }
             Err(sub_messages) => {
                 if new_jump_state.is_local() {
                     errors.extend(sub_messages);
+                } else if let Some(Error::FragmentCycle(name, _)) = sub_messages
+                    .into_iter()
+                    .find(|error| matches!(error, Error::FragmentCycle(..)))
+                {
+                    // Every file that runs into a cycle has to know of it
+                    let fragment_name = spread_fragment_name.cloned().unwrap_or(name);
+                    errors.push(Error::FragmentCycle(fragment_name, spread_position));
                 }
             }
         }
-- 
2.43.0


From 36a1c1f954d59c69cafea23e519e6aef41fa7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 17/35] fix: only print types as one when their fields are the
 same

Possible types were joined when their property names were equal, although the
types of these properties, or what is selected below them, differed.
---
 src/graphql/ir.rs           |  8 ++++----
 src/graphql/schema/field.rs |  6 +++---
 src/typescript.rs           | 11 ++++-------
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 62f100a..d49bca1 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -481,7 +481,7 @@ impl<'a> FieldTraversal<'a> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Field {
     pub prop_name: String,
     pub documentation: schema::Documentation,
@@ -490,7 +490,7 @@ pub struct Field {
     pub type_ir: FieldType,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum FieldType {
     TypeName,
     Complex(ComplexCollection),
@@ -498,13 +498,13 @@ pub enum FieldType {
     Scalar(schema_field::ScalarType),
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Complex {
     pub name: String,
     pub fields: Vec<Field>,
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct ComplexCollection {
     pub possibilities: Vec<Complex>,
 }
diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 41dd708..717afe4 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -1,7 +1,7 @@
 use super::{json, Documentation, Error};
 use std::convert::{TryFrom, TryInto};
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum ScalarType {
     Custom(String),
     Boolean,
@@ -44,7 +44,7 @@ impl FieldTypeDefinition {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum FieldTypeModifier {
     /// No modifier or "flat"
     None,
@@ -127,7 +127,7 @@ impl ModifierBuilder {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct FieldTypeModifiers {
     last: FieldTypeModifier,
     rest: Vec<FieldTypeModifier>,
diff --git a/src/typescript.rs b/src/typescript.rs
index 286bcb5..c966e46 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -306,12 +306,9 @@ fn prop_type_def<'a>(
     result
 }
 
-fn field_ids_for_complex_ir(complex: &ir::Complex) -> HashSet<&str> {
-    complex
-        .fields
-        .iter()
-        .map(|field_ir| field_ir.prop_name.as_ref())
-        .collect()
+/// Whole fields, since fields of one name can still differ between types
+fn field_ids_for_complex_ir(complex: &ir::Complex) -> HashSet<&ir::Field> {
+    complex.fields.iter().collect()
 }
 
 fn type_definitions_from_smoosh_complex_ir<'a>(
@@ -353,7 +350,7 @@ fn type_definitions_from_complex_field_collection(
     all_fields.push((&first_possiblity.name[..], common_props.clone()));
     for possibility in &collection.possibilities[1..] {
         let pos_props = field_ids_for_complex_ir(possibility);
-        common_props.retain(|prop_name| pos_props.contains(prop_name));
+        common_props.retain(|field_ir| pos_props.contains(field_ir));
         all_fields.push((&possibility.name[..], pos_props));
     }
 
-- 
2.43.0


From 47d13593848fc637c35e9f7814cd655d97ca40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 18/35] fix: print one property per response key

Selecting a field through an interface and through an object that declares it
with a narrower type gave two properties, and two types, of the same name.
---
 src/graphql/ir.rs | 59 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index d49bca1..f612059 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -110,6 +110,10 @@ pub enum Error {
         terminal_type_name: String,
         complex_type_name: String,
     },
+    ConflictingTerminalFields {
+        first_type_name: String,
+        second_type_name: String,
+    },
 }
 
 impl From<(&str, &Path, Error)> for PrintableMessage {
@@ -205,6 +209,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     &format!("unexpectedly attempting merge of complex type `{complex_type_name}` and terminal type `{terminal_type_name}`."),
                 )
             }
+            Error::ConflictingTerminalFields { first_type_name, second_type_name } => {
+                let mut message = PrintableMessage::new_simple_compile_error(
+                    &format!("cannot select fields of the types `{first_type_name}` and `{second_type_name}` under one name"),
+                );
+                message.with_source_information(file_path, None);
+                message
+            }
         }
     }
 }
@@ -242,12 +253,10 @@ impl From<Error> for Vec<Error> {
     }
 }
 
-/// Alias and field name
-type FieldId<'a> = (&'a str, &'a str);
-
 #[derive(Debug, Clone)]
 struct UniqueFields<'a> {
-    collection: HashMap<FieldId<'a>, (&'a schema_field::Field, FieldTraversal<'a>)>,
+    /// Fields by alias, which is the name of the property
+    collection: HashMap<&'a str, (&'a schema_field::Field, FieldTraversal<'a>)>,
 }
 
 impl<'a> UniqueFields<'a> {
@@ -260,11 +269,10 @@ impl<'a> UniqueFields<'a> {
     fn insert(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         traversal: FieldTraversal<'a>,
     ) -> Result<()> {
-        match self.collection.entry((alias, name)) {
+        match self.collection.entry(alias) {
             Entry::Occupied(occupant) => {
                 occupant.into_mut().1.extend_from(traversal)?;
             }
@@ -276,8 +284,8 @@ impl<'a> UniqueFields<'a> {
     }
 
     fn extend_from(&mut self, other: UniqueFields<'a>) -> Result<()> {
-        for ((alias, name), (field, traversal)) in other.collection.into_iter() {
-            self.insert(alias, name, field, traversal)?;
+        for (alias, (field, traversal)) in other.collection.into_iter() {
+            self.insert(alias, field, traversal)?;
         }
         Ok(())
     }
@@ -288,7 +296,7 @@ impl<'a> TryFrom<UniqueFields<'a>> for Vec<Field> {
     fn try_from(from: UniqueFields<'a>) -> Result<Self> {
         from.collection
             .into_iter()
-            .map(|((alias, _name), (field, sub_traversal))| {
+            .map(|(alias, (field, sub_traversal))| {
                 let concrete = field.type_description.reveal_concrete();
                 Ok(Field {
                     prop_name: alias.to_string(),
@@ -355,17 +363,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_terminal(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         terminal: TerminalTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(
-                alias,
-                name,
-                field,
-                FieldTraversal::Terminal(terminal.clone()),
-            )?;
+            uniques.insert(alias, field, FieldTraversal::Terminal(terminal.clone()))?;
         }
         Ok(())
     }
@@ -373,12 +375,11 @@ impl<'a, 'b> ComplexTraversal<'a> {
     fn insert_complex(
         &mut self,
         alias: &'a str,
-        name: &'a str,
         field: &'a schema_field::Field,
         complex: ComplexTraversal<'a>,
     ) -> Result<()> {
         for uniques in self.concrete_objects.values_mut() {
-            uniques.insert(alias, name, field, FieldTraversal::Complex(complex.clone()))?;
+            uniques.insert(alias, field, FieldTraversal::Complex(complex.clone()))?;
         }
         Ok(())
     }
@@ -464,13 +465,29 @@ impl<'a> FieldTraversal<'a> {
     fn extend_from(&mut self, other: Self) -> Result<()> {
         match self {
             Self::Complex(self_complex) => match other {
-                Self::Complex(other_complex) => self_complex.extend_from(other_complex),
+                Self::Complex(other_complex) => {
+                    // An object can declare a narrower type than its interface does, and what
+                    // is returned has both types.
+                    let other_objects = &other_complex.concrete_objects;
+                    self_complex
+                        .concrete_objects
+                        .retain(|type_name, _| other_objects.contains_key(type_name));
+                    self_complex.extend_from(other_complex)
+                }
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: self_complex.type_name.to_string(),
                     terminal_type_name: other_terminal.type_name.to_string(),
                 }),
             },
             Self::Terminal(self_terminal) => match other {
+                Self::Terminal(other_terminal)
+                    if self_terminal.type_name != other_terminal.type_name =>
+                {
+                    Err(Error::ConflictingTerminalFields {
+                        first_type_name: self_terminal.type_name.to_string(),
+                        second_type_name: other_terminal.type_name.to_string(),
+                    })
+                }
                 Self::Terminal(_) => Ok(()), // Nothing to do if both terminal
                 Self::Complex(other_complex) => Err(Error::MixedTerminalAndComplexFields {
                     complex_type_name: other_complex.type_name.to_string(),
@@ -706,7 +723,7 @@ fn insert_field<'a, 'b>(
         }
         (true, false) => {
             let terminal = TerminalTraversal::from(field_type_name);
-            traversal.insert_terminal(alias, field_type_name, field, terminal)?;
+            traversal.insert_terminal(alias, field, terminal)?;
         }
         (false, true) => {
             let mut sub_parent =
@@ -717,7 +734,7 @@ fn insert_field<'a, 'b>(
                 &mut sub_parent,
                 jump_state,
             )?;
-            traversal.insert_complex(alias, field_type_name, field, sub_parent)?;
+            traversal.insert_complex(alias, field, sub_parent)?;
         }
     };
 
-- 
2.43.0


From 1060935d9c90cb4a7f3f9257768fc88d8e6ec70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 19/35] fix: extract the types of mutation, subscription and
 fragment documents

The optional markers made every typed document match QueryDocumentNode, so
DataOf and VariablesOf gave their constraint, a plain record, for all others.
---
 pkg/npm/lib/typed-documentnode.d.ts | 30 +++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pkg/npm/lib/typed-documentnode.d.ts b/pkg/npm/lib/typed-documentnode.d.ts
index d58a7fa..542fc92 100644
--- a/pkg/npm/lib/typed-documentnode.d.ts
+++ b/pkg/npm/lib/typed-documentnode.d.ts
@@ -35,6 +35,12 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
   readonly __typedDocumentNodeFragment?: () => Data;
 };
 
+/**
+ * T if it declares the marker property of a kind of document. All markers are optional, so that
+ * any document would be assignable to all kinds.
+ */
+type Marked<T, Marker extends string> = Marker extends keyof T ? T : never;
+
 /**
  * Helper for extracting a data type from a typed DocumentNode
  * @example
@@ -42,13 +48,17 @@ export type FragmentDocumentNode<Data extends BasicObject> = DocumentNode & {
  * // MyQuery is QueryDocumentNode<D, V>
  * type MyQuerysData = DataOf<typeof MyQuery>; // MyQuerysData is now type D
  */
-export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
+export type DataOf<T> = T extends Marked<T, "__typedDocumentNodeQuery"> &
+  QueryDocumentNode<infer Data, infer Variables>
   ? Data
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends Marked<T, "__typedDocumentNodeMutation"> &
+      MutationDocumentNode<infer Data, infer Variables>
   ? Data
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends Marked<T, "__typedDocumentNodeSubscription"> &
+      SubscriptionDocumentNode<infer Data, infer Variables>
   ? Data
-  : T extends FragmentDocumentNode<infer Data>
+  : T extends Marked<T, "__typedDocumentNodeFragment"> &
+      FragmentDocumentNode<infer Data>
   ? Data
   : never;
 
@@ -59,13 +69,13 @@ export type DataOf<T> = T extends QueryDocumentNode<infer Data, infer Variables>
  * // MyMutation is MutationDocumentNode<D, V>
  * type MyMutationsVars = VariablesOf<typeof MyMutation>; // MyMutationsVars is now type V
  */
-export type VariablesOf<T> = T extends QueryDocumentNode<
-  infer Data,
-  infer Variables
->
+export type VariablesOf<T> = T extends Marked<T, "__typedDocumentNodeQuery"> &
+  QueryDocumentNode<infer Data, infer Variables>
   ? Variables
-  : T extends MutationDocumentNode<infer Data, infer Variables>
+  : T extends Marked<T, "__typedDocumentNodeMutation"> &
+      MutationDocumentNode<infer Data, infer Variables>
   ? Variables
-  : T extends SubscriptionDocumentNode<infer Data, infer Variables>
+  : T extends Marked<T, "__typedDocumentNodeSubscription"> &
+      SubscriptionDocumentNode<infer Data, infer Variables>
   ? Variables
   : never;
-- 
2.43.0


From 3d60318b83907218245b167256717c9e85e685f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 20/35] fix: fail the install when the download breaks off,
 stalls or loops

A connection lost in the middle of the archive left the promise pending, so
that node exited with status 0 without a binary. The timeout was set but not
handled, and redirects were followed without end.
---
 pkg/npm/lib/postinstall.js | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index 7ee3192..e86bc15 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -8,12 +8,14 @@ const { get: httpsGet } = require("https");
 const { join } = require("path");
 const { createHash } = require("crypto");
 const { spawn } = require("child_process");
+const { pipeline } = require("stream");
 
 const {
   version: VERSION,
   checksumConfig: CHECKSUMS,
 } = require("../package.json");
 const BIN_PATH = join(__dirname, "../bin");
+const MAX_REDIRECTS = 10;
 
 function getTarget() {
   const id = `${platform()}-${arch()}`;
@@ -31,7 +33,7 @@ function getTarget() {
   }
 }
 
-function download(fullUrl, dest) {
+function download(fullUrl, dest, redirects = 0) {
   return new Promise((resolve, reject) => {
     const cleanup = (err) =>
       unlink(dest)
@@ -44,12 +46,20 @@ function download(fullUrl, dest) {
       timeout: 20000,
       headers: { Accept: "application/octet-stream" },
     };
-    httpsGet(opts, (response) => {
+    let archive;
+    const request = httpsGet(opts, (response) => {
       switch (response.statusCode) {
         case 200:
-          return response.pipe(createWriteStream(dest).on("finish", resolve));
+          archive = response;
+          return pipeline(response, createWriteStream(dest), (err) =>
+            err ? cleanup(err) : resolve(),
+          );
         case 302:
-          return download(response.headers.location, dest)
+          request.destroy();
+          if (redirects === MAX_REDIRECTS) {
+            return cleanup(new Error("Download redirected too often"));
+          }
+          return download(response.headers.location, dest, redirects + 1)
             .then(resolve)
             .catch(reject);
         default:
@@ -57,8 +67,10 @@ function download(fullUrl, dest) {
             new Error(`Download failed with ${response.statusCode}`),
           );
       }
-    })
-      .on("error", cleanup)
+    });
+    request
+      .on("timeout", () => request.destroy(new Error("Download timed out")))
+      .on("error", (err) => (archive ? archive.destroy(err) : cleanup(err)))
       .end();
   });
 }
-- 
2.43.0


From a986cc315b761a7b8da2e45801f7421a78038b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 21/35] fix: fail the schema download when the response breaks
 off or stalls

A response cut short was stored and the script exited with status 0. The
output file was truncated before there was anything to store in it.
---
 pkg/npm/lib/download.js | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index c812f4d..3c4433c 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -2,6 +2,9 @@
 
 const { unlink, createWriteStream } = require("fs");
 const { URL } = require("url");
+const { pipeline } = require("stream");
+
+const TIMEOUT_MS = 60000;
 
 const introspectionQuery = `
   query IntrospectionQuery {
@@ -89,28 +92,32 @@ function download() {
   }
   const outFilePath = outFilePathRaw || "schema.json";
   return new Promise((resolve, reject) => {
-    const outFile = createWriteStream(outFilePath);
     const cleanup = (err) => {
       return unlink(outFilePath, (deleteErr) => {
         console.error(deleteErr);
         reject(err);
       });
     };
+    let body;
     const parsedUrl = new URL(endpoint);
     const opts = {
       method: "POST",
       headers: { "Content-Type": "application/json" },
+      timeout: TIMEOUT_MS,
     };
     const requestModule = parsedUrl.protocol === "https:" ? require("https") : require("http");
-    requestModule
-      .request(parsedUrl, opts, (response) => {
-        if (response.statusCode !== 200) {
-          return cleanup(new Error(`Download failed with ${response.statusCode}`));
-        }
-        response.pipe(outFile);
-        outFile.on("finish", resolve);
-      })
-      .on("error", cleanup)
+    const request = requestModule.request(parsedUrl, opts, (response) => {
+      if (response.statusCode !== 200) {
+        return reject(new Error(`Download failed with ${response.statusCode}`));
+      }
+      body = response;
+      pipeline(response, createWriteStream(outFilePath), (err) =>
+        err ? cleanup(err) : resolve()
+      );
+    });
+    request
+      .on("timeout", () => request.destroy(new Error("Download timed out")))
+      .on("error", (err) => (body ? body.destroy(err) : reject(err)))
       .end(JSON.stringify({ query: introspectionQuery }));
   });
 }
-- 
2.43.0


From f83ae0e13817aec2dfa07c3bd16f869d0f3b971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 22/35] fix: ask for the deprecation of fields in the
 introspection query

Fields of a downloaded schema were never marked as deprecated.
---
 pkg/npm/lib/download.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index 3c4433c..e5f22e9 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -30,6 +30,7 @@ const introspectionQuery = `
       type {
         ...TypeRef
       }
+      isDeprecated
     }
     inputFields {
       ...InputValue
-- 
2.43.0


From d25daccb986be5243719aa99fdb7190b23f193bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 23/35] fix: refuse variables of output types in the document
 that has them

---
 src/graphql/variable.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/graphql/variable.rs b/src/graphql/variable.rs
index 94d75e0..572305b 100644
--- a/src/graphql/variable.rs
+++ b/src/graphql/variable.rs
@@ -2,6 +2,7 @@ use super::ParsedTextType;
 use crate::cli::PrintableMessage;
 use crate::graphql::ir::CompileContext;
 use crate::graphql::schema::field as schema_field;
+use crate::graphql::schema::TypeDefinition;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::convert::TryFrom;
@@ -10,6 +11,7 @@ use std::path::Path;
 #[derive(Debug)]
 pub enum Error {
     UnknownCustomeVariableType(String, Pos),
+    OutputTypeNotSupported(String, Pos),
     UnprocessableVariableType(String, Pos),
     ListOfListNotSupported(String, Pos),
 }
@@ -42,7 +44,17 @@ impl<'a, 'b, 'c> TryFrom<(&'a CompileContext<'a, 'b>, &'c str, Pos)> for Variabl
                         from.2,
                     ))
                 }
-                Some(_) => VariableType::Custom(custom_type_name),
+                Some(custom_type) => match custom_type.definition {
+                    TypeDefinition::Enum(_)
+                    | TypeDefinition::InputObject(_)
+                    | TypeDefinition::Scalar(_) => VariableType::Custom(custom_type_name),
+                    _ => {
+                        return Err(Error::OutputTypeNotSupported(
+                            custom_type_name.to_string(),
+                            from.2,
+                        ))
+                    }
+                },
             },
         };
         Ok(var)
@@ -61,6 +73,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                     None,
                 )
             }
+            Error::OutputTypeNotSupported(name, position) => PrintableMessage::new_compile_error(
+                &format!("unexpected output type for variable `{name}`"),
+                file_path,
+                contents,
+                &position,
+                Some("Variables must be of an enum, an input object or a scalar type."),
+            ),
             Error::UnprocessableVariableType(name, position) => {
                 PrintableMessage::new_program_error(
                     &format!("failed to process variable `{name}`"),
-- 
2.43.0


From 5d1a31e60c825277df5352d842078c2c6a900897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 24/35] fix: see imports behind a byte order mark

---
 src/graphql.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graphql.rs b/src/graphql.rs
index 60cd464..f3bacb1 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -140,6 +140,8 @@ fn add_imported_fragments(
 ) {
     let mut current_dir = current_file.to_owned();
     current_dir.pop();
+    // As for the parser, a byte order mark means nothing
+    let current_file_contents = current_file_contents.trim_start_matches('\u{feff}');
     for (line_index, line) in current_file_contents.lines().enumerate() {
         if line.is_empty() || line.trim().is_empty() {
             continue;
-- 
2.43.0


From 6fcf4d98e1d27c1c45e2522872da3f4bd22883c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 25/35] fix: report errors in imported fragments that are not
 compiled themselves

---
 src/graphql.rs    | 22 ++++++++++++++++------
 src/graphql/ir.rs | 40 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index f3bacb1..3f7eed3 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -1,8 +1,8 @@
 use super::cli::{LocationInformation, PrintableMessage, RuntimeConfig};
 use crate::typescript;
-use graphql_parser::query::{Definition, Document, FragmentDefinition, OperationDefinition};
+use graphql_parser::query::{Definition, Document, OperationDefinition};
 use schema::Schema;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::fs::{self, File};
 use std::io::{BufReader, Read};
 use std::path::{Path, PathBuf};
@@ -189,10 +189,12 @@ fn add_imported_fragments(
 }
 
 fn parse_foreign_fragments<'a>(
+    config: &CompileConfig,
     imported_contents: &'a ImportedContents,
     messages: &mut Vec<PrintableMessage>,
-) -> HashMap<String, FragmentDefinition<'a, ParsedTextType>> {
-    let mut parsed_imported_fragments = HashMap::new();
+) -> ir::ImportedFragments<'a> {
+    let mut parsed_imported_fragments = ir::ImportedFragments::default();
+    let root_dir = fs::canonicalize(&config.root_dir).unwrap_or_else(|_| config.root_dir.clone());
     for (other_path, (contents, importing_path, location)) in imported_contents.iter() {
         if let Ok(mut parsed) = parse_graphql_file(contents, other_path) {
             // We already know there is exactly one definition since read_graphql_file
@@ -201,7 +203,14 @@ fn parse_foreign_fragments<'a>(
                 match def {
                     Definition::Fragment(f_def) => {
                         let fragment_name = f_def.name.clone();
-                        parsed_imported_fragments.insert(fragment_name, f_def);
+                        let is_graphql = other_path.extension().is_some_and(|e| e == "graphql");
+                        if !is_graphql || !other_path.starts_with(&root_dir) {
+                            let uncompiled = &mut parsed_imported_fragments.uncompiled;
+                            uncompiled.insert(fragment_name.clone());
+                        }
+                        parsed_imported_fragments
+                            .definitions
+                            .insert(fragment_name, f_def);
                     }
                     _ => {
                         let mut message = PrintableMessage::new_simple_compile_error(&format!(
@@ -237,7 +246,8 @@ pub fn compile_file(
         &mut imported_contents,
         &mut messages,
     );
-    let parsed_imported_fragments = parse_foreign_fragments(&imported_contents, &mut messages);
+    let parsed_imported_fragments =
+        parse_foreign_fragments(config, &imported_contents, &mut messages);
 
     let (op_ir, warnings) = match ir::Operation::compile(
         &parsed.definitions[0],
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index f612059..a7e8379 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -6,7 +6,7 @@ use crate::graphql::variable;
 use graphql_parser::query as parsed_query;
 use graphql_parser::Pos;
 use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::{TryFrom, TryInto};
 use std::path::Path;
 
@@ -90,6 +90,7 @@ pub enum Error {
     SelectionSetAsOperationUnsupported(Pos),
     UnknownFragment(String, Pos, Vec<String>),
     FragmentCycle(String, Pos),
+    BrokenFragment(String, Pos),
     MissingTypeConditionOnInlineFragment(Pos),
     SelectionSetOnWrongType(String, Pos),
     MissingSelectionSetOnType(String, Pos),
@@ -146,6 +147,13 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                 &position,
                 Some("Fragments must not spread themselves, neither directly nor through other fragments."),
             ),
+            Error::BrokenFragment(name, position) => PrintableMessage::new_compile_error(
+                &format!("spread of fragment `{name}` that has errors"),
+                file_path,
+                contents,
+                &position,
+                Some("This fragment is not compiled itself. Its file is not a `.graphql` file of the root directory."),
+            ),
             Error::MissingTypeConditionOnInlineFragment(position) => PrintableMessage::new_compile_error(
                 "fragment missing type condition on inline fragment",
                 file_path,
@@ -224,7 +232,13 @@ type Result<T> = std::result::Result<T, Error>;
 type ResultMany<T> = std::result::Result<T, Vec<Error>>;
 type OperationResult<'a> =
     std::result::Result<(Operation<'a>, Vec<Warning>), (Vec<Error>, Vec<Warning>)>;
-type ImportedFragments<'a> = HashMap<String, parsed_query::FragmentDefinition<'a, ParsedTextType>>;
+
+#[derive(Default)]
+pub struct ImportedFragments<'a> {
+    pub definitions: HashMap<String, parsed_query::FragmentDefinition<'a, ParsedTextType>>,
+    /// Names of the fragments in files that are not compiled themselves
+    pub uncompiled: HashSet<String>,
+}
 
 pub struct CompileContext<'a, 'b> {
     pub schema: &'a schema::Schema,
@@ -244,6 +258,15 @@ impl<'a, 'b> CompileContext<'a, 'b> {
         let active_spreads = self.active_spreads.borrow();
         active_spreads.iter().any(|name| name == fragment_name)
     }
+
+    /// Errors in a foreign fragment are reported when its own file is compiled, if it ever is
+    fn broken_fragment_error(&self, fragment_name: Option<&String>, pos: Pos) -> Option<Error> {
+        let active_spreads = self.active_spreads.borrow();
+        fragment_name
+            .or_else(|| active_spreads.last())
+            .filter(|name| self.imported_fragments.uncompiled.contains(*name))
+            .map(|name| Error::BrokenFragment(name.clone(), pos))
+    }
 }
 
 // For a few conversions with ?
@@ -786,7 +809,8 @@ fn collect_fields_from_selection_set<'a, 'b>(
             }
             parsed_query::Selection::FragmentSpread(spread) => {
                 spread_fragment_name = Some(&spread.fragment_name);
-                match context.imported_fragments.get(&spread.fragment_name) {
+                let definitions = &context.imported_fragments.definitions;
+                match definitions.get(&spread.fragment_name) {
                     Some(_) if context.is_spreading(&spread.fragment_name) => {
                         errors.push(Error::FragmentCycle(
                             spread.fragment_name.clone(),
@@ -808,7 +832,7 @@ fn collect_fields_from_selection_set<'a, 'b>(
                         errors.push(Error::UnknownFragment(
                             spread.fragment_name.clone(),
                             spread.position,
-                            context.imported_fragments.keys().cloned().collect(),
+                            definitions.keys().cloned().collect(),
                         ));
                         continue;
                     }
@@ -827,6 +851,10 @@ fn collect_fields_from_selection_set<'a, 'b>(
             Err(sub_message) => {
                 if new_jump_state.is_local() {
                     errors.push(sub_message);
+                } else {
+                    errors.extend(
+                        context.broken_fragment_error(spread_fragment_name, spread_position),
+                    );
                 }
                 continue;
             }
@@ -858,6 +886,10 @@ fn collect_fields_from_selection_set<'a, 'b>(
                     // Every file that runs into a cycle has to know of it
                     let fragment_name = spread_fragment_name.cloned().unwrap_or(name);
                     errors.push(Error::FragmentCycle(fragment_name, spread_position));
+                } else {
+                    errors.extend(
+                        context.broken_fragment_error(spread_fragment_name, spread_position),
+                    );
                 }
             }
         }
-- 
2.43.0


From 158c3a81c2b23e41111b20153983534630e18b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 26/35] fix: do not start more threads than the system can have

---
 src/cli.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index cad0a90..0e271eb 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -9,6 +9,8 @@ use std::io::{BufReader, Error as IOError};
 use std::path::{Path, PathBuf};
 use strsim::generic_damerau_levenshtein;
 
+const MAX_NUMBER_THREADS: usize = 256;
+
 #[derive(Debug)]
 enum MessageLevel {
     CompileWarning,
@@ -441,8 +443,9 @@ impl RuntimeConfig {
                 .num_threads
                 .or(config_file_args.num_threads)
                 .unwrap_or_else(|| std::cmp::min(num_cpus::get(), 8))
-                // Without a single thread nothing would ever be compiled
-                .max(1),
+                // Without a single thread nothing would ever be compiled, and no system has
+                // threads without end
+                .clamp(1, MAX_NUMBER_THREADS),
             root_dir_import_prefix: cli_args
                 .root_dir_import_prefix
                 .or(config_file_args.root_dir_import_prefix),
-- 
2.43.0


From f640d58cc5deb3b6174afbb02089d33751b11a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 27/35] fix: refuse a global types module name that names no
 file

---
 src/graphql.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 3f7eed3..af2b248 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -307,14 +307,22 @@ pub fn compile_global_types_file(
         return Ok(());
     }
     let the_compile = typescript::compile_globals(config, schema, global_names)?;
-    let output_path = config
+    let module_path = config
         .root_dir_import_prefix
         .as_deref()
         .and_then(|root_prefix| config.global_types_module_name.strip_prefix(root_prefix))
         .map(|global_types_module_name_without_prefix| {
-            root_path.join(global_types_module_name_without_prefix.trim_start_matches('/'))
+            Path::new(global_types_module_name_without_prefix.trim_start_matches('/'))
         })
-        .unwrap_or_else(|| root_path.join(&config.global_types_module_name));
+        .unwrap_or_else(|| Path::new(&config.global_types_module_name));
+    if module_path.file_name().is_none() {
+        // The path would be that of the root directory, or of one of its parents
+        return Err(PrintableMessage::new_simple_compile_error(&format!(
+            "global types module name `{}` does not name a file",
+            config.global_types_module_name
+        )));
+    }
+    let output_path = root_path.join(module_path);
     let output_path_with_ext = if output_path.extension().is_some() {
         output_path
     } else {
-- 
2.43.0


From 68d48f013386a63fe377469351494502e89f8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 28/35] fix: keep a file's other messages when its output
 cannot be written

---
 src/graphql.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index af2b248..c1e3360 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -284,12 +284,13 @@ pub fn compile_file(
     };
 
     let output_path = path.with_extension("graphql.d.ts");
-    std::fs::write(&output_path, the_compile.contents).map_err(|io_error| {
-        vec![PrintableMessage::new_compile_error_from_write_io_error(
+    if let Err(io_error) = std::fs::write(&output_path, the_compile.contents) {
+        messages.push(PrintableMessage::new_compile_error_from_write_io_error(
             &io_error,
             &output_path,
-        )]
-    })?;
+        ));
+        return Err(messages);
+    }
 
     Ok(CompileReport {
         messages,
-- 
2.43.0


From 40e7e984f525f804ce82e1950e1c902fb6c1ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 29/35] fix: append to the name of the source to get that of
 the output

---
 src/graphql.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index c1e3360..5a39aab 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -283,7 +283,10 @@ pub fn compile_file(
         }
     };
 
-    let output_path = path.with_extension("graphql.d.ts");
+    // Not by way of with_extension(), which makes `..` of a file named `...graphql`
+    let mut output_path = path.as_os_str().to_owned();
+    output_path.push(".d.ts");
+    let output_path = PathBuf::from(output_path);
     if let Err(io_error) = std::fs::write(&output_path, the_compile.contents) {
         messages.push(PrintableMessage::new_compile_error_from_write_io_error(
             &io_error,
-- 
2.43.0


From b5e1639a734709cdfaa7eb122e89253ef9340fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 30/35] fix: fail the npm downloads when the end of a file
 cannot be written

---
 pkg/npm/lib/download.js    | 3 ++-
 pkg/npm/lib/postinstall.js | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/npm/lib/download.js b/pkg/npm/lib/download.js
index e5f22e9..96926bc 100644
--- a/pkg/npm/lib/download.js
+++ b/pkg/npm/lib/download.js
@@ -112,7 +112,8 @@ function download() {
         return reject(new Error(`Download failed with ${response.statusCode}`));
       }
       body = response;
-      pipeline(response, createWriteStream(outFilePath), (err) =>
+      // the pipeline may not call back if writing fails once the connection is closed
+      pipeline(response, createWriteStream(outFilePath).on("error", cleanup), (err) =>
         err ? cleanup(err) : resolve()
       );
     });
diff --git a/pkg/npm/lib/postinstall.js b/pkg/npm/lib/postinstall.js
index e86bc15..ef023fc 100644
--- a/pkg/npm/lib/postinstall.js
+++ b/pkg/npm/lib/postinstall.js
@@ -51,8 +51,11 @@ function download(fullUrl, dest, redirects = 0) {
       switch (response.statusCode) {
         case 200:
           archive = response;
-          return pipeline(response, createWriteStream(dest), (err) =>
-            err ? cleanup(err) : resolve(),
+          // the pipeline may not call back if writing fails once the connection is closed
+          return pipeline(
+            response,
+            createWriteStream(dest).on("error", cleanup),
+            (err) => (err ? cleanup(err) : resolve()),
           );
         case 302:
           request.destroy();
-- 
2.43.0


From 521fe0f4ad2a0c9a1421a60220dd7d0f7ebfa4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 31/35] fix: count a line that ends in a carriage return once

The parser counts a comment that ends in \r\n as two lines, so errors in
files with such line ends were shown at the wrong line.
---
 src/graphql.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index 5a39aab..bf2f878 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -62,7 +62,8 @@ fn read_graphql_file(path: &Path) -> Result<String, PrintableMessage> {
             let mut buf_reader = BufReader::new(file);
             let mut contents = String::new();
             buf_reader.read_to_string(&mut contents)?;
-            Ok(contents)
+            // The parser would count a line that ends in `\r\n` twice after a comment
+            Ok(contents.replace("\r\n", "\n").replace('\r', "\n"))
         })
         .map_err(|io_error| PrintableMessage::new_compile_error_from_read_io_error(&io_error, path))
 }
-- 
2.43.0


From d2945257f9f48f68abf708f5963e0bdd7aa45dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 32/35] fix: do not panic when the report cannot be printed

---
 src/cli.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 0e271eb..94744c9 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -5,7 +5,7 @@ use graphql_parser::Pos;
 use serde::Deserialize;
 use std::fmt;
 use std::fs::File;
-use std::io::{BufReader, Error as IOError};
+use std::io::{BufReader, Error as IOError, Write};
 use std::path::{Path, PathBuf};
 use strsim::generic_damerau_levenshtein;
 
@@ -521,6 +521,11 @@ pub fn similar_help_suggestions(
     }
 }
 
+/// Prints a line, unless nobody is reading any longer, which is no reason to panic.
+fn print_line(line: impl fmt::Display) {
+    let _ = writeln!(std::io::stdout(), "{line}");
+}
+
 /// Prints the result of the program to the screen with process exiting.
 pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
     let mut warning_count = 0;
@@ -534,26 +539,20 @@ pub fn print_exit_info(exit_info: impl ExitInformation) -> ! {
                 error_count += 1;
             }
         }
-        println!("{}\n", msg);
+        print_line(format_args!("{}\n", msg));
     }
     let has_errors = error_count > 0;
     if has_errors {
         let plural = if error_count > 1 { "s" } else { "" };
-        println!(
-            "{}",
-            PrintableMessage::new_simple_compile_error(&format!(
-                "failure due to {error_count} error{plural}",
-            ))
-        );
+        print_line(PrintableMessage::new_simple_compile_error(&format!(
+            "failure due to {error_count} error{plural}",
+        )));
     }
     if warning_count > 0 {
         let plural = if warning_count > 1 { "s" } else { "" };
-        println!(
-            "{}",
-            PrintableMessage::new_simple_compile_warning(&format!(
-                "{warning_count} warning{plural} emitted",
-            ))
-        );
+        print_line(PrintableMessage::new_simple_compile_warning(&format!(
+            "{warning_count} warning{plural} emitted",
+        )));
     }
 
     std::process::exit(i32::from(has_errors));
-- 
2.43.0


From 821fb926e9c5f60c7aaf6a9ec99da1967d375b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 33/35] fix: name the file of every error of a document

---
 src/graphql.rs    |  4 +++-
 src/graphql/ir.rs | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/graphql.rs b/src/graphql.rs
index bf2f878..9c39f66 100644
--- a/src/graphql.rs
+++ b/src/graphql.rs
@@ -279,7 +279,9 @@ pub fn compile_file(
     let the_compile = match typescript::compile_ir(&op_ir, config, schema) {
         Ok(c) => c,
         Err(inner_message) => {
-            messages.push(inner_message.into());
+            let mut message = PrintableMessage::from(inner_message);
+            message.with_source_information(path, None);
+            messages.push(message);
             return Err(messages);
         }
     };
diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index a7e8379..bc02b89 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -203,19 +203,25 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                 None,
             ),
             Error::InputObjectOnSelection { type_name, field_name } => {
-                PrintableMessage::new_simple_program_error(
+                let mut message = PrintableMessage::new_simple_program_error(
                     &format!("unexpectedly traversing field `{field_name}` with input object type `{type_name}`")
-                )
+                );
+                message.with_source_information(file_path, None);
+                message
             }
             Error::UnexpectedComplexTravseral(type_name) => {
-                PrintableMessage::new_simple_program_error(
+                let mut message = PrintableMessage::new_simple_program_error(
                     &format!("unexpectedly traversing a terminal of type `{type_name}`"),
-                )
+                );
+                message.with_source_information(file_path, None);
+                message
             }
             Error::MixedTerminalAndComplexFields { complex_type_name, terminal_type_name } => {
-                PrintableMessage::new_simple_program_error(
+                let mut message = PrintableMessage::new_simple_program_error(
                     &format!("unexpectedly attempting merge of complex type `{complex_type_name}` and terminal type `{terminal_type_name}`."),
-                )
+                );
+                message.with_source_information(file_path, None);
+                message
             }
             Error::ConflictingTerminalFields { first_type_name, second_type_name } => {
                 let mut message = PrintableMessage::new_simple_compile_error(
-- 
2.43.0


From 131fe6712be37de6ecc63bd2bfc945c992469737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 34/35] fix: accept interfaces that nothing implements

---
 src/graphql/ir.rs | 16 +++++++++++++---
 src/typescript.rs |  7 ++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index bc02b89..0c2270f 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -111,7 +111,7 @@ pub enum Error {
         terminal_type_name: String,
         complex_type_name: String,
     },
-    ConflictingTerminalFields {
+    ConflictingFields {
         first_type_name: String,
         second_type_name: String,
     },
@@ -223,7 +223,7 @@ impl From<(&str, &Path, Error)> for PrintableMessage {
                 message.with_source_information(file_path, None);
                 message
             }
-            Error::ConflictingTerminalFields { first_type_name, second_type_name } => {
+            Error::ConflictingFields { first_type_name, second_type_name } => {
                 let mut message = PrintableMessage::new_simple_compile_error(
                     &format!("cannot select fields of the types `{first_type_name}` and `{second_type_name}` under one name"),
                 );
@@ -498,9 +498,19 @@ impl<'a> FieldTraversal<'a> {
                     // An object can declare a narrower type than its interface does, and what
                     // is returned has both types.
                     let other_objects = &other_complex.concrete_objects;
+                    let could_return_any = !self_complex.concrete_objects.is_empty();
                     self_complex
                         .concrete_objects
                         .retain(|type_name, _| other_objects.contains_key(type_name));
+                    if could_return_any
+                        && !other_objects.is_empty()
+                        && self_complex.concrete_objects.is_empty()
+                    {
+                        return Err(Error::ConflictingFields {
+                            first_type_name: self_complex.type_name.to_string(),
+                            second_type_name: other_complex.type_name.to_string(),
+                        });
+                    }
                     self_complex.extend_from(other_complex)
                 }
                 Self::Terminal(other_terminal) => Err(Error::MixedTerminalAndComplexFields {
@@ -512,7 +522,7 @@ impl<'a> FieldTraversal<'a> {
                 Self::Terminal(other_terminal)
                     if self_terminal.type_name != other_terminal.type_name =>
                 {
-                    Err(Error::ConflictingTerminalFields {
+                    Err(Error::ConflictingFields {
                         first_type_name: self_terminal.type_name.to_string(),
                         second_type_name: other_terminal.type_name.to_string(),
                     })
diff --git a/src/typescript.rs b/src/typescript.rs
index c966e46..18133cf 100644
--- a/src/typescript.rs
+++ b/src/typescript.rs
@@ -23,7 +23,6 @@ pub enum Error {
         field_type_name: String,
         field_name: String,
     },
-    ExpectedAtLeastOnePossibility,
 }
 
 impl From<Error> for PrintableMessage {
@@ -43,9 +42,6 @@ impl From<Error> for PrintableMessage {
             } => PrintableMessage::new_simple_program_error(&format!(
                 "unexpected field `{field_name}` of type `{field_type_name}`: must be enum, another input object, or scalar",
             )),
-            Error::ExpectedAtLeastOnePossibility => PrintableMessage::new_simple_program_error(
-                "could not determine possiblities for complex type",
-            ),
         }
     }
 }
@@ -334,7 +330,8 @@ fn type_definitions_from_complex_field_collection(
 ) -> Result<Vec<Typescript>> {
     let num_possible_types = collection.possibilities.len();
     if num_possible_types == 0 {
-        return Err(Error::ExpectedAtLeastOnePossibility);
+        // Nothing implements this interface, so there is nothing to return
+        return Ok(vec![format!("export type {main_type} = never;")]);
     }
 
     let first_possiblity = &collection.possibilities[0];
-- 
2.43.0


From 61bee0aa704ad2affbbea8d3e4131b19220d7a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 35/35] fix: selections of one name that have lists of
 different depth are rejected

The first selection decided on the type of the property, though no
response can be a list and something else.
---
 src/graphql/ir.rs           | 10 +++++++++-
 src/graphql/schema/field.rs | 24 ++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/graphql/ir.rs b/src/graphql/ir.rs
index 0c2270f..37e4521 100644
--- a/src/graphql/ir.rs
+++ b/src/graphql/ir.rs
@@ -303,7 +303,15 @@ impl<'a> UniqueFields<'a> {
     ) -> Result<()> {
         match self.collection.entry(alias) {
             Entry::Occupied(occupant) => {
-                occupant.into_mut().1.extend_from(traversal)?;
+                let (first_field, first_traversal) = occupant.into_mut();
+                let first_type = &first_field.type_description;
+                if first_type.list_depth() != field.type_description.list_depth() {
+                    return Err(Error::ConflictingFields {
+                        first_type_name: first_type.name_in_lists(),
+                        second_type_name: field.type_description.name_in_lists(),
+                    });
+                }
+                first_traversal.extend_from(traversal)?;
             }
             Entry::Vacant(vacany) => {
                 vacany.insert((field, traversal));
diff --git a/src/graphql/schema/field.rs b/src/graphql/schema/field.rs
index 717afe4..8a39e24 100644
--- a/src/graphql/schema/field.rs
+++ b/src/graphql/schema/field.rs
@@ -64,6 +64,10 @@ impl FieldTypeModifier {
     fn new() -> Self {
         FieldTypeModifier::Nullable
     }
+
+    fn is_list(&self) -> bool {
+        !matches!(self, Self::None | Self::Nullable)
+    }
 }
 
 #[derive(Debug)]
@@ -181,6 +185,26 @@ impl FieldType {
         self.concrete.definition.is_complex()
     }
 
+    /// Number of lists around the concrete type
+    pub fn list_depth(&self) -> usize {
+        self.higher_order_modifiers
+            .iter()
+            .chain(std::iter::once(&self.concrete.modifier))
+            .filter(|modifier| modifier.is_list())
+            .count()
+    }
+
+    /// Name of the concrete type within its lists, such as `[ID]`
+    pub fn name_in_lists(&self) -> String {
+        let depth = self.list_depth();
+        format!(
+            "{}{}{}",
+            "[".repeat(depth),
+            self.concrete.name,
+            "]".repeat(depth)
+        )
+    }
+
     pub fn type_modifiers(&self) -> FieldTypeModifiers {
         FieldTypeModifiers::from_field_type(self)
     }
-- 
2.43.0

