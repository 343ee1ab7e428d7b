From ed20fef86abb92f345786cdce2407d0c75e2121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 01/39] fix: give sys.stdout and sys.stderr back after errors,
 panics and overlapping calls

A failing or panicking closure left the interpreter's output streams
replaced for the rest of the process, and two overlapping calls restored
each other's stand-in instead of the original stream. Restore from a drop
guard and count the users of each stream.
---
 pyo3_bindgen_engine/src/utils/io.rs | 108 +++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 26 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..5b5873c 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -1,5 +1,77 @@
 use crate::Result;
-use pyo3::prelude::*;
+use pyo3::{prelude::*, sync::GILProtected};
+use std::cell::RefCell;
+
+/// Output stream of the Python interpreter (`sys.stdout` or `sys.stderr`) that is replaced for as long as
+/// there is at least one user (nested or concurrent call) that needs it to be suppressed.
+struct SuppressedStream {
+    users: usize,
+    original: Option<PyObject>,
+}
+
+impl SuppressedStream {
+    const fn new() -> GILProtected<RefCell<Self>> {
+        GILProtected::new(RefCell::new(Self {
+            users: 0,
+            original: None,
+        }))
+    }
+}
+
+static SUPPRESSED_STDOUT: GILProtected<RefCell<SuppressedStream>> = SuppressedStream::new();
+static SUPPRESSED_STDERR: GILProtected<RefCell<SuppressedStream>> = SuppressedStream::new();
+
+/// Guard that keeps an output stream suppressed and gives it back when the last such guard is dropped,
+/// regardless of whether the guarded code returns a value, returns an error or panics.
+struct SuppressionGuard<'py> {
+    sys: Bound<'py, PyModule>,
+    name: &'static str,
+    stream: &'static GILProtected<RefCell<SuppressedStream>>,
+}
+
+impl<'py> SuppressionGuard<'py> {
+    fn new(
+        sys: &Bound<'py, PyModule>,
+        name: &'static str,
+        stream: &'static GILProtected<RefCell<SuppressedStream>>,
+        stand_in: &Bound<'py, PyAny>,
+    ) -> PyResult<Self> {
+        let py = sys.py();
+        let state = stream.get(py);
+        if state.borrow().users == 0 {
+            let original = sys.getattr(name)?;
+            sys.setattr(name, stand_in)?;
+            state.borrow_mut().original = Some(original.unbind());
+        }
+        state.borrow_mut().users += 1;
+        Ok(Self {
+            sys: sys.clone(),
+            name,
+            stream,
+        })
+    }
+}
+
+impl Drop for SuppressionGuard<'_> {
+    fn drop(&mut self) {
+        let py = self.sys.py();
+        let original = {
+            let mut state = self.stream.get(py).borrow_mut();
+            state.users -= 1;
+            if state.users > 0 {
+                return;
+            }
+            state.original.take()
+        };
+        if let Some(original) = original {
+            // Keep the replaced stream alive until the original one is back
+            let _replaced = self.sys.getattr(self.name);
+            if let Err(err) = self.sys.setattr(self.name, original) {
+                err.write_unraisable_bound(py, None);
+            }
+        }
+    }
+}
 
 pub fn with_suppressed_python_output<T>(
     py: pyo3::Python,
@@ -7,38 +79,22 @@ pub fn with_suppressed_python_output<T>(
     suppress_stderr: bool,
     f: impl FnOnce() -> Result<T>,
 ) -> Result<T> {
-    // If both stdout and stderr are suppressed, there's no need to do anything
+    // If neither stdout nor stderr is suppressed, there's no need to do anything
     if !suppress_stdout && !suppress_stderr {
         return f();
     }
 
     let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
-    let stdout_ident = pyo3::intern!(py, "stdout");
-    let stderr_ident = pyo3::intern!(py, "stderr");
 
-    // Record the original stdout and stderr
-    let original_stdout = sys.getattr(stdout_ident)?;
-    let original_stderr = sys.getattr(stderr_ident)?;
-
-    // Suppress the output
+    // Suppress the output until the guards are dropped
     let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
-    if suppress_stdout {
-        sys.setattr(stdout_ident, &supressed_output)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, &supressed_output)?;
-    }
+    let _stdout_guard = suppress_stdout
+        .then(|| SuppressionGuard::new(&sys, "stdout", &SUPPRESSED_STDOUT, &supressed_output))
+        .transpose()?;
+    let _stderr_guard = suppress_stderr
+        .then(|| SuppressionGuard::new(&sys, "stderr", &SUPPRESSED_STDERR, &supressed_output))
+        .transpose()?;
 
     // Run the function
-    let ret = f()?;
-
-    // Restore the original stdout and stderr
-    if suppress_stdout {
-        sys.setattr(stdout_ident, original_stdout)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, original_stderr)?;
-    }
-
-    Ok(ret)
+    f()
 }
-- 
2.43.0


From aab81835dd962a7cda033d824b993fc7dc2d806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 02/39] fix: replace suppressed output streams with a stream,
 not with a function

The stand-in was a lambda without any stream methods, so that code which
printed or queried sys.stdout/sys.stderr while being parsed failed and its
bindings were silently dropped. Use a text stream on the null device.
---
 pyo3_bindgen_engine/src/utils/io.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index 5b5873c..bd7ecc6 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -73,6 +73,22 @@ impl Drop for SuppressionGuard<'_> {
     }
 }
 
+/// Open a text stream that supports everything that the regular output streams do, but discards the text.
+fn open_null_stream(py: pyo3::Python) -> PyResult<Bound<PyAny>> {
+    let kwargs = pyo3::types::PyDict::new_bound(py);
+    kwargs.set_item("encoding", "utf-8")?;
+    kwargs.set_item("errors", "backslashreplace")?;
+    py.import_bound(pyo3::intern!(py, "io"))?.call_method(
+        pyo3::intern!(py, "open"),
+        (
+            py.import_bound(pyo3::intern!(py, "os"))?
+                .getattr(pyo3::intern!(py, "devnull"))?,
+            "w",
+        ),
+        Some(&kwargs),
+    )
+}
+
 pub fn with_suppressed_python_output<T>(
     py: pyo3::Python,
     suppress_stdout: bool,
@@ -87,7 +103,7 @@ pub fn with_suppressed_python_output<T>(
     let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
 
     // Suppress the output until the guards are dropped
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
+    let supressed_output = open_null_stream(py)?;
     let _stdout_guard = suppress_stdout
         .then(|| SuppressionGuard::new(&sys, "stdout", &SUPPRESSED_STDOUT, &supressed_output))
         .transpose()?;
-- 
2.43.0


From 1de1b1ac97c6101c59e4ef76f930f1418661c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 03/39] fix: suppress the output of modules also while they are
 imported

Only the inspection was suppressed; text printed by the import of a
requested module, by source code given as text, by dependencies and by
modules (re)imported during generate() still reached the real streams.
---
 pyo3_bindgen_engine/src/codegen.rs | 43 +++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..a3cdc99 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -77,9 +77,12 @@ impl Codegen {
     pub fn module_name(self, module_name: &str) -> Result<Self> {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
+        let (stdout, stderr) = self.suppressed_outputs();
         pyo3::Python::with_gil(|py| {
-            let module = py.import_bound(module_name)?;
-            self.module(&module)
+            crate::io_utils::with_suppressed_python_output(py, stdout, stderr, || {
+                let module = py.import_bound(module_name)?;
+                self.module(&module)
+            })
         })
     }
 
@@ -98,14 +101,17 @@ impl Codegen {
             .insert(module_name.to_owned(), source_code.to_owned());
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
+        let (stdout, stderr) = self.suppressed_outputs();
         pyo3::Python::with_gil(|py| {
-            let module = pyo3::types::PyModule::from_code_bound(
-                py,
-                source_code,
-                &format!("{module_name}/__init__.py"),
-                module_name,
-            )?;
-            self.module(&module)
+            crate::io_utils::with_suppressed_python_output(py, stdout, stderr, || {
+                let module = pyo3::types::PyModule::from_code_bound(
+                    py,
+                    source_code,
+                    &format!("{module_name}/__init__.py"),
+                    module_name,
+                )?;
+                self.module(&module)
+            })
         })
     }
 
@@ -133,13 +139,23 @@ impl Codegen {
     }
 
     /// Generate the Rust FFI bindings for all modules added to the engine.
-    pub fn generate(mut self) -> Result<proc_macro2::TokenStream> {
+    pub fn generate(self) -> Result<proc_macro2::TokenStream> {
         if self.modules.is_empty() {
             return Err(PyBindgenError::CodegenError(
                 "There are no modules for which to generate bindings".to_string(),
             ));
         }
 
+        // Modules can get imported during the generation, so the output needs to be suppressed here as well
+        let (stdout, stderr) = self.suppressed_outputs();
+        pyo3::Python::with_gil(|py| {
+            crate::io_utils::with_suppressed_python_output(py, stdout, stderr, || {
+                self.generate_bindings()
+            })
+        })
+    }
+
+    fn generate_bindings(mut self) -> Result<proc_macro2::TokenStream> {
         // Parse external modules (if enabled)
         if self.cfg.generate_dependencies {
             self.parse_dependencies()?;
@@ -168,6 +184,13 @@ impl Codegen {
         Ok(std::fs::write(output_path, self.generate()?.to_string())?)
     }
 
+    fn suppressed_outputs(&self) -> (bool, bool) {
+        (
+            self.cfg.suppress_python_stdout,
+            self.cfg.suppress_python_stderr,
+        )
+    }
+
     fn parse_dependencies(&mut self) -> Result<()> {
         fn get_imports_recursive(input: &[Module]) -> Vec<Import> {
             let mut imports = Vec::new();
-- 
2.43.0


From b5946c8fe0fd4d351879769937954c5de1314c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 04/39] fix: accept annotations with missing or unbalanced type
 arguments

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 80 +++++++++++------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..940af21 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -142,7 +142,7 @@ impl Type {
                                     inner_types
                                         .iter()
                                         .find(|x| **x != Self::PyNone)
-                                        .unwrap_or_else(|| unreachable!())
+                                        .unwrap_or(&Self::PyNone)
                                         .to_owned(),
                                 ))
                             } else {
@@ -151,46 +151,35 @@ impl Type {
                         }
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::Optional(Box::new(inner_types[0].clone()))
+                            Self::Optional(Box::new(inner_type_at(&inner_types, 0)))
                         }
                         Self::PyDict { .. } => {
                             // debug_assert_eq!(inner_types.len(), 2);
                             Self::PyDict {
-                                key_type: Box::new(inner_types[0].clone()),
-                                value_type: Box::new(inner_types[1].clone()),
+                                key_type: Box::new(inner_type_at(&inner_types, 0)),
+                                value_type: Box::new(inner_type_at(&inner_types, 1)),
                             }
                         }
                         Self::PyFrozenSet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyFrozenSet(Box::new(inner_types[0].clone()))
+                            Self::PyFrozenSet(Box::new(inner_type_at(&inner_types, 0)))
                         }
                         Self::PyList(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyList(Box::new(inner_types[0].clone()))
+                            Self::PyList(Box::new(inner_type_at(&inner_types, 0)))
                         }
                         Self::PySet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PySet(Box::new(inner_types[0].clone()))
+                            Self::PySet(Box::new(inner_type_at(&inner_types, 0)))
                         }
                         Self::PyTuple(..) => Self::PyTuple(inner_types),
                         Self::PyFunction { .. } => {
                             // debug_assert!(!inner_types.is_empty());
-                            Self::PyFunction {
-                                param_types: match inner_types.len() {
-                                    1 => Vec::default(),
-                                    _ => inner_types[..inner_types.len() - 1].to_owned(),
-                                },
-                                return_annotation: Box::new(
-                                    inner_types
-                                        .last()
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
-                                ),
-                            }
+                            function_from_inner_types(inner_types)
                         }
                         Self::PyType => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
+                            inner_type_at(&inner_types, 0)
                         }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
@@ -232,7 +221,7 @@ impl std::str::FromStr for Type {
                         .split('|')
                         .map(str::trim)
                         .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
+                        .unwrap_or("None"),
                 )?;
                 Self::Optional(Box::new(inner_type))
             }
@@ -268,8 +257,8 @@ impl std::str::FromStr for Type {
                     .map(|x| Self::from_str(x))
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyDict {
-                    key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    key_type: Box::new(inner_type_at(&inner_types, 0)),
+                    value_type: Box::new(inner_type_at(&inner_types, 1)),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
@@ -401,18 +390,7 @@ impl std::str::FromStr for Type {
                     .iter()
                     .map(|x| Self::from_str(x))
                     .collect::<Result<Vec<_>>>()?;
-                Self::PyFunction {
-                    param_types: match inner_types.len() {
-                        1 => Vec::default(),
-                        _ => inner_types[..inner_types.len() - 1].to_owned(),
-                    },
-                    return_annotation: Box::new(
-                        inner_types
-                            .last()
-                            .unwrap_or_else(|| unreachable!())
-                            .to_owned(),
-                    ),
-                }
+                function_from_inner_types(inner_types)
             }
             "Callable" | "callable" => Self::PyFunction {
                 param_types: vec![Self::PyEllipsis],
@@ -476,6 +454,20 @@ impl std::str::FromStr for Type {
     }
 }
 
+/// Get the inner type at the given index, or an unknown type if the annotation does not specify it.
+fn inner_type_at(inner_types: &[Type], index: usize) -> Type {
+    inner_types.get(index).cloned().unwrap_or(Type::Unknown)
+}
+
+/// Split the inner types of a callable into the types of its parameters and its return type.
+fn function_from_inner_types(mut inner_types: Vec<Type>) -> Type {
+    let return_annotation = Box::new(inner_types.pop().unwrap_or(Type::Unknown));
+    Type::PyFunction {
+        param_types: inner_types,
+        return_annotation,
+    }
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
@@ -485,19 +477,27 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     //     merged_sequence.matches('[').count() == merged_sequence.matches(']').count()
     // });
 
+    // Number of scopes opened by the element (negative if more scopes are closed than opened)
+    fn count_open_scopes(element: &str) -> isize {
+        element.chars().fold(0, |n_scopes, c| match c {
+            '[' => n_scopes + 1,
+            ']' => n_scopes - 1,
+            _ => n_scopes,
+        })
+    }
+
     let mut traversed_all_elements = false;
     let mut start_index = 0;
     'outer: while !traversed_all_elements {
         traversed_all_elements = true;
         'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
-            if n_scopes == 0 {
+            let mut n_scopes = count_open_scopes(&sequence[i]);
+            if n_scopes <= 0 {
                 continue;
             }
             for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
-                if n_scopes == 0 {
+                n_scopes += count_open_scopes(&sequence[j]);
+                if n_scopes <= 0 {
                     let mut new_element = sequence[i].clone();
                     for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
                         new_element = format!("{new_element}{separator}{relevant_element}");
-- 
2.43.0


From 4a5ce428e8c3329c1f9c9d190594cb8ffc599977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 05/39] fix: accept modules and attributes with empty or
 otherwise unusual names

---
 pyo3_bindgen_engine/src/syntax/common/ident.rs |  1 -
 pyo3_bindgen_engine/src/syntax/common/path.rs  |  1 -
 pyo3_bindgen_engine/src/syntax/module.rs       | 13 ++++++++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs      |  6 ++++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index b6fda6a..379f4ff 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -9,7 +9,6 @@ impl Ident {
     }
 
     pub fn from_py(value: &str) -> Self {
-        debug_assert!(!value.is_empty());
         Self(Self::py_to_rs(value))
     }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..a7bcc2b 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..d8bbea7 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -55,7 +55,12 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
+        if name.is_empty() {
+            return Err(crate::PyBindgenError::ParseError(
+                "The module does not have a name".to_string(),
+            ));
+        }
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
@@ -377,7 +382,9 @@ impl Module {
                             {
                                 let mut path = Path::from_py(stripped_path);
                                 // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
+                                if let Some(first_segment) = path.first_mut() {
+                                    import.target.name().clone_into(first_segment);
+                                }
                                 path
                             } else {
                                 import.target.name().to_owned().into()
@@ -536,7 +543,7 @@ impl Module {
             .collect::<Result<Vec<_>>>()?;
 
         // Extract the names of all submodules via `pkgutil.iter_modules`
-        let module_name = Path::from_py(&module.name().unwrap().to_string());
+        let module_name = Path::from_py(&module.name()?.to_string());
         pkgutil
             .call_method1(pyo3::intern!(py, "iter_modules"), (module_paths,))?
             .iter()?
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..1893098 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -318,8 +318,10 @@ impl Type {
         // Try to map the local types
         let type_name_without_delimiters =
             type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types.get(&Path::from_py(type_name_without_delimiters)) {
-            let relative_path: syn::Path = relative_path.try_into().unwrap();
+        if let Some(Ok(relative_path)) = local_types
+            .get(&Path::from_py(type_name_without_delimiters))
+            .map(syn::Path::try_from)
+        {
             return OutputType::new(
                 quote!(::pyo3::Bound<'py, #relative_path>),
                 quote!(&::pyo3::Bound<'py, #relative_path>),
-- 
2.43.0


From a6f0d7b029d87787ceb94d20e442dd313473a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 06/39] fix: return exceptions raised by __dir__ as errors

---
 pyo3_bindgen_engine/src/syntax/class.rs  |  3 +--
 pyo3_bindgen_engine/src/syntax/module.rs | 14 ++++++--------
 pyo3_bindgen_engine/src/utils/dir.rs     | 13 +++++++++++++
 pyo3_bindgen_engine/src/utils/mod.rs     |  1 +
 4 files changed, 21 insertions(+), 10 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/dir.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..036fb1f 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -30,8 +30,7 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
+        crate::utils::dir::dir(class)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index d8bbea7..b23bfa8 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -64,7 +64,7 @@ impl Module {
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
-            Self::extract_prelude(cfg, module, &name)
+            Self::extract_prelude(cfg, module, &name)?
         } else {
             Vec::new()
         };
@@ -88,8 +88,7 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
+        crate::utils::dir::dir(module)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
@@ -569,7 +568,7 @@ impl Module {
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
         module_name: &Path,
-    ) -> Vec<Ident> {
+    ) -> Result<Vec<Ident>> {
         // Extract the index (__all__) of the module if it exists
         let mut index_attr_names = if let Ok(index) = module.index() {
             index
@@ -584,8 +583,7 @@ impl Module {
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
+            let public_attr_names_set: HashSet<_> = crate::utils::dir::dir(module)?
                 .iter()
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
@@ -593,7 +591,7 @@ impl Module {
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
             if index_attr_names_set == public_attr_names_set {
-                return Vec::new();
+                return Ok(Vec::new());
             }
         }
 
@@ -627,7 +625,7 @@ impl Module {
             }
         });
 
-        index_attr_names
+        Ok(index_attr_names)
     }
 
     fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
diff --git a/pyo3_bindgen_engine/src/utils/dir.rs b/pyo3_bindgen_engine/src/utils/dir.rs
new file mode 100644
index 0000000..35c655a
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/dir.rs
@@ -0,0 +1,13 @@
+use crate::Result;
+use pyo3::prelude::*;
+
+/// List the names of all attributes of the given object.
+/// In contrast to [`pyo3::types::PyAnyMethods::dir()`], an exception raised by `__dir__` is returned as an error.
+pub fn dir<'py>(object: &Bound<'py, PyAny>) -> Result<Bound<'py, pyo3::types::PyList>> {
+    let py = object.py();
+    Ok(py
+        .import_bound(pyo3::intern!(py, "builtins"))?
+        .call_method1(pyo3::intern!(py, "dir"), (object,))?
+        .downcast_into::<pyo3::types::PyList>()
+        .map_err(PyErr::from)?)
+}
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..325eb67 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -1,5 +1,6 @@
 //! Various utilities.
 
+pub(crate) mod dir;
 pub mod error;
 pub(crate) mod io;
 pub mod result;
-- 
2.43.0


From e2dbbaf92f328e41ff9cd82727849667c1b8200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 07/39] fix: skip dependencies that cannot be imported anymore

---
 pyo3_bindgen_engine/src/codegen.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index a3cdc99..2877bac 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -219,17 +219,9 @@ impl Codegen {
         pyo3::Python::with_gil(|py| {
             external_imports
                 .iter()
-                // Get the last valid module within the path of the import
-                .map(|import| {
-                    let mut last_module = py
-                        .import_bound(
-                            import
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .unwrap();
+                // Get the last valid module within the path of the import (skip the import if there is none)
+                .filter_map(|import| {
+                    let mut last_module = py.import_bound(import.root()?.to_py().as_str()).ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -241,14 +233,15 @@ impl Codegen {
                             break;
                         }
                     }
-                    last_module
+                    let name = last_module.name().ok()?.to_string();
+                    Some((name, last_module))
                 })
                 // Parse the module and add it to the module tree
-                .unique_by(|module| module.name().unwrap().to_string())
+                .unique_by(|(name, _module)| name.clone())
                 // Filter attributes based on various configurable conditions
-                .filter(|module| {
+                .filter(|(name, module)| {
                     self.cfg.is_attr_allowed(
-                        &Ident::from_py(&module.name().unwrap().to_string()),
+                        &Ident::from_py(name),
                         &Path::from_py(
                             &module
                                 .getattr(pyo3::intern!(py, "__module__"))
@@ -258,7 +251,7 @@ impl Codegen {
                         &py.get_type_bound::<pyo3::types::PyModule>(),
                     )
                 })
-                .try_for_each(|module| {
+                .try_for_each(|(_name, module)| {
                     crate::io_utils::with_suppressed_python_output(
                         module.py(),
                         self.cfg.suppress_python_stdout,
-- 
2.43.0


From a7f60fac3371ec55420d6cd58e728b9f7a0ab245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 08/39] fix: return an error if a parent package cannot be
 imported anymore

---
 pyo3_bindgen_engine/src/codegen.rs | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 2877bac..701e537 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -162,7 +162,7 @@ impl Codegen {
         }
 
         // Canonicalize the module tree
-        self.canonicalize();
+        self.canonicalize()?;
 
         // Embed the source code of the modules
         self.modules.iter_mut().for_each(|module| {
@@ -266,29 +266,30 @@ impl Codegen {
         })
     }
 
-    fn canonicalize(&mut self) {
+    fn canonicalize(&mut self) -> Result<()> {
         // Canonicalize the module tree, such that no submodules remain at the top-level
         // Example: If `mod.submod.subsubmod` is currently top-level, it will be embedded as submodule into `mod.submod`
         //          and `mod.submod` will be embedded in top-level `mod`
         pyo3::Python::with_gil(|py| {
-            self.modules.iter_mut().for_each(|module| {
+            self.modules.iter_mut().try_for_each(|module| {
                 if module.name.len() > 1 {
-                    *module =
-                        (0..module.name.len() - 1)
-                            .rev()
-                            .fold(module.clone(), |package, i| {
-                                let name = Path::from(&module.name[0..=i]);
-                                let mut parent_package =
-                                    Module::empty(py, name).unwrap_or_else(|_| unreachable!());
-                                parent_package.submodules.push(package);
-                                parent_package
-                            });
+                    *module = (0..module.name.len() - 1).rev().try_fold(
+                        module.clone(),
+                        |package, i| {
+                            let name = Path::from(&module.name[0..=i]);
+                            let mut parent_package = Module::empty(py, name)?;
+                            parent_package.submodules.push(package);
+                            Result::Ok(parent_package)
+                        },
+                    )?;
                 }
-            });
-        });
+                Result::Ok(())
+            })
+        })?;
 
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
+        Ok(())
     }
 
     fn merge_duplicate_modules(&mut self) {
-- 
2.43.0


From 454aed07cd5ca222ad79b17a73f4551d7ec432b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 09/39] fix: accept methods, setters and signatures without the
 expected parameters

---
 pyo3_bindgen_engine/src/syntax/function.rs | 24 ++++++++++++++--------
 pyo3_bindgen_engine/src/syntax/property.rs | 16 ++++++++-------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..87fcfe7 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -65,9 +65,9 @@ impl Function {
 
                     let name =
                         Ident::from_py(&param.getattr(pyo3::intern!(py, "name"))?.to_string());
-                    let kind = ParameterKind::from(
+                    let kind = ParameterKind::try_from(
                         param.getattr(pyo3::intern!(py, "kind"))?.extract::<u8>()?,
-                    );
+                    )?;
                     let annotation = match kind {
                         ParameterKind::VarPositional => Type::PyTuple(vec![Type::Unknown]),
                         ParameterKind::VarKeyword => Type::Optional(Box::new(Type::PyDict {
@@ -252,7 +252,10 @@ impl Function {
                 ..
             } = typ
             {
-                parameters.remove(0);
+                // The first parameter is missing if it is passed as part of `*args` or if it is unused
+                if !parameters.is_empty() {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
@@ -702,15 +705,20 @@ enum ParameterKind {
     VarKeyword,
 }
 
-impl From<u8> for ParameterKind {
-    fn from(kind: u8) -> Self {
-        match kind {
+impl TryFrom<u8> for ParameterKind {
+    type Error = crate::PyBindgenError;
+    fn try_from(kind: u8) -> Result<Self> {
+        Ok(match kind {
             0 => Self::PositionalOnly,
             1 => Self::PositionalOrKeyword,
             2 => Self::VarPositional,
             3 => Self::KeywordOnly,
             4 => Self::VarKeyword,
-            _ => unreachable!(),
-        }
+            _ => {
+                return Err(crate::PyBindgenError::ParseError(format!(
+                    "Unknown kind of parameter: {kind}"
+                )))
+            }
+        })
     }
 }
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..605a2f1 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -90,19 +90,21 @@ impl Property {
 
                         // Extract the annotation from the parameter of the function (if available)
                         if let Ok(function_signature) = signature.call1((&setter,)) {
-                            setter_annotation = {
-                                let param = function_signature
-                                    .getattr(pyo3::intern!(py, "parameters"))?
-                                    .call_method0(pyo3::intern!(py, "values"))?
-                                    .iter()?
-                                    .nth(1)
-                                    .unwrap()?;
+                            let param = function_signature
+                                .getattr(pyo3::intern!(py, "parameters"))?
+                                .call_method0(pyo3::intern!(py, "values"))?
+                                .iter()?
+                                .nth(1)
+                                .transpose()?;
+                            setter_annotation = if let Some(param) = param {
                                 let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
                                 if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                     Type::Unknown
                                 } else {
                                     annotation.try_into()?
                                 }
+                            } else {
+                                Type::Unknown
                             };
                         } else {
                             setter_annotation = Type::Unknown;
-- 
2.43.0


From 2638fb739631052416ccc34797ea85742633d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 10/39] fix: keep reexports that have the same name as a broken
 submodule

---
 pyo3_bindgen_engine/src/syntax/module.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index b23bfa8..98e9034 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -227,10 +227,10 @@ impl Module {
                         if let Ok(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
                             .map_err(crate::PyBindgenError::from)
-                            .map(|attr| {
-                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
+                            .and_then(|attr| {
+                                Ok(<pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
                                     .downcast_into::<pyo3::types::PyModule>()
-                                    .unwrap()
+                                    .map_err(pyo3::PyErr::from)?)
                             })
                             .and_then(|module| Self::parse(cfg, &module))
                         {
@@ -275,6 +275,9 @@ impl Module {
                                 property.name = conflicting_import.target.clone();
                                 properties.push(property);
                             }
+                        } else {
+                            // There is no conflict if the submodule is not available
+                            imports.push(conflicting_import.clone());
                         }
                         return None;
                     }
-- 
2.43.0


From 691631c3a258fda0ec888de8d8c251c537f43988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 11/39] fix: do not parse modules that contain themselves
 endlessly

---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 98e9034..45f88cf 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -52,7 +52,17 @@ impl Module {
     }
 
     pub fn parse(cfg: &Config, module: &pyo3::Bound<pyo3::types::PyModule>) -> Result<Self> {
+        Self::parse_nested(cfg, module, &[])
+    }
+
+    /// Parse a module that is nested in the given parents (from the outermost to the innermost one).
+    fn parse_nested(
+        cfg: &Config,
+        module: &pyo3::Bound<pyo3::types::PyModule>,
+        parents: &[&pyo3::Bound<pyo3::types::PyModule>],
+    ) -> Result<Self> {
         let py = module.py();
+        let parents = [parents, &[module]].concat();
 
         // Extract the name of the module
         let name = Path::from_py(&module.name()?.to_string());
@@ -232,7 +242,7 @@ impl Module {
                                     .downcast_into::<pyo3::types::PyModule>()
                                     .map_err(pyo3::PyErr::from)?)
                             })
-                            .and_then(|module| Self::parse(cfg, &module))
+                            .and_then(|module| Self::parse_nested(cfg, &module, &parents))
                         {
                             // It could be any attribute, so all of them need to be checked
                             if let Some(mut import) = submodule
@@ -291,7 +301,9 @@ impl Module {
                         })
                         .ok()
                 })
-                .map(|submodule| Self::parse(cfg, &submodule))
+                // Skip submodules that are just another name for one of their parents
+                .filter(|submodule| !parents.iter().any(|parent| parent.is(submodule)))
+                .map(|submodule| Self::parse_nested(cfg, &submodule, &parents))
                 .collect::<Result<_>>()?
         } else {
             Vec::default()
-- 
2.43.0


From 04c983427d9e7b69ad92720e71c5bd144bd8092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 12/39] fix: accept annotations that look like an incomplete
 class name

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 940af21..3361914 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -413,7 +413,7 @@ impl std::str::FromStr for Type {
                     .strip_prefix("<class '")
                     .unwrap_or_else(|| unreachable!())
                     .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
+                    .unwrap_or_default(),
             )?,
 
             // enums
@@ -422,7 +422,7 @@ impl std::str::FromStr for Type {
                     .strip_prefix("<enum '")
                     .unwrap_or_else(|| unreachable!())
                     .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
+                    .unwrap_or_default(),
             )?,
 
             // typing
-- 
2.43.0


From 322b9ffdc6fd9983f9333139eaa9744f13288260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 13/39] fix: derive preludes independent of which submodules
 happen to be imported

---
 pyo3_bindgen_engine/src/syntax/module.rs | 32 ++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 45f88cf..72beceb 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -72,13 +72,6 @@ impl Module {
             ));
         }
 
-        // Extract the index of the module as prelude (if enabled)
-        let prelude = if cfg.generate_preludes {
-            Self::extract_prelude(cfg, module, &name)?
-        } else {
-            Vec::new()
-        };
-
         // Determine if the module is a package that contains submodules
         let is_package = module.hasattr(pyo3::intern!(py, "__path__"))?;
 
@@ -309,6 +302,14 @@ impl Module {
             Vec::default()
         };
 
+        // Extract the index of the module as prelude (if enabled)
+        // Note: This must be done after all submodules are imported, because they become attributes of the module
+        let prelude = if cfg.generate_preludes {
+            Self::extract_prelude(cfg, module, &name, &submodules)?
+        } else {
+            Vec::new()
+        };
+
         // Extract the docstring of the module
         let docstring = {
             let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
@@ -583,6 +584,7 @@ impl Module {
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
         module_name: &Path,
+        submodules: &[Self],
     ) -> Result<Vec<Ident>> {
         // Extract the index (__all__) of the module if it exists
         let mut index_attr_names = if let Ok(index) = module.index() {
@@ -597,11 +599,27 @@ impl Module {
 
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
+        // Note: Submodules are only considered if they are a part of the bindings, because the other submodules
+        //       are attributes of the module only if something else happened to import them already
         {
+            let is_submodule = |attr_name: &Ident| {
+                let full_name = module_name.join(&attr_name.clone().into()).to_py();
+                module
+                    .getattr(attr_name.as_py())
+                    .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
+                    .is_ok_and(|attr| attr.name().is_ok_and(|name| name.to_string() == full_name))
+            };
             let public_attr_names_set: HashSet<_> = crate::utils::dir::dir(module)?
                 .iter()
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
+                .filter(|attr_name| !is_submodule(attr_name))
+                .chain(
+                    submodules
+                        .iter()
+                        .filter(|submodule| submodule.name.parent().as_ref() == Some(module_name))
+                        .map(|submodule| submodule.name.name().clone()),
+                )
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
-- 
2.43.0


From 016ca4d4fa990bbe7fc6e0edb313a2aa65d0e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 14/39] fix: keep the order of items while merging modules

---
 pyo3_bindgen_engine/src/codegen.rs | 44 +++++++++---------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 701e537..a430023 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use itertools::Itertools;
 use pyo3::prelude::*;
-use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
+use rustc_hash::FxHashMap as HashMap;
 
 /// Engine for automatic generation of Rust FFI bindings to Python modules.
 ///
@@ -316,19 +316,13 @@ impl Codegen {
             Module {
                 prelude: input
                     .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.prelude.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
+                    .flat_map(|module| module.prelude.iter().cloned())
+                    .unique()
                     .collect(),
                 imports: input
                     .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.imports.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
+                    .flat_map(|module| module.imports.iter().cloned())
+                    .unique()
                     .collect(),
                 submodules: {
                     let mut submodules =
@@ -348,35 +342,23 @@ impl Codegen {
                 },
                 classes: input
                     .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.classes.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
+                    .flat_map(|module| module.classes.iter().cloned())
+                    .unique()
                     .collect(),
                 functions: input
                     .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.functions.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
+                    .flat_map(|module| module.functions.iter().cloned())
+                    .unique()
                     .collect(),
                 type_vars: input
                     .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.type_vars.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
+                    .flat_map(|module| module.type_vars.iter().cloned())
+                    .unique()
                     .collect(),
                 properties: input
                     .iter()
-                    .fold(HashSet::default(), |mut prelude, module| {
-                        prelude.extend(module.properties.iter().cloned());
-                        prelude
-                    })
-                    .into_iter()
+                    .flat_map(|module| module.properties.iter().cloned())
+                    .unique()
                     .collect(),
                 ..input[0].clone()
             }
-- 
2.43.0


From da86c1352151b68339542b1d2457c454ca2e3c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 15/39] fix: do not add an empty __all__ to the inspected
 modules

---
 pyo3_bindgen_engine/src/syntax/module.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 72beceb..395b05f 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -587,7 +587,11 @@ impl Module {
         submodules: &[Self],
     ) -> Result<Vec<Ident>> {
         // Extract the index (__all__) of the module if it exists
-        let mut index_attr_names = if let Ok(index) = module.index() {
+        // Note: `PyModule::index()` must not be used here because it adds a missing index to the module
+        let mut index_attr_names = if let Ok(index) = module
+            .getattr(pyo3::intern!(module.py(), "__all__"))
+            .and_then(|index| Ok(index.downcast_into::<pyo3::types::PyList>()?))
+        {
             index
                 .iter()
                 .map(|x| Ident::from_py(&x.to_string()))
-- 
2.43.0


From d210c460cfbb54975ea94fa7321e2b2d671abad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 16/39] fix: do not execute source code in the namespace of
 another module with the same name

---
 pyo3_bindgen_engine/src/codegen.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index a430023..da776a0 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -104,13 +104,28 @@ impl Codegen {
         let (stdout, stderr) = self.suppressed_outputs();
         pyo3::Python::with_gil(|py| {
             crate::io_utils::with_suppressed_python_output(py, stdout, stderr, || {
-                let module = pyo3::types::PyModule::from_code_bound(
+                // Do not execute the source code in the namespace of another module that has the same name
+                let sys_modules = py
+                    .import_bound(pyo3::intern!(py, "sys"))?
+                    .getattr(pyo3::intern!(py, "modules"))?;
+                let previous_module = sys_modules.get_item(module_name).ok();
+                if previous_module.is_some() {
+                    sys_modules.del_item(module_name)?;
+                }
+                match pyo3::types::PyModule::from_code_bound(
                     py,
                     source_code,
                     &format!("{module_name}/__init__.py"),
                     module_name,
-                )?;
-                self.module(&module)
+                ) {
+                    Ok(module) => self.module(&module),
+                    Err(err) => {
+                        if let Some(previous_module) = previous_module {
+                            sys_modules.set_item(module_name, previous_module)?;
+                        }
+                        Err(err.into())
+                    }
+                }
             })
         })
     }
-- 
2.43.0


From 73a389e906e7e7561451085d0ea13872f591c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 17/39] fix: embed the source code of modules with dotted names
 and names that are Rust keywords

---
 pyo3_bindgen_engine/src/codegen.rs       | 18 +++++++++++++-----
 pyo3_bindgen_engine/src/syntax/module.rs |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index da776a0..2a837e8 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -171,6 +171,18 @@ impl Codegen {
     }
 
     fn generate_bindings(mut self) -> Result<proc_macro2::TokenStream> {
+        fn embed_source_code_recursive(
+            modules: &mut [Module],
+            source_code: &HashMap<String, String>,
+        ) {
+            for module in modules {
+                if let Some(source_code) = source_code.get(&module.name.to_py()) {
+                    module.source_code = Some(source_code.clone());
+                }
+                embed_source_code_recursive(&mut module.submodules, source_code);
+            }
+        }
+
         // Parse external modules (if enabled)
         if self.cfg.generate_dependencies {
             self.parse_dependencies()?;
@@ -180,11 +192,7 @@ impl Codegen {
         self.canonicalize()?;
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        embed_source_code_recursive(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
         self.modules
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 395b05f..dde4a1c 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -499,7 +499,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From 38f3b4f4cdf1a7052e55ab262fc7de30a304ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 18/39] fix: generate added submodules also if the traversal of
 submodules is disabled

---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index dde4a1c..9508578 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -487,15 +487,13 @@ impl Module {
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-        // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Submodules (if their traversal is disabled, there are only those that were added explicitly)
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-- 
2.43.0


From 605c240a2ae674f586476a74c22427f7a6332901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 19/39] fix: do not use values that are no strings as
 docstrings

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  9 +--------
 pyo3_bindgen_engine/src/syntax/function.rs |  9 +--------
 pyo3_bindgen_engine/src/syntax/module.rs   | 18 ++----------------
 pyo3_bindgen_engine/src/syntax/property.rs | 20 ++------------------
 pyo3_bindgen_engine/src/utils/docstring.rs | 13 +++++++++++++
 pyo3_bindgen_engine/src/utils/mod.rs       |  1 +
 6 files changed, 20 insertions(+), 50 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/docstring.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 036fb1f..6a38220 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -123,14 +123,7 @@ impl Class {
             })?;
 
         // Extract the docstring of the class
-        let docstring = {
-            let docstring = class.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::docstring::extract_docstring(class.as_any())?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 87fcfe7..9b61da9 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -41,14 +41,7 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
-        let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::docstring::extract_docstring(function)?;
 
         // Extract the signature of the function
         if let Ok(function_signature) = py
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 9508578..e0a35fb 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -27,14 +27,7 @@ impl Module {
         let module = py.import_bound(name.to_py().as_str())?;
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::docstring::extract_docstring(module.as_any())?;
 
         Ok(Self {
             name,
@@ -311,14 +304,7 @@ impl Module {
         };
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::docstring::extract_docstring(module.as_any())?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 605a2f1..ec60f7b 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -70,15 +70,7 @@ impl Property {
 
                     // Update the docstring if it is empty
                     if docstring.is_none() {
-                        docstring = {
-                            let docstring =
-                                getter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        docstring = crate::utils::docstring::extract_docstring(&getter)?;
                     }
                 } else {
                     annotation = Type::try_from(typ)?;
@@ -110,15 +102,7 @@ impl Property {
                             setter_annotation = Type::Unknown;
                         }
 
-                        setter_docstring = {
-                            let docstring =
-                                setter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        setter_docstring = crate::utils::docstring::extract_docstring(&setter)?;
 
                         if docstring.is_none() {
                             // Update the getter docstring to match setter docstring if it is still empty
diff --git a/pyo3_bindgen_engine/src/utils/docstring.rs b/pyo3_bindgen_engine/src/utils/docstring.rs
new file mode 100644
index 0000000..e7a1574
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/docstring.rs
@@ -0,0 +1,13 @@
+use crate::Result;
+use pyo3::prelude::*;
+
+/// Extract the docstring of the given object. Anything that is not a string is not considered to be a docstring because
+/// its text representation might include details that differ between runs, e.g. the address of the object in memory.
+pub fn extract_docstring(object: &Bound<'_, PyAny>) -> Result<Option<String>> {
+    let docstring = object.getattr(pyo3::intern!(object.py(), "__doc__"))?;
+    if !docstring.is_instance_of::<pyo3::types::PyString>() {
+        return Ok(None);
+    }
+    let docstring = docstring.to_string();
+    Ok((!docstring.is_empty() && docstring != "None").then_some(docstring))
+}
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 325eb67..f1f776b 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -1,6 +1,7 @@
 //! Various utilities.
 
 pub(crate) mod dir;
+pub(crate) mod docstring;
 pub mod error;
 pub(crate) mod io;
 pub mod result;
-- 
2.43.0


From 009c0c93ae2f92616795a9fba1ebe9f7e5c79859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 20/39] fix: import submodules by their own name in the
 bindings

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 10 ++++++++++
 pyo3_bindgen_engine/src/syntax/function.rs    |  2 +-
 pyo3_bindgen_engine/src/syntax/property.rs    |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index a7bcc2b..6ad9b1e 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -193,6 +193,16 @@ impl Path {
         }
     }
 
+    pub fn import_module_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        // Import the module itself, because submodules are not attributes of their package until they are imported
+        let module_name = self.to_py();
+        if py.import_bound(module_name.as_str()).is_ok() {
+            quote::quote! { py.import_bound(::pyo3::intern!(py, #module_name))? }
+        } else {
+            self.import_quote(py)
+        }
+    }
+
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
         // Find the last package and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 9b61da9..0eed9df 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -473,7 +473,7 @@ impl Function {
                 self.name
                     .parent()
                     .unwrap_or_else(|| unreachable!())
-                    .import_quote(py)
+                    .import_module_quote(py)
             }),
             FunctionType::Method {
                 class_path,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index ec60f7b..e682948 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -235,7 +235,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
@@ -312,7 +312,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
-- 
2.43.0


From 5b4b1eab8fb60918a06fe40405163e03c2200cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 21/39] fix: bind parameters named with an underscore

---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 0eed9df..9a2faef 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -95,9 +95,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
-- 
2.43.0


From 1560cb22a6221f00594a360307f29ce65af72d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 22/39] fix: keep the variadic parameter of methods that
 receive self through it

---
 pyo3_bindgen_engine/src/syntax/function.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 9a2faef..ce86d00 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -242,8 +242,14 @@ impl Function {
                 ..
             } = typ
             {
-                // The first parameter is missing if it is passed as part of `*args` or if it is unused
-                if !parameters.is_empty() {
+                // The first parameter is missing if it is passed as part of `*args`
+                if parameters.first().is_some_and(|param| {
+                    [
+                        ParameterKind::PositionalOnly,
+                        ParameterKind::PositionalOrKeyword,
+                    ]
+                    .contains(&param.kind)
+                }) {
                     parameters.remove(0);
                 }
             };
-- 
2.43.0


From 485af101f6b230b224245243b640bb89e4000490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 23/39] fix: call methods without parameters through their
 class

---
 pyo3_bindgen_engine/src/syntax/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index ce86d00..48e131f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -221,8 +221,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -230,7 +230,7 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
-- 
2.43.0


From f073dcb2bfcd7ad0352a1a01ffbd5ceed88546bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 24/39] fix: do not modify the keyword arguments passed to a
 binding

---
 pyo3_bindgen_engine/src/syntax/function.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 48e131f..4e6604d 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -581,9 +581,9 @@ impl Function {
             } else {
                 quote::quote! {
                     {
-                        let __internal__kwargs = #var_keyword_args_ident;
+                        let __internal__kwargs = ::pyo3::types::PyDictMethods::copy(&#var_keyword_args_ident)?;
                         #(
-                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
                         )*
                         __internal__kwargs
                     }
@@ -598,7 +598,7 @@ impl Function {
                 {
                     let __internal__kwargs = ::pyo3::types::PyDict::new_bound(py);
                     #(
-                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
+                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
                     )*
                     __internal__kwargs
                 }
-- 
2.43.0


From 4c3e8c8721824edc25c232700e4f1f007b066edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 25/39] fix: determine the kind of a method from its class
 object

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  1 +
 pyo3_bindgen_engine/src/syntax/function.rs | 34 +++++++++-------------
 pyo3_bindgen_engine/src/syntax/module.rs   |  4 +--
 3 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 6a38220..7821e67 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -98,6 +98,7 @@ impl Class {
                                     _ => MethodType::Unknown,
                                 },
                             },
+                            Some(class),
                         )
                         ?;
                         methods.push(method);
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 4e6604d..5bdd135 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -37,6 +37,7 @@ impl Function {
         function: &pyo3::Bound<pyo3::types::PyAny>,
         name: Path,
         mut typ: FunctionType,
+        class: Option<&pyo3::Bound<pyo3::types::PyType>>,
     ) -> Result<Self> {
         let py = function.py();
 
@@ -112,28 +113,19 @@ impl Function {
                     class_path,
                     typ: method_typ,
                 } if *method_typ == MethodType::Unknown => {
-                    // Get the class object from its class path
-                    let class = py
-                        .import_bound(
-                            class_path
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .and_then(|root_module| {
-                            class_path.iter().skip(1).try_fold(
-                                root_module.extract::<&pyo3::types::PyAny>()?,
-                                |module, name| module.getattr(name.as_py()),
-                            )
-                        });
-
-                    // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
-                    if let Ok(static_fn_obj) = class.and_then(|class| {
+                    // Try to get the static object of the method (from __dict__ of the class or its bases), which still contains information about what kind of method it is
+                    let static_fn_obj = class.and_then(|class| {
                         class
-                            .getattr(pyo3::intern!(py, "__dict__"))?
-                            .get_item(name.name().as_py())
-                    }) {
+                            .getattr(pyo3::intern!(py, "__mro__"))
+                            .ok()?
+                            .iter()
+                            .ok()?
+                            .filter_map(|base| {
+                                base.ok()?.getattr(pyo3::intern!(py, "__dict__")).ok()
+                            })
+                            .find_map(|dict| dict.get_item(name.name().as_py()).ok())
+                    });
+                    if let Some(static_fn_obj) = static_fn_obj {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
                             .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index e0a35fb..1bd35cc 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -181,7 +181,7 @@ impl Module {
                     }
                     AttributeVariant::Function => {
                         let function =
-                            Function::parse(cfg, &attr, attr_name_full, FunctionType::Function)
+                            Function::parse(cfg, &attr, attr_name_full, FunctionType::Function, None)
                                 ?;
                         functions.push(function);
                     }
@@ -190,7 +190,7 @@ impl Module {
                     }
                     AttributeVariant::Closure => {
                         let function =
-                            Function::parse(cfg, &attr, attr_name_full, FunctionType::Closure)
+                            Function::parse(cfg, &attr, attr_name_full, FunctionType::Closure, None)
                                 ?;
                         functions.push(function);
                     }
-- 
2.43.0


From 7b3b3c7f541d2308a8fd458ceb5b24bef349be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 26/39] fix: pass bytes, frozen sets, variadic tuples and
 missing dictionaries as such

---
 pyo3_bindgen_engine/src/syntax/function.rs |  16 ++-
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 133 +++++++++++++++++----
 2 files changed, 126 insertions(+), 23 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 5bdd135..ad5397f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -367,9 +367,19 @@ impl Function {
             .iter()
             .zip(param_idents.iter())
             .map(|(param, param_ident)| {
-                param
-                    .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                if param.kind == ParameterKind::VarKeyword {
+                    quote::quote! {
+                        let #param_ident = if let Some(#param_ident) = #param_ident {
+                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#param_ident, py)
+                        } else {
+                            ::pyo3::types::PyDict::new_bound(py)
+                        };
+                    }
+                } else {
+                    param
+                        .annotation
+                        .preprocess_borrowed(param_ident, local_types)
+                }
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 1893098..581a07d 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -70,32 +70,125 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
-            Self::Optional(inner_type) => match inner_type.as_ref() {
-                Self::PyDict {
-                    key_type,
-                    value_type,
-                } if !key_type.is_hashable()
-                    || value_type
-                        .clone()
-                        .into_rs(local_types)
-                        .owned
-                        .to_string()
-                        .contains("PyAny") =>
-                {
+            _ => {
+                if let Some(converted) = self.convert_borrowed(&quote! { #ident }, local_types) {
                     quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
+                        let #ident = #converted;
                     }
+                } else {
+                    proc_macro2::TokenStream::new()
                 }
-                _ => proc_macro2::TokenStream::new(),
-            },
-            _ => proc_macro2::TokenStream::new(),
+            }
         }
     }
 
+    /// Conversion of a borrowed value into a Python object of this type.
+    /// Returns `None` if the default conversion already results in an object of this type.
+    fn convert_borrowed(
+        &self,
+        value: &proc_macro2::TokenStream,
+        local_types: &HashMap<Path, Path>,
+    ) -> Option<proc_macro2::TokenStream> {
+        let item = quote! { __internal__item };
+        let is_plain_dict = |key_type: &Self, value_type: &Self| {
+            key_type.is_hashable()
+                && !value_type
+                    .clone()
+                    .into_rs(local_types)
+                    .owned
+                    .to_string()
+                    .contains("PyAny")
+        };
+        let object = match self {
+            Self::PyBytes => quote! { ::pyo3::types::PyBytes::new_bound(py, &#value[..]) },
+            Self::PyByteArray => quote! { ::pyo3::types::PyByteArray::new_bound(py, &#value[..]) },
+            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
+                quote! { ::pyo3::types::PyFrozenSet::new_bound(py, #value)? }
+            }
+            Self::PyTuple(inner_types)
+                if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
+            {
+                let converted = inner_types[0].convert_or_default(&item, local_types);
+                quote! {
+                    ::pyo3::types::PyTuple::new_bound(
+                        py,
+                        #value.iter().map(|__internal__item| Ok(#converted)).collect::<::pyo3::PyResult<Vec<_>>>()?
+                    )
+                }
+            }
+            Self::PyTuple(inner_types) if inner_types.len() >= 2 => {
+                let items = (0..inner_types.len())
+                    .map(|i| {
+                        let i = syn::Index::from(i);
+                        quote! { (&#value.#i) }
+                    })
+                    .collect_vec();
+                if inner_types
+                    .iter()
+                    .zip(&items)
+                    .all(|(typ, item)| typ.convert_borrowed(item, local_types).is_none())
+                {
+                    return None;
+                }
+                let items = inner_types
+                    .iter()
+                    .zip(&items)
+                    .map(|(typ, item)| typ.convert_or_default(item, local_types));
+                quote! { ::pyo3::types::PyTuple::new_bound(py, [#(#items),*]) }
+            }
+            Self::PyList(inner_type) => {
+                let converted = inner_type.convert_borrowed(&item, local_types)?;
+                quote! {
+                    ::pyo3::types::PyList::new_bound(
+                        py,
+                        #value.iter().map(|__internal__item| Ok(#converted)).collect::<::pyo3::PyResult<Vec<_>>>()?
+                    )
+                }
+            }
+            Self::PyDict {
+                key_type,
+                value_type,
+            } if is_plain_dict(key_type, value_type) => {
+                if key_type.convert_borrowed(&item, local_types).is_none()
+                    && value_type.convert_borrowed(&item, local_types).is_none()
+                {
+                    return None;
+                }
+                let key = key_type.convert_or_default(&quote! { __internal__key }, local_types);
+                let converted = value_type.convert_or_default(&item, local_types);
+                quote! {
+                    {
+                        let __internal__dict = ::pyo3::types::PyDict::new_bound(py);
+                        for (__internal__key, __internal__item) in #value {
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__dict, #key, #converted)?;
+                        }
+                        __internal__dict
+                    }
+                }
+            }
+            Self::Optional(inner_type) => {
+                let converted = inner_type.convert_borrowed(&item, local_types)?;
+                return Some(quote! {
+                    match &#value {
+                        Some(__internal__item) => #converted,
+                        None => py.None(),
+                    }
+                });
+            }
+            _ => return None,
+        };
+        Some(quote! { ::pyo3::ToPyObject::to_object(&#object, py) })
+    }
+
+    fn convert_or_default(
+        &self,
+        value: &proc_macro2::TokenStream,
+        local_types: &HashMap<Path, Path>,
+    ) -> proc_macro2::TokenStream {
+        self.convert_borrowed(value, local_types)
+            .unwrap_or_else(|| quote! { ::pyo3::ToPyObject::to_object(#value, py) })
+    }
+
     fn into_rs(self, local_types: &HashMap<Path, Path>) -> OutputType {
         match self {
             Self::PyAny | Self::Unknown => OutputType::new(
-- 
2.43.0


From 4672fed9ef27e652b8a9905caa80cfbea22f4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 27/39] fix: use the type of the setter for its parameter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index e682948..8328571 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -301,11 +301,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From b97ea711ffa113364af1a85dc77e7d2e2552893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 28/39] fix: map the type of classes to classes, not to their
 instances

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 3361914..3c02628 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -177,10 +177,7 @@ impl Type {
                             // debug_assert!(!inner_types.is_empty());
                             function_from_inner_types(inner_types)
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            inner_type_at(&inner_types, 0)
-                        }
+                        Self::PyType => Self::PyType,
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -400,12 +397,7 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From d84834b138faad1595c812060b9426ee38ea22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 29/39] fix: map annotated types to the type they annotate

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 3c02628..1951d24 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -123,6 +123,10 @@ impl Type {
 
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
+            // The origin of annotated types is the complete type
+            if value.hasattr(pyo3::intern!(py, "__metadata__"))? {
+                return Ok(wrapping_type);
+            }
             Ok(
                 if let Ok(inner_types) =
                     value
-- 
2.43.0


From 27bf2b91da98503e013026dc3082af50a0a1c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 30/39] fix: correct the names of the types of IP addresses

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 581a07d..99367b1 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -295,8 +295,8 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
+            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From fc9bce35a71b809cfdaf265efdeac87d56bc028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 31/39] fix: do not map iterators to lists

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 1951d24..7ffe40b 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -296,7 +296,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyList(Box::new(inner_type))
             }
-            "Sequence" | "Iterable" | "Iterator" => Self::PyList(Box::new(Self::Unknown)),
+            "Sequence" | "Iterable" => Self::PyList(Box::new(Self::Unknown)),
             iterable if iterable.starts_with("Iterable[") && iterable.ends_with(']') => {
                 let inner_type = Self::from_str(
                     iterable
@@ -307,16 +307,6 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyList(Box::new(inner_type))
             }
-            iterator if iterator.starts_with("Iterator[") && iterator.ends_with(']') => {
-                let inner_type = Self::from_str(
-                    iterator
-                        .strip_prefix("Iterator[")
-                        .unwrap_or_else(|| unreachable!())
-                        .strip_suffix(']')
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::PyList(Box::new(inner_type))
-            }
             set if set.starts_with("set[") && set.ends_with(']') => {
                 let inner_type = Self::from_str(
                     set.strip_prefix("set[")
-- 
2.43.0


From caef94c420c0c2238305163c9d48b0398bc37929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 32/39] fix: pass paths as such

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 99367b1..9595aed 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -105,6 +105,13 @@ impl Type {
             Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
                 quote! { ::pyo3::types::PyFrozenSet::new_bound(py, #value)? }
             }
+            Self::Path => quote! {
+                ::pyo3::types::PyAnyMethods::call_method1(
+                    py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(),
+                    ::pyo3::intern!(py, "Path"),
+                    (#value,),
+                )?
+            },
             Self::PyTuple(inner_types)
                 if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
             {
-- 
2.43.0


From df69586818be6c40c549cd76e6c48c4755af1980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 33/39] fix: convert IP addresses with a type that can be
 extracted

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 9595aed..15c71a4 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -302,8 +302,10 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
+            // Note: Only `IpAddr` can be extracted from the Python objects
+            Self::IpV4Addr | Self::IpV6Addr => {
+                OutputType::new_identical(quote!(::std::net::IpAddr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From 90601527f8903042c5d7e16a3837c8d25a1a6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 34/39] fix: do not refer to types that are not generated

---
 pyo3_bindgen_engine/src/codegen.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 2a837e8..5fa5a9b 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -398,22 +398,27 @@ impl Codegen {
     }
 
     fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(input: &[Module]) -> Vec<Path> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
             let mut types = Vec::new();
             for module in input {
-                types.extend(module.classes.iter().map(|class| class.name.clone()));
-                types.extend(
-                    module
-                        .type_vars
-                        .iter()
-                        .map(|type_var| type_var.name.clone()),
-                );
-                types.extend(get_types_recursive(&module.submodules));
+                // Consider only types that are actually generated
+                if cfg.generate_classes {
+                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                }
+                if cfg.generate_type_vars {
+                    types.extend(
+                        module
+                            .type_vars
+                            .iter()
+                            .map(|type_var| type_var.name.clone()),
+                    );
+                }
+                types.extend(get_types_recursive(cfg, &module.submodules));
             }
             types
         }
 
-        get_types_recursive(&self.modules)
+        get_types_recursive(&self.cfg, &self.modules)
             .into_iter()
             .unique()
             .collect()
-- 
2.43.0


From 20274e8a1124a3714af04c60bdb527dc17db1d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 35/39] fix: generate bindings only for the last source code of
 a module

---
 pyo3_bindgen_engine/src/codegen.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 5fa5a9b..2dbbe96 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -97,8 +97,15 @@ impl Codegen {
     /// generated in the Rust bindings. This function must be called before attempting to use any functions
     /// of classes from the module.
     pub fn module_from_str(mut self, source_code: &str, module_name: &str) -> Result<Self> {
-        self.embedded_source_code
-            .insert(module_name.to_owned(), source_code.to_owned());
+        if self
+            .embedded_source_code
+            .insert(module_name.to_owned(), source_code.to_owned())
+            .is_some()
+        {
+            // There can be only one module of that name, so the bindings must belong to the source code that is embedded
+            self.modules
+                .retain(|module| module.name.to_py() != module_name);
+        }
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         let (stdout, stderr) = self.suppressed_outputs();
-- 
2.43.0


From 81525a3a28e6c8413900f53de9b5eb95df53f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 36/39] fix: do not parse text that is no identifier inside of
 macros

---
 .../src/syntax/common/ident.rs                | 44 +++++++++++++++++--
 pyo3_bindgen_engine/src/syntax/common/path.rs |  8 +++-
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index 379f4ff..35dc9db 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -1,3 +1,5 @@
+use pyo3::prelude::*;
+
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct Ident(String);
@@ -29,25 +31,61 @@ impl Ident {
     }
 
     fn py_to_rs(value: &str) -> String {
-        if syn::parse_str::<syn::Ident>(value).is_ok() {
+        if Self::is_lexable(value) && syn::parse_str::<syn::Ident>(value).is_ok() {
             value.to_owned()
         } else {
             format!("r#{value}")
         }
     }
+
+    /// Determine if the text can be lexed as a single identifier or keyword.
+    ///
+    /// Other text must not be parsed, because inside of procedural macros, the compiler
+    /// reports all text that it cannot lex as an error even if the result is not used.
+    pub fn is_lexable(value: &str) -> bool {
+        let name = match value.strip_prefix("r#") {
+            Some("_" | "crate" | "self" | "super" | "Self") => return false,
+            Some(name) => name,
+            None => value,
+        };
+        if name.is_ascii() {
+            !name.is_empty()
+                && !name.starts_with(|c: char| c.is_ascii_digit())
+                && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        } else {
+            // The lexical structure of identifiers is the same in Python
+            pyo3::Python::with_gil(|py| {
+                pyo3::types::PyString::new_bound(py, name)
+                    .call_method0(pyo3::intern!(py, "isidentifier"))
+                    .and_then(|is_identifier| is_identifier.is_truthy())
+                    .unwrap_or(false)
+            })
+        }
+    }
+
+    fn parse(value: &str) -> syn::Result<syn::Ident> {
+        if Self::is_lexable(value) {
+            syn::parse_str(value)
+        } else {
+            Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                format!("'{value}' is not an identifier"),
+            ))
+        }
+    }
 }
 
 impl TryFrom<Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(&value.into_rs())
+        Ident::parse(value.as_rs())
     }
 }
 
 impl TryFrom<&Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: &Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(value.as_rs())
+        Ident::parse(value.as_rs())
     }
 }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 6ad9b1e..4885e3f 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -269,13 +269,19 @@ impl std::cmp::Ord for Path {
 impl TryFrom<Path> for syn::Path {
     type Error = syn::Error;
     fn try_from(value: Path) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Path>(&value.into_rs())
+        Self::try_from(&value)
     }
 }
 
 impl TryFrom<&Path> for syn::Path {
     type Error = syn::Error;
     fn try_from(value: &Path) -> Result<Self, Self::Error> {
+        if let Some(segment) = value.iter().find(|segment| !Ident::is_lexable(segment)) {
+            return Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                format!("'{segment}' is not an identifier"),
+            ));
+        }
         syn::parse_str::<syn::Path>(&value.to_rs())
     }
 }
-- 
2.43.0


From 17b53880e25f79d2c4093ccf5cc6090d6df05e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 37/39] fix: do not re-export submodules that are not a part of
 the bindings

---
 pyo3_bindgen_engine/src/syntax/module.rs | 35 +++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 1bd35cc..a6fab15 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -585,29 +585,30 @@ impl Module {
             Vec::default()
         };
 
-        // Compare the index with public attrs of the module
-        // Return an empty vector if they are identical (no need to generate a prelude)
         // Note: Submodules are only considered if they are a part of the bindings, because the other submodules
         //       are attributes of the module only if something else happened to import them already
+        let is_submodule = |attr_name: &Ident| {
+            let full_name = module_name.join(&attr_name.clone().into()).to_py();
+            module
+                .getattr(attr_name.as_py())
+                .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
+                .is_ok_and(|attr| attr.name().is_ok_and(|name| name.to_string() == full_name))
+        };
+        let submodule_names: HashSet<_> = submodules
+            .iter()
+            .filter(|submodule| submodule.name.parent().as_ref() == Some(module_name))
+            .map(|submodule| submodule.name.name().clone())
+            .collect();
+
+        // Compare the index with public attrs of the module
+        // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let is_submodule = |attr_name: &Ident| {
-                let full_name = module_name.join(&attr_name.clone().into()).to_py();
-                module
-                    .getattr(attr_name.as_py())
-                    .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
-                    .is_ok_and(|attr| attr.name().is_ok_and(|name| name.to_string() == full_name))
-            };
             let public_attr_names_set: HashSet<_> = crate::utils::dir::dir(module)?
                 .iter()
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
                 .filter(|attr_name| !is_submodule(attr_name))
-                .chain(
-                    submodules
-                        .iter()
-                        .filter(|submodule| submodule.name.parent().as_ref() == Some(module_name))
-                        .map(|submodule| submodule.name.name().clone()),
-                )
+                .chain(submodule_names.iter().cloned())
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
@@ -638,7 +639,9 @@ impl Module {
 
         // Retain only allowed attributes
         index_attr_names.retain(|attr_name| {
-            if let Ok(attr) = module.getattr(attr_name.as_py()) {
+            if is_submodule(attr_name) && !submodule_names.contains(attr_name) {
+                false
+            } else if let Ok(attr) = module.getattr(attr_name.as_py()) {
                 let attr_type = attr.get_type();
                 cfg.is_attr_allowed(attr_name, module_name, &attr_type)
             } else {
-- 
2.43.0


From 6684d0264d40d1c65bda5c302726716538895957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 38/39] fix: map tuples with more elements than PyO3 converts
 to PyTuple

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 15c71a4..cb4c73d 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -37,7 +37,7 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types) if is_opaque_tuple(inner_types) => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -123,7 +123,7 @@ impl Type {
                     )
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() >= 2 => {
+            Self::PyTuple(inner_types) if !is_opaque_tuple(inner_types) => {
                 let items = (0..inner_types.len())
                     .map(|i| {
                         let i = syn::Index::from(i);
@@ -283,7 +283,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if is_opaque_tuple(&inner_types) {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
@@ -472,6 +472,14 @@ impl Type {
     }
 }
 
+/// The number of elements up to which `PyO3` converts tuples.
+const MAX_TUPLE_LEN: usize = 12;
+
+/// Returns `true` if the tuple can only be represented by `PyTuple`, rather than by a Rust tuple.
+fn is_opaque_tuple(inner_types: &[Type]) -> bool {
+    !(2..=MAX_TUPLE_LEN).contains(&inner_types.len())
+}
+
 #[derive(Debug, Clone)]
 struct OutputType {
     owned: Rc<proc_macro2::TokenStream>,
-- 
2.43.0


From 7e544dde8c3b5b39467bcb07444de7523ea1cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 39/39] fix: do not follow submodules overwritten by imports
 that lead back to their parents

---
 pyo3_bindgen_engine/src/syntax/module.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index a6fab15..3f6acb3 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -220,15 +220,17 @@ impl Module {
                         .iter()
                         .find(|import| import.target == full_submodule_name)
                     {
-                        if let Ok(submodule) = py
+                        if let Some(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
-                            .map_err(crate::PyBindgenError::from)
+                            .ok()
                             .and_then(|attr| {
-                                Ok(<pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
+                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
                                     .downcast_into::<pyo3::types::PyModule>()
-                                    .map_err(pyo3::PyErr::from)?)
+                                    .ok()
                             })
-                            .and_then(|module| Self::parse_nested(cfg, &module, &parents))
+                            // Skip submodules that are just another name for one of their parents
+                            .filter(|submodule| !parents.iter().any(|parent| parent.is(submodule)))
+                            .and_then(|module| Self::parse_nested(cfg, &module, &parents).ok())
                         {
                             // It could be any attribute, so all of them need to be checked
                             if let Some(mut import) = submodule
-- 
2.43.0

