From 3d9d4f673766a0806a778931be2d6aed368fde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:48 +0000
Subject: [PATCH 01/36] hook: include verification contracts under
 cfg(dyon_verif)

---
 src/ast/mod.rs      | 7 +++++++
 src/dyon_std/mod.rs | 7 +++++++
 src/lib.rs          | 8 ++++++++
 src/lifetime/mod.rs | 7 +++++++
 src/link.rs         | 7 +++++++
 src/module.rs       | 7 +++++++
 src/runtime/mod.rs  | 7 +++++++
 src/ty.rs           | 7 +++++++
 src/write.rs        | 7 +++++++
 9 files changed, 64 insertions(+)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index c8438d5..35444c6 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -4674,3 +4674,10 @@ impl In {
     #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
     fn get_locals(&mut self, _relative: usize, _module: &Module, _use_lookup: &UseLookup) {}
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/ast.rs"));
+}
diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 6b78d42..d01417e 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -2111,3 +2111,10 @@ pub(crate) fn next(rt: &mut Runtime) -> Result<Variable, String> {
         x => return Err(rt.expected_arg(0, x, "in")),
     })
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/dyon_std.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5d84a00..fa4f435 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![doc = include_str!("../README.md")]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 extern crate piston_meta;
 extern crate range;
 extern crate read_color;
@@ -769,3 +770,10 @@ pub fn error(res: Result<(), String>) -> bool {
         Ok(()) => false,
     }
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/lib.rs"));
+}
diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 34bb68f..946f498 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1255,3 +1255,10 @@ pub(crate) fn to_array(nodes: &[Node]) -> Vec<crate::Variable> {
     }
     res
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/lifetime.rs"));
+}
diff --git a/src/link.rs b/src/link.rs
index 9761962..6e1898c 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -281,3 +281,10 @@ impl Link {
         }
     }
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/link.rs"));
+}
diff --git a/src/module.rs b/src/module.rs
index 742f310..9c5fd6d 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -913,3 +913,10 @@ impl Module {
         self.add_unop(Arc::new(name.into()), f, prelude_function)
     }
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/module.rs"));
+}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a79786c..7d12ada 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2941,3 +2941,10 @@ fn stack_trace(call_stack: &[Call]) -> String {
     }
     s
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/runtime.rs"));
+}
diff --git a/src/ty.rs b/src/ty.rs
index c82956f..b15a467 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -596,3 +596,10 @@ impl Type {
         Ok((convert.subtract(start), ty.ok_or(())?))
     }
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/ty.rs"));
+}
diff --git a/src/write.rs b/src/write.rs
index 16b3c97..d5892c0 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -1006,3 +1006,10 @@ pub fn fmt(tab: i32, text: &str) -> String {
     }
     res
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/write.rs"));
+}
-- 
2.43.0


From 913dc3cf076f91bca9f4777650b45621c32b3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:22 +0000
Subject: [PATCH 02/36] fix: > and >= are false when an operand is NaN

---
 src/dyon_std/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index d01417e..459975a 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -57,22 +57,22 @@ pub(crate) fn less_or_equal(a: &Variable, b: &Variable) -> Result<Variable, Stri
 }
 
 pub(crate) fn greater(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less_or_equal(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a > b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a > b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
 pub(crate) fn greater_or_equal(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a >= b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a >= b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
-- 
2.43.0


From 10d980052e86245f16d61ab1bf26193221f1e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 03/36] fix: cv returns the column of the matrix, not the whole
 matrix

---
 src/dyon_std/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 459975a..baf6664 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -426,7 +426,7 @@ pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
         return Err(format!("Index out of bounds `{}`", ind));
     };
     let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
-    Ok(Variable::Mat4(Box::new(m)))
+    Ok(Variable::Vec4(m[ind]))
 }
 
 pub(crate) fn clone(rt: &mut Runtime) -> Result<Variable, String> {
-- 
2.43.0


From a9e0b9aebecfaa45719654f72de36d06aae4d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 04/36] fix: swap with an index out of bounds is an error
 instead of a panic

---
 src/dyon_std/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index baf6664..efda42d 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -898,7 +898,11 @@ pub(crate) fn swap(rt: &mut Runtime) -> Result<(), String> {
     let v = rt.stack.pop().expect(TINVOTS);
     if let Variable::Ref(ind) = v {
         let ok = if let Variable::Array(ref mut arr) = rt.stack[ind] {
-            Arc::make_mut(arr).swap(i as usize, j as usize);
+            let (i, j) = (i as usize, j as usize);
+            if i >= arr.len() || j >= arr.len() {
+                return Err("Index out of bounds".into());
+            }
+            Arc::make_mut(arr).swap(i, j);
             true
         } else {
             false
-- 
2.43.0


From 53700a748816edd8f5b842102d867d8c35450c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:34 +0000
Subject: [PATCH 05/36] fix: s, rv and cv report an argument of a wrong type as
 an error instead of panicking

---
 src/dyon_std/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index efda42d..dce736c 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -326,12 +326,12 @@ pub(crate) fn norm(v: &Variable) -> Result<Variable, String> {
 }
 
 pub(crate) fn s(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let v: [f32; 4] = rt.pop_vec4().expect(TINVOTS);
+    let v: [f32; 4] = rt.pop_vec4()?;
     Ok(Variable::f64(f64::from(v[ind])))
 }
 
@@ -405,12 +405,12 @@ dyon_fn! {fn rz(m: Mat4) -> Vec4 {Vec4([m.0[0][2], m.0[1][2], m.0[2][2], m.0[3][
 dyon_fn! {fn rw(m: Mat4) -> Vec4 {Vec4([m.0[0][3], m.0[1][3], m.0[2][3], m.0[3][3]])}}
 
 pub(crate) fn rv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
+    let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4([m[0][ind], m[1][ind], m[2][ind], m[3][ind]]))
 }
 
@@ -420,12 +420,12 @@ dyon_fn! {fn cz(m: Mat4) -> Vec4 {Vec4(m.0[2])}}
 dyon_fn! {fn cw(m: Mat4) -> Vec4 {Vec4(m.0[3])}}
 
 pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
+    let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4(m[ind]))
 }
 
-- 
2.43.0


From a7c446023eb47d8d82e665bf25b794c96b7a9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:24 +0000
Subject: [PATCH 06/36] fix: a call cut short by a lazy invariant leaves the
 stack as it was

---
 src/runtime/mod.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 7d12ada..7cf789f 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1395,6 +1395,8 @@ impl Runtime {
         lazy_inv: crate::LazyInvariant,
         info: &ast::CallInfo,
     ) -> FlowResult {
+        // Arguments pushed so far are removed when returning by a lazy invariant.
+        let base = self.stack.len();
         for (i, arg) in args.iter().enumerate() {
             match self.expression(arg, Side::Right)? {
                 (Some(x), Flow::Continue) => {
@@ -1405,22 +1407,29 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
@@ -1474,6 +1483,8 @@ impl Runtime {
         // Copy the module to avoid problems with borrow checker.
         let mod_copy = self.module.clone();
         let f = &mod_copy.functions[new_index];
+        // Arguments pushed so far are removed when returning by a lazy invariant.
+        let base = self.stack.len();
         // Arguments must be computed.
         if f.returns() {
             // Add return value before arguments on the stack.
@@ -1494,22 +1505,29 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(base);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
-- 
2.43.0


From 225f5203616d479afc63a10cf1133af9640f4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:34 +0000
Subject: [PATCH 07/36] fix: a function called by the host without giving its
 value is an error instead of a panic

---
 src/runtime/mod.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 7cf789f..6017ebc 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1657,10 +1657,7 @@ impl Runtime {
             (true, None) => {
                 match self.stack.pop().expect(TINVOTS) {
                     Variable::Return => {
-                        let source = custom_source.as_ref().unwrap_or(
-                            &self.module.functions[self.call_stack.last()
-                                .expect(CSIE).index].source,
-                        );
+                        let source = self.caller_source(custom_source, f);
                         Err(self.module.error_source(
                             info.source_range,
                             &format!(
@@ -1679,10 +1676,7 @@ impl Runtime {
                 }
             }
             (false, Some(_)) => {
-                let source = custom_source.as_ref().unwrap_or(
-                    &self.module.functions[self.call_stack.last()
-                        .expect(CSIE).index].source,
-                );
+                let source = self.caller_source(custom_source, f);
                 Err(self.module.error_source(
                     info.source_range,
                     &format!(
@@ -1696,10 +1690,7 @@ impl Runtime {
             (true, Some(Variable::Return)) => {
                 // TODO: Could return the last value on the stack.
                 //       Requires .pop_fn delayed after.
-                let source = custom_source.as_ref().unwrap_or(
-                    &self.module.functions[self.call_stack.last()
-                        .expect(CSIE).index].source,
-                );
+                let source = self.caller_source(custom_source, f);
                 Err(self.module.error_source(
                     info.source_range,
                     &format!(
@@ -1720,6 +1711,21 @@ impl Runtime {
         }
     }
 
+    /// Gets the source of the caller, for reporting errors at the call.
+    ///
+    /// Uses the source of the function when it is called from the outside.
+    fn caller_source<'a>(
+        &'a self,
+        custom_source: &'a Option<Arc<String>>,
+        f: &'a ast::Function,
+    ) -> &'a Arc<String> {
+        match (custom_source, self.call_stack.last()) {
+            (Some(source), _) => source,
+            (None, Some(call)) => &self.module.functions[call.index].source,
+            (None, None) => &f.source,
+        }
+    }
+
     /// Used internally because loaded functions are looked up
     /// relative to the caller, which stores its index on the
     /// call stack.
-- 
2.43.0


From daf90d14396a74c1e547f99994d04644a0689c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 08/36] fix: a value made of several references lives as long
 as the shortest of them

---
 src/lifetime/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index 191095b..f6eed0f 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -380,7 +380,7 @@ impl Node {
             };
             min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
                 None => Some(lifetime),
-                Some(Some(std::cmp::Ordering::Less)) => Some(lifetime),
+                Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
                 Some(None) => return Err(LifetimeError::FailedToUnify),
                 _ => min,
             };
-- 
2.43.0


From a6c1fd58ecfceed1bba3bc3c1dd979da0985f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:15 +0000
Subject: [PATCH 09/36] fix: an argument outlives only the arguments its own
 lifetime leads to

---
 src/lifetime/lt.rs   | 38 ++++++++++++++++++++++++++++----------
 src/lifetime/node.rs | 11 ++++++-----
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/lifetime/lt.rs b/src/lifetime/lt.rs
index ac80852..4a81bfa 100644
--- a/src/lifetime/lt.rs
+++ b/src/lifetime/lt.rs
@@ -55,18 +55,36 @@ impl PartialOrd for Lifetime {
 }
 
 /// Takes two lists of arguments.
-/// If they have any argument in common, the longer list outlives the shorter.
-/// If they have no argument in common, it is not known whether one outlives
-/// the other.
+/// Each list starts with an argument, followed by the arguments it outlives,
+/// found by following the lifetime of each argument in turn.
+/// If one list ends with the other, then the longer list outlives the shorter.
+/// Otherwise, it is not known whether one outlives the other.
 fn compare_argument_outlives(a: &[usize], b: &[usize]) -> Option<Ordering> {
-    for &i in a {
-        for &j in b {
-            if i == j {
-                return Some(a.len().cmp(&b.len()));
-            }
-        }
+    if a.ends_with(b) || b.ends_with(a) {
+        Some(a.len().cmp(&b.len()))
+    } else {
+        None
     }
-    None
+}
+
+/// Gets a lifetime that outlives only what both lifetimes are known to outlive.
+pub(crate) fn unify(a: &Lifetime, b: &Lifetime) -> Option<Lifetime> {
+    use self::Lifetime::*;
+
+    match (a.partial_cmp(b), a, b) {
+        (Some(Ordering::Greater), _, _) => Some(b.clone()),
+        (Some(_), _, _) => Some(a.clone()),
+        (None, Argument(a), Argument(b)) => unify_arguments(a, b).map(Argument),
+        (None, Return(a), Return(b)) => unify_arguments(a, b).map(Return),
+        (None, _, _) => None,
+    }
+}
+
+/// Keeps the arguments at the end that both lists have in common,
+/// together with the argument that outlives these.
+fn unify_arguments(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
+    let n = a.iter().rev().zip(b.iter().rev()).take_while(|(a, b)| a == b).count();
+    if n == 0 { None } else { Some(a[a.len() - n - 1..].to_vec()) }
 }
 
 /// Gets the lifetime of a function argument.
diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index f6eed0f..ecfd764 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -1,5 +1,5 @@
 use super::kind::Kind;
-use super::lt::{arg_lifetime, Lifetime, LifetimeResult, LifetimeError};
+use super::lt::{arg_lifetime, unify, Lifetime, LifetimeResult, LifetimeError};
 use super::piston_meta::bootstrap::Convert;
 use super::piston_meta::MetaData;
 use super::ArgNames;
@@ -378,11 +378,12 @@ impl Node {
                 Err(LifetimeError::None) => continue,
                 Err(LifetimeError::FailedToUnify) => return Err(LifetimeError::FailedToUnify),
             };
-            min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
+            min = match min {
                 None => Some(lifetime),
-                Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
-                Some(None) => return Err(LifetimeError::FailedToUnify),
-                _ => min,
+                Some(ref l) => match unify(l, &lifetime) {
+                    None => return Err(LifetimeError::FailedToUnify),
+                    x => x,
+                },
             };
         }
         min.ok_or(LifetimeError::None)
-- 
2.43.0


From 994b5600d3b192bd60723d4381e0fc405f0d7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:00 +0000
Subject: [PATCH 10/36] fix: only a variable can be passed where the argument
 must outlive the result or another argument

The search for the variable went through any first child, so `id([x])` was taken for a reference to `x`
and the result referred to the slot of the argument, which is gone after the call.
---
 src/lifetime/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 946f498..0858222 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -996,11 +996,11 @@ pub(crate) fn check_core(
                 let node: &Node = &nodes[n];
                 match node.kind {
                     Kind::Item => break,
-                    Kind::Call => {
+                    Kind::CallArg | Kind::Add | Kind::Expr | Kind::Mul | Kind::Val => {}
+                    _ => {
                         can_be_item = false;
                         break;
                     }
-                    _ => {}
                 }
                 if node.children.is_empty() {
                     can_be_item = false;
-- 
2.43.0


From 5f460258e39d387d8a7f68bfafcc308cb70db0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 11/36] fix: a failing `?` inside a swizzle returns its error
 from the function

---
 src/runtime/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 6017ebc..c1356ca 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -660,10 +660,7 @@ impl Runtime {
             If(ref if_expr) => self.if_expr(if_expr),
             Variable(ref range_var) => Ok((Some(range_var.1.clone()), Flow::Continue)),
             Try(ref expr) => self.try_fun(expr, side),
-            Swizzle(ref sw) => {
-                let flow = self.swizzle(sw)?;
-                Ok((None, flow))
-            }
+            Swizzle(ref sw) => self.swizzle(sw),
             Closure(ref closure) => self.closure(closure),
             CallClosure(ref call) => self.call_closure(call),
             Grab(ref g) => self.err(
@@ -1822,11 +1819,11 @@ impl Runtime {
         }
     }
 
-    fn swizzle(&mut self, sw: &ast::Swizzle) -> Result<Flow, String> {
+    fn swizzle(&mut self, sw: &ast::Swizzle) -> FlowResult {
         let v = match self.expression(&sw.expr, Side::Right)? {
             (Some(x), Flow::Continue) => x,
-            (_, Flow::Return) => {
-                return Ok(Flow::Return);
+            (x, Flow::Return) => {
+                return Ok((x, Flow::Return));
             }
             _ => {
                 return Err(self.module.error(
@@ -1852,7 +1849,7 @@ impl Runtime {
         if let Some(ind) = sw.sw3 {
             self.stack.push(Variable::f64(f64::from(v[ind])));
         }
-        Ok(Flow::Continue)
+        Ok((None, Flow::Continue))
     }
 
     fn link(&mut self, link: &ast::Link) -> FlowResult {
-- 
2.43.0


From fd3db4b6527f7f6a0cf3119f8b110354712992a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 12/36] fix: a variable can be the condition of a `for` loop

---
 src/runtime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c1356ca..fde46bc 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2796,7 +2796,7 @@ impl Runtime {
                     )
                 }
             };
-            let val = match val {
+            let val = match *self.get(&val) {
                 Variable::Bool(val, _) => val,
                 _ => return self.err(for_expr.cond.source_range(), "Expected bool"),
             };
-- 
2.43.0


From 99303dd205b261784e988a86ccb39d3f4c4255ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 13/36] fix: a current object declared by a `for` loop ends
 with the loop

---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index fde46bc..682e517 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2770,6 +2770,7 @@ impl Runtime {
     fn for_expr(&mut self, for_expr: &ast::For) -> FlowResult {
         let prev_st = self.stack.len();
         let prev_lc = self.local_stack.len();
+        let prev_cu = self.current_stack.len();
         match self.expression(&for_expr.init, Side::Right)? {
             (None, Flow::Continue) => {}
             (x, Flow::Return) => {
@@ -2859,6 +2860,7 @@ impl Runtime {
         }
         self.stack.truncate(prev_st);
         self.local_stack.truncate(prev_lc);
+        self.current_stack.truncate(prev_cu);
         Ok((None, flow))
     }
     fn vec4(&mut self, vec4: &ast::Vec4, side: Side) -> FlowResult {
-- 
2.43.0


From 3a1a9d6ccc35a0104a68a95e1a2c3599a19d0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:27 +0000
Subject: [PATCH 14/36] fix: appending a string to itself does not read freed
 memory

---
 src/runtime/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 682e517..0b1bc36 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2151,7 +2151,11 @@ impl Runtime {
                     match *r.0 {
                         Variable::Str(ref mut n) => match op {
                             Set => *n = b.clone(),
-                            Add => Arc::make_mut(n).push_str(b),
+                            Add => {
+                                // The right side can be the string that is changed.
+                                let b = b.clone();
+                                Arc::make_mut(n).push_str(&b)
+                            }
                             _ => unimplemented!(),
                         },
                         Variable::Return => {
-- 
2.43.0


From bce83a79dfc2b0cac59060fec849886f5cb2e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:25 +0000
Subject: [PATCH 15/36] fix: an assignment operator without a meaning is an
 error and not a panic

---
 src/runtime/mod.rs | 51 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 0b1bc36..16df521 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2122,7 +2122,12 @@ impl Runtime {
                         Variable::Bool(ref mut n, ref mut n_sec) => {
                             match op {
                                 Set => *n = b,
-                                _ => unimplemented!(),
+                                _ => {
+                                    return self.err(
+                                        left.source_range(),
+                                        "Can not use this assignment operator with `bool`",
+                                    )
+                                }
                             };
                             *n_sec = sec.clone();
                         }
@@ -2156,7 +2161,12 @@ impl Runtime {
                                 let b = b.clone();
                                 Arc::make_mut(n).push_str(&b)
                             }
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `text`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2185,7 +2195,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Object(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2204,7 +2217,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Array(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `array`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2223,7 +2239,12 @@ impl Runtime {
                             Set => *n = b.clone(),
                             Add => **n = n.add(b),
                             Sub => **n = b.add(n),
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `link`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2241,7 +2262,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Option(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `option`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2260,7 +2284,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Result(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `result`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2279,7 +2306,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::RustObject(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `rust_object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2301,7 +2331,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Closure(b.clone(), env.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `closure`",
+                                );
                             }
                         }
                         Variable::Return => {
-- 
2.43.0


From 9e50fec17add39c34dcb880ec1c80ace4dccea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:27 +0000
Subject: [PATCH 16/36] fix: `?` on a property does not change the property

---
 src/runtime/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 16df521..b6f871a 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -360,6 +360,14 @@ fn item_lookup(
     }
 }
 
+// Looks up the value inside `ok(_)` or `some(_)`, leaving the property as it is.
+fn unwrapped(var: *mut Variable) -> *mut Variable {
+    match unsafe {var.as_mut().unwrap()} {
+        Variable::Result(Ok(x)) | Variable::Option(Some(x)) => &mut **x,
+        x => x,
+    }
+}
+
 impl Runtime {
     /// Creates a new Runtime.
     pub fn new() -> Runtime {
@@ -2624,10 +2632,10 @@ impl Runtime {
                     }
                 };
                 match v {
-                    Ok(ref ok) => unsafe {
-                        *var = (**ok).clone();
+                    Ok(_) => {
+                        var = unwrapped(var);
                         try_id_ind += 1;
-                    },
+                    }
                     Err(ref err) => {
                         let call = call_stack.last().expect(CSIE);
                         if call.stack_len == 0 {
@@ -2700,10 +2708,10 @@ impl Runtime {
                         }
                     };
                     match v {
-                        Ok(ref ok) => unsafe {
-                            *var = (**ok).clone();
+                        Ok(_) => {
+                            var = unwrapped(var);
                             try_id_ind += 1;
-                        },
+                        }
                         Err(ref err) => {
                             let call = call_stack.last().expect(CSIE);
                             if call.stack_len == 0 {
-- 
2.43.0


From 47d44830cb33fbe432e546af6b0166c3db1963e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 17/36] fix: an array of indices can be older than the array it
 looks up

---
 src/runtime/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index b6f871a..5adc966 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -223,8 +223,7 @@ fn item_lookup(
                     } else {
                         id
                     };
-                    let (prev_stack, stack) = stack.split_at_mut(id);
-                    match stack[0] {
+                    match stack[id] {
                         F64(id, _) => {
                             *expr_j += 1;
                             id
@@ -242,12 +241,13 @@ fn item_lookup(
                             //   ^  ^---- to `b` in `[a, b]`.
                             //   \---- points to first array `[a, b]`.
                             let mut arr: *mut Vec<Variable> = Arc::make_mut(arr);
+                            let indices = indices.clone();
                             let n = indices.len();
                             for (i, ind) in indices.iter().enumerate() {
                                 let id: f64 = match ind {
                                     F64(id, _) => *id,
                                     Ref(x) => {
-                                        if let F64(id, _) = prev_stack[*x] {
+                                        if let F64(id, _) = stack[*x] {
                                             id
                                         } else {
                                             break;
@@ -279,7 +279,7 @@ fn item_lookup(
                                         if last {
                                             Ok(v)
                                         } else {
-                                            Ok(&mut prev_stack[id])
+                                            Ok(&mut stack[id])
                                         }
                                     } else {
                                         Ok(v)
@@ -290,7 +290,7 @@ fn item_lookup(
                                         arr = Arc::make_mut(new_arr);
                                     }
                                     Ref(x) => {
-                                        if let Array(ref mut new_arr) = prev_stack[x]
+                                        if let Array(ref mut new_arr) = stack[x]
                                         {
                                             arr = Arc::make_mut(new_arr);
                                         } else {
-- 
2.43.0


From fb852f5af6e3b896bf71c2a5c6e38bbd2204f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:11 +0000
Subject: [PATCH 18/36] fix: `?` on a property that is a reference looks up the
 reference

---
 src/runtime/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 5adc966..c437a22 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2616,6 +2616,9 @@ impl Runtime {
             let mut try_id_ind = 0;
             if !item.try_ids.is_empty() && item.try_ids[try_id_ind] == 0 {
                 // Check for error on `?` for first id.
+                if let Variable::Ref(id) = unsafe { &*var } {
+                    var = &mut stack[*id];
+                }
                 let v = unsafe {
                     match Runtime::try_msg(&*var) {
                         Some(v) => v,
@@ -2692,6 +2695,9 @@ impl Runtime {
 
                 if item.try_ids.len() > try_id_ind && item.try_ids[try_id_ind] == i + 1 {
                     // Check for error on `?` for rest of ids.
+                    if let Variable::Ref(id) = unsafe { &*var } {
+                        var = &mut stack[*id];
+                    }
                     let v = unsafe {
                         match Runtime::try_msg(&*var) {
                             Some(v) => v,
-- 
2.43.0


From 402f6804700b684a9aa89355bcfb7787af0a36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:13 +0000
Subject: [PATCH 19/36] fix: a computed index can follow an array of indices

---
 src/runtime/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c437a22..2ebf6f2 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -229,6 +229,7 @@ fn item_lookup(
                             id
                         }
                         Array(ref indices) => {
+                            *expr_j += 1;
                             // Use indices in array.
                             //
                             // This uses an unsafe pointer safely, because an array lookup
-- 
2.43.0


From b5e998fb8651e44dba26045f76bb1a64c2f6a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:40 +0000
Subject: [PATCH 20/36] fix: a loop that computes a value over an empty channel
 gives the value of no items

---
 src/runtime/for_in.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/runtime/for_in.rs b/src/runtime/for_in.rs
index 10e389e..2fb1479 100644
--- a/src/runtime/for_in.rs
+++ b/src/runtime/for_in.rs
@@ -18,11 +18,11 @@ macro_rules! iter(
 );
 
 macro_rules! iter_val(
-    ($iter:ident, $rt:ident, $for_in_expr:ident) => {
+    ($iter:ident, $rt:ident, $for_in_expr:ident, $empty:expr) => {
         match $iter.lock() {
             Ok(x) => match x.try_recv() {
                 Ok(x) => x,
-                Err(_) => return Ok((None, Flow::Continue)),
+                Err(_) => return Ok(($empty, Flow::Continue)),
             },
             Err(err) => {
                 return Err($rt.module.error($for_in_expr.source_range,
@@ -86,7 +86,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, None);
 
         // Initialize counter.
         self.local_stack
@@ -123,7 +123,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(0.0)));
 
         let mut sum = 0.0;
 
@@ -174,7 +174,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(1.0)));
 
         let mut prod = 1.0;
 
@@ -225,7 +225,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(f64::NAN)));
 
         let mut min = ::std::f64::NAN;
         let mut sec = None;
@@ -293,7 +293,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(f64::NAN)));
 
         let mut max = ::std::f64::NAN;
         let mut sec = None;
@@ -361,7 +361,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(false)));
 
         let mut any = false;
         let mut sec = None;
@@ -431,7 +431,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(true)));
 
         let mut all = true;
         let mut sec = None;
@@ -508,7 +508,7 @@ impl Runtime {
             let prev_lc = rt.local_stack.len();
 
             let iter = iter!(rt, for_in_expr);
-            let iter_val = iter_val!(iter, rt, for_in_expr);
+            let iter_val = iter_val!(iter, rt, for_in_expr, None);
 
             // Initialize counter.
             rt.local_stack
@@ -636,7 +636,7 @@ impl Runtime {
         let mut res: Vec<Variable> = vec![];
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::Array(Arc::new(res))));
 
         // Initialize counter.
         self.local_stack
-- 
2.43.0


From 9a16c51efe97a87db6e1eaacd6527afb4d81b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:41 +0000
Subject: [PATCH 21/36] fix: a literal under a unary operator has its own type,
 not the operator's first

---
 src/lifetime/node.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index ecfd764..677441e 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -56,11 +56,38 @@ impl Node {
         }
     }
 
-    pub fn rewrite_unop(i: usize, name: Arc<String>, nodes: &mut [Node]) {
+    pub fn rewrite_unop(i: usize, name: Arc<String>, nodes: &mut Vec<Node>) {
         nodes[i].kind = Kind::Call;
         nodes[i].names.push(name);
         let ch = nodes[i].children[0];
-        nodes[ch].kind = Kind::CallArg;
+        if !nodes[ch].children.is_empty() {
+            nodes[ch].kind = Kind::CallArg;
+            return;
+        }
+
+        // A literal is its own expression, so it needs an argument node.
+        let arg = nodes.len();
+        nodes.push(Node {
+            kind: Kind::CallArg,
+            names: vec![],
+            ty: None,
+            declaration: None,
+            alias: None,
+            mutable: false,
+            try_flag: false,
+            grab_level: 0,
+            source: nodes[ch].source,
+            start: nodes[ch].start,
+            end: nodes[ch].end,
+            lifetime: None,
+            op: None,
+            binops: vec![],
+            lts: vec![],
+            parent: Some(i),
+            children: vec![ch],
+        });
+        nodes[ch].parent = Some(arg);
+        nodes[i].children[0] = arg;
     }
 
     pub fn rewrite_binop(i: usize, name: Arc<String>, nodes: &mut Vec<Node>) {
-- 
2.43.0


From f3b3f8a0149b53279f6bbe8725f5efee8eb725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:08 +0000
Subject: [PATCH 22/36] fix: a result cut short by a lazy invariant does not
 refer to the argument

---
 src/runtime/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2ebf6f2..4fc1f1b 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1413,6 +1413,8 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // The argument might not live as long as the result.
+                                        let x = self.get(&x).clone();
                                         self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
@@ -1511,6 +1513,8 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // The argument might not live as long as the result.
+                                        let x = self.get(&x).clone();
                                         self.stack.truncate(base);
                                         return Ok((Some(x), Flow::Continue));
                                     }
-- 
2.43.0


From 181b755df50011c5c566568d9b04eade9db4775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:08 +0000
Subject: [PATCH 23/36] fix: the result of prod_vec4 refers to nothing, like
 that of sum_vec4

---
 src/lifetime/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index 677441e..2d45383 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -216,7 +216,7 @@ impl Node {
         use super::kind::Kind::*;
 
         match self.kind {
-            Pow | Sum | SumIn | Prod | ProdIn | SumVec4 | Min | MinIn | Max | MaxIn | Any
+            Pow | Sum | SumIn | Prod | ProdIn | SumVec4 | ProdVec4 | Min | MinIn | Max | MaxIn | Any
             | AnyIn | All | AllIn | LinkIn | Vec4 | Mat4 | Vec4UnLoop | Swizzle | Assign | For
             | ForN | ForIn | Link | LinkFor | Closure | CallClosure | Grab | TryExpr | Norm
             | In => false,
-- 
2.43.0


From ad99a1353f14881b532b7e9564e45573d74c620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:07 +0000
Subject: [PATCH 24/36] fix: ? in a function whose result is already set
 returns the error

---
 src/runtime/mod.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 4fc1f1b..0a61c81 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -60,6 +60,8 @@ pub struct Call {
     // was .2
     local_len: usize,
     current_len: usize,
+    /// Whether the function returns a value.
+    returns: bool,
 }
 
 lazy_static! {
@@ -528,6 +530,7 @@ impl Runtime {
         st: usize,
         lc: usize,
         cu: usize,
+        returns: bool,
     ) {
         self.call_stack.push(Call {
             fn_name: name,
@@ -536,6 +539,7 @@ impl Runtime {
             stack_len: st,
             local_len: lc,
             current_len: cu,
+            returns,
         });
     }
     fn pop_fn(&mut self, name: Arc<String>) {
@@ -858,8 +862,7 @@ impl Runtime {
                         self,
                     ));
                 }
-                if let Variable::Return = self.stack[call.stack_len - 1] {
-                } else {
+                if !call.returns {
                     return Err(self.module.error(
                         expr.source_range(),
                         &format!(
@@ -1013,6 +1016,7 @@ impl Runtime {
                 stack_len: 0,
                 local_len: 0,
                 current_len: 0,
+                returns: false,
             }],
             rng: self.rng.clone(),
             arg_err_index: Cell::new(None),
@@ -1128,6 +1132,7 @@ impl Runtime {
             st,
             lc,
             cu,
+            f.returns(),
         );
         if f.returns() {
             // Use return type because it has the same name.
@@ -1623,6 +1628,7 @@ impl Runtime {
             st,
             lc,
             cu,
+            f.returns(),
         );
         if f.returns() {
             // Use return type because it has same name.
@@ -2428,7 +2434,6 @@ impl Runtime {
 
         #[inline(always)]
         fn try_fun(
-            stack: &mut Vec<Variable>,
             call_stack: &[Call],
             v: Result<Box<Variable>, Box<Error>>,
             source_range: Range,
@@ -2449,8 +2454,7 @@ impl Runtime {
                             call.index,
                         ));
                     }
-                    if let Variable::Return = stack[call.stack_len - 1] {
-                    } else {
+                    if !call.returns {
                         return Err(module.error_fnindex(
                             source_range,
                             &format!(
@@ -2571,7 +2575,6 @@ impl Runtime {
                     }
                 };
                 return try_fun(
-                    &mut self.stack,
                     &self.call_stack,
                     v,
                     item.source_range,
@@ -2657,8 +2660,7 @@ impl Runtime {
                                 call.index,
                             ));
                         }
-                        if let Variable::Return = stack[call.stack_len - 1] {
-                        } else {
+                        if !call.returns {
                             return Err(self.module.error_fnindex(
                                 item.ids[0].source_range(),
                                 &format!(
@@ -2736,8 +2738,7 @@ impl Runtime {
                                     call.index,
                                 ));
                             }
-                            if let Variable::Return = stack[call.stack_len - 1] {
-                            } else {
+                            if !call.returns {
                                 return Err(self.module.error_fnindex(
                                     prop.source_range(),
                                     &format!(
-- 
2.43.0


From d2cbcc6bc416779a743c84bd9714fc22b7cdd12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:46 +0000
Subject: [PATCH 25/36] fix: `return` in an argument of a closure call is the
 result of the calling function

---
 src/ast/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 35444c6..ff158f6 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -3079,8 +3079,8 @@ impl CallClosure {
         let st = stack.len();
         self.item.get_locals(relative, stack, closure_stack, module, use_lookup);
         // All closures must return a value.
-        // Use return type because it has the same name.
-        stack.push(Some(crate::runtime::RETURN_TYPE.clone()));
+        // The arguments do not see it: `return` is the result of the function they are in.
+        stack.push(None);
         for arg in &mut self.args {
             let arg_st = stack.len();
             arg.get_locals(relative, stack, closure_stack, module, use_lookup);
-- 
2.43.0


From fe9aff6591cc1c9d864c63a8f021c9bfa26209c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:37 +0000
Subject: [PATCH 26/36] fix: the range of a loop does not see the name the loop
 declares for it

---
 src/lifetime/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 0858222..a5339f2 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -366,7 +366,7 @@ pub(crate) fn check_core(
                 || nodes[parent].kind.is_in_loop()
             {
                 let my_name = nodes[i].name().unwrap();
-                for name in &nodes[parent].names {
+                for name in visible_names(parent, child, nodes) {
                     if name == my_name {
                         it = Some(parent);
                         break 'search;
@@ -1262,3 +1262,20 @@ pub(crate) fn to_array(nodes: &[Node]) -> Vec<crate::Variable> {
 pub(crate) mod verif {
     include!(concat!(env!("DYON_VERIF_DIR"), "/lifetime.rs"));
 }
+
+/// Gets the names declared by a loop that are visible in one of its children.
+///
+/// A range is computed before its own name is declared.
+fn visible_names<'a>(parent: usize, child: usize, nodes: &'a [Node]) -> &'a [Arc<String>] {
+    let names = &nodes[parent].names;
+    let ends = |list: &[usize]| list.iter().filter(|&&n| nodes[n].kind == Kind::End).count();
+    match nodes[child].kind {
+        Kind::Iter => &[],
+        // Ranges without an end do not tell which name they belong to.
+        Kind::Start | Kind::End if ends(&nodes[parent].children) == names.len() => {
+            let me = nodes[parent].children.iter().take_while(|&&n| n != child);
+            &names[..ends(&me.cloned().collect::<Vec<usize>>())]
+        }
+        _ => names,
+    }
+}
-- 
2.43.0


From cb8f674a2b5ebfb7be0097352e42ff9f7fe2f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 27/36] fix: an array too short for the Rust type it is
 converted to is an error

---
 src/embed.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/embed.rs b/src/embed.rs
index 172e775..54e8390 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -168,6 +168,9 @@ impl<T: PopVariable, U: PopVariable> PopVariable for Result<T, U> {
 impl<T: PopVariable> PopVariable for [T; 2] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 2 {
+                return Err(rt.expected(var, "[_; 2]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -181,6 +184,9 @@ impl<T: PopVariable> PopVariable for [T; 2] {
 impl<T: PopVariable> PopVariable for [T; 3] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 3 {
+                return Err(rt.expected(var, "[_; 3]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -195,6 +201,9 @@ impl<T: PopVariable> PopVariable for [T; 3] {
 impl<T: PopVariable> PopVariable for [T; 4] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 4 {
+                return Err(rt.expected(var, "[_; 4]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -210,6 +219,9 @@ impl<T: PopVariable> PopVariable for [T; 4] {
 impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 2 {
+                return Err(rt.expected(var, "[_; 2]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -223,6 +235,9 @@ impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
 impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 3 {
+                return Err(rt.expected(var, "[_; 3]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -237,6 +252,9 @@ impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
 impl<T: PopVariable, U: PopVariable, V: PopVariable, W: PopVariable> PopVariable for (T, U, V, W) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 4 {
+                return Err(rt.expected(var, "[_; 4]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
-- 
2.43.0


From 2145333539f0e96ff656ed04de9b3f7bf5b24949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 28/36] fix: calling a loaded function from Rust with a wrong
 number of arguments is an error

---
 src/runtime/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 0a61c81..5a69fec 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1227,6 +1227,23 @@ impl Runtime {
     /// Called from the outside, e.g. a loader script by `call` or `call_ret` intrinsic.
     pub fn call(&mut self, call: &ast::Call, module: &Arc<Module>) -> FlowResult {
         use std::mem::replace;
+
+        // Calls from Rust are not checked when loading.
+        if let FnIndex::Loaded(f_index) = call.f_index {
+            let expected = module.functions[f_index as usize].args.len();
+            if call.args.len() != expected {
+                return Err(module.error(
+                    call.info.source_range,
+                    &format!(
+                        "{}\nExpected {} arguments but found {}",
+                        self.stack_trace(),
+                        expected,
+                        call.args.len()
+                    ),
+                    self,
+                ));
+            }
+        }
         let old_module = replace(&mut self.module, module.clone());
         // Keep track of the call state,
         // since `call` might be called from an external function.
-- 
2.43.0


From c96a273852907013924349076f3c3ce2ec4a37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 29/36] fix: an empty key of an object is written in quotes

---
 src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index d5892c0..cc81fcb 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -99,7 +99,7 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
                     write!(w, "{}: ", k)?;
                 } else {
                     json::write_string(w, k)?;
-- 
2.43.0


From 54ea6c57ba28a0f3516da9db72aab11d1d07787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 30/36] fix: a color inside an array, object or link is read to
 its end

---
 src/dyon_std/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 11f5822..0670e6f 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -69,6 +69,7 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
         let (range, _) = read.until_any_or_whitespace(SEPS);
         let val = read.raw_string(range.length);
         if let Some((rgb, a)) = rgb_maybe_a(&mut val.chars()) {
+            *read = read.consume(range.length);
             let v = [
                 f32::from(rgb[0]) / 255.0,
                 f32::from(rgb[1]) / 255.0,
-- 
2.43.0


From 7df2703efb1308771f1abf3adfd9be874678f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 31/36] verification hook in dyon_std/data.rs, guarded by --cfg
 dyon_verif

---
 src/dyon_std/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 0670e6f..ecd37ae 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -409,3 +409,10 @@ fn error(range: Range, msg: &str, data: &str) -> String {
     handler.write_msg(&mut buf, range, msg).unwrap();
     String::from_utf8(buf).unwrap()
 }
+
+/// Verification contracts, compiled only with `--cfg dyon_verif`.
+#[cfg(dyon_verif)]
+#[allow(missing_docs)]
+pub(crate) mod verif {
+    include!(concat!(env!("DYON_VERIF_DIR"), "/data.rs"));
+}
-- 
2.43.0


From e0239f916dd6990148624bc0c8ec64268ada219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:16 +0000
Subject: [PATCH 32/36] fix: look up references in object fields before
 converting them

---
 src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/embed.rs b/src/embed.rs
index 54e8390..8cf99b1 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -21,7 +21,7 @@ pub fn obj_field<T: PopVariable>(rt: &Runtime, obj: &Object, name: &str) -> Resu
     let var = obj
         .get(&Arc::new(name.into()))
         .ok_or_else(|| format!("Object has no key `{}`", name))?;
-    PopVariable::pop_var(rt, var)
+    PopVariable::pop_var(rt, rt.get(var))
 }
 
 /// Implemented by types that can be popped from the runtime stack.
-- 
2.43.0


From f6b3187ca932ad9ba5ff5c41bd27396f1ee47542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:04 +0000
Subject: [PATCH 33/36] fix: rename external functions with mutable arguments
 in use imports

---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index ff158f6..22d5e52 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -160,7 +160,7 @@ impl UseLookup {
                         // A function with mutable information.
                         let mut name: Arc<String> = use_fn.1.as_ref().unwrap_or(&use_fn.0).clone();
                         Arc::make_mut(&mut name).push_str(&f.name.as_str()[use_fn.0.len()..]);
-                        fns.insert(f.name.clone(), FnAlias::External(i));
+                        fns.insert(name, FnAlias::External(i));
                     }
                 }
             }
-- 
2.43.0


From f8f61e669a330ec516edf85a138873f9c8984b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:04 +0000
Subject: [PATCH 34/36] fix: keep lazy invariants of functions called by a
 namespace alias

---
 src/ast/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 22d5e52..74cb4cd 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2859,7 +2859,13 @@ impl Call {
                         let f = &module.ext_prelude[i];
                         match f.f {
                             FnExt::Void(ff) => FnIndex::Void(FnVoidRef(ff)),
-                            FnExt::Return(ff) => FnIndex::Return(FnReturnRef(ff)),
+                            FnExt::Return(ff) => {
+                                if f.p.lazy == crate::LAZY_NO {
+                                    FnIndex::Return(FnReturnRef(ff))
+                                } else {
+                                    FnIndex::Lazy(FnReturnRef(ff), f.p.lazy)
+                                }
+                            }
                             FnExt::BinOp(ff) => FnIndex::BinOp(FnBinOpRef(ff)),
                             FnExt::UnOp(ff) => FnIndex::UnOp(FnUnOpRef(ff)),
                         }
-- 
2.43.0


From fbad450c59d3c38cc78fe70c0d89e7b26c30e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:04 +0000
Subject: [PATCH 35/36] fix: go calls the function its namespace alias refers
 to

---
 src/ast/mod.rs     | 28 +++++++++++++++++-----------
 src/runtime/mod.rs |  3 +--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 74cb4cd..a13a90c 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2553,6 +2553,7 @@ impl Go {
         module: &Module,
         use_lookup: &UseLookup,
     ) {
+        self.call.f_index = self.call.find_function(relative, module, use_lookup);
         let st = stack.len();
         for arg in &mut self.call.args {
             let st = stack.len();
@@ -2830,14 +2831,8 @@ impl Call {
         ))
     }
 
-    fn get_locals(
-        &mut self,
-        relative: usize,
-        stack: &mut Vec<Option<Arc<String>>>,
-        closure_stack: &mut Vec<usize>,
-        module: &Module,
-        use_lookup: &UseLookup,
-    ) {
+    /// Finds the function to call, relative to the function it is called from.
+    fn find_function(&self, relative: usize, module: &Module, use_lookup: &UseLookup) -> FnIndex {
         use crate::{
             FnBinOpRef,
             FnExt,
@@ -2846,8 +2841,7 @@ impl Call {
             FnVoidRef,
         };
 
-        let st = stack.len();
-        let f_index = if let Some(ref alias) = self.info.alias {
+        if let Some(ref alias) = self.info.alias {
             if let Some(&i) = use_lookup
                 .aliases
                 .get(alias)
@@ -2876,7 +2870,19 @@ impl Call {
             }
         } else {
             module.find_function(&self.info.name, relative)
-        };
+        }
+    }
+
+    fn get_locals(
+        &mut self,
+        relative: usize,
+        stack: &mut Vec<Option<Arc<String>>>,
+        closure_stack: &mut Vec<usize>,
+        module: &Module,
+        use_lookup: &UseLookup,
+    ) {
+        let st = stack.len();
+        let f_index = self.find_function(relative, module, use_lookup);
         self.f_index = f_index;
         match f_index {
             FnIndex::Loaded(f_index) => {
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 5a69fec..d78c9bc 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -969,9 +969,8 @@ impl Runtime {
 
         let n = go.call.args.len();
         let mut stack = vec![];
-        let relative = self.call_stack.last().map(|c| c.index).expect(CSIE);
         let mut fake_call = ast::Call {
-            f_index: self.module.find_function(&go.call.info.name, relative),
+            f_index: go.call.f_index,
             args: Vec::with_capacity(n),
             custom_source: None,
             info: go.call.info.clone(),
-- 
2.43.0


From 8932859e88dded45c6b98060c51fd6a2393b1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 36/36] fix: check the number of arguments of calls by a
 namespace alias

---
 src/lifetime/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index a5339f2..37979f8 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -666,6 +666,15 @@ pub(crate) fn check_core(
                 use_lookup.aliases.get(alias).and_then(|map| map.get(&name))
             {
                 node.lts = prelude.list[i].lts.clone();
+                if node.lts.len() != n {
+                    return Err(node.source.wrap(format!(
+                        "{}::{}: Expected {} arguments, found {}",
+                        alias,
+                        name,
+                        node.lts.len(),
+                        n
+                    )));
+                }
                 continue;
             } else {
                 return Err(node
-- 
2.43.0

