From a33da9d4a58dccc34c7d8355b7a8e77945bbe187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/15] fix: compare the index of production states as well as
 the production

Two states of one production at different positions compared equal, so every
set or map keyed by them conflated them (the Earley parser asserted on any
production longer than one element).
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From 7f929c9e7e45ee06155e225cde258208477adb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/15] fix: Earley parse returns None on a syntax error
 instead of panicking

---
 src/parsers/earley.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..f8d37a9 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -77,6 +77,10 @@ where
 
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
+    if new_state.is_empty() {
+      // No production can continue with this token.
+      return None;
+    }
 
     close_state(grammar, tree_handle, &states, &mut new_state);
 
-- 
2.43.0


From 71eadf1143b7321a030de9499c5361b7eae35dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 03/15] fix: breadth_first_search includes the initial elements
 in its result

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..c181696 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From 7dac7ead03664528bf7cc69c60ec9bb88cbe6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 04/15] fix: report nonterminals without rules as grammar
 errors instead of panicking

---
 src/grammar/base.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..085bc6b 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -424,6 +424,7 @@ where
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
     self
       .get_nonterminals()
+      .chain(std::iter::once(&self.start_symbol))
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +441,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From ff31fce09e2f7a969f53f23e8b2b4b766aef4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 05/15] fix: keep the non-empty variants of nullable
 productions in transform_to_nonnull

---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..8734af1 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -123,10 +123,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -202,6 +198,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    if curr_build_state.elems.is_empty() {
+      // The empty production is what this transformation eliminates.
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From 397886602cac9805706d9c8e8272ce7a497d9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 06/15] fix: a failed pass no longer looks like a recursive one
 when requested again

---
 src/grammar/passes/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..ed21ddd 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,9 +109,16 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let result = P::run_pass(self);
       let mut guard = self.passes.borrow_mut();
-      guard.insert(pass_type, Rc::new(value));
+      match result {
+        Ok(value) => guard.insert(pass_type, Rc::new(value)),
+        Err(err) => {
+          // The pass is no longer in process.
+          guard.remove(&pass_type);
+          return Err(err);
+        }
+      };
     };
 
     let any_pass_ref = {
-- 
2.43.0


From ce55b9d276973ff58051f86d4731ae31ab35a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 07/15] fix: VecTokenStream::next yields the tokens of the
 stream

---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From ee48d5f2b59a38a1d6ec08a707063df5e7f149d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 08/15] fix: apply_fixed_point moves on to the changed keys

---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index c181696..0eda5c0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    currs = std::mem::take(&mut nexts);
   }
 }
-- 
2.43.0


From 8d2a7e349b7f481f638c5a5dcdbb434190d8ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 09/15] fix: do not hold the tree lock while evaluating
 caller-provided nodes

---
 src/parsers/tree.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..0e8e6d6 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -327,16 +327,15 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // The lock must not be held here: evaluating `nodes` may itself use the tree.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +344,7 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From 8ceaa79d1dbb7ab2fcde6cc030bef7fd4ccda819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 10/15] fix: include the root node in the dot output

---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 0e8e6d6..3ca6e12 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -593,6 +593,7 @@ where
   let mut next = BTreeSet::new();
 
   curr.insert(DotNode::Node(node.index));
+  seen.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
     for curr_item in &curr {
-- 
2.43.0


From 95033d84958df5ae7193f7de52ffaf475ea9d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 11/15] fix: do not merge Earley states that split the input
 differently

Their children were merged position by position, so the forest of an
ambiguous input contained trees that are no derivation of it.
---
 src/parsers/earley/state.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..1876fe4 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -39,6 +39,10 @@ struct EarleyStateKey<'a, T, NT, AK, AV> {
     StartActionValue<AV>,
   >,
   origin_index: usize,
+
+  /// The origin of each completed nonterminal so far. Parses that split the
+  /// input differently have different children, and must not be merged.
+  child_origins: Vector<usize>,
 }
 
 impl<'a, T, NT, AK, AV> EarleyStateKey<'a, T, NT, AK, AV>
@@ -82,6 +86,7 @@ impl<'a, T, NT, AK, AV, V> EarleyState<'a, T, NT, AK, AV, V> {
       key: EarleyStateKey {
         prod_state: ProdState::from_start(prod),
         origin_index: index,
+        child_origins: Vector::new(),
       },
       value: Vector::new(),
     }
@@ -107,6 +112,12 @@ impl<'a, T, NT, AK, AV, V> EarleyState<'a, T, NT, AK, AV, V> {
     value.push_back(node);
     value
   }
+
+  fn create_next_child_origins(&self, child_origin: usize) -> Vector<usize> {
+    let mut child_origins = self.key.child_origins.clone();
+    child_origins.push_back(child_origin);
+    child_origins
+  }
 }
 
 impl<'a, T, NT, AK, AV, V> EarleyState<'a, T, NT, AK, AV, V>
@@ -130,6 +141,7 @@ where
         key: EarleyStateKey {
           prod_state: ps,
           origin_index: self.key.origin_index,
+          child_origins: self.key.child_origins.clone(),
         },
         value: self.create_next_value(
           tree_handle
@@ -162,6 +174,7 @@ where
         key: EarleyStateKey {
           prod_state: ProdState::from_start(p),
           origin_index: prev_states.len(),
+          child_origins: Vector::new(),
         },
         value: Vector::new(),
       })
@@ -197,6 +210,7 @@ where
           key: EarleyStateKey {
             prod_state: ps,
             origin_index: st.key.origin_index,
+            child_origins: st.create_next_child_origins(self.key.origin_index),
           },
           value: st.create_next_value(tree_handle.make_branch_node(
             self.prod_state().action_key().as_base().unwrap().clone(),
-- 
2.43.0


From ef91992d69cdaea542477f59a0ac1e3e6d166c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 12/15] fix: look past nullable nonterminals when calculating
 follows

---
 src/grammar/passes/follows.rs | 41 +++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..aec4264 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -27,6 +28,9 @@ where
   ) -> Result<Self, FollowsError> {
     let gram = pass_map.grammar();
 
+    let nullables = pass_map
+      .get_pass::<Nullable<NT, AK>>()
+      .map_err(FirstsError::from)?;
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
 
     let mut follows = CollectMap::new();
@@ -35,20 +39,35 @@ where
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        for (i, elem) in elems.iter().enumerate() {
+          let first_nt = match elem {
+            Elem::Term(_) => continue,
+            Elem::NonTerm(nt) => nt,
+          };
+          let mut rest_nullable = true;
+          for next_elem in &elems[i + 1..] {
+            match next_elem {
+              Elem::Term(t) => {
+                changed.merge(follows.insert(first_nt, t));
+                rest_nullable = false;
+              }
+              Elem::NonTerm(second_nt) => {
+                if let Some(second_firsts) = firsts.get(second_nt) {
+                  changed.merge(
+                    follows.insert_iter(first_nt, second_firsts.iter()),
+                  );
+                }
+                rest_nullable = nullables.is_nullable(second_nt);
+              }
+            }
+            if !rest_nullable {
+              break;
             }
           }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+          if rest_nullable {
+            changed.merge(follows.insert_from_key_set(first_nt, prod.head()));
+          }
         }
 
         changed
-- 
2.43.0


From b3ddc27af41b4a202a6e0808e5c01f451aeba30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 13/15] verification hooks: read-only accessors under
 cfg(bongo_verif)

---
 src/grammar/base.rs              | 11 +++++++++++
 src/grammar/passes/follows.rs    | 10 ++++++++++
 src/grammar/transform/nonnull.rs | 16 ++++++++++++++++
 src/utils/buffer.rs              |  7 +++++++
 4 files changed, 44 insertions(+)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index 085bc6b..07868be 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -477,6 +477,17 @@ pub struct GrammarErrors<NT> {
   rules_without_prods: BTreeSet<NT>,
 }
 
+#[cfg(bongo_verif)]
+impl<NT> GrammarErrors<NT> {
+  pub fn verif_parts(&self) -> [&BTreeSet<NT>; 3] {
+    [
+      &self.unreachable_nonterms,
+      &self.nonterms_without_rules,
+      &self.rules_without_prods,
+    ]
+  }
+}
+
 impl<NT> GrammarErrors<NT> {
   fn into_result(self) -> Result<(), Self> {
     if self.unreachable_nonterms.is_empty()
diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index aec4264..fee9d44 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -15,6 +15,16 @@ pub enum FollowsError {
 
 pub struct Follows<T, NT>(BTreeMap<NT, BTreeSet<T>>);
 
+#[cfg(bongo_verif)]
+impl<T, NT> Follows<T, NT>
+where
+  NT: Ord,
+{
+  pub fn verif_get(&self, nt: &NT) -> Option<&BTreeSet<T>> {
+    self.0.get(nt)
+  }
+}
+
 impl<T, NT, AK, AV> Pass<T, NT, AK, AV> for Follows<T, NT>
 where
   T: Ord + Clone + 'static,
diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index 8734af1..fd6633c 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -66,6 +66,22 @@ pub struct ActionKey<AK> {
   nt_nullable_states: Vec<bool>,
 }
 
+#[cfg(bongo_verif)]
+impl<AK> ActionKey<AK> {
+  pub fn verif_parts(&self) -> (&AK, &[bool]) {
+    (&self.action, &self.nt_nullable_states)
+  }
+}
+
+#[cfg(bongo_verif)]
+impl<NT, AK, AV> ActionValue<NT, AK, AV> {
+  pub fn verif_parts(
+    &self,
+  ) -> (&AV, &BTreeMap<Name, TreeNode<ProdKey<NT, AK>, Void>>) {
+    (&self.parent_value, &self.nullable_arguments)
+  }
+}
+
 impl<AK> ToDoc for ActionKey<AK>
 where
   AK: ToDoc,
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 1a64d82..3fe46b0 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -266,6 +266,13 @@ pub struct TextPos {
   byte_offset: usize,
 }
 
+#[cfg(bongo_verif)]
+impl TextPos {
+  pub fn verif_parts(&self) -> (usize, usize, usize) {
+    (self.line, self.column, self.byte_offset)
+  }
+}
+
 impl TextPos {
   fn line(&self) -> usize {
     self.line
-- 
2.43.0


From 16a9c73e3d2a365e399c5105bb3932a666f525a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 14/15] verification hook: constructor for mergeable values
 under cfg(bongo_verif)

---
 src/utils/mergeables.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/mergeables.rs b/src/utils/mergeables.rs
index 182ad05..4664baf 100644
--- a/src/utils/mergeables.rs
+++ b/src/utils/mergeables.rs
@@ -12,6 +12,13 @@ pub struct Value<K, V> {
   value: V,
 }
 
+#[cfg(bongo_verif)]
+impl<K, V> Value<K, V> {
+  pub fn verif_new(key: K, value: V) -> Self {
+    Value { key, value }
+  }
+}
+
 impl<K, V> Value<K, V> {
   pub fn key(&self) -> &K {
     &self.key
-- 
2.43.0


From 410e54f2decd7ca50e856c9a3c14faeaa694b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 15/15] fix: looking past the end of a production state no
 longer overflows

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 9f495cb..e00d939 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -90,7 +90,7 @@ impl<'a, T, NT, AK, AV> ProdState<'a, T, NT, AK, AV> {
   }
 
   pub fn offset_prod_elem(&self, i: usize) -> Option<&'a ProdElement<T, NT>> {
-    self.prod.prod_elements().get(self.index + i)
+    self.prod.prod_elements().get(self.index.checked_add(i)?)
   }
 
   pub fn offset_elem(&self, i: usize) -> Option<&'a Elem<T, NT>> {
-- 
2.43.0

