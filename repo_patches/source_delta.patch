From 94ab81132b117f726007e8aa41aae6eae130eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:34 +0000
Subject: [PATCH 01/11] fix: do not share nodes through the block cache

A mutation modifies the nodes on its path before its block is appended. They
were the nodes held by the block cache, so a put or del that failed or was
cancelled half way corrupted what later operations on the same handle saw, and
a mutation could change a traversal in progress.
---
 src/blocks.rs | 41 ++++++++++++++++++++++++++++-------------
 src/del.rs    |  8 ++++----
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..1e7daa2 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -176,8 +176,15 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
+/// The contents of a [`Node`] as they are stored in a block.
+#[derive(Debug)]
+struct StoredNode {
+    keys: Vec<KeyValue>,
+    children: Vec<Child>,
+}
+
+/// Deserialize bytes from a Hypercore block into [`StoredNode`]s.
+fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<StoredNode>, DecodeError> {
     Ok(YoloIndex::decode(buf)?
         .levels
         .iter()
@@ -187,7 +194,7 @@ fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNod
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
+            StoredNode { keys, children }
         })
         .collect())
 }
@@ -196,7 +203,9 @@ fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNod
 /// Hyperbee
 pub(crate) struct BlockEntry {
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
-    nodes: Vec<SharedNode>,
+    nodes: Vec<StoredNode>,
+    /// Used by the [`Node`]s of this block to load their keys and children
+    blocks: Shared<Blocks>,
     /// NodeSchema::new(hypercore.get(seq)).key
     pub key: Vec<u8>,
     /// NodeSchema::new(hypercore.get(seq)).value
@@ -206,7 +215,8 @@ pub(crate) struct BlockEntry {
 impl BlockEntry {
     fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..], blocks)?,
+            nodes: make_node_vec(&entry.index[..])?,
+            blocks,
             key: entry.key,
             value: entry.value,
         })
@@ -214,26 +224,31 @@ impl BlockEntry {
 
     /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
     /// offset is the offset of the node within the hypercore block
+    ///
+    /// NB: every call returns a new copy. Mutations modify the nodes they walked through before
+    /// they are committed. If these were shared through the block cache, a mutation that fails or
+    /// is cancelled would be visible to other operations, and so would one that happens while the
+    /// tree is being traversed.
     pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
+        let stored = self
             .nodes
             .get(
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
-            .clone())
+            .expect("offset *should* always point to a real node");
+        Ok(Arc::new(RwLock::new(Node::new(
+            stored.keys.clone(),
+            stored.children.clone(),
+            self.blocks.clone(),
+        ))))
     }
 }
 
 impl Debug for BlockEntry {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "BlockEntry {{ ")?;
-        let mut nodes = vec![];
-        for node in self.nodes.iter() {
-            nodes.push(node.try_read().unwrap());
-        }
-        f.debug_list().entries(nodes).finish()?;
+        f.debug_list().entries(self.nodes.iter()).finish()?;
         write!(f, "}}")
     }
 }
diff --git a/src/del.rs b/src/del.rs
index 8327cbf..77e4147 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -354,16 +354,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has a deficient child, and that child
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -460,7 +460,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
-- 
2.43.0


From f4d2cd458e617ff132b588c2b0ed75108052c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 02/11] fix: traversal panics when polled after it yielded an
 error

When the keys of a node could not be read the error was yielded, but the
completed future was kept and polled again by the next call.
---
 src/traverse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..06c5a3f 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -407,6 +407,9 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // This future is done, and there is nothing to iterate over
+                            self.iter_fut = None;
+                            self.iter = Some(Box::pin(0..0));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From fe9b2cabc5f008ac8f96043682bdf3c5d1c9a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:27 +0000
Subject: [PATCH 03/11] fix: traversal with crossed bounds yields the key equal
 to the minimum

The maximum was ignored for a key equal to the minimum.
---
 src/traverse.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index 06c5a3f..6e7b69a 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -218,23 +218,25 @@ async fn make_child_key_index_iter(
 impl TraverseConfig {
     fn in_bounds(&self, value: &[u8]) -> bool {
         // TODO impl Ord for LimitValue and remove the expects
-        match self
+        let above_min = match self
             .min_value
             .partial_cmp(value)
             .expect("partial_cmp never returns none")
         {
             std::cmp::Ordering::Greater => false,
             std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
-                .max_value
-                .partial_cmp(value)
-                .expect("partial_cmp never returns none")
-            {
-                std::cmp::Ordering::Greater => true,
-                std::cmp::Ordering::Equal => self.max_inclusive,
-                std::cmp::Ordering::Less => false,
-            },
-        }
+            std::cmp::Ordering::Less => true,
+        };
+        let below_max = match self
+            .max_value
+            .partial_cmp(value)
+            .expect("partial_cmp never returns none")
+        {
+            std::cmp::Ordering::Greater => true,
+            std::cmp::Ordering::Equal => self.max_inclusive,
+            std::cmp::Ordering::Less => false,
+        };
+        above_min && below_max
     }
 }
 
-- 
2.43.0


From f24832a722804ba929597da9511a0534b4622b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 04/11] fix: traverse config builder rejects ranges with an
 unbounded limit

---
 src/traverse.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index 6e7b69a..397b7bb 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -83,11 +83,8 @@ fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(
                     return Ok(());
                 }
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
+            // the remaining combinations have (at least) one limit which is unbounded outwards
+            (Infinite(Negative), _) | (_, Infinite(Positive)) => return Ok(()),
         },
         (_, _) => return Ok(()),
     }
-- 
2.43.0


From 452422c780a16637b2d851b6c42351dd92c88fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 05/11] fix: traversal of a sub yields keys outside its prefix
 or misses its own

---
 src/prefixed.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..b8042dc 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,9 +5,10 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
-        LimitValue::{Finite, Infinite},
+        LimitValue::{self, Finite, Infinite},
         TraverseConfig,
     },
     KeyValueData, Shared, Tree,
@@ -135,10 +136,12 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        // All keys of this sub start with `prefix + seperator`, so this is its smallest possible key
+        let start_of_prefix = [&self.prefix[..], &self.conf.seperator].concat();
 
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Negative) => (Finite(start_of_prefix.clone()), true),
+            Infinite(Positive) => (Infinite(Positive), conf.min_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -147,7 +150,8 @@ impl Prefixed {
 
         let (max_value, max_inclusive) = match &conf.max_value {
             // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            Infinite(Positive) => (end_of_prefix(&start_of_prefix), false),
+            Infinite(Negative) => (Infinite(Negative), conf.max_inclusive),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -176,6 +180,16 @@ impl Prefixed {
     }
 }
 
+/// The smallest limit that is greater than every key starting with `prefix`.
+fn end_of_prefix(prefix: &[u8]) -> LimitValue {
+    // Incrementing works on the last byte that is not already the greatest. When there is no such
+    // byte, no key is greater than all the keys which start with `prefix`.
+    match prefix.iter().rposition(|b| *b != u8::MAX) {
+        Some(i) => Finite(increment_bytes(&prefix[..=i])),
+        None => Infinite(Positive),
+    }
+}
+
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
     let len = pref.len();
     if len == 0 {
-- 
2.43.0


From d9353505083b41c34be469c70a82e6063476f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 06/11] fix: concurrent mutations overwrite each other

---
 src/hb.rs       | 12 +++++++-----
 src/prefixed.rs |  8 ++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/hb.rs b/src/hb.rs
index a0a9287..70790d7 100644
--- a/src/hb.rs
+++ b/src/hb.rs
@@ -23,6 +23,8 @@ use crate::{
 #[derive(Debug, Builder)]
 #[builder(pattern = "owned", derive(Debug))]
 pub struct Hyperbee {
+    /// NB: a mutation reads the tree, and then appends a block which is based on what it read. So
+    /// mutations hold the write lock, otherwise concurrent ones would overwrite each other.
     tree: Shared<Tree>,
 }
 
@@ -54,7 +56,7 @@ impl Hyperbee {
         &self,
         metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
-        self.tree.read().await.create_header(metadata).await
+        self.tree.write().await.create_header(metadata).await
     }
 
     #[cfg(feature = "debug")]
@@ -85,7 +87,7 @@ impl Hyperbee {
         key: &[u8],
         value: Option<&[u8]>,
     ) -> Result<(Option<u64>, u64), HyperbeeError> {
-        self.tree.read().await.put(key, value).await
+        self.tree.write().await.put(key, value).await
     }
 
     /// Like [`Hyperbee::put`] but takes a `compare_and_swap` function.
@@ -99,7 +101,7 @@ impl Hyperbee {
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
         self.tree
-            .read()
+            .write()
             .await
             .put_compare_and_swap(key, value, cas)
             .await
@@ -108,7 +110,7 @@ impl Hyperbee {
     /// Delete the given key from the tree.
     /// Returns the `seq` from the key if it was deleted.
     pub async fn del(&self, key: &[u8]) -> Result<Option<u64>, HyperbeeError> {
-        self.tree.read().await.del(key).await
+        self.tree.write().await.del(key).await
     }
 
     /// Like [`Hyperbee::del`] but takes a `compare_and_swap` function.
@@ -121,7 +123,7 @@ impl Hyperbee {
         key: &[u8],
         cas: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
-        self.tree.read().await.del_compare_and_swap(key, cas).await
+        self.tree.write().await.del_compare_and_swap(key, cas).await
     }
 
     /// Create a new tree with all it's operation's prefixed by the provided `prefix`.
diff --git a/src/prefixed.rs b/src/prefixed.rs
index b8042dc..6235c93 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -82,7 +82,7 @@ impl Prefixed {
         value: Option<&[u8]>,
     ) -> Result<(Option<u64>, u64), HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
-        self.tree.read().await.put(prefixed_key, value).await
+        self.tree.write().await.put(prefixed_key, value).await
     }
 
     /// Like [`Prefixed::put`] but takes a `compare_and_swap` function.
@@ -97,7 +97,7 @@ impl Prefixed {
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
         self.tree
-            .read()
+            .write()
             .await
             .put_compare_and_swap(prefixed_key, value, cas)
             .await
@@ -107,7 +107,7 @@ impl Prefixed {
     /// Returns the `seq` from the key if it was deleted.
     pub async fn del(&self, key: &[u8]) -> Result<Option<u64>, HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
-        self.tree.read().await.del(prefixed_key).await
+        self.tree.write().await.del(prefixed_key).await
     }
 
     /// Like [`Prefixed::del`] but takes a `compare_and_swap` function.
@@ -122,7 +122,7 @@ impl Prefixed {
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
         let prefixed_key: &[u8] = with_key_prefix!(self, key);
         self.tree
-            .read()
+            .write()
             .await
             .del_compare_and_swap(prefixed_key, cas)
             .await
-- 
2.43.0


From b0d3e9d8e11fc9db2653e3b29ffafa87121c21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:36 +0000
Subject: [PATCH 07/11] fix: hb_get aborts when a key is missing, has no value,
 or the lookup fails

---
 src/external.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..a138089 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -19,6 +19,8 @@ type HbDiskPointer = HyperbeePointer;
 
 /// Type of callback we pass results to
 /// seq == 0 means the key was not found
+/// error_code != 0 means there was an error, which error_message describes
+/// value_buff == NULL means the key has no value
 pub type HbGetResultCallback = unsafe extern "C" fn(
     error_code: i64,
     error_message: *const c_char,
@@ -48,7 +50,10 @@ unsafe extern "C" fn deallocate_rust_string(ptr: *mut c_char) {
 /// https://stackoverflow.com/questions/39224904/how-to-expose-a-rust-vect-to-ffi/39270881#39270881
 #[no_mangle]
 unsafe extern "C" fn deallocate_rust_buffer(ptr: *mut u8, len: size_t) {
-    drop(Vec::from_raw_parts(ptr, len, len));
+    // there is no buffer when a key has no value
+    if !ptr.is_null() {
+        drop(Vec::from_raw_parts(ptr, len, len));
+    }
 }
 
 pub fn string_from_c_str(c_str: *const c_char) -> Option<String> {
@@ -134,17 +139,22 @@ pub extern "C" fn hb_get(
     let rkey = vec_from_c_vec(key_buff, key_size);
 
     rt.spawn(async move {
-        match hb.get(&rkey).await {
-            Ok(Some((seq, Some(value)))) => {
-                let (vec, size) = c_vec_from_vec(value);
-                let no_error_msg = CString::new("").unwrap().into_raw();
-                unsafe {
-                    callback(0, no_error_msg, seq, vec, size);
-                }
-            }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+        let (error_code, error_message, seq, value) = match hb.get(&rkey).await {
+            Ok(Some((seq, value))) => (0, String::new(), seq, value),
+            // seq == 0 means the key was not found
+            Ok(None) => (0, String::new(), 0, None),
+            Err(e) => (-1, e.to_string(), 0, None),
+        };
+        // the value of a key can be missing, this is different from an empty value
+        let (value_buff, value_len) = match value {
+            Some(value) => c_vec_from_vec(value),
+            None => (ptr::null_mut(), 0),
         };
+        // a message containing a NULL byte can't be a C string
+        let error_message = CString::new(error_message).unwrap_or_default().into_raw();
+        unsafe {
+            callback(error_code, error_message, seq, value_buff, value_len);
+        }
     });
     0
 }
-- 
2.43.0


From 8fdb10e22c0759b32ff2e2c1c2368740966e8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 08/11] fix: malformed blocks make operations panic

Blocks come from other writers and from storage. A block whose nodes refer
to nodes it does not hold, or whose numbers of keys and children do not fit
together, made get, put, del and traversal panic. They report an error now.
---
 src/blocks.rs | 36 ++++++++++++++++++++++++++----------
 src/error.rs  |  2 ++
 src/lib.rs    |  4 ++++
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 1e7daa2..a118a4f 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -6,7 +6,7 @@ use hypercore::{
     replication::{CoreInfo, CoreMethods},
     AppendOutcome,
 };
-use prost::{bytes::Buf, DecodeError, Message};
+use prost::{bytes::Buf, Message};
 use replicator::ReplicatingCore;
 use tokio::sync::RwLock;
 use tracing::trace;
@@ -184,19 +184,33 @@ struct StoredNode {
 }
 
 /// Deserialize bytes from a Hypercore block into [`StoredNode`]s.
-fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<StoredNode>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
+/// # Errors
+/// when the bytes are not what a node is encoded to
+fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<StoredNode>, HyperbeeError> {
+    YoloIndex::decode(buf)?
         .levels
         .iter()
         .map(|level| {
-            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
-            let mut children = vec![];
-            for i in (0..(level.children.len())).step_by(2) {
-                children.push(Child::new(level.children[i], level.children[i + 1]));
+            let keys: Vec<KeyValue> = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
+            if level.children.len() % 2 != 0 {
+                return Err(HyperbeeError::MalformedBlockError(
+                    "reference to a child without an offset",
+                ));
             }
-            StoredNode { keys, children }
+            let children: Vec<Child> = level
+                .children
+                .chunks_exact(2)
+                .map(|c| Child::new(c[0], c[1]))
+                .collect();
+            // a leaf has no children, other nodes have one on either side of every key
+            if !children.is_empty() && (keys.is_empty() || children.len() != keys.len() + 1) {
+                return Err(HyperbeeError::MalformedBlockError(
+                    "number of children does not match number of keys",
+                ));
+            }
+            Ok(StoredNode { keys, children })
         })
-        .collect())
+        .collect()
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
@@ -236,7 +250,9 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node");
+            .ok_or(HyperbeeError::MalformedBlockError(
+                "reference to a node the block does not hold",
+            ))?;
         Ok(Arc::new(RwLock::new(Node::new(
             stored.keys.clone(),
             stored.children.clone(),
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..9384110 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,6 +21,8 @@ pub enum HyperbeeError {
     DecodeError(#[from] DecodeError),
     #[error("No block at seq  `{0}`")]
     NoBlockAtSeqError(u64),
+    #[error("A block holds data which is not part of a valid tree: {0}")]
+    MalformedBlockError(&'static str),
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
diff --git a/src/lib.rs b/src/lib.rs
index 4592306..b9753c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,6 +144,10 @@ impl Children {
             .get(&seq, self.blocks.clone())
             .await?;
         let node = block.read().await.get_tree_node(offset)?;
+        // only the root can be without keys
+        if node.read().await.keys.is_empty() {
+            return Err(HyperbeeError::MalformedBlockError("child without keys"));
+        }
         Ok(node)
     }
 
-- 
2.43.0


From c1736ad18b83bf018b418f7a956568dc588de996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 09/11] fix: reject children that do not come before their
 parent

A stored node could refer to a child in the block about to be written, or in
a circle. A put or del then indexed past its nodes (panic), or any operation
followed the references forever. Children are always in an earlier block, or
later in the same one; anything else is reported as a malformed block.
---
 src/blocks.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index a118a4f..7115f96 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -81,7 +81,7 @@ impl Blocks {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node, blocks)?))
+                Ok(Some(BlockEntry::new(*seq, node, blocks)?))
             }
             None => Ok(None),
         }
@@ -183,14 +183,15 @@ struct StoredNode {
     children: Vec<Child>,
 }
 
-/// Deserialize bytes from a Hypercore block into [`StoredNode`]s.
+/// Deserialize bytes from the Hypercore block at `seq` into [`StoredNode`]s.
 /// # Errors
 /// when the bytes are not what a node is encoded to
-fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<StoredNode>, HyperbeeError> {
+fn make_node_vec<B: Buf>(seq: u64, buf: B) -> Result<Vec<StoredNode>, HyperbeeError> {
     YoloIndex::decode(buf)?
         .levels
         .iter()
-        .map(|level| {
+        .zip(0u64..)
+        .map(|(level, offset)| {
             let keys: Vec<KeyValue> = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
             if level.children.len() % 2 != 0 {
                 return Err(HyperbeeError::MalformedBlockError(
@@ -208,6 +209,16 @@ fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<StoredNode>, HyperbeeError> {
                     "number of children does not match number of keys",
                 ));
             }
+            // children are in an earlier block, or in the same block after their parent: this
+            // also means that following them comes to an end
+            if children
+                .iter()
+                .any(|c| c.seq > seq || (c.seq == seq && c.offset <= offset))
+            {
+                return Err(HyperbeeError::MalformedBlockError(
+                    "child is neither in an earlier block nor after its parent",
+                ));
+            }
             Ok(StoredNode { keys, children })
         })
         .collect()
@@ -227,9 +238,9 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(seq: u64, entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..])?,
+            nodes: make_node_vec(seq, &entry.index[..])?,
             blocks,
             key: entry.key,
             value: entry.value,
-- 
2.43.0


From b386ec223245022d99d30472432fb1349241cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:04 +0000
Subject: [PATCH 10/11] fix: do not make a slice of the NULL a C caller can
 pass for an empty key

slice::from_raw_parts(NULL, 0) is undefined behaviour, and aborts where the
preconditions of unsafe functions are checked. hb_get with an empty key and
no buffer now looks the empty key up.
---
 src/external.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/external.rs b/src/external.rs
index a138089..fe59e71 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -122,6 +122,10 @@ pub extern "C" fn hyperbee_from_storage_directory(
 }
 
 fn vec_from_c_vec(bytes: *const c_uchar, bytes_length: size_t) -> Vec<u8> {
+    // an empty buffer can be NULL in C, but a slice can not
+    if bytes_length == 0 {
+        return vec![];
+    }
     let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
     Vec::from(bytes)
 }
-- 
2.43.0


From 7c9930fc2d594fe5dfa204d06e9431e46a394875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:17 +0000
Subject: [PATCH 11/11] fix: the C interface opens another directory when its
 name is not UTF-8

---
 src/external.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index fe59e71..9599368 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -6,6 +6,7 @@ use libc::size_t;
 use std::{
     ffi::{c_char, c_uchar, c_ulonglong, CStr, CString},
     mem::{forget, ManuallyDrop},
+    path::PathBuf,
     ptr, slice,
 };
 
@@ -56,11 +57,21 @@ unsafe extern "C" fn deallocate_rust_buffer(ptr: *mut u8, len: size_t) {
     }
 }
 
-pub fn string_from_c_str(c_str: *const c_char) -> Option<String> {
+/// A lossy conversion would give the path of something else
+fn path_from_c_str(c_str: *const c_char) -> Option<PathBuf> {
     if c_str.is_null() {
         return None;
     }
-    unsafe { Some(CStr::from_ptr(c_str).to_string_lossy().into_owned()) }
+    let c_str = unsafe { CStr::from_ptr(c_str) };
+    #[cfg(unix)]
+    {
+        use std::{ffi::OsStr, os::unix::ffi::OsStrExt};
+        Some(PathBuf::from(OsStr::from_bytes(c_str.to_bytes())))
+    }
+    #[cfg(not(unix))]
+    {
+        c_str.to_str().ok().map(PathBuf::from)
+    }
 }
 
 /// Initialize the async runtime
@@ -106,7 +117,7 @@ pub extern "C" fn hyperbee_from_storage_directory(
     storage_directory: *const c_char,
 ) -> HyperbeePointer {
     let rt = from_c(rt);
-    let storage_directory = match string_from_c_str(storage_directory) {
+    let storage_directory = match path_from_c_str(storage_directory) {
         None => {
             // TODO use tracing: println!("No `storage_directory` provided to connect to");
             return ptr::null_mut();
-- 
2.43.0

