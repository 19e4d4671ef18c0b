From 447abaac4e507cc40b43e9a1d98ab0799bfaaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 01/10] Add guarded verification hooks (cfg oxyroot_verif), off
 by default

---
 oxyroot/src/lib.rs                            | 9 +++++++++
 oxyroot/src/rbase/attfill.rs                  | 5 +++++
 oxyroot/src/rbase/attline.rs                  | 5 +++++
 oxyroot/src/rbase/attmarker.rs                | 5 +++++
 oxyroot/src/rbase/mod.rs                      | 5 +++++
 oxyroot/src/rbase/named.rs                    | 5 +++++
 oxyroot/src/rbase/object.rs                   | 5 +++++
 oxyroot/src/rbase/objstring.rs                | 5 +++++
 oxyroot/src/rbytes/mod.rs                     | 5 +++++
 oxyroot/src/rcompress.rs                      | 5 +++++
 oxyroot/src/rcont/list.rs                     | 5 +++++
 oxyroot/src/rcont/objarray.rs                 | 5 +++++
 oxyroot/src/rdict/mod.rs                      | 5 +++++
 oxyroot/src/rdict/streamers/mod.rs            | 5 +++++
 oxyroot/src/rdict/streamers/streamer_types.rs | 5 +++++
 oxyroot/src/riofs/blocks.rs                   | 5 +++++
 oxyroot/src/riofs/dir.rs                      | 5 +++++
 oxyroot/src/riofs/file.rs                     | 5 +++++
 oxyroot/src/riofs/key.rs                      | 5 +++++
 oxyroot/src/riofs/mod.rs                      | 5 +++++
 oxyroot/src/rmeta/mod.rs                      | 5 +++++
 oxyroot/src/rtree/basket.rs                   | 5 +++++
 oxyroot/src/rtree/branch/mod.rs               | 5 +++++
 oxyroot/src/rtree/branch/tbranch.rs           | 5 +++++
 oxyroot/src/rtree/branch/tbranch_element.rs   | 5 +++++
 oxyroot/src/rtree/branch/wbranch.rs           | 5 +++++
 oxyroot/src/rtree/leaf.rs                     | 5 +++++
 oxyroot/src/rtree/tree/base.rs                | 5 +++++
 oxyroot/src/rtree/tree/mod.rs                 | 5 +++++
 oxyroot/src/rtree/tree/reader.rs              | 5 +++++
 oxyroot/src/rtree/tree/writer.rs              | 5 +++++
 oxyroot/src/rtree/wbasket.rs                  | 5 +++++
 oxyroot/src/utils.rs                          | 5 +++++
 33 files changed, 169 insertions(+)

diff --git a/oxyroot/src/lib.rs b/oxyroot/src/lib.rs
index 8415125..eeaebd5 100644
--- a/oxyroot/src/lib.rs
+++ b/oxyroot/src/lib.rs
@@ -179,6 +179,7 @@ oxyroot can iterate over  branch which contains :
 
 // Show which crate feature enables conditionally compiled APIs in documentation.
 #![cfg_attr(doc_cfg, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 
 extern crate core;
 
@@ -200,6 +201,14 @@ mod rusty;
 mod rvers;
 mod utils;
 
+// Verification harness kept outside the repository (see hooks in its MANIFEST.json); never part
+// of a normal build.
+#[cfg(oxyroot_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/lib.rs"));
+}
+
 pub use riofs::file::RootFile;
 pub use rtree::branch::Branch;
 pub use rtree::tree::reader::ReaderTree;
diff --git a/oxyroot/src/rbase/attfill.rs b/oxyroot/src/rbase/attfill.rs
index 86a049e..0fd2405 100644
--- a/oxyroot/src/rbase/attfill.rs
+++ b/oxyroot/src/rbase/attfill.rs
@@ -60,3 +60,8 @@ impl RVersioner for AttFill {
 }
 
 factory_all_for_register_impl!(AttFill, "TAttFill");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_attfill.rs"));
+}
diff --git a/oxyroot/src/rbase/attline.rs b/oxyroot/src/rbase/attline.rs
index ef2c116..b02a4ae 100644
--- a/oxyroot/src/rbase/attline.rs
+++ b/oxyroot/src/rbase/attline.rs
@@ -63,3 +63,8 @@ impl RVersioner for AttLine {
 }
 
 factory_all_for_register_impl!(AttLine, "TAttLine");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_attline.rs"));
+}
diff --git a/oxyroot/src/rbase/attmarker.rs b/oxyroot/src/rbase/attmarker.rs
index 73e6b1e..ea30f76 100644
--- a/oxyroot/src/rbase/attmarker.rs
+++ b/oxyroot/src/rbase/attmarker.rs
@@ -62,3 +62,8 @@ impl RVersioner for AttMarker {
 }
 
 factory_all_for_register_impl!(AttMarker, "TAttMarker");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_attmarker.rs"));
+}
diff --git a/oxyroot/src/rbase/mod.rs b/oxyroot/src/rbase/mod.rs
index f620c12..902b56e 100644
--- a/oxyroot/src/rbase/mod.rs
+++ b/oxyroot/src/rbase/mod.rs
@@ -13,3 +13,8 @@ pub(crate) use attmarker::AttMarker;
 pub use named::Named;
 pub(crate) use object::Object;
 pub use objstring::TObjString;
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_mod.rs"));
+}
diff --git a/oxyroot/src/rbase/named.rs b/oxyroot/src/rbase/named.rs
index eef1fac..f7481dc 100644
--- a/oxyroot/src/rbase/named.rs
+++ b/oxyroot/src/rbase/named.rs
@@ -92,3 +92,8 @@ impl RVersioner for Named {
         rvers::NAMED
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_named.rs"));
+}
diff --git a/oxyroot/src/rbase/object.rs b/oxyroot/src/rbase/object.rs
index 9d54b83..8174c60 100644
--- a/oxyroot/src/rbase/object.rs
+++ b/oxyroot/src/rbase/object.rs
@@ -66,3 +66,8 @@ impl Marshaler for Object {
         Ok(w.pos() - n)
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_object.rs"));
+}
diff --git a/oxyroot/src/rbase/objstring.rs b/oxyroot/src/rbase/objstring.rs
index 5e50723..82c6fd2 100644
--- a/oxyroot/src/rbase/objstring.rs
+++ b/oxyroot/src/rbase/objstring.rs
@@ -49,3 +49,8 @@ impl Unmarshaler for TObjString {
         Ok(())
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbase_objstring.rs"));
+}
diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..4df031b 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -532,3 +532,8 @@ pub fn ensure_minimum_supported_version(
     }
     Ok(())
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rbytes_mod.rs"));
+}
diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..f0ab8db 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -148,3 +148,8 @@ pub fn compress(src: Vec<u8>, compression: i32) -> Result<Vec<u8>> {
     //
     // Ok(dst)
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rcompress.rs"));
+}
diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 1c26e21..a0ef1f3 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -182,3 +182,8 @@ impl Marshaler for WriterList<'_> {
         Ok(w.pos() - beg)
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rcont_list.rs"));
+}
diff --git a/oxyroot/src/rcont/objarray.rs b/oxyroot/src/rcont/objarray.rs
index f5ce333..98ba7a5 100644
--- a/oxyroot/src/rcont/objarray.rs
+++ b/oxyroot/src/rcont/objarray.rs
@@ -194,3 +194,8 @@ impl Marshaler for WriterObjArray<'_> {
         w.set_header(hdr)
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rcont_objarray.rs"));
+}
diff --git a/oxyroot/src/rdict/mod.rs b/oxyroot/src/rdict/mod.rs
index d594cd1..034d26a 100644
--- a/oxyroot/src/rdict/mod.rs
+++ b/oxyroot/src/rdict/mod.rs
@@ -723,3 +723,8 @@ use streamers::streamer_types::{
     StreamerBase, StreamerBasicPointer, StreamerBasicType, StreamerObject, StreamerObjectAny,
     StreamerObjectPointer, StreamerSTL, StreamerSTLstring, StreamerString,
 };
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rdict_mod.rs"));
+}
diff --git a/oxyroot/src/rdict/streamers/mod.rs b/oxyroot/src/rdict/streamers/mod.rs
index 6eac1f9..114068f 100644
--- a/oxyroot/src/rdict/streamers/mod.rs
+++ b/oxyroot/src/rdict/streamers/mod.rs
@@ -54,3 +54,8 @@ pub(crate) fn make_streamer_for_marshaler_type<T: Marshaler>() -> StreamerInfo {
 
     StreamerInfo::new_from_streamerq(T::class_name(), vec![st])
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rdict_streamers_mod.rs"));
+}
diff --git a/oxyroot/src/rdict/streamers/streamer_types.rs b/oxyroot/src/rdict/streamers/streamer_types.rs
index ff56121..ce998b6 100644
--- a/oxyroot/src/rdict/streamers/streamer_types.rs
+++ b/oxyroot/src/rdict/streamers/streamer_types.rs
@@ -590,3 +590,8 @@ factory_all_for_register_impl!(StreamerObjectAny, "TStreamerObjectAny");
 factory_all_for_register_impl!(StreamerBasicPointer, "TStreamerBasicPointer");
 factory_all_for_register_impl!(StreamerSTL, "TStreamerSTL");
 factory_all_for_register_impl!(StreamerSTLstring, "TStreamerSTLstring");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rdict_streamers_streamer_types.rs"));
+}
diff --git a/oxyroot/src/riofs/blocks.rs b/oxyroot/src/riofs/blocks.rs
index efff86d..d483cca 100644
--- a/oxyroot/src/riofs/blocks.rs
+++ b/oxyroot/src/riofs/blocks.rs
@@ -91,3 +91,8 @@ impl FreeList {
         self.0.len()
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/riofs_blocks.rs"));
+}
diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..86989b9 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -480,3 +480,8 @@ impl Marshaler for TDirectoryFile {
         Ok(end - beg)
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/riofs_dir.rs"));
+}
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..ee18310 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -979,3 +979,8 @@ impl StreamerInfoContext for RootFileStreamerInfoContext {
         None
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/riofs_file.rs"));
+}
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..e322ef0 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -534,3 +534,8 @@ fn key_len_for(name: &str, title: &str, class: &str, f: &RootFile) -> i32 {
 
     nbytes
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/riofs_key.rs"));
+}
diff --git a/oxyroot/src/riofs/mod.rs b/oxyroot/src/riofs/mod.rs
index 9e0b8e6..32c8e7f 100644
--- a/oxyroot/src/riofs/mod.rs
+++ b/oxyroot/src/riofs/mod.rs
@@ -10,3 +10,8 @@ pub(crate) use key::Key;
 
 pub use error::Error;
 pub use error::Result;
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/riofs_mod.rs"));
+}
diff --git a/oxyroot/src/rmeta/mod.rs b/oxyroot/src/rmeta/mod.rs
index 5882822..4feeabd 100644
--- a/oxyroot/src/rmeta/mod.rs
+++ b/oxyroot/src/rmeta/mod.rs
@@ -5,3 +5,8 @@ pub use consts::EReadWrite;
 pub use consts::ESTLType;
 pub use consts::Enum;
 pub use consts::EnumNamed;
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rmeta_mod.rs"));
+}
diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 08b49c2..0847685 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -292,3 +292,8 @@ impl Unmarshaler for Basket {
 }
 
 factory_fn_register_impl!(Basket, "TBasket");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_basket.rs"));
+}
diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index fc1e4f4..333bf75 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -458,3 +458,8 @@ impl<'a, T> Iterator for ZiperBranches<'a, T> {
         Some((0, size as i32, outbuf))
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_branch_mod.rs"));
+}
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..f000b02 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -812,3 +812,8 @@ impl RVersioner for TBranch {
         rvers::BRANCH
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_branch_tbranch.rs"));
+}
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..297cb08 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -546,3 +546,8 @@ impl RVersioner for TBranchElement {
 }
 
 factory_fn_register_impl!(TBranchElement, "TBranchElement");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_branch_tbranch_element.rs"));
+}
diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..7b376ff 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -269,3 +269,8 @@ where
         rvers::BRANCH
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_branch_wbranch.rs"));
+}
diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 8446c5b..4547e09 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -660,3 +660,8 @@ impl RVersioner for LeafElement {
 }
 
 factory_all_for_register_impl!(LeafElement, "TLeafElement");
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_leaf.rs"));
+}
diff --git a/oxyroot/src/rtree/tree/base.rs b/oxyroot/src/rtree/tree/base.rs
index d5e2750..bb4f572 100644
--- a/oxyroot/src/rtree/tree/base.rs
+++ b/oxyroot/src/rtree/tree/base.rs
@@ -97,3 +97,8 @@ impl<B> Default for Tree<B> {
         }
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_tree_base.rs"));
+}
diff --git a/oxyroot/src/rtree/tree/mod.rs b/oxyroot/src/rtree/tree/mod.rs
index 70bfa9c..48ded5f 100644
--- a/oxyroot/src/rtree/tree/mod.rs
+++ b/oxyroot/src/rtree/tree/mod.rs
@@ -17,3 +17,8 @@ pub use base::Tree;
 pub use reader::ReaderTree;
 pub use writer::StateCallBack;
 pub use writer::WriterTree;
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_tree_mod.rs"));
+}
diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index 3ebaac7..1dd9899 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -325,3 +325,8 @@ impl Unmarshaler for ReaderTree {
 }
 
 factory_all_for_register_impl!(ReaderTree, "TTree", rvers::TREE);
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_tree_reader.rs"));
+}
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 1429660..7e0012a 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -304,3 +304,8 @@ impl RVersioner for WriterTree {
         rvers::TREE
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_tree_writer.rs"));
+}
diff --git a/oxyroot/src/rtree/wbasket.rs b/oxyroot/src/rtree/wbasket.rs
index b2266ce..5f38e58 100644
--- a/oxyroot/src/rtree/wbasket.rs
+++ b/oxyroot/src/rtree/wbasket.rs
@@ -198,3 +198,8 @@ impl Marshaler for WBasket {
         // self.basket.key().marshal(w)?;
     }
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/rtree_wbasket.rs"));
+}
diff --git a/oxyroot/src/utils.rs b/oxyroot/src/utils.rs
index 5d553a1..b980575 100644
--- a/oxyroot/src/utils.rs
+++ b/oxyroot/src/utils.rs
@@ -75,3 +75,8 @@ const CXX_BUILTINS: [&str; 53] = [
 pub(crate) fn is_cxx_builtin(name: &str) -> bool {
     CXX_BUILTINS.contains(&name)
 }
+
+#[cfg(oxyroot_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("OXYROOT_VERIF_DIR"), "/in/utils.rs"));
+}
-- 
2.43.0


From 16bdba32811ec2890bb0bdf8360d80bd5eab464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 02/10] fix: Key::new must choose the key format before moving
 the end of the file

key_len is computed from is_big_file() before set_end(), the key version from
is_big_file() after it: when the record itself crosses kStartBigFile the key
was written with 64-bit seeks (8 bytes more than key_len) and the payload
overwrote its last bytes.
---
 oxyroot/src/riofs/key.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index e322ef0..e5888c3 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -228,13 +228,15 @@ impl Key {
         };
         key.n_bytes = key.obj_len + key.key_len;
         let eof = f.end();
+        // key_len was computed for the file as it is now: decide the width of
+        // the seeks before the end of the file moves
+        if f.is_big_file() {
+            key.rvers += 1000
+        }
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
-- 
2.43.0


From 2460410c1fb3973cbb85a92b8cd194faba1bbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 03/10] fix: write the directory record with 64-bit seeks when
 a seek needs them

TDirectoryFile::marshal looked only at the class version it was created with,
which never changes, so a key list past kStartBigFile had its position
truncated to 32 bits (record_size already reserves room for wide seeks).
---
 oxyroot/src/riofs/dir.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 86989b9..7ec63ec 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -3,6 +3,7 @@ use crate::riofs::file::{RootFile, RootFileReader};
 use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
 use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
 use crate::root::traits::Named;
@@ -436,7 +437,14 @@ impl Unmarshaler for TDirectoryFile {
 impl Marshaler for TDirectoryFile {
     fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> {
         let beg = w.pos();
-        let version = self.dir().rvers;
+        let mut version = self.dir().rvers;
+        if version < 1000
+            && (self.seek_dir > kStartBigFile
+                || self.seek_parent > kStartBigFile
+                || self.seek_keys > kStartBigFile)
+        {
+            version += 1000;
+        }
         trace!(";TDirectoryFile.marshal.beg:{:?}", beg);
         trace!(";TDirectoryFile.marshal.version:{:?}", version);
         w.write_i16(version)?;
@@ -457,7 +465,7 @@ impl Marshaler for TDirectoryFile {
         );
         w.write_i32(self.n_bytes_name)?;
 
-        if self.is_big_file() {
+        if version > 1000 {
             w.write_i64(self.seek_dir)?;
             w.write_i64(self.seek_parent)?;
             w.write_i64(self.seek_keys)?;
-- 
2.43.0


From 1085347c8f78ad42c7ab190e575518108a31dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 04/10] fix: read back key and directory dates with the
 encoding they are written in

Dates are written packed (TDatime) but were read as seconds since the epoch.
---
 oxyroot/src/riofs/dir.rs   |  6 +++---
 oxyroot/src/riofs/key.rs   |  4 ++--
 oxyroot/src/riofs/utils.rs | 20 +++++++++++++++++++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 7ec63ec..ce372a0 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -5,7 +5,7 @@ use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
 use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
-use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
+use crate::riofs::utils::{datetime_to_u32, decode_name_cycle, u32_to_datetime};
 use crate::root::traits::Named;
 use crate::root::traits::Object;
 
@@ -386,8 +386,8 @@ impl Unmarshaler for TDirectoryFile {
         let ctime = r.read_u32()?;
         let mtime = r.read_u32()?;
 
-        let ctime = DateTime::from_timestamp(ctime as i64, 0).unwrap();
-        let mtime = DateTime::from_timestamp(mtime as i64, 0).unwrap();
+        let ctime = u32_to_datetime(ctime);
+        let mtime = u32_to_datetime(mtime);
         trace!("read ctime = {}", ctime);
 
         let n_bytes_keys = r.read_i32()?;
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index e5888c3..044c5e0 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -4,7 +4,7 @@ use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
 use crate::riofs::consts::kStartBigFile;
 use crate::riofs::dir::TDirectoryFile;
 use crate::riofs::file::{RootFileReader, RootFileWriter};
-use crate::riofs::utils::datetime_to_u32;
+use crate::riofs::utils::{datetime_to_u32, u32_to_datetime};
 use crate::riofs::{utils, Result};
 use crate::root::traits::{datime_sizeof, tstring_sizeof, Named};
 use crate::root::{objects, traits};
@@ -95,7 +95,7 @@ impl Unmarshaler for Key {
         let rvers = r.read_i16()?;
         trace!(";KEY.unmarshal.a{_beg}.rvers: {}", rvers);
         let obj_len = r.read_i32()?;
-        let datetime = DateTime::from_timestamp(r.read_u32()? as i64, 0).unwrap();
+        let datetime = u32_to_datetime(r.read_u32()?);
         let key_len = r.read_i16()? as i32;
         let cycle = r.read_i16()?;
 
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..534f3c2 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -1,5 +1,5 @@
 use crate::riofs::Error;
-use chrono::{DateTime, Datelike, Timelike, Utc};
+use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
 
 pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
     let toks: Vec<_> = namecycle.split(';').collect();
@@ -34,3 +34,21 @@ pub(crate) fn datetime_to_u32(datetime: DateTime<Utc>) -> u32 {
 
     ((year - 1995) << 26) | (month << 22) | (day << 17) | (hour << 12) | (minute << 6) | second
 }
+
+/// Inverse of [datetime_to_u32], the epoch stands for a value that is no date
+pub(crate) fn u32_to_datetime(v: u32) -> DateTime<Utc> {
+    let year = (v >> 26) as i32 + 1995;
+    let month = (v >> 22) & 0xf;
+    let day = (v >> 17) & 0x1f;
+    let hour = (v >> 12) & 0x1f;
+    let minute = (v >> 6) & 0x3f;
+    let second = v & 0x3f;
+
+    match Utc
+        .with_ymd_and_hms(year, month, day, hour, minute, second)
+        .single()
+    {
+        Some(datetime) => datetime,
+        None => DateTime::from_timestamp(0, 0).unwrap(),
+    }
+}
-- 
2.43.0


From 4613cd46106fb3d76670019d83c6f9bb07fed393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 05/10] fix: close must flush the buffered bytes so that a
 closed file is complete

---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index ee18310..ebf797d 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 781e4765e305905a47b45d815c7aef8c21688053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 06/10] fix: writing a branch does not forget the length of its
 offset table

The size of the largest entry was stored over nev_size even when the basket
has an offset table, whose length it is: after an entry of more bytes than
the table has places, the table no longer grew and writing panicked.
---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 7b376ff..90d3328 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -145,7 +145,8 @@ where
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
                 let n = (sz_new - sz_old) as i32;
-                if n > basket.basket.nev_size {
+                // with an offset table, nev_size is the length of that table
+                if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
                     basket.basket.nev_size = n;
                 }
 
-- 
2.43.0


From 5b2a41c792d51f3c83eac645b3b14c3492e8e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 07/10] fix: decompress every block of a record stored in
 several blocks

---
 oxyroot/src/rcompress.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index f0ab8db..8a34c41 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -57,21 +57,27 @@ fn kind_of(buf: &[u8]) -> Kind {
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let _beg = 0;
     let mut end = 0;
-    let buflen = dst.len() as i64;
+    let buflen = dst.len();
     let mut hdr = [0_u8; HEADER_SIZE];
 
     // let mut v =
 
+    // A payload is a sequence of blocks, each with its own header: every block fills the part of
+    // `dst` that follows the previous one.
     while end < buflen {
         // let src = src.as_mut();
         src.read_exact(&mut hdr)?;
         // let _ = src.read_exact(dst)?;
         // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
-        let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        let tgtsz = hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
         // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
-        end += tgtsz;
+        if srcsz > src.len() || tgtsz > buflen - end {
+            return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+        }
+        let (block, next) = src.split_at(srcsz);
+        let out = &mut dst[end..end + tgtsz];
 
         match kind_of(hdr.as_ref()) {
             Kind::Inherit => {
@@ -82,20 +88,18 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
-                return Ok(0);
+                let mut d = ZlibDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
+                let mut d = XzDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
-                return Ok(0);
+                LZ4_decompress_to_buffer(&block[8..], Some(tgtsz as i32), out)?;
                 // let mut d = LZ4Decoder::new(src)?;
                 // d.read_exact(dst.as_mut())?;
             }
@@ -106,6 +110,9 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 unimplemented!()
             }
         }
+
+        src = next;
+        end += tgtsz;
     }
 
     Ok(0)
-- 
2.43.0


From e4a5fd567fe7b9e73d034f0ee75c42999ba20eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 08/10] fix: the basket embedded in a branch comes after the
 baskets in the file

---
 oxyroot/src/rtree/branch/tbranch.rs         | 3 ++-
 oxyroot/src/rtree/branch/tbranch_element.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index f000b02..343910e 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -269,7 +269,8 @@ impl TBranch {
             });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            // the basket still in memory when the branch was written holds its last entries
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 297cb08..fc8a232 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -437,7 +437,8 @@ impl TBranchElement {
         });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            // the basket still in memory when the branch was written holds its last entries
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 }
-- 
2.43.0


From fad2f793c90bcbe548d73a2b1f14c86d2daaad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 09/10] fix: entries of varying size are not read as values of
 fixed size when their number happens to agree

---
 oxyroot/src/rtree/branch/tbranch.rs | 2 +-
 oxyroot/src/rtree/leaf.rs           | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 343910e..c64eb07 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -239,7 +239,7 @@ impl TBranch {
                         _ => {
                             let n_elements_in_buffer = buf.len() / chunk_size as usize;
                             // trial and error...
-                            if n_elements_in_buffer == self.entries as usize {
+                            if n_elements_in_buffer == self.entries as usize && !leave.varies() {
                                 // assert_eq!(n, self.entries as usize);
                                 trace!("send ({n},{chunk_size},{:?})", buf);
                                 BranchChunks::RegularSized((
diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 4547e09..a4c9e6e 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -144,6 +144,12 @@ impl Leaf {
         self.tleaf().title()
     }
 
+    /// entries of varying size: a dimension in the title is not a number but the name of another leaf
+    pub(crate) fn varies(&self) -> bool {
+        let mut dims = self.title().split('[').skip(1);
+        dims.any(|d| !d.starts_with(|c: char| c.is_ascii_digit()))
+    }
+
     pub fn unsigned(&self) -> Option<bool> {
         match self {
             Leaf::Base(_) => None,
-- 
2.43.0


From a18171d2da7d7451e1ac3298f3988eb038a110f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:34 +0000
Subject: [PATCH 10/10] fix: entries of varying size in a basket embedded in a
 branch are cut where they start

---
 oxyroot/src/rtree/branch/tbranch.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index c64eb07..a890fac 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -193,6 +193,19 @@ impl TBranch {
                 let n = b.nev_buf();
                 let chunk_size = 1;
 
+                // entries of varying size: cut where the basket says that they start
+                if !b.offsets().is_empty() && self.leaves.iter().any(|l| l.varies()) {
+                    let buf = b.key().buffer();
+                    let end = buf.len() as i32;
+                    let starts = b.offsets().iter().take(n as usize);
+                    let stops = b.offsets().iter().take(n as usize).skip(1);
+                    let data = starts
+                        .zip(stops.chain(std::iter::once(&end)))
+                        .map(|(start, stop)| buf[*start as usize..*stop as usize].to_vec())
+                        .collect();
+                    return BranchChunks::IrregularSized((n, data, 0));
+                }
+
                 BranchChunks::RegularSized((n, chunk_size, buf))
             }))
         } else {
-- 
2.43.0

