From fc09b33a86b7c31c3e1fc572d228d3acbef5d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 01/57] fix: check address offsets of every register group
 collected in cluster

---
 src/patch/peripheral.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd690b3..6cad319 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1742,7 +1742,6 @@ fn collect_in_cluster(
     let mut dim = 0;
     let mut dim_index = Vec::new();
     let mut dim_increment = cmod.get_u32("dimIncrement")?.unwrap_or(0);
-    let mut offsets = Vec::new();
     let mut place = usize::MAX;
     let mut rspecs = Vec::new();
     let single = !cname.contains("%s");
@@ -1818,6 +1817,10 @@ fn collect_in_cluster(
                 })
                 .collect::<Result<Vec<_>, _>>();
             let new_dim_index = new_dim_index?;
+            let offsets = registers
+                .iter()
+                .map(|r| r.address_offset)
+                .collect::<Vec<_>>();
             if let Some(rspec1) = first.as_ref() {
                 let len = registers.len();
                 if dim != len {
@@ -1833,10 +1836,6 @@ fn collect_in_cluster(
             } else {
                 dim = registers.len();
                 dim_index = new_dim_index;
-                offsets = registers
-                    .iter()
-                    .map(|r| r.address_offset)
-                    .collect::<Vec<_>>();
                 if dim > 1 {
                     dim_increment = offsets[1] - offsets[0];
                 }
-- 
2.43.0


From e63e484bfd8ab290d5c0e37f9a8b62e0e10ee22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 02/57] fix: apply optional rules to clusters as well

---
 src/patch/peripheral.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 6cad319..f2a6199 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -403,9 +403,9 @@ pub(crate) trait RegisterBlockExt: Name {
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
         let (rcspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rcspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rcspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rcspec}. Present registers: {present}.`"
@@ -453,9 +453,9 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let (rspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rspec}. Present registers: {present}.`"
-- 
2.43.0


From 373959420a7cea1e8b3696c23e5ef1482a409f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 03/57] fix: process optional and unmatched fields in derived
 enumeratedValues rules

---
 src/patch/register.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 170aa86..5d6bd5f 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -873,7 +873,15 @@ impl RegisterExt for Register {
                 }
             };
             let evs = make_derived_enumerated_values(d)?;
-            for ftag in self.iter_fields(fspec) {
+            let (fspec, ignore) = fspec.spec();
+            let ftags = self.iter_fields(fspec).collect::<Vec<_>>();
+            if ftags.is_empty() && !ignore {
+                let present = self.present_fields();
+                return Err(anyhow!(
+                    "Could not find field {rpath}:{fspec}. Present fields: {present}."
+                ));
+            }
+            for ftag in ftags {
                 let access = ftag.access.or(reg_access).unwrap_or_default();
                 let checked_usage = check_usage(access, usage)
                     .with_context(|| format!("In field {}", ftag.name))?;
-- 
2.43.0


From c455bef0449c09f957dc70d23e853e5e6ac5c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 04/57] fix: derive enumeratedValues without explicit usage in
 read-only and write-only fields

---
 src/patch/register.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 5d6bd5f..e3a0a37 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -859,12 +859,19 @@ impl RegisterExt for Register {
             // original definition to extract its <usage>
             let mut derived_enums = self
                 .fields()
-                .flat_map(|f| f.enumerated_values.iter())
-                .filter(|e| e.name.as_deref() == Some(d));
+                .flat_map(|f| f.enumerated_values.iter().map(move |e| (f, e)))
+                .filter(|(_, e)| e.name.as_deref() == Some(d));
             let orig_usage = match (derived_enums.next(), derived_enums.next()) {
-                (Some(e), None) => e.usage().ok_or_else(|| {
-                    anyhow!("{rpath}: multilevel derive for {d} is not supported")
-                })?,
+                (Some((_, e)), None) if e.derived_from.is_some() => {
+                    return Err(anyhow!(
+                        "{rpath}: multilevel derive for {d} is not supported"
+                    ))
+                }
+                // Without explicit <usage> it is defined by access of the field
+                (Some((f, e)), None) => match e.usage {
+                    Some(usage) => usage,
+                    None => check_usage(f.access.or(reg_access).unwrap_or_default(), None)?,
+                },
                 (None, _) => return Err(anyhow!("{rpath}: enumeratedValues {d} can't be found")),
                 (Some(_), Some(_)) => {
                     return Err(anyhow!(
-- 
2.43.0


From dad1a1c384ff7008971c875aac0be419edfaefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 05/57] fix: do not delete single clusters on cluster expansion

---
 src/patch/peripheral.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index f2a6199..0773e01 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -684,9 +684,8 @@ pub(crate) trait RegisterBlockExt: Name {
         noprefix: Option<bool>,
     ) -> PatchResult {
         let mut clusters_to_expand_with_info = Vec::new();
-        let mut clusters_to_delete = Vec::new();
 
-        let (_, ignore) = cspec.spec();
+        let (spec, ignore) = cspec.spec();
 
         // some fancy footwork to satisfy the borrow checker gods
         let cluster_data = self.get_cluster_registers(cspec);
@@ -706,7 +705,11 @@ pub(crate) trait RegisterBlockExt: Name {
         }
 
         if let Some(regs) = self.children_mut() {
-            for (ctag, dim, cluster_registers) in clusters_to_expand_with_info.clone() {
+            // remove expanded clusters only, single clusters are left untouched
+            regs.retain(|rc| {
+                !matches!(rc, RegisterCluster::Cluster(Cluster::Array(c, _)) if matchname(&c.name, spec))
+            });
+            for (ctag, dim, cluster_registers) in clusters_to_expand_with_info {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
                 log::info!(
@@ -753,17 +756,12 @@ pub(crate) trait RegisterBlockExt: Name {
                 }
                 if !found {
                     return Err(anyhow!("No registers found in cluster {:?}", cspec));
-                } else {
-                    clusters_to_delete.push(ctag.name);
                 }
             }
         } else {
             return Err(anyhow!("No registers or clusters"));
         };
 
-        self.delete_cluster(cspec)
-            .with_context(|| format!("Deleting clusters matched to `{cspec}`"))?;
-
         Ok(())
     }
 
-- 
2.43.0


From f56468224adc8c2b0a7938b839c1dddd12fc73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 06/57] fix: replace %s in register names on cluster expansion

---
 src/patch/peripheral.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 0773e01..fc9d7f7 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -781,7 +781,7 @@ pub(crate) trait RegisterBlockExt: Name {
         let post_index_delim = post_index_delim.unwrap_or("_").to_string();
 
         let has_bracket_delim = ctag.name.find(r#"[%s]"#);
-        let has_nobracket_delim = ctag.name.find(r#"[%s]"#);
+        let has_nobracket_delim = ctag.name.find(r#"%s"#);
         let prefix = if dim.dim > 1 || matches!(zeroindex, Some(true)) {
             if let Some(true) = noprefix {
                 return Err(anyhow!(
@@ -844,7 +844,17 @@ pub(crate) trait RegisterBlockExt: Name {
                         post_index_delim
                     )
                 }
-                (None, None, _) => {
+                (None, None, Some(_)) => {
+                    format!(
+                        "{}{}",
+                        &ctag.name.replace(
+                            r#"%s"#,
+                            &format!("{}{}", pre_index_delim, &n_dim.to_string())
+                        ),
+                        post_index_delim
+                    )
+                }
+                (None, None, None) => {
                     format!(
                         "{}{}{}{}",
                         ctag.name, pre_index_delim, n_dim, post_index_delim
-- 
2.43.0


From 9aef55add0753507d2702bbc2a990ec6936b5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 07/57] fix: keep inherited properties and references of
 registers on cluster expansion

---
 src/patch/peripheral.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index fc9d7f7..fd88f7c 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -3,8 +3,8 @@ use itertools::Itertools;
 use svd::Name;
 use svd_parser::expand::BlockPath;
 use svd_parser::svd::{
-    self, Cluster, ClusterInfo, DimElement, Interrupt, Peripheral, Register, RegisterCluster,
-    RegisterInfo,
+    self, Cluster, ClusterInfo, DeriveFrom, DimElement, Interrupt, Peripheral, Register,
+    RegisterCluster, RegisterInfo,
 };
 use yaml_rust::{yaml::Hash, Yaml};
 
@@ -712,6 +712,10 @@ pub(crate) trait RegisterBlockExt: Name {
             for (ctag, dim, cluster_registers) in clusters_to_expand_with_info {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
+                let names = cluster_registers
+                    .iter()
+                    .map(|rc| rc.name().to_string())
+                    .collect::<Vec<_>>();
                 log::info!(
                     "Expanding {} element cluster {} for peripheral {}",
                     dim.dim,
@@ -736,12 +740,34 @@ pub(crate) trait RegisterBlockExt: Name {
                                 register.address_offset += cluster_offset;
                                 register.address_offset += n_dim * dim.dim_increment;
                                 register.name = format!("{}{}", prefix, register.name);
+                                match register.derived_from.as_mut() {
+                                    Some(base) if names.contains(base) => {
+                                        base.insert_str(0, &prefix)
+                                    }
+                                    Some(_) => {}
+                                    None => {
+                                        register.properties = register
+                                            .properties
+                                            .derive_from(&ctag.default_register_properties)
+                                    }
+                                }
                                 RegisterCluster::Register(register)
                             }
                             RegisterCluster::Cluster(mut cluster) => {
                                 cluster.address_offset += cluster_offset;
                                 cluster.address_offset += n_dim * dim.dim_increment;
                                 cluster.name = format!("{}{}", prefix, cluster.name);
+                                match cluster.derived_from.as_mut() {
+                                    Some(base) if names.contains(base) => {
+                                        base.insert_str(0, &prefix)
+                                    }
+                                    Some(_) => {}
+                                    None => {
+                                        cluster.default_register_properties = cluster
+                                            .default_register_properties
+                                            .derive_from(&ctag.default_register_properties)
+                                    }
+                                }
                                 RegisterCluster::Cluster(cluster)
                             }
                         };
-- 
2.43.0


From 3ec05369fbb59e4ff536633be4019d24229dc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 08/57] fix: take field arrays into account in register bit
 mask

---
 src/patch/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index e3a0a37..a947623 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -31,7 +31,7 @@ impl RegisterInfoExt for RegisterInfo {
         let mut mask = 0x0;
         if let Some(fields) = self.fields.as_ref() {
             for ftag in fields {
-                mask |= (!0 >> (64 - ftag.bit_range.width)) << ftag.bit_range.offset;
+                mask |= ftag.bitmask();
             }
         }
         mask
-- 
2.43.0


From 2e6fbc8a7b0002cb5d591caa21d5544eda8ab3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 09/57] fix: do not collect fields with different widths in
 array

---
 src/patch/register.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index a947623..5442a05 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -580,6 +580,11 @@ impl RegisterExt for Register {
                 .map(|f| f.bit_range.offset)
                 .collect::<Vec<_>>();
             let dim_increment = if dim > 1 { offsets[1] - offsets[0] } else { 0 };
+            if !fields.iter().map(|f| f.bit_range.width).all_equal() {
+                return Err(anyhow!(
+                    "{rpath}: fields cannot be collected into {fspec} array. Different bitWidths"
+                ));
+            }
             if !check_offsets(&offsets, dim_increment) {
                 return Err(anyhow!(
                     "{rpath}: fields cannot be collected into {fspec} array. Different bitOffset increments"
-- 
2.43.0


From 638d3962bd81db463b5517845e633dafc673edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 10/57] fix: keep shared access of merged fields

---
 src/patch/register.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 5442a05..ac447e0 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -504,11 +504,15 @@ impl RegisterExt for Register {
             let mut pos = usize::MAX;
             let mut first = true;
             let mut desc = None;
+            let mut access = None;
             for (i, f) in fields.iter_mut().enumerate() {
                 if names.contains(&f.name) {
                     if first {
                         desc.clone_from(&f.description);
+                        access = f.access;
                         first = false;
+                    } else if access != f.access {
+                        access = None;
                     }
                     bitwidth += f.bit_range.width;
                     bitoffset = bitoffset.min(f.bit_range.offset);
@@ -521,6 +525,7 @@ impl RegisterExt for Register {
                 FieldInfo::builder()
                     .name(name)
                     .description(desc)
+                    .access(access)
                     .bit_range(BitRange::from_offset_width(bitoffset, bitwidth))
                     .build(VAL_LVL)?
                     .single(),
-- 
2.43.0


From a3af7af01b933c4cde0c29c5b18924a1915e027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 11/57] fix: strip name parts matched by wildcard patterns

---
 src/patch/mod.rs        | 20 +++++++++++++
 src/patch/peripheral.rs | 65 ++++++++++-------------------------------
 src/patch/register.rs   | 17 ++++-------
 3 files changed, 41 insertions(+), 61 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..def69aa 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -737,6 +737,26 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     Ok(cpu)
 }
 
+/// Delete from the beginning of `name` the shortest part matched by `glob`
+fn strip_name_start(name: &mut String, glob: &globset::GlobMatcher) {
+    let len = (name.char_indices().map(|(i, _)| i))
+        .chain([name.len()])
+        .find(|&i| glob.is_match(&name[..i]));
+    if let Some(len) = len {
+        name.drain(..len);
+    }
+}
+
+/// Delete from the ending of `name` the longest part matched by `glob`
+fn strip_name_end(name: &mut String, glob: &globset::GlobMatcher) {
+    let len = (name.char_indices().map(|(i, _)| i))
+        .chain([name.len()])
+        .find(|&i| glob.is_match(&name[i..]));
+    if let Some(len) = len {
+        name.truncate(len);
+    }
+}
+
 /// Find left and right indices of enumeration token in specification string
 ///
 /// # Examples
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index fd88f7c..990240d 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -13,7 +13,8 @@ use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     adding_pos, check_offsets, common_description, make_dim_element, matchname, matchsubspec,
-    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
+    modify_dim_element, spec_ind, strip_name_end, strip_name_start, Config, PatchResult, Spec,
+    VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -524,36 +525,23 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the beginning of register names inside ptag
     fn strip_start(&mut self, prefix: &str) -> PatchResult {
-        let len = prefix.len();
-        let glob = globset::Glob::new(&(prefix.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(prefix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                rtag.name.drain(..len);
-            }
+            strip_name_start(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
+                strip_name_start(dname, &glob);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
+                strip_name_start(name, &glob);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                ctag.name.drain(..len);
-            }
+            strip_name_start(&mut ctag.name, &glob);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
+                strip_name_start(dname, &glob);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
+                strip_name_start(name, &glob);
             }
         }
         Ok(())
@@ -561,44 +549,23 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the ending of register names inside ptag
     fn strip_end(&mut self, suffix: &str) -> PatchResult {
-        let len = suffix.len();
-        let glob = globset::Glob::new(&("*".to_string() + suffix))
-            .unwrap()
-            .compile_matcher();
+        let glob = globset::Glob::new(suffix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                let nlen = rtag.name.len();
-                rtag.name.truncate(nlen - len);
-            }
+            strip_name_end(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip_name_end(dname, &glob);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip_name_end(name, &glob);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                let nlen = ctag.name.len();
-                ctag.name.truncate(nlen - len);
-            }
+            strip_name_end(&mut ctag.name, &glob);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip_name_end(dname, &glob);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip_name_end(name, &glob);
             }
         }
         Ok(())
diff --git a/src/patch/register.rs b/src/patch/register.rs
index ac447e0..f649d3b 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -15,7 +15,7 @@ use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     check_offsets, common_description, make_dim_element, matchname, modify_dim_element, spec_ind,
-    Config, PatchResult, Spec, VAL_LVL,
+    strip_name_end, strip_name_start, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -283,24 +283,17 @@ impl RegisterExt for Register {
     }
 
     fn strip_start(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&(substr.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                ftag.name.drain(..len);
-            }
+            strip_name_start(&mut ftag.name, &glob);
         }
         Ok(())
     }
 
     fn strip_end(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&("*".to_string() + substr))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                let nlen = ftag.name.len();
-                ftag.name.truncate(nlen - len);
-            }
+            strip_name_end(&mut ftag.name, &glob);
         }
         Ok(())
     }
-- 
2.43.0


From 8cf70e2ffbcf49e0ecfcf6790774cbb800c46184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 12/57] fix: refer to the same source from all registers
 affected by _derive

---
 src/patch/peripheral.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 990240d..8ba8a6f 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -298,11 +298,7 @@ pub(crate) trait RegisterBlockExt: Name {
         }
         let (rspec, ignore) = rspec.spec();
         let (rderive, dim, info) = if let Some(rderive) = rderive.as_str() {
-            (
-                rderive,
-                None,
-                RegisterInfo::builder().derived_from(Some(make_path(rderive, bpath))),
-            )
+            (rderive, None, RegisterInfo::builder())
         } else if let Some(hash) = rderive.as_hash() {
             let rderive = hash.get_str("_from")?.ok_or_else(|| {
                 anyhow!("derive: source register not given, please add a _from field to {rspec}")
@@ -310,11 +306,13 @@ pub(crate) trait RegisterBlockExt: Name {
             (
                 rderive,
                 make_dim_element(hash)?,
-                make_register(hash, Some(bpath))?.derived_from(Some(make_path(rderive, bpath))),
+                make_register(hash, Some(bpath))?,
             )
         } else {
             return Err(anyhow!("derive: incorrect syntax for {rspec}"));
         };
+        let dpath = make_path(rderive, bpath);
+        let info = info.derived_from(Some(dpath.clone()));
 
         // Attempt to verify that the destination register name is correct.
         if rderive.contains('.') {
@@ -353,7 +351,7 @@ pub(crate) trait RegisterBlockExt: Name {
                 .regs_mut()
                 .filter(|r| r.derived_from.as_deref() == Some(&rname))
             {
-                r.derived_from = Some(rderive.into());
+                r.derived_from = Some(dpath.clone());
             }
         }
         Ok(())
-- 
2.43.0


From 2ec6b72cec159ae1784448ff2294c18793bea5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 13/57] fix: report field arrays not found in registers without
 fields

---
 src/patch/register.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index f649d3b..27f554b 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -617,6 +617,8 @@ impl RegisterExt for Register {
             );
             //field.process(fmod, &self.name, true);
             fs.insert(place, field);
+        } else if !fspec.spec().1 {
+            return Err(anyhow!("{rpath}: fields {fspec} not found."));
         }
         Ok(())
     }
-- 
2.43.0


From 348131f91f1cca641f9cafad1374aa89e494721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 14/57] fix: apply optional expansion rules, skip optional
 rules in peripherals without registers

---
 src/patch/peripheral.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 8ba8a6f..baee66e 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -210,6 +210,8 @@ pub(crate) trait RegisterBlockExt: Name {
             } else {
                 Ok(())
             }
+        } else if ignore {
+            Ok(())
         } else {
             Err(anyhow!("No registers or clusters"))
         }
@@ -605,11 +607,9 @@ pub(crate) trait RegisterBlockExt: Name {
         bpath: &BlockPath,
         config: &Config,
     ) -> PatchResult {
-        if let Some(regs) = self.children_mut() {
-            collect_in_array(regs, bpath, rspec, rmod, config)
-        } else {
-            Err(anyhow!("No registers or clusters"))
-        }
+        let mut empty = Vec::new();
+        let regs = self.children_mut().unwrap_or(&mut empty);
+        collect_in_array(regs, bpath, rspec, rmod, config)
     }
 
     fn get_cluster_registers(
@@ -653,8 +653,11 @@ pub(crate) trait RegisterBlockExt: Name {
         let (spec, ignore) = cspec.spec();
 
         // some fancy footwork to satisfy the borrow checker gods
-        let cluster_data = self.get_cluster_registers(cspec);
-        if cluster_data.is_empty() && !ignore {
+        let cluster_data = self.get_cluster_registers(spec);
+        if cluster_data.is_empty() {
+            if ignore {
+                return Ok(());
+            }
             let present = self.present_clusters().clone();
             return Err(anyhow!(
                 "Could not find cluster `{bpath}:{cspec}. Present clusters: {present}.`"
@@ -907,11 +910,9 @@ pub(crate) trait RegisterBlockExt: Name {
         bpath: &BlockPath,
         config: &Config,
     ) -> PatchResult {
-        if let Some(regs) = self.children_mut() {
-            collect_in_cluster(regs, bpath, cname, cmod, config)
-        } else {
-            Err(anyhow!("No registers or clusters"))
-        }
+        let mut empty = Vec::new();
+        let regs = self.children_mut().unwrap_or(&mut empty);
+        collect_in_cluster(regs, bpath, cname, cmod, config)
     }
 
     /// Clear contents of all fields inside registers matched by rspec
-- 
2.43.0


From 3f78628264bd1d020f5ccd0c053d7f80afbe17bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 15/57] fix: refuse numbers out of range instead of truncating
 them

---
 src/patch/device.rs   |  4 ++--
 src/patch/mod.rs      | 51 +++++++++++++++++++++----------------------
 src/patch/register.rs |  8 +++----
 src/patch/yaml_ext.rs | 25 ++++++++++++++++-----
 4 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index e7a3cb1..2705de7 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -128,8 +128,8 @@ impl DeviceExt for Device {
                 "headerDefinitionsPrefix" => {
                     self.header_definitions_prefix = Some(val.str()?.into())
                 }
-                "addressUnitBits" => self.address_unit_bits = val.i64()? as u32,
-                "width" => self.width = val.i64()? as u32,
+                "addressUnitBits" => self.address_unit_bits = val.u32()?,
+                "width" => self.width = val.u32()?,
                 "size" | "access" | "protection" | "resetValue" | "resetMask" => {
                     modify_register_properties(&mut self.default_register_properties, key, val)?;
                 }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index def69aa..7b9a222 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -303,10 +303,10 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
-        "size" => p.size = Some(val.i64()? as u32),
+        "size" => p.size = Some(val.u32()?),
         "access" => p.access = Access::parse_str(val.str()?),
-        "resetValue" => p.reset_value = Some(val.i64()? as u64),
-        "resetMask" => p.reset_mask = Some(val.i64()? as u64),
+        "resetValue" => p.reset_value = Some(val.u64()?),
+        "resetMask" => p.reset_mask = Some(val.u64()?),
         "protection" => {}
         _ => {}
     }
@@ -353,10 +353,9 @@ fn make_ev_array(values: &Hash) -> Result<EnumeratedValuesBuilder> {
                     "enumeratedValue {vname} can't have empty value or description"
                 ));
             };
-            let value = value.i64()?;
+            let def = value.i64()? == -1;
+            let value = if def { u64::MAX } else { value.u64()? };
             let description = description.str()?;
-            let def = value == -1;
-            let value = value as u64;
             let ev = EnumeratedValue::builder()
                 .name(vname.into())
                 .description(Some(description.into()));
@@ -454,11 +453,11 @@ fn make_dim_array_index(h: &Hash) -> Result<DimArrayIndex> {
                     "enumeratedValue {vname} can't have empty value or description"
                 ));
             };
-            let value = value.i64()?;
+            let value = value.u64()?;
             let description = description.str()?;
             values.push(
                 EnumeratedValue::builder()
-                    .value(Some(value as u64))
+                    .value(Some(value))
                     .description(Some(description.into()))
                     .build(VAL_LVL)?,
             )
@@ -503,16 +502,16 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
         fnew = fnew.name(name.into());
     }
     // NOTE: support only both `msb` and `lsb` passed together
-    if let (Some(msb), Some(lsb)) = (fadd.get_i64("msb")?, fadd.get_i64("lsb")?) {
-        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb as _, lsb as _));
+    if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
     } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
         fnew = fnew.bit_range(bit_range);
     } else {
-        if let Some(offset) = fadd.get_i64("bitOffset")? {
-            fnew = fnew.bit_offset(offset as u32)
+        if let Some(offset) = fadd.get_u32("bitOffset")? {
+            fnew = fnew.bit_offset(offset)
         }
-        if let Some(width) = fadd.get_i64("bitWidth")? {
-            fnew = fnew.bit_width(width as u32)
+        if let Some(width) = fadd.get_u32("bitWidth")? {
+            fnew = fnew.bit_width(width)
         }
     }
 
@@ -552,8 +551,8 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
     if let Some(name) = radd.get_str("name")? {
         rnew = rnew.name(name.into());
     }
-    if let Some(address_offset) = radd.get_i64("addressOffset")? {
-        rnew = rnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = radd.get_u32("addressOffset")? {
+        rnew = rnew.address_offset(address_offset);
     }
 
     Ok(rnew)
@@ -576,8 +575,8 @@ fn get_write_constraint(h: &Hash) -> Result<Option<WriteConstraint>> {
             Yaml::Array(a) => {
                 // Allow a certain range
                 Ok(Some(WriteConstraint::Range(WriteConstraintRange {
-                    min: a[0].i64()? as u64,
-                    max: a[1].i64()? as u64,
+                    min: a[0].u64()?,
+                    max: a[1].u64()?,
                 })))
             }
             _ => Err(anyhow!("Unknown writeConstraint type {write_constraint:?}")),
@@ -614,8 +613,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     if let Some(name) = cadd.get_str("name")? {
         cnew = cnew.name(name.into());
     }
-    if let Some(address_offset) = cadd.get_i64("addressOffset")? {
-        cnew = cnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = cadd.get_u32("addressOffset")? {
+        cnew = cnew.address_offset(address_offset);
     }
     Ok(cnew)
 }
@@ -625,8 +624,8 @@ fn make_interrupt(iadd: &Hash) -> Result<InterruptBuilder> {
     if let Some(name) = iadd.get_string("name")? {
         int = int.name(name)
     }
-    if let Some(value) = iadd.get_i64("value")? {
-        int = int.value(value as u32)
+    if let Some(value) = iadd.get_u32("value")? {
+        int = int.value(value)
     }
     Ok(int)
 }
@@ -659,8 +658,8 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
     if let Some(name) = padd.get_str("name")? {
         pnew = pnew.name(name.into());
     }
-    if let Some(base_address) = padd.get_i64("baseAddress")? {
-        pnew = pnew.base_address(base_address as u64);
+    if let Some(base_address) = padd.get_u64("baseAddress")? {
+        pnew = pnew.base_address(base_address);
     }
 
     if let Some(derived) = padd.get_str("derivedFrom")? {
@@ -728,8 +727,8 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(fpu_present) = cmod.get_bool("fpuPresent")? {
         cpu = cpu.fpu_present(fpu_present);
     }
-    if let Some(nvic_priority_bits) = cmod.get_i64("nvicPrioBits")? {
-        cpu = cpu.nvic_priority_bits(nvic_priority_bits as u32);
+    if let Some(nvic_priority_bits) = cmod.get_u32("nvicPrioBits")? {
+        cpu = cpu.nvic_priority_bits(nvic_priority_bits);
     }
     if let Some(has_vendor_systick) = cmod.get_bool("vendorSystickConfig")? {
         cpu = cpu.has_vendor_systick(has_vendor_systick);
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 27f554b..3ffb231 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -343,8 +343,8 @@ impl RegisterExt for Register {
                         Yaml::Array(a) => {
                             // Allow a certain range
                             Some(WriteConstraint::Range(WriteConstraintRange {
-                                min: a[0].i64()? as u64,
-                                max: a[1].i64()? as u64,
+                                min: a[0].u64()?,
+                                max: a[1].u64()?,
                             }))
                         }
                         _ => return Err(anyhow!("Unknown writeConstraint type {value:?}")),
@@ -985,8 +985,8 @@ impl RegisterExt for Register {
         let (fspec, ignore) = fspec.spec();
         for ftag in self.iter_fields(fspec) {
             ftag.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange {
-                min: fmod[0].i64()? as u64,
-                max: fmod[1].i64()? as u64,
+                min: fmod[0].u64()?,
+                max: fmod[1].u64()?,
             }));
             set_any = true;
         }
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index db193e5..7ad510a 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -14,6 +14,8 @@ pub enum YamlError {
     NotStr(Yaml),
     #[error("Value is not integer: {0:?}")]
     NotInt(Yaml),
+    #[error("Value is out of range: {0:?}")]
+    OutOfRange(Yaml),
     #[error("Value is not boolean: {0:?}")]
     NotBool(Yaml),
 }
@@ -24,6 +26,8 @@ pub trait AsType {
     fn vec(&self) -> Result<&Vec<Yaml>, YamlError>;
     fn str(&self) -> Result<&str, YamlError>;
     fn i64(&self) -> Result<i64, YamlError>;
+    fn u64(&self) -> Result<u64, YamlError>;
+    fn u32(&self) -> Result<u32, YamlError>;
     fn bool(&self) -> Result<bool, YamlError>;
 }
 
@@ -47,6 +51,12 @@ impl AsType for Yaml {
     fn i64(&self) -> Result<i64, YamlError> {
         parse_i64(self).ok_or_else(|| YamlError::NotInt(self.clone()))
     }
+    fn u64(&self) -> Result<u64, YamlError> {
+        (self.i64()?.try_into()).map_err(|_| YamlError::OutOfRange(self.clone()))
+    }
+    fn u32(&self) -> Result<u32, YamlError> {
+        (self.i64()?.try_into()).map_err(|_| YamlError::OutOfRange(self.clone()))
+    }
     fn bool(&self) -> Result<bool, YamlError> {
         parse_bool(self).ok_or_else(|| YamlError::NotBool(self.clone()))
     }
@@ -162,20 +172,23 @@ where
                 .map(Some),
         }
     }
-    fn get_i64(&self, k: &K) -> Result<Option<i64>> {
+    fn get_u64(&self, k: &K) -> Result<Option<u64>> {
         match self.get_yaml(k) {
             None => Ok(None),
             Some(v) => v
-                .i64()
+                .u64()
                 .with_context(|| format!("Under key `{k:?}`"))
                 .map(Some),
         }
     }
-    fn get_u64(&self, k: &K) -> Result<Option<u64>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u64))
-    }
     fn get_u32(&self, k: &K) -> Result<Option<u32>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u32))
+        match self.get_yaml(k) {
+            None => Ok(None),
+            Some(v) => v
+                .u32()
+                .with_context(|| format!("Under key `{k:?}`"))
+                .map(Some),
+        }
     }
     fn get_str(&self, k: &K) -> Result<Option<&str>> {
         match self.get_yaml(k) {
-- 
2.43.0


From 614ebc387815e7ad8a76d4193c515a5366b67c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 16/57] fix: keep arrays without dimIndex when reading JSON and
 YAML

---
 src/convert/convert_cli.rs | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/convert/convert_cli.rs b/src/convert/convert_cli.rs
index cb44639..8c5c20d 100644
--- a/src/convert/convert_cli.rs
+++ b/src/convert/convert_cli.rs
@@ -1,4 +1,5 @@
 use anyhow::{anyhow, Result};
+use serde_json::Value;
 use std::io::{Read, Write};
 use std::str::FromStr;
 use std::{fs::File, path::Path};
@@ -75,8 +76,12 @@ pub fn open_svd(
             &input,
             &svd_parser::Config::default().ignore_enums(parser_config.ignore_enums),
         )?,
-        InputFormat::Yaml => serde_yaml::from_str(&input)?,
-        InputFormat::Json => serde_json::from_str(&input)?,
+        InputFormat::Yaml => with_arrays(serde_yaml::from_str(&input)?, || {
+            Ok(serde_yaml::from_str(&input)?)
+        })?,
+        InputFormat::Json => with_arrays(serde_json::from_str(&input)?, || {
+            Ok(serde_json::from_str(&input)?)
+        })?,
     };
     if parser_config.expand_properties {
         svd_parser::expand_properties(&mut device);
@@ -89,6 +94,38 @@ pub fn open_svd(
     Ok(device)
 }
 
+/// `dimIndex` is optional, but `svd-rs` takes serialized arrays without it for single elements.
+/// Read peripherals again with explicit empty `dimIndex` if there are such arrays.
+fn with_arrays(mut device: Device, read: impl FnOnce() -> Result<Value>) -> Result<Device> {
+    let mut value = read()?;
+    if add_dim_index(&mut value) {
+        device.peripherals = serde_json::from_value(value["peripherals"].take())?;
+    }
+    Ok(device)
+}
+
+fn add_dim_index(value: &mut Value) -> bool {
+    let mut added = false;
+    match value {
+        Value::Array(items) => {
+            for item in items {
+                added |= add_dim_index(item);
+            }
+        }
+        Value::Object(items) => {
+            if items.contains_key("dim") && !items.contains_key("dimIndex") {
+                items.insert("dimIndex".into(), Value::Null);
+                added = true;
+            }
+            for item in items.values_mut() {
+                added |= add_dim_index(item);
+            }
+        }
+        _ => {}
+    }
+    added
+}
+
 pub fn convert(
     in_path: &Path,
     out_path: &Path,
-- 
2.43.0


From 1239c378fda1242f1eeb69144dba2020e6b4e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 17/57] fix: pad addresses in memory map, so that it is sorted
 by address

---
 src/common/str_utils.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common/str_utils.rs b/src/common/str_utils.rs
index 98f8fa3..93efae0 100644
--- a/src/common/str_utils.rs
+++ b/src/common/str_utils.rs
@@ -14,11 +14,10 @@ pub fn get_description(opt_str: &Option<String>) -> String {
     words.join(" ")
 }
 
-/// Make everything uppercase except first two character, which should be "0x"
+/// Make everything uppercase except first two character, which should be "0x".
+/// Pad with zeros, so that addresses are sorted correctly as text
 pub fn format_address(hex_address: u64) -> String {
-    let addr = format! {"{hex_address:x}"};
-    let addr = addr.to_uppercase();
-    format!("0x{addr}")
+    format!("0x{hex_address:08X}")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 049b0ff7265b0c90b43c93335ca4a841ba882040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 18/57] fix: follow chains of derived peripherals and keep own
 registers in memory map

---
 src/mmap/mmap_cli.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 0a0eddd..3c49ed9 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -34,14 +34,14 @@ fn to_text(peripherals: &[Peripheral]) -> String {
             Peripheral::Single(p) => {
                 get_peripheral(p, &mut mmap);
                 get_interrupts(p, &mut mmap);
-                let registers = get_periph_registers(p, peripherals);
+                let registers = get_periph_registers(p, peripherals, peripherals.len());
                 get_registers(p.base_address, registers.as_ref(), "", &mut mmap);
             }
             Peripheral::Array(p, d) => {
                 for pi in svd::peripheral::expand(p, d) {
                     get_peripheral(&pi, &mut mmap);
                     get_interrupts(&pi, &mut mmap);
-                    let registers = get_periph_registers(&pi, peripherals);
+                    let registers = get_periph_registers(&pi, peripherals, peripherals.len());
                     get_registers(pi.base_address, registers.as_ref(), "", &mut mmap);
                 }
             }
@@ -52,22 +52,21 @@ fn to_text(peripherals: &[Peripheral]) -> String {
     mmap.join("\n")
 }
 
+/// Registers of the peripheral itself or of the one it is derived from.
+/// `depth` limits the length of the chain of derived peripherals
 fn get_periph_registers<'a>(
     peripheral: &'a PeripheralInfo,
     peripheral_list: &'a [Peripheral],
+    depth: usize,
 ) -> &'a Option<Vec<RegisterCluster>> {
     match &peripheral.derived_from {
-        None => &peripheral.registers,
-        Some(father) => {
-            let mut registers = &None;
-            for p in peripheral_list {
-                if &p.name == father {
-                    registers = &p.registers;
-                    break;
-                }
+        Some(father) if !peripheral.registers.as_ref().is_some_and(|r| !r.is_empty()) => {
+            match peripheral_list.iter().find(|p| &p.name == father) {
+                Some(p) if depth > 0 => get_periph_registers(p, peripheral_list, depth - 1),
+                _ => &None,
             }
-            registers
         }
+        _ => &peripheral.registers,
     }
 }
 
-- 
2.43.0


From c6ea44f24a0a02c257051c32d6c0ff210e5ed32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 19/57] fix: add cluster index to names of register arrays in
 memory map

---
 src/mmap/mmap_cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 3c49ed9..4570210 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -127,7 +127,7 @@ fn get_registers(
                                 let addr = str_utils::format_address(
                                     base_address + ri.address_offset as u64,
                                 );
-                                let rname = &ri.name;
+                                let rname = ri.name.to_string() + suffix;
                                 let description = str_utils::get_description(&ri.description);
                                 let text = format!(
                                     "{addr} B  REGISTER {rname}{derived}{access}: {description}"
-- 
2.43.0


From d0cefd814c24d3106df31abc765f03045cd523d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 20/57] fix: accept hexadecimal and binary interrupt numbers in
 interrupts

---
 src/interrupts/svd_reader.rs | 17 ++++++++++++++++-
 svdtools/interrupts.py       | 14 +++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/interrupts/svd_reader.rs b/src/interrupts/svd_reader.rs
index 45a98cf..d72fca6 100644
--- a/src/interrupts/svd_reader.rs
+++ b/src/interrupts/svd_reader.rs
@@ -1,5 +1,5 @@
 use quick_xml::de;
-use serde::Deserialize;
+use serde::{de::Error, Deserialize, Deserializer};
 use std::io::{BufReader, Read};
 
 #[derive(Deserialize, Debug)]
@@ -23,9 +23,24 @@ struct PeripheralXml {
 pub struct Interrupt {
     pub name: String,
     pub description: Option<String>,
+    #[serde(deserialize_with = "deserialize_value")]
     pub value: u32,
 }
 
+/// Interrupt number in decimal, hexadecimal or binary notation
+fn deserialize_value<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u32, D::Error> {
+    let text = String::deserialize(deserializer)?;
+    let text = text.trim();
+    if let Some(hex) = text.strip_prefix("0x").or_else(|| text.strip_prefix("0X")) {
+        u32::from_str_radix(hex, 16)
+    } else if let Some(bin) = text.strip_prefix('#') {
+        u32::from_str_radix(bin, 2)
+    } else {
+        text.parse()
+    }
+    .map_err(|e| D::Error::custom(format!("invalid interrupt value `{text}`: {e}")))
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Peripheral {
     pub name: String,
diff --git a/svdtools/interrupts.py b/svdtools/interrupts.py
index 7cfebd1..2fd6a3e 100644
--- a/svdtools/interrupts.py
+++ b/svdtools/interrupts.py
@@ -7,6 +7,18 @@ Licensed under the MIT and Apache 2.0 licenses. See LICENSE files for details.
 import lxml.etree as ET
 
 
+def parse_value(text):
+    """
+    Return interrupt number given in decimal, hexadecimal or binary notation.
+    """
+    text = text.strip()
+    if text[:2] in ("0x", "0X"):
+        return int(text[2:], 16)
+    if text[:1] == "#":
+        return int(text[1:], 2)
+    return int(text)
+
+
 def parse_device(svd_file):
     interrupts = {}
     tree = ET.parse(svd_file)
@@ -18,7 +30,7 @@ def parse_device(svd_file):
             value = itag.find("value").text
             maybe_desc = itag.find("description")
             desc = maybe_desc.text.replace("\n", " ") if maybe_desc is not None else ""
-            interrupts[int(value)] = {"name": name, "desc": desc, "pname": pname}
+            interrupts[parse_value(value)] = {"name": name, "desc": desc, "pname": pname}
     return dname, interrupts
 
 
-- 
2.43.0


From 9b8af53d8b6f084dc4e691de59c5d537f2d261ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 21/57] fix: list registers with equal names from different
 clusters in Python memory map

---
 svdtools/mmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index 1754165..46372ca 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -232,7 +232,7 @@ def parse(svdfile):
                 c_derived = derived_str(ctag.attrib.get("derivedFrom", None))
                 for rtag in expand_cluster(ctag):
                     register = parse_register(rtag)
-                    registers[register["name"]] = register
+                    registers[register["offset"], register["name"]] = register
                 clusters[cname] = {
                     "name": cname,
                     "description": cdesc,
@@ -242,7 +242,7 @@ def parse(svdfile):
         for rtag in iter_registers(ptag):
             for rtag in expand_dim(rtag):
                 register = parse_register(rtag)
-                registers[register["name"]] = register
+                registers[register["offset"], register["name"]] = register
         peripherals[pname] = {
             "name": pname,
             "base": pbase,
-- 
2.43.0


From c994dc4c64f2881e5f97f0c443cbc8d228e1308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 22/57] fix: follow chains of derived peripherals in Python
 memory map, list their clusters

---
 svdtools/mmap.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index 46372ca..95b9b0e 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -252,11 +252,14 @@ def parse(svdfile):
         }
         if "derivedFrom" in ptag.attrib:
             peripherals[pname]["derives"] = ptag.attrib["derivedFrom"]
-    for pname, periph in list(peripherals.items()):
-        if "derives" in periph:
-            peripherals[pname]["registers"] = peripherals[periph["derives"]][
-                "registers"
-            ]
+    for periph in peripherals.values():
+        source = periph
+        for _ in peripherals:
+            if source["registers"] or "derives" not in source:
+                break
+            source = peripherals[source["derives"]]
+        periph["registers"] = source["registers"]
+        periph["clusters"] = source["clusters"]
     return {
         "name": svdfile.split(".")[0],
         "peripherals": peripherals,
-- 
2.43.0


From 50f364d30e05c738732c1935d84258257101e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 23/57] fix: accept lsb/msb ranges of fields in Python memory
 map

---
 svdtools/mmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index 95b9b0e..7e48e41 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -26,7 +26,7 @@ def get_field_offset_width(ftag):
         lsb = int(ftag.findtext("lsb"), 0)
         msb = int(ftag.findtext("msb"), 0)
         offset = lsb
-        fwidth = msb - lsb + 1
+        width = msb - lsb + 1
     return offset, width
 
 
-- 
2.43.0


From 70baace78e76f74ffe8f6268ba48c52f647ead52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:43 +0000
Subject: [PATCH 24/57] fix: accept empty descriptions in Python interrupts

---
 svdtools/interrupts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/interrupts.py b/svdtools/interrupts.py
index 2fd6a3e..f6549ca 100644
--- a/svdtools/interrupts.py
+++ b/svdtools/interrupts.py
@@ -29,7 +29,7 @@ def parse_device(svd_file):
             name = itag.find("name").text
             value = itag.find("value").text
             maybe_desc = itag.find("description")
-            desc = maybe_desc.text.replace("\n", " ") if maybe_desc is not None else ""
+            desc = (maybe_desc.text or "").replace("\n", " ") if maybe_desc is not None else ""
             interrupts[parse_value(value)] = {"name": name, "desc": desc, "pname": pname}
     return dname, interrupts
 
-- 
2.43.0


From fc775104f6281b135d83e697b2132eb96c5414f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 25/57] fix: describe default enumerated value of 64-bit fields
 in html

---
 src/html/html_cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 970bd79..d662608 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -590,5 +590,5 @@ fn enums_to_map(evs: &EnumeratedValues) -> BTreeMap<u64, &EnumeratedValue> {
 }
 
 fn minimal_hole(map: &BTreeMap<u64, &EnumeratedValue>, width: u32) -> Option<u64> {
-    (0..(1u64 << width)).find(|&v| !map.contains_key(&v))
+    (0..=u64::MAX >> (u64::BITS - width)).find(|&v| !map.contains_key(&v))
 }
-- 
2.43.0


From 1f473a67cc7409dd18033bd90c2ea3efd6cdccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 26/57] fix: do not truncate SVD file located in the html
 directory

---
 src/html/html_cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index d662608..9c7d9cd 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -541,7 +541,11 @@ fn generate_if_newer(
         let svdfile_name = svdfile.file_name().unwrap();
         let mut file = std::fs::File::create(filename)?;
         generate_device_page(template, device, &mut file)?;
-        std::fs::copy(svdfile, htmldir.join(svdfile_name))?;
+        let svdcopy = htmldir.join(svdfile_name);
+        // Copying a file to itself would truncate it
+        if svdcopy.canonicalize().ok() != svdfile.canonicalize().ok() {
+            std::fs::copy(svdfile, svdcopy)?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 5050e103ab65224b093e3fbfd8786ab1235cff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 27/57] fix: list registers of nested clusters in html

---
 src/html/html_cli.rs | 48 ++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 9c7d9cd..0a308b5 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -23,7 +23,7 @@ use svd_parser::expand::{
 };
 use svd_parser::{
     expand::{derive_peripheral, Index},
-    svd::{Access, Cluster, Register, RegisterInfo, WriteConstraint},
+    svd::{Access, Cluster, ClusterInfo, Register, RegisterInfo, WriteConstraint},
 };
 use svd_rs::{EnumeratedValue, EnumeratedValues, ModifiedWriteValues, ReadAction};
 
@@ -147,6 +147,7 @@ fn parse_cluster(
     registers: &mut Vec<Object>,
     cpath: &BlockPath,
     index: &Index,
+    outer_idxs: &str,
 ) -> anyhow::Result<()> {
     let mut cpath = cpath.clone();
     let ctag = if let Some(dfname) = ctag.derived_from.as_ref() {
@@ -160,31 +161,44 @@ fn parse_cluster(
     };
     match ctag.as_ref() {
         Cluster::Single(c) => {
-            let mut regs: Vec<Register> = c.registers().cloned().collect();
-            let cluster_addr = c.address_offset;
-            for r in &mut regs {
-                let rpath = cpath.new_register(&r.name);
-                r.name = format!("{} [0]", r.name);
-                r.address_offset += cluster_addr;
-                parse_register_array(r, registers, &rpath, index)?;
-            }
+            let idxs = format!("{outer_idxs} [0]");
+            parse_cluster_instance(c, c.address_offset, registers, &cpath, index, &idxs)?;
         }
         Cluster::Array(c, d) => {
             for (i, cluster_idx) in d.indexes().enumerate() {
-                let mut regs: Vec<Register> = c.registers().cloned().collect();
                 let cluster_addr = c.address_offset + (i as u32) * d.dim_increment;
-                for r in &mut regs {
-                    let rpath = cpath.new_register(&r.name);
-                    r.name = format!("{} [{cluster_idx}]", r.name);
-                    r.address_offset += cluster_addr;
-                    parse_register_array(r, registers, &rpath, index)?;
-                }
+                let idxs = format!("{outer_idxs} [{cluster_idx}]");
+                parse_cluster_instance(c, cluster_addr, registers, &cpath, index, &idxs)?;
             }
         }
     }
     Ok(())
 }
 
+fn parse_cluster_instance(
+    cluster: &ClusterInfo,
+    cluster_addr: u32,
+    registers: &mut Vec<Object>,
+    cpath: &BlockPath,
+    index: &Index,
+    idxs: &str,
+) -> anyhow::Result<()> {
+    for ctag in cluster.clusters() {
+        let subpath = cpath.new_cluster(&ctag.name);
+        let mut ctag = ctag.clone();
+        ctag.address_offset += cluster_addr;
+        parse_cluster(&ctag, registers, &subpath, index, idxs)?;
+    }
+    for r in cluster.registers() {
+        let rpath = cpath.new_register(&r.name);
+        let mut r = r.clone();
+        r.name = format!("{}{idxs}", r.name);
+        r.address_offset += cluster_addr;
+        parse_register_array(&r, registers, &rpath, index)?;
+    }
+    Ok(())
+}
+
 fn parse_register_array(
     rtag: &Register,
     registers: &mut Vec<Object>,
@@ -460,7 +474,7 @@ fn parse_device(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
         };
         for ctag in ptag.clusters() {
             let cpath = ppath.new_cluster(&ctag.name);
-            parse_cluster(ctag, &mut registers, &cpath, &index)
+            parse_cluster(ctag, &mut registers, &cpath, &index, "")
                 .with_context(|| format!("In cluster {}", ctag.name))
                 .with_context(|| format!("In peripheral {}", ptag.name))?;
         }
-- 
2.43.0


From f177722d61565ba6bda951aa4eae6887d93dfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 28/57] fix: do not mix up parts with the same file stem in
 htmlcompare

---
 src/html/htmlcompare_cli.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/html/htmlcompare_cli.rs b/src/html/htmlcompare_cli.rs
index 1979d7f..32823e5 100644
--- a/src/html/htmlcompare_cli.rs
+++ b/src/html/htmlcompare_cli.rs
@@ -19,16 +19,8 @@ fn parse(in_path: &Path) -> Result<Part> {
 
     let device =
         svd_parser::parse_with_config(&input, &Config::default().expand(true).ignore_enums(true))?;
-    let name = in_path
-        .file_stem()
-        .unwrap()
-        .to_str()
-        .unwrap()
-        .split('.')
-        .next()
-        .unwrap()
-        .to_string();
-    //dbg!(&name);
+    // Whole path, as several files can have the same stem
+    let name = in_path.to_string_lossy().into_owned();
     Ok(Part { name, device })
 }
 
-- 
2.43.0


From 29d1bc49730d6d8fcc4f8b00aa3daed02bd6f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 29/57] fix: do not mix messages about ignored rules into the
 output of expand-patch

---
 src/patch/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 7b9a222..7196398 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -225,7 +225,7 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                 if let Entry::Occupied(mut e) = parent.entry(key.clone()) {
                     match e.get_mut() {
                         el if el == val => {
-                            println!("In {key:?}: dublicate rule {val:?}, ignored");
+                            eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                         }
                         Yaml::Array(a) => match val {
                             Yaml::Array(val) => {
@@ -235,7 +235,7 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                 if !a.contains(val) {
                                     a.push(val.clone());
                                 } else {
-                                    println!("In {key:?}: dublicate rule {val:?}, ignored");
+                                    eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                                 }
                             }
                             _ => {}
@@ -250,11 +250,13 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                     a.insert(0, s.clone());
                                     e.insert(Yaml::Array(a));
                                 } else {
-                                    println!("In {key:?}: dublicate rule {s:?}, ignored");
+                                    eprintln!("In {key:?}: dublicate rule {s:?}, ignored");
                                 }
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
-                                println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
+                                eprintln!(
+                                    "In {key:?}: conflicting rules {s:?} and {s2:?}, ignored"
+                                );
                             }
                             _ => {}
                         },
-- 
2.43.0


From afccdf3bd05417e68fc377c1b1d72df0ecab9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 30/57] fix: list included files without rules as dependencies

---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 7196398..e8fc169 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -199,13 +199,13 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
         let mut docs = YamlLoader::load_from_str(&contents)?;
+        included.push(path.clone());
         if docs.is_empty() {
             continue;
         }
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         included.extend(yaml_includes(child)?);
-- 
2.43.0


From 919f7410ac0444aa1e06c7f63896dd4a2fbb083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 31/57] fix: report a failed write of info output

---
 src/cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 0db90b3..17918fe 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -224,7 +224,9 @@ impl Command {
                     },
                 )?;
                 let response = request.process(&device)?;
-                print!("{response}")
+                print!("{response}");
+                // Errors are lost in the flush at exit
+                std::io::stdout().flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From 3ca18ee6a5aaa4170b31dcac7ea6ad28a1bf9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 32/57] fix: a page of an interrupted html run is not taken as
 up to date

---
 src/html/html_cli.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 0a308b5..67db684 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -553,13 +553,20 @@ fn generate_if_newer(
         let svdfile = device.get_str("svdfile").unwrap();
         let svdfile = Path::new(svdfile.as_ref());
         let svdfile_name = svdfile.file_name().unwrap();
-        let mut file = std::fs::File::create(filename)?;
-        generate_device_page(template, device, &mut file)?;
         let svdcopy = htmldir.join(svdfile_name);
         // Copying a file to itself would truncate it
         if svdcopy.canonicalize().ok() != svdfile.canonicalize().ok() {
             std::fs::copy(svdfile, svdcopy)?;
         }
+        // A page that exists is taken as up to date, so it must only appear when complete
+        let thread = rayon::current_thread_index().unwrap_or_default();
+        let unfinished = htmldir.join(format!("{pagename}.new{thread}"));
+        let mut file = std::fs::File::create(&unfinished)?;
+        if let Err(e) = generate_device_page(template, device, &mut file) {
+            std::fs::remove_file(unfinished).ok();
+            return Err(e);
+        }
+        std::fs::rename(unfinished, filename)?;
     }
 
     Ok(())
-- 
2.43.0


From d89f3ccfe534ef94859c7653ed0993adb70bc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 33/57] fix: order devices in the html index that differ only
 in case independently of the arguments

---
 src/html/html_cli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 67db684..fe1decc 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -597,7 +597,10 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
             })
         })
         .collect::<Vec<_>>();
-    devices.sort_by_key(|d| d.get_str("name").map(|s| s.to_lowercase()));
+    devices.sort_by_key(|d| {
+        d.get_str("name")
+            .map(|s| (s.to_lowercase(), s.into_owned()))
+    });
 
     let mut file = std::fs::File::create(htmldir.join("index.html"))?;
     generate_index_page(&devices, &mut file)?;
-- 
2.43.0


From 962b034f4c5c09bb75542c8a8e06e2c357452f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 34/57] fix: modify fields given by lsb and msb with the Python
 patcher

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index d961c85..5625cfa 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -253,7 +253,7 @@ def get_field_offset_width(ftag):
         lsb = int(ftag.findtext("lsb"), 0)
         msb = int(ftag.findtext("msb"), 0)
         offset = lsb
-        fwidth = msb - lsb + 1
+        width = msb - lsb + 1
     return offset, width
 
 
-- 
2.43.0


From 4570b0d9b9ab2cce1170976423fe2d0bd5053933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 35/57] fix: set the attributes of peripherals, clusters and
 registers that rules used to pass over

---
 src/patch/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index e8fc169..af8ae2a 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -16,7 +16,9 @@ use svd_parser::svd::{
     WriteConstraintRange,
 };
 use svd_parser::SVDError::DimIndexParse;
-use svd_rs::{BitRange, DimArrayIndex, DimElement, DimElementBuilder, MaybeArray};
+use svd_rs::{
+    BitRange, DataType, DimArrayIndex, DimElement, DimElementBuilder, MaybeArray, Protection,
+};
 use yaml_rust::{yaml::Hash, Yaml, YamlLoader};
 
 use hashlink::linked_hash_map;
@@ -309,7 +311,7 @@ fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -
         "access" => p.access = Access::parse_str(val.str()?),
         "resetValue" => p.reset_value = Some(val.u64()?),
         "resetMask" => p.reset_mask = Some(val.u64()?),
-        "protection" => {}
+        "protection" => p.protection = Protection::parse_str(val.str()?),
         _ => {}
     }
     Ok(())
@@ -319,6 +321,7 @@ fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
     Ok(RegisterProperties::new()
         .size(h.get_u32("size")?)
         .access(h.get_str("access")?.and_then(Access::parse_str))
+        .protection(h.get_str("protection")?.and_then(Protection::parse_str))
         .reset_value(h.get_u64("resetValue")?)
         .reset_mask(h.get_u64("resetMask")?))
 }
@@ -528,6 +531,12 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
         .alternate_group(radd.get_string("alternateGroup")?)
         .alternate_register(radd.get_string("alternateRegister")?)
         .properties(get_register_properties(radd)?)
+        .datatype(radd.get_str("dataType")?.and_then(DataType::parse_str))
+        .modified_write_values(
+            radd.get_str("modifiedWriteValues")?
+                .and_then(ModifiedWriteValues::parse_str),
+        )
+        .read_action(radd.get_str("readAction")?.and_then(ReadAction::parse_str))
         .write_constraint(get_write_constraint(radd)?)
         .fields(match radd.get_hash("fields")? {
             Some(h) => {
@@ -592,6 +601,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     let mut cnew = ClusterInfo::builder()
         .description(opt_interpolate(&path, cadd.get_str("description")?))
         .derived_from(opt_interpolate(&path, cadd.get_str("derivedFrom")?))
+        .alternate_cluster(cadd.get_string("alternateCluster")?)
+        .header_struct_name(cadd.get_string("headerStructName")?)
         .default_register_properties(get_register_properties(cadd)?);
 
     if let Some(h) = cadd.get_hash("registers")? {
@@ -638,7 +649,11 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
         .version(padd.get_string("version")?)
         .description(padd.get_string("description")?)
         .derived_from(padd.get_string("derivedFrom")?)
+        .alternate_peripheral(padd.get_string("alternatePeripheral")?)
         .group_name(padd.get_string("groupName")?)
+        .prepend_to_name(padd.get_string("prependToName")?)
+        .append_to_name(padd.get_string("appendToName")?)
+        .header_struct_name(padd.get_string("headerStructName")?)
         .interrupt(if !modify {
             match padd.get_hash("interrupts")? {
                 Some(h) => {
-- 
2.43.0


From 6e96d48da3d6e7d512ad5caa46c25bfd0e9f3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 36/57] fix: give address blocks to the peripheral that the
 Python patcher adds

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 5625cfa..683c521 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -531,7 +531,7 @@ class Device:
                     ET.SubElement(ab, ab_key).text = str(ab_value)
             elif key == "addressBlocks":
                 for ab in value:
-                    ab_el = ET.SubElement(ptag, "addressBlock")
+                    ab_el = ET.SubElement(pnew, "addressBlock")
                     for ab_key, ab_value in ab.items():
                         ET.SubElement(ab_el, ab_key).text = str(ab_value)
             elif key != "derivedFrom":
-- 
2.43.0


From 2adc1defae2ea6edfd9ce28d73e93dc0157adc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 37/57] fix: set device attributes that the SVD file lacks with
 the Python patcher

---
 svdtools/patch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 683c521..b2a6fa4 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -449,8 +449,11 @@ class Device:
 
     def modify_child(self, key, val):
         """Modify key inside device and set it to val."""
-        for child in self.device.findall(key):
-            child.text = str(val)
+        child = self.device.find(key)
+        if child is None:
+            child = ET.SubElement(self.device.getroot(), key)
+            child.tail = "\n  "
+        child.text = str(val)
 
     def modify_cpu(self, mod):
         """Modify the `cpu` node inside `device` according to `mod`."""
-- 
2.43.0


From 43dd84fbacf6f440ea6cbcc46ea5d9760c0a1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 38/57] fix: keep one base address when the Python patcher
 copies over a peripheral

---
 svdtools/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index b2a6fa4..47561be 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -615,6 +615,9 @@ class Device:
         if ptag is not None:
             # When the target already exists, copy its baseAddress and
             # any interrupts.
+            for value in list(pcopy):
+                if value.tag in ("interrupt", "baseAddress"):
+                    pcopy.remove(value)
             for value in list(ptag):
                 if value.tag in ("interrupt", "baseAddress"):
                     pcopy.append(value)
-- 
2.43.0


From 8a14886837eabc2b79e66cd127b76c7a8d589f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 39/57] fix: keep one description when the Python patcher
 rebases a peripheral

---
 svdtools/patch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 47561be..d21b4af 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -643,11 +643,16 @@ class Device:
         for value in new:
             last = value
         last.tail = "\n      "
+        moved = []
         for value in list(old):
             if value.tag in ("name", "baseAddress", "interrupt"):
                 continue
             old.remove(value)
+            for own in new.findall(value.tag):
+                if own not in moved:
+                    new.remove(own)
             new.append(value)
+            moved.append(value)
         for value in old:
             last = value
         last.tail = "\n    "
-- 
2.43.0


From 15094d4d86f3bbfa2b8c81840144e22ca538bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 40/57] fix: describe the derived register that the Python
 patcher adds

---
 svdtools/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index d21b4af..8c6d54b 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -934,6 +934,8 @@ class Peripheral:
             rtag = ET.SubElement(parent, "register")
             ET.SubElement(rtag, "name").text = rname
             ET.SubElement(rtag, "addressOffset").text = hex(address_offset)
+            if description:
+                ET.SubElement(rtag, "description").text = description
         else:
             for value in list(rtag):
                 if value.tag in ("name", "addressOffset", "description"):
-- 
2.43.0


From e50201822c90999ac411806eb263e92a2f7d0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 41/57] fix: describe registers that the Python patcher
 collects in a cluster

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 8c6d54b..2fd552a 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1203,7 +1203,7 @@ class Peripheral:
                 name = rspec[:li] + rspec[len(rspec) - ri :]
             new_rtag.find("name").text = name
             if "description" in rmod:
-                rtag.find("description").text = rmod["description"]
+                new_rtag.find("description").text = rmod["description"]
             offset = new_rtag.find("addressOffset")
             offset.text = hex(int(offset.text, 0) - addressOffset)
             ctag.append(new_rtag)
-- 
2.43.0


From 9d1acda199a1412dae9b3482401b382d6de7feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 42/57] fix: accept read and write actions for optional fields
 with the Python patcher

---
 svdtools/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 2fd552a..36515a9 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1700,6 +1700,7 @@ class Register:
             self.process_field_range(pname, fspec, fmod)
 
     def set_field_read_action(self, fspec, action):
+        fspec, _ = get_spec(fspec)
         for ftag in self.iter_fields(fspec):
             tag = ftag.find("readAction")
             if tag is None:
@@ -1707,6 +1708,7 @@ class Register:
             tag.text = action
 
     def set_field_modified_write_values(self, fspec, mwv):
+        fspec, _ = get_spec(fspec)
         for ftag in self.iter_fields(fspec):
             tag = ftag.find("modifiedWriteValues")
             if tag is None:
-- 
2.43.0


From 9de4fbff3a8181f8312c961d1125aba52c161e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 43/57] fix: add registers to peripherals without any with the
 Python patcher

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 36515a9..231a460 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -891,7 +891,7 @@ class Peripheral:
         """Add rname given by radd to ptag."""
         parent = self.ptag.find("registers")
         if parent is None:
-            parent = ET.SubElement(self.rtag, "registers")
+            parent = ET.SubElement(self.ptag, "registers")
         for rtag in self.iter_registers("*"):
             if rtag.find("name").text == rname:
                 raise SvdPatchError(
-- 
2.43.0


From 19deab979be3a4c74691477ea09acda9a5b0f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 44/57] fix: derive new peripherals with the Python patcher

---
 svdtools/patch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 231a460..ca0bc78 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -567,9 +567,11 @@ class Device:
         if (not ("." in pderive)) and (derived is None):
             raise SvdPatchError(f"peripheral {pderive} not found")
         if ptag is None:
-            ptag = ET.SubElement(parent, "register")
+            ptag = ET.SubElement(parent, "peripheral")
             ET.SubElement(ptag, "name").text = pname
-            ET.SubElement(ptag, "addressOffset").text = hex(base_address)
+            ET.SubElement(ptag, "baseAddress").text = hex(base_address)
+            if description:
+                ET.SubElement(ptag, "description").text = description
         else:
             for value in list(ptag):
                 if value.tag in ("name", "baseAddress", "interrupt", "description"):
-- 
2.43.0


From eb387a8b3afa4ca1883259c647267c69497a4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 45/57] fix: name the usage of enumerated values that fields of
 other access derive

---
 src/patch/register.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 3ffb231..860bb94 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -866,7 +866,7 @@ impl RegisterExt for Register {
                 .fields()
                 .flat_map(|f| f.enumerated_values.iter().map(move |e| (f, e)))
                 .filter(|(_, e)| e.name.as_deref() == Some(d));
-            let orig_usage = match (derived_enums.next(), derived_enums.next()) {
+            let (orig_usage, implicit_usage) = match (derived_enums.next(), derived_enums.next()) {
                 (Some((_, e)), None) if e.derived_from.is_some() => {
                     return Err(anyhow!(
                         "{rpath}: multilevel derive for {d} is not supported"
@@ -874,8 +874,11 @@ impl RegisterExt for Register {
                 }
                 // Without explicit <usage> it is defined by access of the field
                 (Some((f, e)), None) => match e.usage {
-                    Some(usage) => usage,
-                    None => check_usage(f.access.or(reg_access).unwrap_or_default(), None)?,
+                    Some(usage) => (usage, false),
+                    None => (
+                        check_usage(f.access.or(reg_access).unwrap_or_default(), None)?,
+                        true,
+                    ),
                 },
                 (None, _) => return Err(anyhow!("{rpath}: enumeratedValues {d} can't be found")),
                 (Some(_), Some(_)) => {
@@ -905,7 +908,11 @@ impl RegisterExt for Register {
                 if ftag.name == d {
                     return Err(anyhow!("EnumeratedValues can't be derived from itself"));
                 }
-                set_enum(ftag, evs.clone(), orig_usage, true, access)?;
+                let mut evs = evs.clone();
+                if implicit_usage {
+                    evs.usage = make_usage(access, checked_usage);
+                }
+                set_enum(ftag, evs, orig_usage, true, access)?;
             }
         } else {
             let (fspec, ignore) = fspec.spec();
@@ -938,12 +945,24 @@ impl RegisterExt for Register {
             } else {
                 make_ev_name(&fname.replace("%s", ""), usage)?
             };
+            // Usage that goes without saying for the access of one field may have to be named
+            // for other fields that derive from it
+            let shared_usage = usage.filter(|&usage| {
+                self.iter_fields(fspec).any(|f| {
+                    make_usage(f.access.or(reg_access).unwrap_or_default(), usage).is_some()
+                })
+            });
             for ftag in self.iter_fields(fspec) {
                 let access = ftag.access.or(reg_access).unwrap_or_default();
                 let checked_usage = check_usage(access, usage)
                     .with_context(|| format!("In field {}", ftag.name))?;
                 if config.enum_derive == EnumAutoDerive::None || ftag.bit_offset() == *min_offset {
-                    let mut evs = make_ev_array(fmod)?.usage(make_usage(access, checked_usage));
+                    let ev_usage = if config.enum_derive == EnumAutoDerive::None {
+                        make_usage(access, checked_usage)
+                    } else {
+                        shared_usage
+                    };
+                    let mut evs = make_ev_array(fmod)?.usage(ev_usage);
                     if ftag.bit_offset() == *min_offset {
                         evs = evs.name(Some(name.clone()));
                     }
-- 
2.43.0


From 128f5e16142eb97ae55024a5b501586fc8630d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 46/57] fix: refuse unknown words and impossible bit ranges in
 rules instead of ignoring them

---
 src/patch/mod.rs      | 81 ++++++++++++++++++++++++++++++++-----------
 src/patch/register.rs |  2 +-
 2 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index af8ae2a..4a97c87 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -308,20 +308,49 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
         "size" => p.size = Some(val.u32()?),
-        "access" => p.access = Access::parse_str(val.str()?),
+        "access" => p.access = get_removable("access", val.str()?, Access::parse_str)?,
         "resetValue" => p.reset_value = Some(val.u64()?),
         "resetMask" => p.reset_mask = Some(val.u64()?),
-        "protection" => p.protection = Protection::parse_str(val.str()?),
+        "protection" => {
+            p.protection = get_removable("protection", val.str()?, Protection::parse_str)?
+        }
         _ => {}
     }
     Ok(())
 }
 
+fn parse_word<T>(key: &str, word: &str, parse: fn(&str) -> Option<T>) -> Result<T> {
+    parse(word).ok_or_else(|| anyhow!("`{word}` is unknown value of `{key}`"))
+}
+
+/// Get value of an attribute from the words that SVD knows for it
+fn get_word<T>(h: &Hash, key: &str, parse: fn(&str) -> Option<T>) -> Result<Option<T>> {
+    (h.get_str(key)?)
+        .map(|word| parse_word(key, word, parse))
+        .transpose()
+}
+
+/// Like `parse_word`, but empty string is used to remove the attribute
+fn get_removable<T>(key: &str, word: &str, parse: fn(&str) -> Option<T>) -> Result<Option<T>> {
+    if word.is_empty() {
+        Ok(None)
+    } else {
+        parse_word(key, word, parse).map(Some)
+    }
+}
+
+fn get_access(h: &Hash) -> Result<Option<Access>> {
+    match h.get_str("access")? {
+        Some(word) => get_removable("access", word, Access::parse_str),
+        None => Ok(None),
+    }
+}
+
 fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
     Ok(RegisterProperties::new()
         .size(h.get_u32("size")?)
-        .access(h.get_str("access")?.and_then(Access::parse_str))
-        .protection(h.get_str("protection")?.and_then(Protection::parse_str))
+        .access(get_access(h)?)
+        .protection(get_word(h, "protection", Protection::parse_str)?)
         .reset_value(h.get_u64("resetValue")?)
         .reset_mask(h.get_u64("resetMask")?))
 }
@@ -406,7 +435,7 @@ fn make_address_block(h: &Hash) -> Result<AddressBlockBuilder> {
     if let Some(size) = h.get_u32("size")? {
         ab = ab.size(size)
     }
-    if let Some(usage) = h.get_str("usage")?.and_then(AddressBlockUsage::parse_str) {
+    if let Some(usage) = get_word(h, "usage", AddressBlockUsage::parse_str)? {
         ab = ab.usage(usage)
     }
     Ok(ab)
@@ -491,16 +520,24 @@ fn modify_dim_element<T: Clone>(
     Ok(())
 }
 
+fn parse_bit_range(text: &str) -> Option<BitRange> {
+    let (msb, lsb) = text.strip_prefix('[')?.strip_suffix(']')?.split_once(':')?;
+    (lsb.parse::<u32>().ok()? <= msb.parse::<u32>().ok()?)
+        .then(|| BitRange::from_bit_range(text))
+        .flatten()
+}
+
 fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuilder> {
     let mut fnew = FieldInfo::builder()
         .description(opt_interpolate(&rpath, fadd.get_str("description")?))
         .derived_from(opt_interpolate(&rpath, fadd.get_str("derivedFrom")?))
-        .access(fadd.get_str("access")?.and_then(Access::parse_str))
-        .modified_write_values(
-            fadd.get_str("modifiedWriteValues")?
-                .and_then(ModifiedWriteValues::parse_str),
-        )
-        .read_action(fadd.get_str("readAction")?.and_then(ReadAction::parse_str))
+        .access(get_access(fadd)?)
+        .modified_write_values(get_word(
+            fadd,
+            "modifiedWriteValues",
+            ModifiedWriteValues::parse_str,
+        )?)
+        .read_action(get_word(fadd, "readAction", ReadAction::parse_str)?)
         .write_constraint(get_write_constraint(fadd)?);
 
     if let Some(name) = fadd.get_str("name")? {
@@ -508,8 +545,11 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
     }
     // NOTE: support only both `msb` and `lsb` passed together
     if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        if msb < lsb {
+            return Err(anyhow!("msb {msb} is less than lsb {lsb}"));
+        }
         fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
-    } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
+    } else if let Some(bit_range) = get_word(fadd, "bitRange", parse_bit_range)? {
         fnew = fnew.bit_range(bit_range);
     } else {
         if let Some(offset) = fadd.get_u32("bitOffset")? {
@@ -531,12 +571,13 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
         .alternate_group(radd.get_string("alternateGroup")?)
         .alternate_register(radd.get_string("alternateRegister")?)
         .properties(get_register_properties(radd)?)
-        .datatype(radd.get_str("dataType")?.and_then(DataType::parse_str))
-        .modified_write_values(
-            radd.get_str("modifiedWriteValues")?
-                .and_then(ModifiedWriteValues::parse_str),
-        )
-        .read_action(radd.get_str("readAction")?.and_then(ReadAction::parse_str))
+        .datatype(get_word(radd, "dataType", DataType::parse_str)?)
+        .modified_write_values(get_word(
+            radd,
+            "modifiedWriteValues",
+            ModifiedWriteValues::parse_str,
+        )?)
+        .read_action(get_word(radd, "readAction", ReadAction::parse_str)?)
         .write_constraint(get_write_constraint(radd)?)
         .fields(match radd.get_hash("fields")? {
             Some(h) => {
@@ -583,7 +624,7 @@ fn get_write_constraint(h: &Hash) -> Result<Option<WriteConstraint>> {
                 // Only allow enumerated values
                 Ok(Some(WriteConstraint::UseEnumeratedValues(true)))
             }
-            Yaml::Array(a) => {
+            Yaml::Array(a) if a.len() == 2 => {
                 // Allow a certain range
                 Ok(Some(WriteConstraint::Range(WriteConstraintRange {
                     min: a[0].u64()?,
@@ -735,7 +776,7 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(revision) = cmod.get_string("revision")? {
         cpu = cpu.revision(revision);
     }
-    if let Some(endian) = cmod.get_str("endian")?.and_then(Endian::parse_str) {
+    if let Some(endian) = get_word(cmod, "endian", Endian::parse_str)? {
         cpu = cpu.endian(endian);
     }
     if let Some(mpu_present) = cmod.get_bool("mpuPresent")? {
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 860bb94..01f8db7 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -340,7 +340,7 @@ impl RegisterExt for Register {
                             // Only allow enumerated values
                             Some(WriteConstraint::UseEnumeratedValues(true))
                         }
-                        Yaml::Array(a) => {
+                        Yaml::Array(a) if a.len() == 2 => {
                             // Allow a certain range
                             Some(WriteConstraint::Range(WriteConstraintRange {
                                 min: a[0].u64()?,
-- 
2.43.0


From 54cdc7ed9b24a7b9cff60ec94482109fb6779360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 47/57] fix: refuse sections of rules that are not mappings
 instead of skipping them

---
 src/patch/device.rs     | 14 +++++++-------
 src/patch/mod.rs        |  4 ++--
 src/patch/peripheral.rs | 34 +++++++++++++++++-----------------
 src/patch/register.rs   | 19 +++++++++++++------
 src/patch/yaml_ext.rs   |  8 ++++++--
 5 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 2705de7..1dfb14b 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -91,7 +91,7 @@ impl DeviceExt for Device {
         }
 
         // Handle any copied peripherals
-        for (pname, val) in device.hash_iter("_copy") {
+        for (pname, val) in device.hash_iter("_copy")? {
             let pname = pname.str()?;
             self.copy_peripheral(
                 pname,
@@ -102,7 +102,7 @@ impl DeviceExt for Device {
         }
 
         // Handle any modifications
-        for (key, val) in device.hash_iter("_modify") {
+        for (key, val) in device.hash_iter("_modify")? {
             let key = key.str()?;
             match key {
                 "cpu" => self
@@ -148,21 +148,21 @@ impl DeviceExt for Device {
         }
 
         // Handle any new peripherals (!)
-        for (pname, padd) in device.hash_iter("_add") {
+        for (pname, padd) in device.hash_iter("_add")? {
             let pname = pname.str()?;
             self.add_peripheral(pname, padd.hash()?)
                 .with_context(|| format!("Adding peripheral `{pname}`"))?;
         }
 
         // Handle any derived peripherals
-        for (pname, pderive) in device.hash_iter("_derive") {
+        for (pname, pderive) in device.hash_iter("_derive")? {
             let pname = pname.str()?;
             self.derive_peripheral(pname, pderive)
                 .with_context(|| format!("Deriving peripheral `{pname}` from `{pderive:?}`"))?;
         }
 
         // Handle any rebased peripherals
-        for (pname, pold) in device.hash_iter("_rebase") {
+        for (pname, pold) in device.hash_iter("_rebase")? {
             let pname = pname.str()?;
             let pold = pold.str()?;
             self.rebase_peripheral(pname, pold)
@@ -267,14 +267,14 @@ impl DeviceExt for Device {
                         }
                     }
                 }
-                if let Some(abmod) = pmod.get_hash("addressBlock").ok().flatten() {
+                if let Some(abmod) = pmod.get_hash("addressBlock")? {
                     let v = &mut ptag.address_block;
                     let ab = make_address_block(abmod)?;
                     match v.as_deref_mut() {
                         Some([adb]) => adb.modify_from(ab, VAL_LVL)?,
                         _ => *v = Some(vec![ab.build(VAL_LVL)?]),
                     }
-                } else if let Some(abmod) = pmod.get_vec("addressBlocks").ok().flatten() {
+                } else if let Some(abmod) = pmod.get_vec("addressBlocks")? {
                     ptag.address_block = Some(make_address_blocks(abmod)?);
                 }
             }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 4a97c87..59274b1 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -726,9 +726,9 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
         Ok(pnew
             .default_register_properties(get_register_properties(padd)?)
             .address_block(if !modify {
-                if let Some(h) = padd.get_hash("addressBlock").ok().flatten() {
+                if let Some(h) = padd.get_hash("addressBlock")? {
                     Some(vec![make_address_block(h)?.build(VAL_LVL)?])
-                } else if let Some(h) = padd.get_vec("addressBlocks").ok().flatten() {
+                } else if let Some(h) = padd.get_vec("addressBlocks")? {
                     Some(make_address_blocks(h)?)
                 } else {
                     None
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index baee66e..bb01ec8 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1104,7 +1104,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle any copied peripherals
-        for (rname, rcopy) in pmod.hash_iter("_copy") {
+        for (rname, rcopy) in pmod.hash_iter("_copy")? {
             let rname = rname.str()?;
             match rname {
                 "_registers" => {
@@ -1152,7 +1152,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle modifications
-        for (rspec, rmod) in pmod.hash_iter("_modify") {
+        for (rspec, rmod) in pmod.hash_iter("_modify")? {
             let rmod = rmod.hash()?;
             match rspec.str()? {
                 "_registers" => {
@@ -1191,7 +1191,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle additions
-        for (rname, radd) in pmod.hash_iter("_add") {
+        for (rname, radd) in pmod.hash_iter("_add")? {
             let radd = radd.hash()?;
             match rname.str()? {
                 "_registers" => {
@@ -1221,7 +1221,7 @@ impl PeripheralExt for Peripheral {
             }
         }
 
-        for (rspec, rderive) in pmod.hash_iter("_derive") {
+        for (rspec, rderive) in pmod.hash_iter("_derive")? {
             let rspec = rspec.str()?;
             match rspec {
                 "_registers" => {
@@ -1260,27 +1260,27 @@ impl PeripheralExt for Peripheral {
         }
 
         // Expand register arrays
-        for (rspec, rmod) in pmod.hash_iter("_expand_array") {
+        for (rspec, rmod) in pmod.hash_iter("_expand_array")? {
             let rspec = rspec.str()?;
             self.expand_array(rspec, rmod.hash()?, config)
                 .with_context(|| format!("During expand of `{rspec}` array"))?;
         }
         // Collect registers in arrays
-        for (rspec, rmod) in pmod.hash_iter("_array") {
+        for (rspec, rmod) in pmod.hash_iter("_array")? {
             let rspec = rspec.str()?;
             self.collect_in_array(rspec, rmod.hash()?, &ppath, config)
                 .with_context(|| format!("Collecting registers matched to `{rspec}` in array"))?;
         }
 
         // Collect registers in clusters
-        for (cname, cmod) in pmod.hash_iter("_cluster") {
+        for (cname, cmod) in pmod.hash_iter("_cluster")? {
             let cname = cname.str()?;
             self.collect_in_cluster(cname, cmod.hash()?, &ppath, config)
                 .with_context(|| format!("Collecting registers in cluster `{cname}`"))?;
         }
 
         // Handle clusters
-        for (cspec, cluster) in pmod.hash_iter("_clusters") {
+        for (cspec, cluster) in pmod.hash_iter("_clusters")? {
             let cspec = cspec.str()?;
             self.process_cluster(cspec, cluster.hash()?, &ppath, config)
                 .with_context(|| format!("According to `{cspec}`"))?;
@@ -1302,7 +1302,7 @@ impl PeripheralExt for Peripheral {
                 }
                 Yaml::Hash(cspec) => {
                     for (cname, cspec) in cspec {
-                        let cspec = cspec.hash().ok();
+                        let cspec = (!cspec.is_null()).then(|| cspec.hash()).transpose()?;
                         let cname = cname.str()?;
                         let mut preindex = None;
                         let mut postindex = None;
@@ -1421,7 +1421,7 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Handle any copied peripherals
-        for (rname, rcopy) in cmod.hash_iter("_copy") {
+        for (rname, rcopy) in cmod.hash_iter("_copy")? {
             let rname = rname.str()?;
             match rname {
                 "_registers" => {
@@ -1469,7 +1469,7 @@ impl ClusterExt for Cluster {
         }
 
         // Handle modifications
-        for (rspec, rmod) in cmod.hash_iter("_modify") {
+        for (rspec, rmod) in cmod.hash_iter("_modify")? {
             let rmod = rmod.hash()?;
             match rspec.str()? {
                 "_registers" => {
@@ -1500,7 +1500,7 @@ impl ClusterExt for Cluster {
         }
 
         // Handle additions
-        for (rname, radd) in cmod.hash_iter("_add") {
+        for (rname, radd) in cmod.hash_iter("_add")? {
             let radd = radd.hash()?;
             match rname.str()? {
                 "_registers" => {
@@ -1523,7 +1523,7 @@ impl ClusterExt for Cluster {
             }
         }
 
-        for (rspec, rderive) in cmod.hash_iter("_derive") {
+        for (rspec, rderive) in cmod.hash_iter("_derive")? {
             let rspec = rspec.str()?;
             match rspec {
                 "_registers" => {
@@ -1560,7 +1560,7 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Handle clusters
-        for (cspec, cluster) in cmod.hash_iter("_clusters") {
+        for (cspec, cluster) in cmod.hash_iter("_clusters")? {
             let cspec = cspec.str()?;
             self.process_cluster(cspec, cluster.hash()?, &cpath, config)
                 .with_context(|| format!("According to `{cspec}`"))?;
@@ -1583,21 +1583,21 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Expand register arrays
-        for (rspec, rmod) in cmod.hash_iter("_expand_array") {
+        for (rspec, rmod) in cmod.hash_iter("_expand_array")? {
             let rspec = rspec.str()?;
             self.expand_array(rspec, rmod.hash()?, config)
                 .with_context(|| format!("During expand of `{rspec}` array"))?;
         }
 
         // Collect registers in arrays
-        for (rspec, rmod) in cmod.hash_iter("_array") {
+        for (rspec, rmod) in cmod.hash_iter("_array")? {
             let rspec = rspec.str()?;
             self.collect_in_array(rspec, rmod.hash()?, &cpath, config)
                 .with_context(|| format!("Collecting registers matched to `{rspec}` in array"))?;
         }
 
         // Collect registers in clusters
-        for (cname, incmod) in cmod.hash_iter("_cluster") {
+        for (cname, incmod) in cmod.hash_iter("_cluster")? {
             let cname = cname.str()?;
             self.collect_in_cluster(cname, incmod.hash()?, &cpath, config)
                 .with_context(|| format!("Collecting registers in cluster `{cname}`"))?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 01f8db7..284742d 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -196,19 +196,19 @@ impl RegisterExt for Register {
         }
 
         // Handle modifications
-        for (fspec, fmod) in rmod.hash_iter("_modify") {
+        for (fspec, fmod) in rmod.hash_iter("_modify")? {
             let fspec = fspec.str()?;
             self.modify_field(fspec, fmod.hash()?, &rpath)
                 .with_context(|| format!("Modifying fields matched to `{fspec}`"))?;
         }
         // Handle additions
-        for (fname, fadd) in rmod.hash_iter("_add") {
+        for (fname, fadd) in rmod.hash_iter("_add")? {
             let fname = fname.str()?;
             self.add_field(fname, fadd.hash()?, &rpath)
                 .with_context(|| format!("Adding field `{fname}`"))?;
         }
         // Handle derives
-        for (fspec, fderive) in rmod.hash_iter("_derive") {
+        for (fspec, fderive) in rmod.hash_iter("_derive")? {
             let fspec = fspec.str()?;
             self.derive_field(fspec, fderive, &rpath)
                 .with_context(|| format!("Deriving field `{fspec}` from `{fderive:?}`"))?;
@@ -234,7 +234,8 @@ impl RegisterExt for Register {
                 self.merge_fields(fspec, None, &rpath)
                     .with_context(|| format!("Merging fields matched to `{fspec}`"))?;
             }
-            _ => {}
+            None | Some(Yaml::Null) => {}
+            Some(value) => return Err(anyhow!("Invalid usage of merge for {rpath}: {value:?}")),
         }
 
         // Handle splits
@@ -257,7 +258,8 @@ impl RegisterExt for Register {
                 self.split_fields(fspec, &Hash::new(), &rpath)
                     .with_context(|| format!("Splitting fields matched to `{fspec}`"))?;
             }
-            _ => {}
+            None | Some(Yaml::Null) => {}
+            Some(value) => return Err(anyhow!("Invalid usage of split for {rpath}: {value:?}")),
         }
 
         // Handle fields
@@ -273,7 +275,7 @@ impl RegisterExt for Register {
         }
 
         // Handle field arrays
-        for (fspec, fmod) in rmod.hash_iter("_array") {
+        for (fspec, fmod) in rmod.hash_iter("_array")? {
             let fspec = fspec.str()?;
             self.collect_fields_in_array(fspec, fmod.hash()?, &rpath)
                 .with_context(|| format!("Collecting fields matched to `{fspec}` in array"))?;
@@ -754,6 +756,11 @@ impl RegisterExt for Register {
                 self.process_field_range(fspec, fmod, rpath)
                     .context("Adding writeConstraint range")?;
             }
+            Yaml::Array(_) => {
+                return Err(anyhow!(
+                    "Incorrect writeConstraint range for {rpath}:{fspec}: {fmod:?}"
+                ))
+            }
             _ => {}
         }
         Ok(())
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index 7ad510a..bd6cc71 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -211,8 +211,12 @@ where
                 .map(Some),
         }
     }
-    fn hash_iter<'a>(&'a self, k: &K) -> HashIter<'a> {
-        HashIter::new(self.get_yaml(k).and_then(Yaml::as_hash).map(|h| h.iter()))
+    /// Iterates over a section, which can be absent or left empty
+    fn hash_iter<'a>(&'a self, k: &K) -> Result<HashIter<'a>> {
+        Ok(HashIter::new(match self.get_yaml(k) {
+            Some(Yaml::Null) => None,
+            _ => self.get_hash(k)?.map(|h| h.iter()),
+        }))
     }
     fn get_vec(&self, k: &K) -> Result<Option<&Vec<Yaml>>> {
         match self.get_yaml(k) {
-- 
2.43.0


From 46193d707b7f44c7c9ce219ce1e6ac321506c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 48/57] fix: refuse YAML files with several documents instead
 of applying only the first

---
 src/makedeps/makedeps_cli.rs | 16 ++++++----------
 src/patch/mod.rs             | 28 +++++++++++++++++-----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/makedeps/makedeps_cli.rs b/src/makedeps/makedeps_cli.rs
index 92906a1..670cf0b 100644
--- a/src/makedeps/makedeps_cli.rs
+++ b/src/makedeps/makedeps_cli.rs
@@ -1,11 +1,11 @@
-use crate::patch::yaml_includes;
+use crate::patch::{load_document, yaml_includes};
 use anyhow::{anyhow, Result};
-use std::io::{Read, Write};
+use std::io::Write;
 use std::{
     fs::File,
     path::{Path, PathBuf},
 };
-use yaml_rust::{Yaml, YamlLoader};
+use yaml_rust::Yaml;
 
 fn write_to_file(file: &mut File, string_to_write: &str) -> Result<()> {
     let dep = string_to_write.as_bytes();
@@ -31,18 +31,14 @@ fn write_file(file_name: &Path, deps: Vec<PathBuf>) -> Result<()> {
 }
 
 pub fn makedeps(yaml_file: &Path, deps_file: &Path) -> Result<()> {
-    let f = File::open(yaml_file)?;
-    let mut contents = String::new();
-    (&f).read_to_string(&mut contents)?;
-    let mut docs = YamlLoader::load_from_str(&contents)?;
-    match &mut docs[0] {
-        Yaml::Hash(root) => {
+    match load_document(yaml_file)? {
+        Some(Yaml::Hash(mut root)) => {
             root.insert(
                 Yaml::String("_path".into()),
                 Yaml::String(yaml_file.to_str().unwrap().into()),
             );
 
-            let deps = yaml_includes(root)?;
+            let deps = yaml_includes(&mut root)?;
 
             write_file(deps_file, deps)?;
             Ok(())
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 59274b1..5ceac1c 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -74,13 +74,22 @@ impl Default for Config {
     }
 }
 
-pub fn load_patch(yaml_file: &Path) -> Result<Yaml> {
-    // Load the specified YAML root file
+/// Loads the only document of YAML file, if it is not empty
+pub(crate) fn load_document(yaml_file: &Path) -> Result<Option<Yaml>> {
     let f = File::open(yaml_file)?;
     let mut contents = String::new();
     (&f).read_to_string(&mut contents)?;
-    let docs = YamlLoader::load_from_str(&contents)?;
-    let mut doc = docs.into_iter().next().unwrap(); // select the first document
+    let mut docs = YamlLoader::load_from_str(&contents)?;
+    if docs.len() > 1 {
+        return Err(anyhow!("File {yaml_file:?} has more than one document"));
+    }
+    Ok(docs.pop())
+}
+
+pub fn load_patch(yaml_file: &Path) -> Result<Yaml> {
+    // Load the specified YAML root file
+    let mut doc =
+        load_document(yaml_file)?.ok_or_else(|| anyhow!("File {yaml_file:?} is empty"))?;
     let root = doc.hash_mut()?;
     root.insert("_path".to_yaml(), yaml_file.to_str().unwrap().to_yaml());
 
@@ -197,15 +206,12 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         if included.contains(&path) {
             continue;
         }
-        let f = File::open(&path)?;
-        let mut contents = String::new();
-        (&f).read_to_string(&mut contents)?;
-        let mut docs = YamlLoader::load_from_str(&contents)?;
+        let doc = load_document(&path)?;
         included.push(path.clone());
-        if docs.is_empty() {
+        let Some(mut doc) = doc else {
             continue;
-        }
-        let child = docs[0].hash_mut()?;
+        };
+        let child = doc.hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
 
-- 
2.43.0


From d637602ddac01b86a40c3204c171156b82f6f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 49/57] fix: report files that include themselves instead of
 overflowing the stack

---
 src/patch/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 5ceac1c..2d03b81 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -177,6 +177,12 @@ fn abspath(frompath: &Path, relpath: &Path) -> Result<PathBuf, std::io::Error> {
 
 /// Recursively loads any included YAML files.
 pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
+    let root = PathBuf::from(parent.get(&"_path".to_yaml()).unwrap().str()?);
+    process_includes(parent, &mut vec![root.canonicalize().unwrap_or(root)])
+}
+
+/// `stack` is the chain of files from the root one to the one with `parent`
+fn process_includes(parent: &mut Hash, stack: &mut Vec<PathBuf>) -> Result<Vec<PathBuf>> {
     let y_path = "_path".to_yaml();
     let mut included = vec![];
     let self_path = PathBuf::from(parent.get(&y_path).unwrap().str()?);
@@ -188,7 +194,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
                 Yaml::Hash(val) if val.contains_key(&"_include".to_yaml()) => {
                     let ypath = self_path.to_str().unwrap().to_yaml();
                     val.insert(y_path.clone(), ypath.clone());
-                    included.extend(yaml_includes(val)?);
+                    included.extend(process_includes(val, stack)?);
                 }
                 _ => {}
             }
@@ -206,6 +212,9 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         if included.contains(&path) {
             continue;
         }
+        if stack.contains(&path) {
+            return Err(anyhow!("File {path:?} includes itself"));
+        }
         let doc = load_document(&path)?;
         included.push(path.clone());
         let Some(mut doc) = doc else {
@@ -216,7 +225,9 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         child.insert(y_path.clone(), ypath.clone());
 
         // Process any top-level includes in child
-        included.extend(yaml_includes(child)?);
+        stack.push(path);
+        included.extend(process_includes(child, stack)?);
+        stack.pop();
         update_dict(parent, child)?;
     }
     parent.remove(&"_include".to_yaml());
-- 
2.43.0


From 78c1398716641f13fc126549f7786a38258e3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 50/57] fix: refuse enumerated values with more than value and
 description

---
 src/patch/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 2d03b81..8353b58 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -398,10 +398,9 @@ fn make_ev_array(values: &Hash) -> Result<EnumeratedValuesBuilder> {
                     vname
                 ));
             }
-            let vd = vd.vec()?;
-            let Some((value, description)) = vd.first().zip(vd.get(1)) else {
+            let [value, description] = vd.vec()?.as_slice() else {
                 return Err(anyhow!(
-                    "enumeratedValue {vname} can't have empty value or description"
+                    "enumeratedValue {vname} must have value and description"
                 ));
             };
             let def = value.i64()? == -1;
-- 
2.43.0


From 3c5f6f600e264972a93bc3ce3e418cc52f1047f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 51/57] fix: name the values of dimArrayIndex given in rules

---
 src/patch/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8353b58..4070b22 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -497,16 +497,17 @@ fn make_dim_array_index(h: &Hash) -> Result<DimArrayIndex> {
     let mut values = Vec::new();
     for (vname, vd) in h {
         let vname = vname.str()?;
-        if let Some(vd) = vd.as_vec() {
-            let Some((value, description)) = vd.first().zip(vd.get(1)) else {
+        if vname != "headerEnumName" {
+            let [value, description] = vd.vec()?.as_slice() else {
                 return Err(anyhow!(
-                    "enumeratedValue {vname} can't have empty value or description"
+                    "enumeratedValue {vname} must have value and description"
                 ));
             };
             let value = value.u64()?;
             let description = description.str()?;
             values.push(
                 EnumeratedValue::builder()
+                    .name(vname.into())
                     .value(Some(value))
                     .description(Some(description.into()))
                     .build(VAL_LVL)?,
-- 
2.43.0


From 0720a874262a2f6920ac264fb281b8a342a20d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 52/57] fix: apply dimensions, interrupts and address blocks of
 peripheral _derive rules and dimensions of register _copy rules

---
 src/patch/device.rs     | 16 ++++++++++++----
 src/patch/peripheral.rs |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 1dfb14b..c3a7c9a 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -313,9 +313,11 @@ impl DeviceExt for Device {
     }
 
     fn derive_peripheral(&mut self, pname: &str, pderive: &Yaml) -> PatchResult {
-        let (pderive, info) = if let Some(pderive) = pderive.as_str() {
+        let exists = self.get_peripheral(pname).is_some();
+        let (pderive, dim, info) = if let Some(pderive) = pderive.as_str() {
             (
                 pderive,
+                None,
                 PeripheralInfo::builder().derived_from(Some(pderive.into())),
             )
         } else if let Some(hash) = pderive.as_hash() {
@@ -327,7 +329,8 @@ impl DeviceExt for Device {
             })?;
             (
                 pderive,
-                make_peripheral(hash, true)?.derived_from(Some(pderive.into())),
+                make_dim_element(hash)?,
+                make_peripheral(hash, exists)?.derived_from(Some(pderive.into())),
             )
         } else {
             return Err(anyhow!("derive: incorrect syntax for {pname}"));
@@ -359,11 +362,16 @@ impl DeviceExt for Device {
         {
             Some((i, peripheral)) => {
                 min_pos = i;
+                modify_dim_element(peripheral, &dim)?;
                 peripheral.modify_from(info, VAL_LVL)?;
             }
             None => {
-                let peripheral = info.name(pname.into()).build(VAL_LVL)?.single();
-                self.peripherals.push(peripheral);
+                let peripheral = info.name(pname.into()).build(VAL_LVL)?;
+                self.peripherals.push(if let Some(dim) = dim {
+                    peripheral.array(dim.build(VAL_LVL)?)
+                } else {
+                    peripheral.single()
+                });
             }
         }
 
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index bb01ec8..70dccc2 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -386,6 +386,7 @@ pub(crate) trait RegisterBlockExt: Name {
             .name(rname.into())
             .display_name(Some("".into()));
         // Modifying fields in derived register not implemented
+        modify_dim_element(&mut source, &make_dim_element(rcopy)?)?;
         source.modify_from(fixes, VAL_LVL)?;
         if let Some(ptag) = self.regs_mut().find(|r| r.name == rname) {
             source.address_offset = ptag.address_offset;
-- 
2.43.0


From 72be28ceac97c76cf4d608b4fb93590b61403f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 53/57] fix: refuse field rules and sections of derived
 peripherals of the wrong kind

---
 src/patch/peripheral.rs | 11 +++--------
 src/patch/register.rs   | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 70dccc2..1aefa7f 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1022,18 +1022,13 @@ impl PeripheralExt for Peripheral {
     fn process(&mut self, pmod: &Hash, config: &Config) -> PatchResult {
         // For derived peripherals, only process interrupts
         if self.derived_from.is_some() {
-            if let Some(deletions) = pmod.get_hash("_delete").ok().flatten() {
+            if let Some(Yaml::Hash(deletions)) = pmod.get_yaml("_delete") {
                 for ispec in deletions.str_vec_iter("_interrupts")? {
                     self.delete_interrupt(ispec)
                         .with_context(|| format!("Deleting interrupts matched to `{ispec}`"))?;
                 }
             }
-            for (rspec, rmod) in pmod
-                .get_hash("_modify")
-                .ok()
-                .flatten()
-                .unwrap_or(&Hash::new())
-            {
+            for (rspec, rmod) in pmod.hash_iter("_modify")? {
                 if rspec.as_str() == Some("_interrupts") {
                     for (ispec, val) in rmod.hash()? {
                         let ispec = ispec.str()?;
@@ -1043,7 +1038,7 @@ impl PeripheralExt for Peripheral {
                     }
                 }
             }
-            for (rname, radd) in pmod.get_hash("_add").ok().flatten().unwrap_or(&Hash::new()) {
+            for (rname, radd) in pmod.hash_iter("_add")? {
                 if rname.as_str() == Some("_interrupts") {
                     for (iname, val) in radd.hash()? {
                         let iname = iname.str()?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 284742d..6c0d163 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -703,6 +703,14 @@ impl RegisterExt for Register {
             "_W0T" => Some(ModifiedWriteValues::ZeroToToggle),
         };
 
+        const ARRAY_ATTRIBUTES: &[&str] = &[
+            "name",
+            "displayName",
+            "description",
+            "dimIncrement",
+            "_start_from_zero",
+        ];
+
         match fmod {
             Yaml::Hash(fmod) => {
                 let is_read = READ.keys().any(|key| fmod.contains_key(&key.to_yaml()));
@@ -761,7 +769,10 @@ impl RegisterExt for Register {
                     "Incorrect writeConstraint range for {rpath}:{fspec}: {fmod:?}"
                 ))
             }
-            _ => {}
+            Yaml::Null => {}
+            // Attributes of an array or a cluster the register is collected in
+            _ if ARRAY_ATTRIBUTES.contains(&fspec) => {}
+            _ => return Err(anyhow!("Incorrect rule for {rpath}:{fspec}: {fmod:?}")),
         }
         Ok(())
     }
-- 
2.43.0


From 4cdee57bef74c2e41aff9772a6ff7c123e081be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 54/57] fix: refuse derive and rebase rules that make an
 element its own source

---
 src/patch/device.rs     | 28 ++++++++++++++++++++++++++++
 src/patch/peripheral.rs | 18 ++++++++++++++++++
 src/patch/register.rs   | 21 +++++++++++++++++++++
 3 files changed, 67 insertions(+)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index c3a7c9a..591578d 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -58,6 +58,9 @@ pub trait DeviceExt {
     /// Update all derivedFrom referencing pname
     fn derive_peripheral(&mut self, pname: &str, pderive: &Yaml) -> PatchResult;
 
+    /// Whether `source` is `pname` or derived from it, possibly over several steps
+    fn is_derived(&self, source: &str, pname: &str) -> bool;
+
     /// Move registers from pold to pnew.
     /// Update all derivedFrom referencing pold
     fn rebase_peripheral(&mut self, pnew: &str, pold: &str) -> PatchResult;
@@ -352,6 +355,9 @@ impl DeviceExt for Device {
         } else {
             None
         };
+        if self.is_derived(pderive, pname) {
+            return Err(anyhow!("peripheral {pname} can't be derived from itself"));
+        }
 
         let mut min_pos = self.peripherals.len();
         match self
@@ -392,7 +398,29 @@ impl DeviceExt for Device {
         Ok(())
     }
 
+    fn is_derived(&self, source: &str, pname: &str) -> bool {
+        let mut source = source;
+        for _ in 0..=self.peripherals.len() {
+            if source == pname {
+                return true;
+            }
+            match self
+                .get_peripheral(source)
+                .and_then(|p| p.derived_from.as_deref())
+            {
+                Some(next) => source = next,
+                None => return false,
+            }
+        }
+        false
+    }
+
     fn rebase_peripheral(&mut self, pnew: &str, pold: &str) -> PatchResult {
+        if pnew != pold && self.is_derived(pold, pnew) {
+            return Err(anyhow!(
+                "peripheral {pold} is derived from {pnew} and can't be its source"
+            ));
+        }
         let (mut min_pos, old) = self
             .peripherals
             .iter_mut()
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 1aefa7f..1d37a08 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -329,10 +329,28 @@ pub(crate) trait RegisterBlockExt: Name {
             })?;
         }
 
+        // The source and the registers it is derived from
+        let mut sources = vec![rderive.to_string()];
+        while let Some(source) = self
+            .get_reg(&sources[sources.len() - 1])
+            .and_then(|r| r.derived_from.clone())
+            .filter(|source| !sources.contains(source))
+        {
+            sources.push(source);
+        }
+
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
         let mut found = Vec::new();
         if !rtags.is_empty() {
             for rtag in rtags {
+                if sources.contains(&rtag.name)
+                    || dpath == bpath.new_register(&rtag.name).to_string()
+                {
+                    return Err(anyhow!(
+                        "register {} can't be derived from itself",
+                        rtag.name
+                    ));
+                }
                 found.push(rtag.name.to_string());
                 modify_dim_element(rtag, &dim)?;
                 rtag.modify_from(info.clone(), VAL_LVL)?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 6c0d163..d473cdb 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -424,9 +424,30 @@ impl RegisterExt for Register {
         } else {
             return Err(anyhow!("derive: incorrect syntax for {fspec}"));
         };
+
+        // The source and the fields it is derived from
+        let dpath = match fderive {
+            Yaml::Hash(hash) => hash.get_str("_from")?,
+            _ => fderive.as_str(),
+        };
+        let mut sources = Vec::new();
+        let mut source = dpath.map(|dpath| make_path(dpath, rpath));
+        while let Some(name) = source.filter(|name| !sources.contains(name)) {
+            source = self
+                .fields()
+                .find(|f| f.name == name)
+                .and_then(|f| f.derived_from.clone());
+            sources.push(name);
+        }
+
         let ftags = self.iter_fields(fspec).collect::<Vec<_>>();
         if !ftags.is_empty() {
             for ftag in ftags {
+                if sources.contains(&ftag.name)
+                    || sources.contains(&rpath.new_field(&ftag.name).to_string())
+                {
+                    return Err(anyhow!("field {} can't be derived from itself", ftag.name));
+                }
                 modify_dim_element(ftag, &dim)?;
                 ftag.modify_from(info.clone(), VAL_LVL)?;
             }
-- 
2.43.0


From 26274cc8f46a662c4246a4cd32ef21c16c20430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 55/57] fix: refuse patches whose result can not be read again

Array elements without a placeholder or with a wrong number of indices
and elements with an empty name were written to files svdtools itself
refuses to read; an empty enumerated value name panicked.
---
 src/patch/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 4070b22..36a897e 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -158,9 +158,11 @@ pub fn process_reader<R: Read>(
 
     dev.validate_all(config.post_validate)?;
 
-    Ok(Cursor::new(
-        svd_encoder::encode_with_config(&dev, format_config)?.into_bytes(),
-    ))
+    let out = svd_encoder::encode_with_config(&dev, format_config)?;
+    svd_parser::parse_with_config(&out, &parser_config)
+        .context("The result of the patch is not a readable SVD")?;
+
+    Ok(Cursor::new(out.into_bytes()))
 }
 
 /// Gets the absolute path of relpath from the point of view of frompath.
@@ -392,7 +394,7 @@ fn make_ev_array(values: &Hash) -> Result<EnumeratedValuesBuilder> {
     for (n, vd) in values {
         let vname = n.str()?;
         if !vname.starts_with('_') {
-            if vname.as_bytes()[0].is_ascii_digit() {
+            if vname.starts_with(|c: char| c.is_ascii_digit()) {
                 return Err(anyhow!(
                     "enumeratedValue {} can't start with a number",
                     vname
-- 
2.43.0


From e44c79c87ddc0a6974dfb06c7d0b544dab4eca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 56/57] fix: give copies of derived peripherals the contents
 they inherit

The copy lost derivedFrom and so had no registers at all.
---
 src/patch/device.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 591578d..dd4a575 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -1,6 +1,6 @@
 use anyhow::{anyhow, Context};
 use itertools::Itertools;
-use svd_parser::svd::{Device, Peripheral, PeripheralInfo};
+use svd_parser::svd::{DeriveFrom, Device, Peripheral, PeripheralInfo};
 use yaml_rust::{yaml::Hash, Yaml};
 
 use std::collections::HashSet;
@@ -203,13 +203,14 @@ impl DeviceExt for Device {
                 (&f).read_to_string(&mut contents).unwrap();
                 let filedev = svd_parser::parse(&contents)
                     .with_context(|| format!("Parsing file {contents}"))?;
-                filedev
+                let new = filedev
                     .get_peripheral(pcopyname)
                     .ok_or_else(|| {
                         let present = self.present_peripherals();
                         anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
                     })?
-                    .clone()
+                    .clone();
+                with_inherited(new, &filedev)?
             }
             [pcopyname] => {
                 let mut new = self
@@ -219,6 +220,7 @@ impl DeviceExt for Device {
                         anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
                     })?
                     .clone();
+                new = with_inherited(new, self)?;
                 // When copying from a peripheral in the same file, remove any interrupts.
                 new.interrupt = Vec::new();
                 new
@@ -498,6 +500,27 @@ impl DeviceExt for Device {
     }
 }
 
+/// Fills in what a derived peripheral inherits, apart from interrupts
+fn with_inherited(mut peripheral: Peripheral, device: &Device) -> anyhow::Result<Peripheral> {
+    let interrupt = std::mem::take(&mut peripheral.interrupt);
+    for _ in &device.peripherals {
+        let Some(source) = peripheral.derived_from.take() else {
+            break;
+        };
+        let source = device
+            .get_peripheral(&source)
+            .ok_or_else(|| anyhow!("peripheral {source} not found"))?;
+        *peripheral = PeripheralInfo::derive_from(&peripheral, source);
+        peripheral.interrupt.clear();
+        peripheral.derived_from.clone_from(&source.derived_from);
+    }
+    if let Some(source) = &peripheral.derived_from {
+        return Err(anyhow!("peripheral {source} is derived from itself"));
+    }
+    peripheral.interrupt = interrupt;
+    Ok(peripheral)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a84f012739ac7b7064c5d3337cc71bae12cc91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 57/57] fix: refuse copies of a register over the one it is
 derived from

The register became its own source and lost its fields.
---
 src/patch/peripheral.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 1d37a08..7bd5803 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -400,6 +400,18 @@ pub(crate) trait RegisterBlockExt: Name {
                 )
             })?
             .clone();
+        let rpath = bpath.new_register(rname).to_string();
+        let mut origin = source.derived_from.clone();
+        for _ in self.regs() {
+            if origin.as_deref() == Some(rname) || origin.as_ref() == Some(&rpath) {
+                return Err(anyhow!(
+                    "register {srcname} is derived from {rname} and can't replace it"
+                ));
+            }
+            origin = origin
+                .and_then(|o| self.get_reg(&o))
+                .and_then(|r| r.derived_from.clone());
+        }
         let fixes = make_register(rcopy, Some(bpath))?
             .name(rname.into())
             .display_name(Some("".into()));
-- 
2.43.0

