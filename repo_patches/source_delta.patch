From fc3c8aee73e22a71aa624bb36f122e2f6678b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:28 +0000
Subject: [PATCH 01/29] fix: return 0 from get_payload_offset for packets
 without usable payload

The documentation promises 0 for a packet without payload or with an invalid
offset. An adaptation field length above 250 overflowed the u8 sum, so
Psi::mux() read the section from the wrong place.
---
 src/psi/mod.rs | 2 +-
 src/ts/mod.rs  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..7736f93 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,8 +80,12 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
-    if ! is_adaptation(ts) {
+    if ! is_payload(ts) {
+        0
+    } else if ! is_adaptation(ts) {
         4
+    } else if get_adaptation_size(ts) >= 183 {
+        0
     } else {
         4 + 1 + get_adaptation_size(ts)
     }
-- 
2.43.0


From 0800dd3aacb4cb7eec2053e8971a5fee4613b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:29 +0000
Subject: [PATCH 02/29] fix: check PSI pointer field against the end of the
 packet

With an adaptation field in front of the payload a pointer below 183 could
still lead out of the packet and Psi::mux() panicked.
---
 src/psi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..e5b9a47 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,11 +116,11 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From 6cbf87819c858475ccbd9a889f55cada65a60299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:30 +0000
Subject: [PATCH 03/29] fix: keep the queued section when Psi::mux() receives
 its continuation

A section that began behind the tail of the previous one was cut to the size
of the previous one as soon as a packet without PUSI arrived, a header split
over two packets was thrown away, and a continuation packet without any
section start was taken for a section.
---
 src/psi/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e5b9a47..2f33180 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -114,6 +114,13 @@ impl Psi {
 
         let cc = ts::get_cc(ts);
 
+        // Drop the section completed by the previous packet,
+        // keep the beginning of the next one
+        if self.size != 0 && self.buffer.len() >= self.size {
+            self.buffer.drain(0 .. self.size);
+            self.size = 0;
+        }
+
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
             let ts_offset = ts_offset + 1;
@@ -133,20 +140,16 @@ impl Psi {
                     self.buffer.resize(self.size, 0x00);
                 }
             } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if cc != (self.cc + 1) & 0x0F || self.buffer.is_empty() {
                 self.clear();
                 return;
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
+            if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
             }
         }
-- 
2.43.0


From cc5aa1ae929e9f612e38d5c009f4212f5d554ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:31 +0000
Subject: [PATCH 04/29] fix: end a section at the pointer field of the next one

Bytes behind the pointer belong to the next section. Taking them as a
continuation of an unfinished section produced sections that were never sent.
---
 src/psi/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 2f33180..2c847ad 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -133,6 +133,16 @@ impl Psi {
                 self.clear();
             }
 
+            // Tail of the previous section
+            if ! self.buffer.is_empty() {
+                self.push(&ts[ts_offset .. ts_offset + pointer_field]);
+                if self.size == 0 || self.buffer.len() < self.size {
+                    self.clear();
+                } else {
+                    self.buffer.resize(self.size, 0x00);
+                }
+            }
+
             // TODO: save pid into self.pid
             if self.buffer.is_empty() {
                 self.push(&ts[ts_offset + pointer_field .. 188]);
@@ -140,7 +150,7 @@ impl Psi {
                     self.buffer.resize(self.size, 0x00);
                 }
             } else {
-                self.push(&ts[ts_offset .. 188]);
+                self.push(&ts[ts_offset + pointer_field .. 188]);
             }
         } else {
             if cc != (self.cc + 1) & 0x0F || self.buffer.is_empty() {
-- 
2.43.0


From f504776e7f7e7438ce67074f5726f0a74453a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:31 +0000
Subject: [PATCH 05/29] fix: compare incomplete PSI packets without panic

---
 src/psi/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 2c847ad..8116ebb 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,7 +61,7 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
-        self.size == other.size && self.get_crc32() == other.get_crc32()
+        self.size == other.size && self.stored_crc32() == other.stored_crc32()
     }
 }
 
@@ -174,6 +174,16 @@ impl Psi {
         self.buffer[skip ..].get_u32()
     }
 
+    /// Returns the PSI packet checksum if it is already received
+    #[inline]
+    fn stored_crc32(&self) -> Option<u32> {
+        if self.size >= 4 && self.buffer.len() >= self.size {
+            Some(self.get_crc32())
+        } else {
+            None
+        }
+    }
+
     /// Calculates the PSI packet checksum
     #[inline]
     fn calc_crc32(&self) -> u32 {
-- 
2.43.0


From 2171fa3cd4af1c34816b106987b843693ac408e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:32 +0000
Subject: [PATCH 06/29] fix: emit no packet for an empty section

Psi::demux() of a section without size appended 188 bytes of stuffing without
sync byte.
---
 src/psi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 8116ebb..86b7303 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -236,6 +236,10 @@ impl Psi {
     /// psi.demux(&mut ts);
     /// ```
     pub fn demux(&mut self, dst: &mut Vec<u8>) {
+        if self.size == 0 {
+            return;
+        }
+
         let mut psi_skip = 0;
         let mut dst_skip = dst.len();
 
-- 
2.43.0


From 869fbdb4651b750bcff098f630dad5bb8cd9936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:33 +0000
Subject: [PATCH 07/29] fix: read PMT program descriptors from the right offset

The loop starts at byte 12. Its length is also checked now: a length beyond the
section caused a panic.
---
 src/psi/pmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..7bd6eb0 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -133,12 +133,16 @@ impl Pmt {
             return;
         }
 
+        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.pnr = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
-        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 5165b2acc0ceea927822c8a0fcb2033e77b80903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:34 +0000
Subject: [PATCH 08/29] fix: check the network descriptors length when parsing
 NIT

A length beyond the section caused a panic.
---
 src/psi/nit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..e118552 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -101,11 +101,15 @@ impl Nit {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.table_id = psi.buffer[0];
         self.network_id = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
-- 
2.43.0


From 0ebfa08021ee91da99f2839b46acc38f39ef5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:35 +0000
Subject: [PATCH 09/29] fix: check the descriptors length when parsing TOT

A length beyond the section caused a panic or read the checksum as a descriptor.
---
 src/psi/tot.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..927e7cd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -45,10 +45,14 @@ impl Tot {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.time = psi.buffer[3 ..].get_u16().from_mjd() +
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From b792faf73fd1e1c787df1b7b7d5902ddd2c0f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:35 +0000
Subject: [PATCH 10/29] fix: parse TDT only after the whole section is received

TDT has no checksum, so an incomplete section passed the check and parsing it
ran out of the buffer.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From ca001b01b6442dc954f005681dd00380f4052e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:36 +0000
Subject: [PATCH 11/29] fix: accept any received digits in BCD and MJD
 conversions

These conversions get bytes from the stream. Invalid digits hit an assertion and
a date before 1970 overflowed.
---
 src/psi/utils/bcd.rs | 2 --
 src/psi/utils/mjd.rs | 3 +--
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..cd165e7 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From 4d2ef7b53ec2ce21e8ad491c05f453f60091df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:37 +0000
Subject: [PATCH 12/29] fix: avoid overflow of BCD time with five hours or more

The hours were multiplied by 60 as u8.
---
 src/psi/utils/bcd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index cd165e7..4e1595e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -65,7 +65,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        u16::from(u8::from_bcd((self >> 8) as u8)) * 60 +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From c3509aa1a736380be442953bc492df464babc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:38 +0000
Subject: [PATCH 13/29] fix: keep delivery system descriptors with invalid
 numbers as raw

A frequency or orbital position that is not decimal or does not fit the field
overflowed while parsing and was re-emitted with another value.
---
 src/psi/descriptors/x43.rs |  9 +++++++--
 src/psi/descriptors/x44.rs | 10 ++++++++--
 src/psi/descriptors/x5a.rs |  3 ++-
 src/psi/utils/bcd.rs       |  7 +++++++
 src/psi/utils/mod.rs       |  1 +
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..b4b29e0 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     bytes::Bytes,
-    psi::BCD,
+    psi::{
+        BCD,
+        utils::is_bcd,
+    },
 };
 
 use super::Desc;
@@ -45,7 +48,9 @@ pub struct Desc43 {
 
 impl Desc43 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 8]) &&
+        is_bcd(&slice[9 .. 12])
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..07c7231 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     bytes::Bytes,
-    psi::BCD,
+    psi::{
+        BCD,
+        utils::is_bcd,
+    },
 };
 
 use super::Desc;
@@ -36,7 +39,10 @@ pub struct Desc44 {
 
 impl Desc44 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 6]) &&
+        is_bcd(&slice[9 .. 12]) &&
+        slice[2 ..].get_u32().from_bcd() <= u32::MAX / 100
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..358f615 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -55,7 +55,8 @@ pub struct Desc5A {
 
 impl Desc5A {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        slice[2 ..].get_u32() <= u32::MAX / 10
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 4e1595e..7c48dd7 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -54,6 +54,13 @@ impl BCD for u32 {
 }
 
 
+/// Returns `true` if all digits of the packed BCD number are decimal
+#[inline]
+pub fn is_bcd(slice: &[u8]) -> bool {
+    slice.iter().all(|x| (x >> 4) < 10 && (x & 0x0F) < 10)
+}
+
+
 /// Converts between Unix Timestamp and Binary Coded Decimal Time
 pub trait BCDTime {
     fn from_bcd_time(self) -> Self;
diff --git a/src/psi/utils/mod.rs b/src/psi/utils/mod.rs
index ebe8b90..17184ba 100644
--- a/src/psi/utils/mod.rs
+++ b/src/psi/utils/mod.rs
@@ -13,6 +13,7 @@ pub use bcd::{
     BCD,
     BCDTime,
 };
+pub(crate) use bcd::is_bcd;
 
 mod mjd;
 pub use mjd::{
-- 
2.43.0


From 5e83a893a8bfe9f99e50ed5643521ae8a71276d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:39 +0000
Subject: [PATCH 14/29] fix: clone raw descriptors with a known tag

A descriptor that did not pass the length check is kept as raw. Cloning it
panicked because the type was chosen by the tag only.
---
 src/psi/descriptors/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..09481bf 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,10 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        if let Some(desc) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return desc.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From 8aae22b45baf144f073ba35cd481caa48d07a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:39 +0000
Subject: [PATCH 15/29] fix: validate inner lengths of service and event
 descriptors

A name, item or text length beyond the descriptor caused a panic.
---
 src/psi/descriptors/x48.rs |  4 ++++
 src/psi/descriptors/x4d.rs |  4 ++++
 src/psi/descriptors/x4e.rs | 16 ++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..f7d187e 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,6 +34,10 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() < MIN_SIZE + provider_length {
+            return false;
+        }
+
         let name_length = usize::from(slice[4 + provider_length]);
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..0770025 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,6 +34,10 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() < MIN_SIZE + event_name_length {
+            return false;
+        }
+
         let text_length = usize::from(slice[6 + event_name_length]);
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..3871796 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,6 +42,22 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() < MIN_SIZE + length_of_items {
+            return false;
+        }
+
+        // each item is a pair of length-prefixed strings
+        let items_e = 7 + length_of_items;
+        let mut skip = 7;
+        let mut count = 0;
+        while skip < items_e {
+            skip += 1 + usize::from(slice[skip]);
+            count += 1;
+        }
+        if skip != items_e || count % 2 != 0 {
+            return false;
+        }
+
         let text_length = usize::from(slice[7 + length_of_items]);
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
-- 
2.43.0


From 9d4c6842f970ecd7a6385a9f0bc6778d9ca54495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:40 +0000
Subject: [PATCH 16/29] fix: count length bytes of items in the extended event
 descriptor size

---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 3871796..d1f0551 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -104,7 +104,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 1 + item_desc.size() + 1 + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From 97d6e91f1a886c4dbbc446be92a54dc51aedfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:41 +0000
Subject: [PATCH 17/29] fix: omit descriptors longer than the length field
 allows

The length byte was cut to 8 bits and everything behind the descriptor was
read at the wrong place. The extended event descriptor was omitted already but
still counted in the size of the list.
---
 src/psi/descriptors/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 09481bf..6ac0393 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -109,11 +109,18 @@ impl Descriptor {
         }
     }
 
-    #[inline]
-    fn assemble(&self, buffer: &mut Vec<u8>) { self.0.assemble(buffer) }
+    fn assemble(&self, buffer: &mut Vec<u8>) {
+        if self.size() != 0 {
+            self.0.assemble(buffer)
+        }
+    }
 
-    #[inline]
-    fn size(&self) -> usize { self.0.size() }
+    /// Returns size of the assembled descriptor
+    /// Descriptor that does not fit the length field is not assembled
+    fn size(&self) -> usize {
+        let size = self.0.size();
+        if size <= 2 + 0xFF { size } else { 0 }
+    }
 
     #[inline]
     pub fn tag(&self) -> u8 { self.0.tag() }
-- 
2.43.0


From df686f76e80fa84741564a8689a07acbb53c6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:42 +0000
Subject: [PATCH 18/29] fix: fall back to "?" for text in an unsupported
 codepage

Displaying such text returned an error, so to_string() panicked. Other
unsupported selectors are replaced by "?" already.
---
 src/textcode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..b95cd26 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -299,12 +299,12 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 {
+        } else if data[0] < 0x10 && get_codepage_map(data[0] + 4).is_some() {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
             }
-        } else if data[0] == 0x10 && data.len() >= 3 {
+        } else if data[0] == 0x10 && data.len() >= 3 && get_codepage_map(data[2]).is_some() {
             StringDVB {
                 codepage: data[2],
                 data: Vec::from(&data[3 ..]),
-- 
2.43.0


From b29704c0101416e7c8785e9148a359cda8e85dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:42 +0000
Subject: [PATCH 19/29] fix: do not take characters above U+FFFF for other
 letters

Only the low 16 bits of the character were looked up in the codepage.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index b95cd26..abd6b6e 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -154,7 +154,7 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    let c = cmp::min(c as u32, 0xFFFF) as u16;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-- 
2.43.0


From 9179f641c0f1f30aac276bc84b9c91c330e97dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:43 +0000
Subject: [PATCH 20/29] fix: truncate text to any size and keep UTF-8
 characters whole

Sizes below 3 caused a panic.
---
 src/textcode/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index abd6b6e..d572e77 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -242,13 +242,26 @@ impl StringDVB {
 
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let dots = cmp::min(size, 3);
+            let skip = self.char_start(size - dots);
+            self.data.truncate(skip);
+            self.data.resize(skip + dots, b'.');
         }
     }
 
+    /// Returns position of the first byte of the character
+    fn char_start(&self, mut pos: usize) -> usize {
+        if self.codepage == UTF8 {
+            for _ in 0 .. 3 {
+                if pos == 0 || self.data[pos] & 0xC0 != 0x80 {
+                    break;
+                }
+                pos -= 1;
+            }
+        }
+        pos
+    }
+
     pub fn split(&self, size: usize) -> Vec<Self> {
         let size = match self.codepage {
             0 => size,
-- 
2.43.0


From a3039086941c9c89b62e244b195aaecfcee8f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:44 +0000
Subject: [PATCH 21/29] fix: split text at any size

A size that has no room for the codepage identifier underflowed or made the loop
endless, a four-byte UTF-8 character could be cut, and three bytes were reserved
for codepages that need only one.
---
 src/textcode/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index d572e77..19b4209 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -264,9 +264,9 @@ impl StringDVB {
 
     pub fn split(&self, size: usize) -> Vec<Self> {
         let size = match self.codepage {
-            0 => size,
-            UTF8 => size - 1,
-            _ => size - 3,
+            ISO6937 => size,
+            ISO8859_1 ..= ISO8859_4 => size.saturating_sub(3),
+            _ => size.saturating_sub(1),
         };
 
         let mut out: Vec<StringDVB> = Vec::new();
@@ -278,13 +278,15 @@ impl StringDVB {
 
         let mut skip = 0;
         while skip < self.data.len() {
-            let mut next = cmp::min(self.data.len(), skip + size);
-            if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
-                    if self.data[next] & 0xC0 != 0x80 {
-                        break;
-                    }
-                    next -= 1;
+            let mut next = cmp::min(self.data.len(), skip.saturating_add(size));
+            if next < self.data.len() {
+                next = self.char_start(next);
+            }
+            if next <= skip {
+                // no room even for a single character
+                next = skip + 1;
+                while next < self.data.len() && self.char_start(next) == skip {
+                    next += 1;
                 }
             }
             out.push(StringDVB {
-- 
2.43.0


From 44e1597acb7d617a7307cb858ee21e2ffbfa1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:45 +0000
Subject: [PATCH 22/29] fix: read language and country codes as three plain
 bytes

A code starting with a control byte was taken for a codepage identifier and was
re-emitted shorter than three bytes, which shifted the rest of the descriptor.
---
 src/psi/descriptors/x0a.rs | 2 +-
 src/psi/descriptors/x4d.rs | 2 +-
 src/psi/descriptors/x4e.rs | 2 +-
 src/psi/descriptors/x58.rs | 2 +-
 src/textcode/mod.rs        | 9 +++++++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/x0a.rs b/src/psi/descriptors/x0a.rs
index 29c5657..6cf8ef9 100644
--- a/src/psi/descriptors/x0a.rs
+++ b/src/psi/descriptors/x0a.rs
@@ -42,7 +42,7 @@ impl Desc0A {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let code = StringDVB::from(&slice[skip .. skip + 3]);
+            let code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let audio_type = slice[skip + 3];
             result.items.push(Desc0Ai {
                 code,
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 0770025..65a5631 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -49,7 +49,7 @@ impl Desc4D {
         let text_e = text_s + slice[name_e] as usize;
 
         Desc4D {
-            lang: StringDVB::from(&slice[2 .. 5]),
+            lang: StringDVB::from_code(&slice[2 .. 5]),
             name: StringDVB::from(&slice[name_s .. name_e]),
             text: StringDVB::from(&slice[text_s .. text_e]),
         }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index d1f0551..1e5ffb7 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -71,7 +71,7 @@ impl Desc4E {
         Desc4E {
             number: slice[2] >> 4,
             last_number: slice[2] & 0x0F,
-            lang: StringDVB::from(&slice[3 .. 6]),
+            lang: StringDVB::from_code(&slice[3 .. 6]),
             items: {
                 let mut out: Vec<(StringDVB, StringDVB)> = Vec::new();
                 while items_s < items_e {
diff --git a/src/psi/descriptors/x58.rs b/src/psi/descriptors/x58.rs
index eddf401..724e11a 100644
--- a/src/psi/descriptors/x58.rs
+++ b/src/psi/descriptors/x58.rs
@@ -53,7 +53,7 @@ impl Desc58 {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let country_code = StringDVB::from(&slice[skip .. skip + 3]);
+            let country_code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let region_id = slice[skip + 3] >> 2;
             let offset_polarity = slice[skip + 3] & 0x01;
             let offset = slice[skip + 4 ..].get_u16().from_bcd_time();
diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 19b4209..e02bde7 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -178,6 +178,15 @@ impl StringDVB {
         }
     }
 
+    /// Creates StringDVB from the language or country code
+    /// Such fields have fixed size and no codepage identifier
+    pub(crate) fn from_code(data: &[u8]) -> Self {
+        StringDVB {
+            codepage: ISO6937,
+            data: Vec::from(data),
+        }
+    }
+
     #[inline]
     pub fn get_codepage(&self) -> u8 {
         self.codepage
-- 
2.43.0


From 1113cd868ac186fe8826ea33bcb4a522850075b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:46 +0000
Subject: [PATCH 23/29] fix: initialise the buffer of TsDrain

A reader that reports a packet without writing it exposed uninitialised memory.
---
 src/reader/drain.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..dae1b88 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -41,11 +41,7 @@ impl<R: TsRead> TsDrain<R> {
         TsDrain {
             inner,
 
-            buf: unsafe {
-                let mut v = Vec::with_capacity(ts::PACKET_SIZE);
-                v.set_len(ts::PACKET_SIZE);
-                v.into_boxed_slice()
-            },
+            buf: vec![0; ts::PACKET_SIZE].into_boxed_slice(),
             pos: 0,
         }
     }
-- 
2.43.0


From e4cd3517fafdf169f9e5148da1de2e1e189397f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:46 +0000
Subject: [PATCH 24/29] fix: do not lose a packet when TsDrain is read into an
 empty buffer

---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index dae1b88..511c46a 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -50,6 +50,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From 3843b6edf791dd6f317a0867e7d843e4b3cf32ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:47 +0000
Subject: [PATCH 25/29] fix: retry interrupted reads in TsReader

The part of the packet that was already read got lost.
---
 src/reader/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 79c6bce..392eca3 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -49,6 +49,16 @@ impl<R: fmt::Debug + Read> TsReader<R> {
     #[inline]
     pub fn into_inner(self) -> R { self.inner }
 
+    /// Reads from the underlying reader, retries if interrupted
+    fn fill(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.inner.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                result => return result,
+            }
+        }
+    }
+
     /// Parses TS packets
     fn parse(&mut self, packet: &[u8]) {
         let _pid = ts::get_pid(packet);
@@ -74,7 +84,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         let mut skip = 0;
 
         while skip == 0 {
-            let x = self.inner.read(&mut packet[.. 1])?;
+            let x = self.fill(&mut packet[.. 1])?;
             if x == 0 {
                 return Ok(0)
             }
@@ -84,7 +94,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         }
 
         while skip != ts::PACKET_SIZE {
-            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;
+            let x = self.fill(&mut packet[skip .. ts::PACKET_SIZE])?;
             if x == 0 {
                 return Ok(0)
             }
-- 
2.43.0


From 1b6f00e0ab0632e3a7c8122d97676d492bd555d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:48 +0000
Subject: [PATCH 26/29] fix: emit PAT items that do not fit the first section

They were dropped. Other tables continue in the next section already.
---
 src/psi/pat.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..0c175fe 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,30 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = Vec::new();
+        let mut psi = self.psi_init();
 
         for item in &self.items {
             if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+                psi_list.push(psi);
+                psi = self.psi_init();
             }
             item.assemble(&mut psi.buffer);
         }
 
-        vec![psi]
+        psi_list.push(psi);
+        psi_list
     }
 }
 
-- 
2.43.0


From 1f3a8c48270adfb933f9bac43852a85647b5c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:49 +0000
Subject: [PATCH 27/29] fix: wrap the estimated clock in pcr_to_stc

The result could exceed PCR_MAX and was reported as jitter of a whole period.
---
 src/ts/pcr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..4b275d6 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -106,7 +106,7 @@ pub fn pcr_delta(last_pcr: u64, current_pcr: u64) -> u64 {
 /// ```
 #[inline]
 pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -> u64 {
-    last_delta * bytes / last_bytes + last_pcr
+    (last_delta * bytes / last_bytes + last_pcr) % PCR_NONE
 }
 
 
-- 
2.43.0


From 7f903f760ee421fd4edfa5836a94e7c89bc32c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:49 +0000
Subject: [PATCH 28/29] fix: place EIT schedule events into their own segment

An event after a gap of several segments was put into the next one, and the
first section with events had the table id of the parsed table instead of the
base one.
---
 src/psi/eit.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..83fe3ec 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -239,14 +239,13 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
 
         for item in &self.items {
-            let psi = psi_list.last_mut().unwrap();
-
-            if item.start >= next_midnight {
+            while item.start >= next_midnight {
                 midnight = next_midnight;
                 next_midnight = midnight + SEG_DURATION;
 
@@ -261,11 +260,11 @@ impl PsiDemux for Eit {
                 let mut psi = self.psi_init();
                 psi.buffer[0] = current_table_id;
                 psi.buffer[6] = current_section;
-                item.assemble(&mut psi.buffer);
                 psi_list.push(psi);
-                continue;
             }
 
+            let psi = psi_list.last_mut().unwrap();
+
             if item.size() + psi.buffer.len() >= EIT_SECTION_SIZE {
                 current_section = current_section + 1;
 
-- 
2.43.0


From 7f661c28290216b701b9d4333d19f7780892c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:50 +0000
Subject: [PATCH 29/29] fix: correct the value of FEC_OUTER_RS

EN 300 468 table 32: 0010 is RS(204/188).
---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index b8d814b..47e436a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -35,7 +35,7 @@ pub const MODULATION_DVB_T_64QAM: u8  = 0b10;
 
 pub const FEC_OUTER_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_OUTER_NO_CODING: u8   = 0b0001;
-pub const FEC_OUTER_RS: u8          = 0b0001;
+pub const FEC_OUTER_RS: u8          = 0b0010;
 
 pub const FEC_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_1_2: u8         = 0b0001;
-- 
2.43.0

