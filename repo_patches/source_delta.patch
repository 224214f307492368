From d3e2a735cead716fa9a2c112cac32f3ffffc2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:31 +0000
Subject: [PATCH 01/26] fix: sha256 finalize on messages of 64n+63 bytes

Appending the terminating bit to such a message fills the chunk, but the
chunk was not committed. The padding computation then panicked.
---
 lib/osi/src/hash/sha256.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/osi/src/hash/sha256.rs b/lib/osi/src/hash/sha256.rs
index a5efe53..0a6227c 100644
--- a/lib/osi/src/hash/sha256.rs
+++ b/lib/osi/src/hash/sha256.rs
@@ -228,12 +228,9 @@ impl crate::hash::Engine for Engine {
         // implemented algorithm.
         let total: u64 = self.total.checked_mul(8).unwrap();
 
-        // Stream buffer is immediately committed when full, so there
-        // must always be remaining space. Push a final 1-bit and pad with
-        // 0-bits until the next byte boundary.
-        assert_ne!(self.remaining, 0);
-        self.chunk[self.chunk.len() - self.remaining] = 0x80u8;
-        self.remaining -= 1;
+        // Push a final 1-bit and pad with 0-bits until the next byte
+        // boundary. This commits the chunk if it is now full.
+        self.push(&[0x80u8]);
 
         // Now pad with 0-bytes until the chunk is full, except for 8 final
         // bytes. Those take the total size in bits. If it does not fit into
-- 
2.43.0


From bf71eb730bfdb164c1803436e912b20e2c4c0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:32 +0000
Subject: [PATCH 02/26] fix: seed xoshiro256++ from four successive outputs

The array repeat expression evaluated the seeding generator once and copied
that output into all four words of the state.
---
 lib/osi/src/rng.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/osi/src/rng.rs b/lib/osi/src/rng.rs
index 228bd2d..4bc6cf4 100644
--- a/lib/osi/src/rng.rs
+++ b/lib/osi/src/rng.rs
@@ -61,7 +61,7 @@ pub struct Xoshiro256pp {
 // non-0 seeding requirements of some RNGs).
 const MIX64_0: [u64; 4] = {
     let mut mix = Mix64::with_seed(0);
-    let v = [mix.next64(); 4];
+    let v = [mix.next64(), mix.next64(), mix.next64(), mix.next64()];
 
     let mut i = 0;
     while i < v.len() {
@@ -291,7 +291,9 @@ impl Xoshiro256pp {
     /// Use the [`SplitMix64`] instance to seed the 256-bit of state of a new
     /// RNG instance.
     pub const fn from_splitmix64(mix: &mut SplitMix64) -> Self {
-        Self::with_seed([mix.next64(); 4])
+        Self::with_seed([
+            mix.next64(), mix.next64(), mix.next64(), mix.next64(),
+        ])
     }
 
     /// Produce the next 64-bit random number.
-- 
2.43.0


From 18c71174565ac769a8433e7854f3e5a3ed0e7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:48 +0000
Subject: [PATCH 03/26] fix: make natural string comparison a total order
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Digit runs that exceed 64 bits, and runs with numerals other than ASCII
digits, were compared as plain strings, while all other runs were compared
by value. The mixture is not transitive: "2" < "10" < "1²" < "2".

Treat only ASCII digits as number, and compare numbers of any magnitude by
value.
---
 lib/osi/src/str.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lib/osi/src/str.rs b/lib/osi/src/str.rs
index a93362f..ab4bc0c 100644
--- a/lib/osi/src/str.rs
+++ b/lib/osi/src/str.rs
@@ -31,13 +31,13 @@ pub fn cmp_natural(
 
         // Split off non-digit prefix.
         let (name, rem) = rem.split_at(
-            rem.find(|v: char| v.is_numeric())
+            rem.find(|v: char| v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
         // Split off digit-only prefix.
         let (number, rem) = rem.split_at(
-            rem.find(|v: char| !v.is_numeric())
+            rem.find(|v: char| !v.is_ascii_digit())
                 .unwrap_or(rem.len()),
         );
 
@@ -50,8 +50,8 @@ pub fn cmp_natural(
     while !lhs.is_empty() || !rhs.is_empty() {
         let (l_name, l_num) = advance(&mut lhs);
         let (r_name, r_num) = advance(&mut rhs);
-        let l_u64 = l_num.parse::<u64>();
-        let r_u64 = r_num.parse::<u64>();
+        let l_val = l_num.trim_start_matches('0');
+        let r_val = r_num.trim_start_matches('0');
 
         // Compare the non-digit prefix.
         match l_name.cmp(r_name) {
@@ -60,16 +60,15 @@ pub fn cmp_natural(
             _ => {},
         }
 
-        // Compare the digit-only prefix as u64, if possible. Note that
-        // different strings can map to the same u64, so even if both u64s
-        // are equal, we have to continue comparing their original string
-        // representation.
-        if let (Ok(l), Ok(r)) = (l_u64, r_u64) {
-            match l.cmp(&r) {
-                v @ core::cmp::Ordering::Less => return v,
-                v @ core::cmp::Ordering::Greater => return v,
-                _ => {},
-            }
+        // Compare the digit-only prefix as natural number of any magnitude.
+        // Without leading zeros, longer runs are greater, and runs of equal
+        // length compare like their digits. Note that different strings can
+        // map to the same number, so even if both numbers are equal, we have
+        // to continue comparing their original string representation.
+        match l_val.len().cmp(&r_val.len()).then_with(|| l_val.cmp(r_val)) {
+            v @ core::cmp::Ordering::Less => return v,
+            v @ core::cmp::Ordering::Greater => return v,
+            _ => {},
         }
 
         // Compare the digit-only prefix as string.
-- 
2.43.0


From dbb25e60301c419ef9e91b481e8559fe9c034e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 04/26] fix: report the right length for long D-Bus signatures

---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 6dd814b..04bcd94 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -824,7 +824,7 @@ impl Sig {
     pub const fn len(&self) -> usize {
         match self.flags().node() {
             Node8::ID => self.nodes.len() / Node8::SIZE_COEFF,
-            Node64::ID => self.nodes.len() / Node8::SIZE_COEFF,
+            Node64::ID => self.nodes.len() / Node64::SIZE_COEFF,
             _ => core::unreachable!(),
         }
     }
-- 
2.43.0


From 6b94c34a2c93dbb10d3acb801a5d01d4b279834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 05/26] fix: refuse mis-sized data buffers for D-Bus signatures

---
 lib/tmp/src/fmt/dbus/signature.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 04bcd94..5ea04d4 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -452,13 +452,17 @@ macro_rules!
             let mut position: $int = 0;
             let mut o_up_idx: Option<$int> = None;
 
-            // Ensure indices can be tracked with `$int`.
+            // Ensure indices can be tracked with `$int`, and that there is
+            // exactly one node for each element.
             if signature.len() > Self::LENGTH_MAX {
                 return Err(Error::DataExceeded);
             }
             if signature.len() < 1 {
                 return Err(Error::SignatureEmpty);
             }
+            if signature.len() != nodes.len() {
+                return Err(Error::DataExceeded);
+            }
 
             while signature_idx < signature.len() {
                 let mut this_idx: $int;
-- 
2.43.0


From 1b44d2f8d075cfb6f8fc568c064f12874e7ed5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 06/26] fix: do not loop forever on padded D-Bus signature
 buffers

---
 lib/tmp/src/fmt/dbus/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 5ea04d4..2c59ff0 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -747,9 +747,10 @@ impl Sig {
         };
 
         if r.is_ok() {
-            let i = 0;
+            let mut i = 0;
             while i < pad.len() {
                 pad[i].write(0);
+                i += 1;
             }
         }
 
-- 
2.43.0


From b33d0d9db3526eb00aacbcacfbb5af9700eda7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 07/26] fix: name the mispaired container in D-Bus signature
 errors

---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index 2c59ff0..f7c8b76 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -546,7 +546,7 @@ macro_rules!
                     let expected = this.pair().unwrap();
                     if expected.id() != up.element().id() {
                         return Err(Error::ElementMispaired {
-                            idx: this_idx.strict_sub(up.offset()) as usize,
+                            idx: this_idx.strict_sub(this.offset()) as usize,
                             pair_idx: this_idx as usize,
                             expected: Some(expected),
                         });
-- 
2.43.0


From 16edb46cc58518d304610b7603ee04b6ee3dce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 08/26] fix: clamp explicit cursor movement on D-Bus signatures

---
 lib/tmp/src/fmt/dbus/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/signature.rs b/lib/tmp/src/fmt/dbus/signature.rs
index f7c8b76..8054e02 100644
--- a/lib/tmp/src/fmt/dbus/signature.rs
+++ b/lib/tmp/src/fmt/dbus/signature.rs
@@ -1110,7 +1110,7 @@ where
     }
 
     pub fn move_to(&mut self, idx: usize) -> &mut Self {
-        self.idx = idx;
+        self.idx = idx.min(self.sig.len());
         self
     }
 
-- 
2.43.0


From 2e114dc83d1212606421fefc22ca84ce99dc11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 09/26] fix: map vectors for writing past their existing
 content

Committing data appends it to the vector, yet the data was mapped at the
start. This overwrote existing content and exposed uninitialized memory
at the end, unless the vector was empty.
---
 lib/tmp/src/io/map.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index cfc076d..5e7954a 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -181,15 +181,11 @@ impl Write for alloc::vec::Vec<u8> {
         let Some(end) = idx.checked_add(len) else {
             return Flow::Break(Some(Error::Overflow));
         };
-        if end > self.len() {
-            self.reserve(end - self.len());
-        }
-
-        let ptr: *mut u8 = self.as_mut_ptr();
-        let ptr_u: *mut Uninit<u8> = ptr as _;
-        let cap: usize = self.capacity();
-        let slice = unsafe { core::slice::from_raw_parts_mut(ptr_u, cap) };
+        let Some(_) = end.checked_add(self.len()) else {
+            return Flow::Break(Some(Error::Overflow));
+        };
 
-        Flow::Continue(&mut slice[idx..end])
+        self.reserve(end);
+        Flow::Continue(&mut self.spare_capacity_mut()[idx..end])
     }
 }
-- 
2.43.0


From ba4b2fa0909c28f48c2a12c4fe28870be44d4684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 10/26] fix: write iterators to the start of the map

If an implementation maps more than was asked for, the data was placed
at the end of the map.
---
 lib/tmp/src/io/map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 5e7954a..0dcb34e 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -114,10 +114,9 @@ pub trait Write {
             assert!(map.len() > 0);
             n = core::cmp::min(n, map.len());
 
-            while n > 0 {
-                map[map.len().strict_sub(n)].write(data.next().unwrap());
+            for slot in &mut map[..n] {
+                slot.write(data.next().unwrap());
                 *idx += 1;
-                n -= 1;
             }
         }
     }
-- 
2.43.0


From ff1a4fd64d1cf355611a82cea5e82232beb69d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 11/26] fix: support large alignments in mapped writes

Exponents of 31 and above were evaluated in 32-bit arithmetic.
---
 lib/tmp/src/io/map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/map.rs b/lib/tmp/src/io/map.rs
index 0dcb34e..9067a34 100644
--- a/lib/tmp/src/io/map.rs
+++ b/lib/tmp/src/io/map.rs
@@ -144,7 +144,9 @@ pub trait Write {
     }
 
     fn align_exp2(&mut self, idx: &mut usize, exp: u8) -> Flow<Option<Error>> {
-        match idx.checked_next_multiple_of((1 << exp) as usize) {
+        match 1usize.checked_shl(exp as u32)
+            .and_then(|v| idx.checked_next_multiple_of(v))
+        {
             None => Flow::Break(Some(Error::Overflow)),
             Some(v) => self.zero(idx, v.strict_sub(*idx)),
         }
-- 
2.43.0


From da6a25d9737c47a1625015e21bf31bbb82705b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 12/26] fix: track the end offset of D-Bus arrays when decoding

The length of the array was compared to the absolute offset in the data,
so decoding stopped too early for every array.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index b6d635f..692e950 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -687,8 +687,11 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let mut len_u = [0; _];
         Self::align(self.read, &mut level.idx, dbus::Element::U32.dvar_alignment_exp())?;
         Self::read(self.read, &mut level.idx, &mut len_u)?;
-        level.meta = self.format.de_u32(len_u) as usize;
         Self::align(self.read, &mut level.idx, align)?;
+        level.meta = match level.idx.checked_add(self.format.de_u32(len_u) as usize) {
+            None => return Flow::Break(Some(dbus::Error::Io(io::map::Error::Overflow))),
+            Some(v) => v,
+        };
 
         core::mem::swap(&mut level, &mut self.level);
         self.stack.push((dbus::Element::Array, level, None));
-- 
2.43.0


From bf86c952d39ff6686a24c1feb3fdbc193ae28db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 13/26] fix: bound allocations when decoding D-Bus strings

The buffer was allocated based on the length claimed by the data, before
checking whether that much data is available.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index 692e950..aa68c08 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -543,12 +543,23 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         read.read(idx, data).map_break(|v| v.map(|v| v.into()))
     }
 
-    fn read_uninit(
+    // Read `len` bytes into a new buffer. The buffer grows with the available
+    // data, since `len` cannot be trusted.
+    fn read_vec(
         read: &mut dyn io::map::Read,
         idx: &mut usize,
-        data: &mut [core::mem::MaybeUninit<u8>],
-    ) -> Flow<Option<dbus::Error>> {
-        read.read_uninit(idx, data).map_break(|v| v.map(|v| v.into()))
+        len: usize,
+    ) -> Flow<Option<dbus::Error>, vec::Vec<u8>> {
+        let mut data = vec::Vec::new();
+        while data.len() < len {
+            let rem = len.strict_sub(data.len());
+            let map = read.map(*idx, rem).map_break(|v| v.map(|v| v.into()))?;
+            assert!(map.len() > 0);
+            let n = core::cmp::min(map.len(), rem);
+            data.extend_from_slice(&map[..n]);
+            *idx += n;
+        }
+        Flow::Continue(data)
     }
 
     fn align(
@@ -601,11 +612,7 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let len = self.format.de_u8(len_u) as usize;
 
         // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
@@ -640,11 +647,7 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let len = self.format.de_u32(len_u) as usize;
 
         // Read the string.
-        let mut buffer = alloc::vec::Vec::with_capacity(len);
-        let buf_p = &mut buffer.spare_capacity_mut()[..len];
-        Self::read_uninit(self.read, &mut idx, buf_p)?;
-        // SAFETY: `Self::read_uninit()` always initializes the full slice.
-        unsafe { buffer.set_len(len) };
+        let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
         *data = match alloc::string::String::from_utf8(buffer) {
-- 
2.43.0


From 22acaf6572371dcb7017f63602953b149ba0829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 14/26] fix: refuse truncated D-Bus strings when decoding

A missing terminator at the end of the data went unnoticed, and moved
the decoder past the end of the data.
---
 lib/tmp/src/fmt/dbus/dvar.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/dbus/dvar.rs b/lib/tmp/src/fmt/dbus/dvar.rs
index aa68c08..7cda2b8 100644
--- a/lib/tmp/src/fmt/dbus/dvar.rs
+++ b/lib/tmp/src/fmt/dbus/dvar.rs
@@ -615,14 +615,15 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
-        *data = match alloc::string::String::from_utf8(buffer) {
+        let string = match alloc::string::String::from_utf8(buffer) {
             Ok(v) => v,
             Err(_) => return Flow::Break(Some(dbus::Error::DataNonUtf8)),
         };
 
         // Skip unused terminating 0.
-        idx = idx.strict_add(1);
+        Self::read(self.read, &mut idx, &mut [0])?;
 
+        *data = string;
         self.level.idx = idx;
         self.cursor.move_step();
 
@@ -650,14 +651,15 @@ impl<'sig, 'read> Dec<'sig, 'read> {
         let buffer = Self::read_vec(self.read, &mut idx, len)?;
 
         // Validate UTF-8.
-        *data = match alloc::string::String::from_utf8(buffer) {
+        let string = match alloc::string::String::from_utf8(buffer) {
             Ok(v) => v,
             Err(_) => return Flow::Break(Some(dbus::Error::DataNonUtf8)),
         };
 
         // Skip unused terminating 0.
-        idx = idx.strict_add(1);
+        Self::read(self.read, &mut idx, &mut [0])?;
 
+        *data = string;
         self.level.idx = idx;
         self.cursor.move_step();
 
-- 
2.43.0


From c996e53d5d10f77522284e5020001b8540576e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:55 +0000
Subject: [PATCH 15/26] fix: always map the requested minimum of stream buffers

Mapping a vector for writing reserved space for the maximum, if given. If
that was less than the minimum, the returned slice was too short, and an
unbounded maximum panicked. The maximum is a hint, so reserve the minimum.
---
 lib/tmp/src/io/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index 102672b..e2a5810 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -257,8 +257,10 @@ impl Write for alloc::vec::Vec<u8> {
         }
     }
 
-    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
-        self.reserve(max.unwrap_or(min));
+    fn map(&mut self, min: usize, _max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
+        // The maximum is a mere hint, possibly unbounded. Never reserve more
+        // than what is required, but always return the full spare capacity.
+        self.reserve(min);
         Flow::Continue(self.spare_capacity_mut())
     }
 }
-- 
2.43.0


From b57375cf40ad0352512b9ad6561a9d4de04e1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:57 +0000
Subject: [PATCH 16/26] fix: do not panic when the limit of a stream scan is
 reached

Scanning a stream with a limit that is already reached, for instance a
limit of zero, asked for one byte more than the limit, and then panicked.
---
 lib/tmp/src/io/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/io/stream.rs b/lib/tmp/src/io/stream.rs
index e2a5810..afb26d3 100644
--- a/lib/tmp/src/io/stream.rs
+++ b/lib/tmp/src/io/stream.rs
@@ -198,7 +198,7 @@ where
     let max_v = max.unwrap_or(usize::MAX);
 
     loop {
-        let n1 = n.strict_add(1);
+        let n1 = core::cmp::min(n.strict_add(1), max_v);
         let map = this.map(n1, max)?;
         let map = &map[..core::cmp::min(map.len(), max_v)];
         assert!(map.len() >= n1);
-- 
2.43.0


From 92f77b72bf66a477ee96ae42b5f878f8c2186146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:13 +0000
Subject: [PATCH 17/26] fix: report all unescaped control characters in JSON
 strings

The last control character, 0x1f, was accepted in strings, because the range
excluded its end.
---
 lib/tmp/src/fmt/json/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 223f074..831c0dd 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -553,7 +553,7 @@ impl<'read> Dec<'read> {
                 let map = self.read.map_while(
                     &mut self.inner.idx,
                     None,
-                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..0x1f),
+                    |_, v| !matches!(v, b'"' | b'\\' | 0x00..=0x1f),
                 )?;
 
                 match map[self.inner.idx] {
@@ -569,7 +569,7 @@ impl<'read> Dec<'read> {
                         self.inner.state = State::StringEscape;
                         None
                     },
-                    v @ 0x00..0x1f => {
+                    v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
                         Some(self.inner.raise_error(Error::StringUnescaped {
-- 
2.43.0


From c3b6af6bddccb7fe4ce9120cfaaf80d459e8753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:14 +0000
Subject: [PATCH 18/26] fix: do not repeat text before control characters in
 JSON strings

An unescaped control character is reported, but kept. If the string had an
escape sequence before it, then the text in between was added to the value
twice.
---
 lib/tmp/src/fmt/json/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index 831c0dd..b0126b5 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -572,6 +572,7 @@ impl<'read> Dec<'read> {
                     v @ 0x00..=0x1f => {
                         self.inner.idx = self.inner.idx.strict_add(1);
                         self.inner.string_raw(&map[idx_start..self.inner.idx]);
+                        self.inner.state = State::String { idx_start: self.inner.idx };
                         Some(self.inner.raise_error(Error::StringUnescaped {
                             code: v,
                         }))
-- 
2.43.0


From aca763a1882c7e68930a86f2de28f9ee883e28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:15 +0000
Subject: [PATCH 19/26] fix: finalize pending JSON tokens exactly once

Completing a JSON tokenizer never marked the pending token as done. Hence,
repeated calls returned the same token forever, even though the documentation
suggests calling it until no more tokens are left. For numbers, trailing
digits were missing from the number parts, and numbers with empty parts hit
an assertion on the second call. Furthermore, the raw data of the token
included everything that was buffered.
---
 lib/tmp/src/fmt/json/token.rs | 46 ++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/lib/tmp/src/fmt/json/token.rs b/lib/tmp/src/fmt/json/token.rs
index b0126b5..9aab000 100644
--- a/lib/tmp/src/fmt/json/token.rs
+++ b/lib/tmp/src/fmt/json/token.rs
@@ -774,16 +774,54 @@ impl<'read> Dec<'read> {
                 return Some(self.inner.raise_error(Error::BufferChanged));
             };
 
+            let map = &map[..self.inner.idx];
+
             match self.inner.state {
                 State::None => None,
-                State::Whitespace => Some(self.inner.raise_whitespace(map)),
-                State::Item => Some(self.inner.raise_item(map)),
-                State::Number { .. }
-                | State::NumberDone { .. } => Some(self.inner.number_done(map)),
+                State::Whitespace => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_whitespace(map))
+                },
+                State::Item => {
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_item(map))
+                },
+                State::Number {
+                    ref mut integer,
+                    ref mut fraction,
+                    ref mut exponent,
+                    ..
+                } => {
+                    // All trailing digits belong to the last range.
+                    if exponent.start != 0 {
+                        exponent.end = self.inner.idx;
+                    } else if fraction.start != 0 {
+                        fraction.end = self.inner.idx;
+                    } else {
+                        integer.end = self.inner.idx;
+                    }
+                    Some(self.inner.number_done(map))
+                },
+                State::NumberDone {
+                    sign,
+                    ref integer,
+                    ref fraction,
+                    exponent_sign,
+                    ref exponent,
+                } => {
+                    let (integer, fraction, exponent) = (
+                        integer.clone(), fraction.clone(), exponent.clone(),
+                    );
+                    self.inner.done = Some(self.inner.idx);
+                    Some(self.inner.raise_number(
+                        map, sign, integer, fraction, exponent_sign, exponent,
+                    ))
+                },
                 State::String { .. }
                 | State::StringEscape
                 | State::StringEscapeUnicode { .. }
                 | State::StringEscapeUnicodeTrail { .. } => {
+                    self.inner.done = Some(self.inner.idx);
                     Some(self.inner.raise_error(Error::StringIncomplete))
                 },
             }
-- 
2.43.0


From ea34ec13edddffc2e12dcfb81d9eafeb53147174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:06 +0000
Subject: [PATCH 20/26] fix: advance JSON streams past values

The state of a JSON stream did not change with primitive values. Hence, a
comma or closing bracket after any value was rejected, while two consecutive
values were accepted.
---
 lib/tmp/src/fmt/json/stream.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index be7357c..9351b60 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -97,6 +97,12 @@ impl DecInner {
         _token: Token<'token>,
     ) -> Item<'token> {
         // XXX:
+        self.state = match self.state {
+            State::Root => State::RootDone,
+            State::ArrayOpen | State::ArrayComma => State::ArrayValue,
+            State::ObjectColon => State::ObjectValue,
+            v => v,
+        };
         Item::Prim
     }
 
-- 
2.43.0


From 4146d4ef7116458879a41445dd0931ca9e9aeaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:08 +0000
Subject: [PATCH 21/26] fix: accept empty objects in JSON streams

---
 lib/tmp/src/fmt/json/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/fmt/json/stream.rs b/lib/tmp/src/fmt/json/stream.rs
index 9351b60..404b078 100644
--- a/lib/tmp/src/fmt/json/stream.rs
+++ b/lib/tmp/src/fmt/json/stream.rs
@@ -208,7 +208,7 @@ impl DecInner {
             (State::ObjectOpen, Token::ArrayOpen) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ArrayClose) => Some(self.unexpected()),
             (State::ObjectOpen, Token::ObjectOpen) => Some(self.unexpected()),
-            (State::ObjectOpen, Token::ObjectClose) => Some(self.unexpected()),
+            (State::ObjectOpen, Token::ObjectClose) => Some(self.object_close()),
             (State::ObjectOpen, Token::Null) => Some(self.unexpected()),
             (State::ObjectOpen, Token::False) => Some(self.unexpected()),
             (State::ObjectOpen, Token::True) => Some(self.unexpected()),
-- 
2.43.0


From 208a7812b38311e7259fd3faea6b0339b02f858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:53 +0000
Subject: [PATCH 22/26] fix: correct ELF machine numbers 163 to 168

The machine numbers following EM_R32C were off by one.
---
 lib/sys/src/ffi/elf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sys/src/ffi/elf.rs b/lib/sys/src/ffi/elf.rs
index 53c2158..9b77404 100644
--- a/lib/sys/src/ffi/elf.rs
+++ b/lib/sys/src/ffi/elf.rs
@@ -224,12 +224,12 @@ mod common {
     pub const EM_MMDSP_PLUS: u16 = 160;
     pub const EM_CYPRESS_M8C: u16 = 161;
     pub const EM_R32C: u16 = 162;
-    pub const EM_TRIMEDIA: u16 = 162;
-    pub const EM_QDSP6: u16 = 163;
-    pub const EM_8051: u16 = 164;
-    pub const EM_STXP7X: u16 = 165;
-    pub const EM_NDS32: u16 = 166;
-    pub const EM_ECOG1: u16 = 167;
+    pub const EM_TRIMEDIA: u16 = 163;
+    pub const EM_QDSP6: u16 = 164;
+    pub const EM_8051: u16 = 165;
+    pub const EM_STXP7X: u16 = 166;
+    pub const EM_NDS32: u16 = 167;
+    pub const EM_ECOG1: u16 = 168;
     pub const EM_ECOG1X: u16 = 168;
     pub const EM_MAXQ30: u16 = 169;
     pub const EM_XIMO16: u16 = 170;
-- 
2.43.0


From 502ea2d6cf505fb733fd61414692b3941030cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:54 +0000
Subject: [PATCH 23/26] fix: use the right magic value for PE32+

The optional headers of PE32 and PE32+ are told apart by their magic values,
but both constants were the one of PE32.
---
 lib/tmp/src/pecoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 870c491..780d89d 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -26,7 +26,7 @@ pub const INVALID_TIMESTAMPS: [u32; 2] = [0x00000000, 0xffffffff];
 
 pub const PE_MAGIC: [u8; 4] = [0x50, 0x45, 0x00, 0x00];
 pub const PE_MAGIC_OH32: u16 = 0x010b;
-pub const PE_MAGIC_OH32P: u16 = 0x010b;
+pub const PE_MAGIC_OH32P: u16 = 0x020b;
 
 pub const PE_OFFSET: usize = 0x3c;
 
-- 
2.43.0


From 4d1e9deb262c576895d8e922b15abca21bd97c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:56 +0000
Subject: [PATCH 24/26] fix: correct the PE/COFF subsystem numbers

The specification lists the subsystems in decimal, starting with 10 for EFI
applications, but they were written as hexadecimal numbers.
---
 lib/tmp/src/pecoff.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tmp/src/pecoff.rs b/lib/tmp/src/pecoff.rs
index 780d89d..8adb83e 100644
--- a/lib/tmp/src/pecoff.rs
+++ b/lib/tmp/src/pecoff.rs
@@ -152,12 +152,12 @@ pub const SUBSYSTEM_OS2_CUI: u16 = 0x0005;
 pub const SUBSYSTEM_POSIX_CUI: u16 = 0x0007;
 pub const SUBSYSTEM_NATIVE_WINDOWS: u16 = 0x0008;
 pub const SUBSYSTEM_WINDOWS_CE_GUI: u16 = 0x0009;
-pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x0010;
-pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x0011;
-pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x0012;
-pub const SUBSYSTEM_EFI_ROM: u16 = 0x0013;
-pub const SUBSYSTEM_XBOX: u16 = 0x0014;
-pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0016;
+pub const SUBSYSTEM_EFI_APPLICATION: u16 = 0x000a;
+pub const SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER: u16 = 0x000b;
+pub const SUBSYSTEM_EFI_RUNTIME_DRIVER: u16 = 0x000c;
+pub const SUBSYSTEM_EFI_ROM: u16 = 0x000d;
+pub const SUBSYSTEM_XBOX: u16 = 0x000e;
+pub const SUBSYSTEM_WINDOWS_BOOT_APPLICATION: u16 = 0x0010;
 
 // aligned on 8-byte boundary
 #[repr(C)]
-- 
2.43.0


From d1aeec51e18630c681b8a3111f342cfbb8e74146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:12 +0000
Subject: [PATCH 25/26] fix: do not accept flags of commands that were not
 entered

If the entered path is not a declared command, the cursor points to the
first command below it, and its flags were accepted as well.
---
 lib/osi/src/args/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index 3970c39..e55cf84 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -243,7 +243,9 @@ impl<'this, 'schema, 'args, R> Cursor<'this, 'schema, 'args, R> {
         &self,
         name: &str,
     ) -> Option<(usize, usize)> {
-        let mut o_idx = self.cursor.as_ref().map(|v| v.index);
+        // Only commands that were entered provide flags. The pointed element
+        // might be below the entered path.
+        let mut o_idx = self.command_or_up();
 
         while let Some(idx) = o_idx {
             if let Ok(v) = self.schema.command_at(idx)
-- 
2.43.0


From c3c466558e6c83258588c79242d419dea7900d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:15 +0000
Subject: [PATCH 26/26] fix: report unknown short flags without the leading
 dash

The documentation of the error states that the flags are provided without
the leading dash, but the entire argument was provided.
---
 lib/osi/src/args/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/osi/src/args/parse.rs b/lib/osi/src/args/parse.rs
index e55cf84..b290010 100644
--- a/lib/osi/src/args/parse.rs
+++ b/lib/osi/src/args/parse.rs
@@ -480,7 +480,14 @@ impl<'this, 'schema, 'args, R> Parser<'this, 'schema, 'args, R> {
                 // single dash without following flags has no special meaning
                 // and we do not handle it here.
                 if arg_bytes.len() >= 2 && arg_bytes[0] == b'-' {
-                    self.parse_short(cursor, arg_os)?;
+                    let shorts = unsafe {
+                        // SAFETY: We split off a well-defined UTF-8 sequence,
+                        //         which is allowed for `std::ffi::OsStr`.
+                        compat::OsStr::from_encoded_bytes_unchecked(
+                            &arg_bytes[1..],
+                        )
+                    };
+                    self.parse_short(cursor, shorts)?;
 
                     // Argument was parsed as flag.
                     continue;
-- 
2.43.0

