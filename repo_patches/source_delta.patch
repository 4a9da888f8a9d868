From 75e0a0ac4f693720a0bac9302d29a1d2bec38fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 01/24] fix: accept vector lengths within, not beyond, the
 maximum length

Vector::create refused every length below the maximum and accepted every
length above it, so bounded vectors and lists could not be created empty.
---
 src/packed.rs | 4 ++++
 src/vector.rs | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..66c5268 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -195,6 +195,10 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if value_max_len.map(|max_len| value_len as u64 > max_len).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From 2bba54cc983af9f5390273bb4775bad34e1fcfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 02/24] fix: keep the neighbours of a popped packed value

PackedVector::pop reset the whole last host value and restored only one
of the values packed in it.
---
 src/packed.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 66c5268..38b3335 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -66,7 +66,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
-		let value: GenericArray<u8, V> = value.into();
+		self.replace(db, index, value.into())
+	}
+
+	fn replace<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: GenericArray<u8, V>) -> Result<(), Error<DB::Error>> {
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		let mut value_offset = 0;
@@ -109,15 +112,12 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		} else {
 			let last_index = index - 1;
 
+			self.replace(db, index, GenericArray::default())?;
+
 			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
 			while self.tuple.len() > covering_base + covering_ranges.len() {
 				self.tuple.pop(db)?;
 			}
-
-			let last_value = self.get(db, last_index)?;
-			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
 		}
 
 		self.len -= 1;
-- 
2.43.0


From f5bf040ce838d023090551688a7993ce41c78442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 03/24] fix: enforce the length and maximum length of packed
 vectors

Access past the length, and pushes past the maximum length, succeeded as
long as they fell into the last host value.
---
 src/packed.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 38b3335..13bd76d 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		self.replace(db, index, value.into())
 	}
 
@@ -86,12 +94,16 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
 		let index = self.len;
+		if self.max_len.map(|max_len| index as u64 >= max_len).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
+		self.replace(db, index, value.into())?;
 		self.len += 1;
 		Ok(())
 	}
-- 
2.43.0


From 57b35b0f3d7317a278b0047d115c2da58d20d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 04/24] fix: store the children of a node first known as a leaf

InMemoryBackend::insert ignored the children if the key was present
without children, so the node stayed unreadable.
---
 src/memory.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..63c4415 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,9 +258,12 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
-			return Ok(())
-		}
+		// A key may be known as a leaf only, without its children.
+		let count = match self.0.get(&key) {
+			Some((Some(_), _)) => return Ok(()),
+			Some((None, count)) => *count,
+			None => Some(0),
+		};
 
 		let (left, right) = value;
 
@@ -269,7 +272,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		self.0.insert(key, (Some((left, right)), count));
 		Ok(())
 	}
 }
-- 
2.43.0


From 50e345bcee135e04cda588d56a692ee154ed17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 05/24] fix: decode all 64 bytes of H512

Decoding read 32 bytes and then panicked.
---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From 2bb9c590acd866db710e92d2bcd85461f19a65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 06/24] fix: decode compact U256 vectors as little endian

They are encoded as little endian.
---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From a47ebf67546670221d4c2ed1450b6d9e621f10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 07/24] fix: resolve partial list elements below the item root

The items of a list are the left child of its root. Elements past the
length resolved to some other node.
---
 le/src/partial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..b6e9d3a 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -66,7 +66,7 @@ impl PartialIndex {
 	) -> Result<Index, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let parent = match &self.parent {
+		let mut parent = match &self.parent {
 			Some(p) => p.resolve(raw, db)?,
 			None => Index::root(),
 		};
@@ -81,11 +81,16 @@ impl PartialIndex {
 				if len > U256::from(usize::max_value()) {
 					return Err(Error::CorruptedDatabase)
 				} else {
+					parent = parent.left();
 					(index, len.as_usize())
 				}
 			},
 		};
 
+		if index >= len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut max_len = 1;
 		let mut depth = 0;
 		while max_len < len {
-- 
2.43.0


From 3ff2488044c52ae0e323de0b1215066bbb7df257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 08/24] fix: write pushed partial list elements back

PartialVec::flush pushed to a list opened at the root of the whole tree
and dropped the result.
---
 le/src/partial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index b6e9d3a..10d53eb 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -222,11 +222,18 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 
 		let mut pushed = Vec::default();
 		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
+		if pushed.is_empty() {
+			return Ok(())
+		}
+
+		let index = self.index.resolve(raw, db)?;
+		let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+		let mut list = DanglingList::reconstruct(list_root, db, None)?;
 		for value in pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
+		raw.set(db, index, list.root())?;
 
 		Ok(())
 	}
-- 
2.43.0


From aaffd0780742b253f88f8df6cfbc680da52f3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 09/24] fix: refuse to merkleize more values than the maximum
 length

Values beyond the maximum were silently left out of the root.
---
 le/src/elemental_fixed.rs | 8 ++++++++
 le/src/lib.rs             | 5 +++--
 src/utils.rs              | 4 ++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 28b2a7c..c28fa58 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -73,6 +73,10 @@ macro_rules! impl_builtin_fixed_uint_vector {
 			) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
 				DB::Construct: CompatibleConstruct,
 			{
+				if max_len.map(|max_len| self.0.len() as u64 > max_len).unwrap_or(false) {
+					return Err(Error::InvalidParameter)
+				}
+
 				let mut chunks: Vec<Vec<u8>> = Vec::new();
 
 				for value in self.0 {
@@ -176,6 +180,10 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 	) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
+		if max_len.map(|max_len| self.0.len() as u64 > max_len).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let mut bytes = Vec::new();
 		bytes.resize((self.0.len() + 7) / 8, 0u8);
 
diff --git a/le/src/lib.rs b/le/src/lib.rs
index 378da09..9a56c7a 100644
--- a/le/src/lib.rs
+++ b/le/src/lib.rs
@@ -136,12 +136,13 @@ impl<T> From<T> for Compact<T> {
 	}
 }
 
-/// Calculate a ssz merkle tree root, dismissing the tree.
+/// Calculate a ssz merkle tree root, dismissing the tree. Panics if a
+/// list in the value is longer than its maximum length.
 pub fn tree_root<D, T>(value: &T) -> H256 where
 	T: IntoTree,
 	D: Digest<OutputSize=U32>,
 {
 	value.into_tree(&mut NoopBackend::<DigestConstruct<D>>::default())
 		.map(|ret| H256::from_slice(ret.as_ref()))
-		.expect("Noop backend never fails in set; qed")
+		.expect("Noop backend never fails in set, and lists are within their maximum length")
 }
diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..cbde002 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -17,6 +17,10 @@ pub fn required_depth(len: u64) -> usize {
 
 /// Serialize a vector at given depth.
 pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Value], db: &mut DB, max_len: Option<u64>) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> {
+	if max_len.map(|max_len| values.len() as u64 > max_len).unwrap_or(false) {
+		return Err(Error::InvalidParameter)
+	}
+
 	let total_depth = required_depth(max_len.unwrap_or(values.len() as u64));
 
 	let mut current = values.iter().cloned().collect::<VecDeque<_>>();
-- 
2.43.0


From 4208890054ea6bdf6e00b4e2b062e2d3a241e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 10/24] fix: refuse to open a list claiming more than its
 maximum length

Such lists were read at wrong positions, and absurd lengths overflowed.
---
 le/src/elemental_variable.rs |  6 +++++-
 le/src/partial.rs            |  3 ++-
 src/list.rs                  |  5 +++++
 src/utils.rs                 | 12 ++++++------
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..75dc6c8 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -5,7 +5,7 @@ use alloc::vec::Vec;
 use crate::{ElementalFixedVec, FromCompactVectorTree, FromCompositeVectorTree,
 			ElementalFixedVecRef, IntoCompactVectorTree,
 			IntoCompositeVectorTree, CompatibleConstruct};
-use crate::utils::{mix_in_length, decode_with_length};
+use crate::utils::{mix_in_length, decode_with_length, MAX_LEN};
 
 /// Traits for list converting into a tree structure.
 pub trait IntoCompositeListTree {
@@ -117,6 +117,10 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	if len as u64 > max_len.unwrap_or(MAX_LEN) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
diff --git a/le/src/partial.rs b/le/src/partial.rs
index 10d53eb..03cf73f 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -6,6 +6,7 @@ use alloc::collections::BTreeMap as Map;
 #[cfg(feature = "std")]
 use std::collections::HashMap as Map;
 use crate::{FromTree, IntoTree, CompatibleConstruct};
+use crate::utils::MAX_LEN;
 
 /// Partial index for le binary tree.
 #[derive(Debug, Eq, PartialEq, Clone)]
@@ -78,7 +79,7 @@ impl PartialIndex {
 				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
-				if len > U256::from(usize::max_value()) {
+				if len > U256::from(MAX_LEN) {
 					return Err(Error::CorruptedDatabase)
 				} else {
 					parent = parent.left();
diff --git a/src/list.rs b/src/list.rs
index abcee0f..4cae0ab 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -2,6 +2,7 @@ use crate::traits::{ReadBackend, WriteBackend, Construct, RootStatus, Dangling,
 use crate::vector::Vector;
 use crate::raw::Raw;
 use crate::length::LengthMixed;
+use crate::utils::MAX_LEN;
 
 /// `List` with owned root.
 pub type OwnedList<C> = List<Owned, C>;
@@ -43,6 +44,10 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 	/// Reconstruct the vector from a single hash value.
 	pub fn reconstruct<DB: WriteBackend<Construct=C> + ?Sized>(root: C::Value, db: &mut DB, max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
 		Ok(Self(LengthMixed::reconstruct(root, db, |tuple_raw, _db, len| {
+			if len as u64 > max_len.unwrap_or(MAX_LEN) {
+				return Err(Error::CorruptedDatabase)
+			}
+
 			Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))
 		})?))
 	}
diff --git a/src/utils.rs b/src/utils.rs
index cbde002..2f0ffee 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,6 +4,9 @@ use crate::{Construct, WriteBackend, Error};
 use alloc::collections::VecDeque;
 use generic_array::ArrayLength;
 
+/// Largest length of a list without a maximum length.
+pub const MAX_LEN: u64 = 1 << 63;
+
 /// Required depth of given length.
 pub fn required_depth(len: u64) -> usize {
 	let mut max_len = 1;
@@ -52,12 +55,9 @@ pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u6
 	let host_array_len = Host::to_u64();
 	let value_array_len = Value::to_u64();
 
-	let bytes = value_array_len * value_len;
-	if bytes % host_array_len == 0 {
-		bytes / host_array_len
-	} else {
-		bytes / host_array_len + 1
-	}
+	let bytes = value_array_len as u128 * value_len as u128;
+	let host_array_len = host_array_len as u128;
+	((bytes + host_array_len - 1) / host_array_len) as u64
 }
 
 /// Get the host len of a packed vector.
-- 
2.43.0


From 98ad84328c7135225d9e03c7ce60f2d0463cb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 11/24] fix: build partial values without the std feature

---
 le/src/partial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 03cf73f..8c06dd9 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,6 +1,7 @@
 use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
+use alloc::{boxed::Box, vec::Vec};
 #[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
 #[cfg(feature = "std")]
-- 
2.43.0


From 1099673ab0b2217b2eab7b7c0809cf74341422ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 12/24] fix: check the root of values without fields

Decoding a struct or enum variant without fields accepted any root, unlike
unit enum variants and ().
---
 le/derive/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/le/derive/src/lib.rs b/le/derive/src/lib.rs
index c2af540..82a9a40 100644
--- a/le/derive/src/lib.rs
+++ b/le/derive/src/lib.rs
@@ -119,6 +119,17 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 
 	let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
+	// Without any field, the only valid root is the default value.
+	let check_empty = |fields_count: usize, root| if fields_count == 0 {
+		quote! {
+			if #root != &Default::default() {
+				return Err(bm_le::Error::CorruptedDatabase)
+			}
+		}
+	} else {
+		quote! { }
+	};
+
 	let build_fields = |fs| {
 		let where_fields = normalized_fields(fs)
 			.iter()
@@ -171,6 +182,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 			let (where_fields, fields) = build_fields(&data.fields);
 
 			let fields_count = fields.iter().count();
+			let check_empty = check_empty(fields_count, quote! { root });
 			let fields = fields.into_iter().map(|f| {
 				let name = f.0;
 				let value = f.1;
@@ -184,6 +196,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 				{
 					use bm_le::Leak;
 
+					#check_empty
 					let vector = bm_le::DanglingVector::<DB::Construct>::from_leaked(
 						(root.clone(), #fields_count, None)
 					);
@@ -210,6 +223,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 
 					where_fields.append(&mut variant_where_fields);
 					let fields_count = variant_fields.iter().count();
+					let check_empty = check_empty(fields_count, quote! { vector_root });
 
 					match variant.fields {
 						Fields::Named(_) => {
@@ -226,6 +240,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 								#i => {
 									use bm_le::Leak;
 
+									#check_empty
 									let vector = bm_le::DanglingVector::<DB::Construct>::from_leaked(
 										(vector_root.clone(), #fields_count, None)
 									);
@@ -249,6 +264,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 								#i => {
 									use bm_le::Leak;
 
+									#check_empty
 									let vector = bm_le::DanglingVector::<DB::Construct>::from_leaked(
 										(vector_root.clone(), #fields_count, None)
 									);
@@ -262,10 +278,7 @@ pub fn from_tree_derive(input: TokenStream) -> TokenStream {
 						Fields::Unit => {
 							quote! {
 								#i => {
-									if vector_root != &Default::default() {
-										return Err(bm_le::Error::CorruptedDatabase)
-									}
-
+									#check_empty
 									Ok(#name::#ident)
 								},
 							}
-- 
2.43.0


From f7db24543116b2269f2821db7952f090532c3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 13/24] fix: flush only partial values that were set

---
 le/src/partial.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 8c06dd9..a8ba66c 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -111,6 +111,7 @@ impl PartialIndex {
 pub struct PartialValue<T> {
 	index: PartialIndex,
 	value: Option<T>,
+	is_set: bool,
 }
 
 impl<T: FromTree> PartialValue<T> {
@@ -127,6 +128,7 @@ impl<T: FromTree> PartialValue<T> {
 		let value = T::from_tree(&index_root, db)?;
 
 		self.value = Some(value);
+		self.is_set = false;
 		Ok(())
 	}
 
@@ -148,6 +150,7 @@ impl<T: FromTree> PartialValue<T> {
 	/// Set the partial value.
 	pub fn set(&mut self, value: T) {
 		self.value = Some(value);
+		self.is_set = true;
 	}
 }
 
@@ -155,7 +158,8 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	fn new(index: PartialIndex) -> Self {
 		Self {
 			index,
-			value: None
+			value: None,
+			is_set: false,
 		}
 	}
 
@@ -166,7 +170,11 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct
 	{
-		if let Some(value) = self.value.take() {
+		let is_set = mem::replace(&mut self.is_set, false);
+		let value = self.value.take();
+
+		// A value that was only fetched may be outdated.
+		if let Some(value) = value.filter(|_| is_set) {
 			let index = self.index.resolve(raw, db)?;
 			let value_root = value.into_tree(db)?;
 
-- 
2.43.0


From 94567cb892ba5ee4d0df6adc28aaa306fd9a1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 14/24] fix: refuse partial indices too deep to be represented

---
 le/src/partial.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index a8ba66c..6a38d9c 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,4 +1,4 @@
-use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
+use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
 use core::mem;
 use alloc::{boxed::Box, vec::Vec};
@@ -9,6 +9,22 @@ use std::collections::HashMap as Map;
 use crate::{FromTree, IntoTree, CompatibleConstruct};
 use crate::utils::MAX_LEN;
 
+// Sub index, unless it is too deep to be represented.
+fn checked_sub(parent: Index, sub: Index) -> Option<Index> {
+	fn depth(index: Index) -> usize {
+		match index.route() {
+			IndexRoute::Root => 0,
+			IndexRoute::Select(selections) => selections.len(),
+		}
+	}
+
+	if depth(parent) + depth(sub) < 8 * mem::size_of::<usize>() {
+		Some(parent.sub(sub))
+	} else {
+		None
+	}
+}
+
 /// Partial index for le binary tree.
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub struct PartialIndex {
@@ -74,10 +90,11 @@ impl PartialIndex {
 		};
 
 		let (index, len) = match self.sub {
-			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
+			PartialSubIndex::Raw(sub) => return checked_sub(parent, sub).ok_or(Error::CorruptedDatabase),
 			PartialSubIndex::Vector(index, len) => (index, len),
 			PartialSubIndex::List(index) => {
-				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
+				let len_index = checked_sub(parent, Index::root().right()).ok_or(Error::CorruptedDatabase)?;
+				let len_root = raw.get(db, len_index)?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
 				if len > U256::from(MAX_LEN) {
@@ -103,7 +120,7 @@ impl PartialIndex {
 		  result is greater or equal to 1;
 		  Index::from_one always return Some; qed");
 
-		Ok(parent.sub(sub))
+		checked_sub(parent, sub).ok_or(Error::CorruptedDatabase)
 	}
 }
 
-- 
2.43.0


From bde2dc96e63ebad06141617d392894e427bb05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:22 +0000
Subject: [PATCH 15/24] fix: flush partial list elements in the order of their
 positions

With the standard library the elements set through a partial vector were
flushed in the random order of a hash map, without it in order. When an
element could not be flushed, the root and the nodes left behind differed
from one build, and one run, to the next.
---
 le/src/partial.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 6a38d9c..6039bea 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -2,10 +2,7 @@ use bm::{Index, IndexRoute, Error, ReadBackend, RootStatus, Raw, DanglingList, T
 use primitive_types::{U256, H256};
 use core::mem;
 use alloc::{boxed::Box, vec::Vec};
-#[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
-#[cfg(feature = "std")]
-use std::collections::HashMap as Map;
 use crate::{FromTree, IntoTree, CompatibleConstruct};
 use crate::utils::MAX_LEN;
 
-- 
2.43.0


From f5c8922e5a437a4980c10717de0cd263f3e53698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 16/24] fix: refuse maximum lengths no index can address

---
 le/src/elemental_fixed.rs |  4 ++--
 src/utils.rs              | 14 ++++++++++----
 src/vector.rs             | 39 +++++++++++++++++++--------------------
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index c28fa58..5751ffa 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -192,7 +192,7 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 		}
 
 		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(|l| {
-			(l + 7) / 8
+			l / 8 + if l % 8 == 0 { 0 } else { 1 }
 		}))
 	}
 }
@@ -207,7 +207,7 @@ impl FromCompactVectorTree for ElementalFixedVec<bool> {
 		DB::Construct: CompatibleConstruct,
 	{
 		let packed = DanglingPackedVector::<DB::Construct, GenericArray<u8, typenum::U1>, typenum::U32, typenum::U1>::from_leaked(
-			(root.clone(), (len + 7) / 8, max_len.map(|l| (l + 7) / 8))
+			(root.clone(), (len + 7) / 8, max_len.map(|l| l / 8 + if l % 8 == 0 { 0 } else { 1 }))
 		);
 
 		let mut bytes = Vec::new();
diff --git a/src/utils.rs b/src/utils.rs
index 2f0ffee..1f83e1f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,17 +2,19 @@
 
 use crate::{Construct, WriteBackend, Error};
 use alloc::collections::VecDeque;
+use core::cmp;
 use generic_array::ArrayLength;
 
-/// Largest length of a list without a maximum length.
+/// Largest length, and largest maximum length, of a vector or list. The nodes
+/// of a larger tree have no `Index`.
 pub const MAX_LEN: u64 = 1 << 63;
 
 /// Required depth of given length.
 pub fn required_depth(len: u64) -> usize {
-	let mut max_len = 1;
+	let mut max_len = 1u64;
 	let mut total_depth = 0;
 	while max_len < len {
-		max_len *= 2;
+		max_len = max_len.saturating_mul(2);
 		total_depth += 1;
 	}
 	total_depth
@@ -24,6 +26,10 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 		return Err(Error::InvalidParameter)
 	}
 
+	if max_len.map(|max_len| max_len > MAX_LEN).unwrap_or(false) {
+		return Err(Error::InvalidParameter)
+	}
+
 	let total_depth = required_depth(max_len.unwrap_or(values.len() as u64));
 
 	let mut current = values.iter().cloned().collect::<VecDeque<_>>();
@@ -57,7 +63,7 @@ pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u6
 
 	let bytes = value_array_len as u128 * value_len as u128;
 	let host_array_len = host_array_len as u128;
-	((bytes + host_array_len - 1) / host_array_len) as u64
+	cmp::min((bytes + host_array_len - 1) / host_array_len, u64::max_value() as u128) as u64
 }
 
 /// Get the host len of a packed vector.
diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..de671a2 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1,6 +1,7 @@
 use crate::traits::{ReadBackend, WriteBackend, Construct, RootStatus, Owned, Dangling, Leak, Error, Tree, Sequence};
 use crate::raw::Raw;
 use crate::index::Index;
+use crate::utils::{required_depth, MAX_LEN};
 
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
@@ -20,8 +21,12 @@ pub struct Vector<R: RootStatus, C: Construct> {
 }
 
 impl<R: RootStatus, C: Construct> Vector<R, C> {
-	fn raw_index(&self, i: usize) -> Index {
-		Index::from_depth(i, self.depth())
+	fn raw_index<E>(&self, i: usize) -> Result<Index, Error<E>> {
+		if self.current_max_len() > MAX_LEN {
+			return Err(Error::AccessOverflowed)
+		}
+
+		Ok(Index::from_depth(i, self.depth()))
 	}
 
 	fn extend<DB: WriteBackend<Construct=C> + ?Sized>(
@@ -51,13 +56,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	/// Current maximum length of the vector.
 	pub fn current_max_len(&self) -> u64 {
-		self.max_len.unwrap_or({
-			let mut max_len = 1;
-			while max_len < self.len as u64 {
-				max_len *= 2;
-			}
-			max_len
-		})
+		self.max_len.unwrap_or((self.len as u64).checked_next_power_of_two().unwrap_or(u64::max_value()))
 	}
 
 	/// Overall maximum length of the vector.
@@ -67,13 +66,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 	/// Depth of the vector.
 	pub fn depth(&self) -> usize {
-		let mut max_len = 1;
-		let mut depth = 0;
-		while max_len < self.current_max_len() {
-			max_len *= 2;
-			depth += 1;
-		}
-		depth
+		required_depth(self.current_max_len())
 	}
 
 	/// Get value at index.
@@ -86,7 +79,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			return Err(Error::AccessOverflowed)
 		}
 
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)
 	}
 
@@ -101,7 +94,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			return Err(Error::AccessOverflowed)
 		}
 
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		self.raw.set(db, raw_index, value)?;
 		Ok(())
 	}
@@ -113,6 +106,9 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
 		let old_len = self.len();
+		if old_len as u64 >= MAX_LEN || self.current_max_len() > MAX_LEN {
+			return Err(Error::AccessOverflowed)
+		}
 		if (old_len as u64) == self.current_max_len() {
 			if self.max_len.is_some() {
 				return Err(Error::AccessOverflowed)
@@ -124,7 +120,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let index = old_len;
 		self.len = len;
 
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		self.raw.set(db, raw_index, value)?;
 		Ok(())
 	}
@@ -141,7 +137,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 		let len = old_len - 1;
 		let index = old_len - 1;
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
 		let mut empty_depth_to_bottom = 0;
@@ -242,6 +238,9 @@ impl<C: Construct> Vector<Owned, C> {
 		let mut raw = Raw::<Owned, C>::default();
 
 		let target_len = max_len.unwrap_or(len as u64);
+		if target_len > MAX_LEN {
+			return Err(Error::InvalidParameter)
+		}
 		let mut current_max_len = 1;
 		let mut depth = 0;
 		while current_max_len < target_len {
-- 
2.43.0


From 2123cc792d84e74c3c7c8b59f12917ba7e74cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 17/24] fix: release trees of any depth in the in-memory
 backend

Releasing a root recursed once per level, so that dropping a tree some
ten thousand levels deep (built by making each tree a child of the next)
overflowed the stack.
---
 src/memory.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 63c4415..edfd1a9 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -6,6 +6,7 @@ use generic_array::GenericArray;
 use digest::Digest;
 use core::marker::PhantomData;
 use core::hash::Hash;
+use alloc::vec::Vec;
 
 use crate::{Construct, Backend, ReadBackend, WriteBackend};
 
@@ -189,22 +190,28 @@ impl<C: Construct> InMemoryBackend<C> where
 	C::Value: Eq + Hash + Ord,
 {
 	fn remove(&mut self, old_key: &C::Value) -> Result<(), InMemoryBackendError> {
-		let (old_value, to_remove) = {
-			let value = match self.0.get_mut(old_key) {
-				Some(value) => value,
-				None => return Ok(()),
+		// Trees can be deeper than what the call stack allows to recurse.
+		let mut pending = Vec::new();
+		pending.push(old_key.clone());
+
+		while let Some(key) = pending.pop() {
+			let (old_value, to_remove) = {
+				let value = match self.0.get_mut(&key) {
+					Some(value) => value,
+					None => continue,
+				};
+				value.1.as_mut().map(|v| *v -= 1);
+				(value.0.clone(), value.1.map(|v| v == 0).unwrap_or(false))
 			};
-			value.1.as_mut().map(|v| *v -= 1);
-			(value.0.clone(), value.1.map(|v| v == 0).unwrap_or(false))
-		};
 
-		if to_remove {
-			if let Some(old_value) = old_value {
-				self.remove(&old_value.0)?;
-				self.remove(&old_value.1)?;
-			}
+			if to_remove {
+				self.0.remove(&key);
 
-			self.0.remove(old_key);
+				if let Some((left, right)) = old_value {
+					pending.push(right);
+					pending.push(left);
+				}
+			}
 		}
 
 		Ok(())
-- 
2.43.0


From 1904a8b53b9f6a4873be2dd1b3c794ca882f12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 18/24] fix: address packed elements past the byte range of
 usize

The position of a packed element was computed in bytes as usize, which
overflows (or, in release builds, silently names another element) in
vectors longer than usize::MAX / size, and a push to a vector of
usize::MAX elements wrapped its length to zero.
---
 src/packed.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 13bd76d..d90bbf5 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -14,9 +14,9 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	let host_len = Host::to_usize();
 	let value_len = Value::to_usize();
 
-	let bytes = value_len * value_index;
-	let host_index = bytes / host_len;
-	let offset = bytes - host_len * host_index;
+	let bytes = value_len as u128 * value_index as u128;
+	let host_index = (bytes / host_len as u128) as usize;
+	let offset = (bytes % host_len as u128) as usize;
 
 	let mut ranges = Vec::new();
 	ranges.push(offset..cmp::min(offset + value_len, host_len));
@@ -98,13 +98,14 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 			return Err(Error::AccessOverflowed)
 		}
 
+		let len = index.checked_add(1).ok_or(Error::AccessOverflowed)?;
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
 		self.replace(db, index, value.into())?;
-		self.len += 1;
+		self.len = len;
 		Ok(())
 	}
 
-- 
2.43.0


From 83e86dfd72cd2bb327ee89ce17a3e58e707609e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 19/24] fix: refuse maximum lengths no index can address on
 32-bit hosts

The limit was that of 64-bit indices: on narrower hosts a vector or list
with a maximum between 2^32 and 2^63 was created and opened, and every
access then overflowed the index (a panic, or a wrong node in release).
---
 src/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 1f83e1f..d325cc6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,12 +2,15 @@
 
 use crate::{Construct, WriteBackend, Error};
 use alloc::collections::VecDeque;
-use core::cmp;
+use core::{cmp, mem};
 use generic_array::ArrayLength;
 
 /// Largest length, and largest maximum length, of a vector or list. The nodes
 /// of a larger tree have no `Index`.
-pub const MAX_LEN: u64 = 1 << 63;
+pub const MAX_LEN: u64 = 1 << (8 * mem::size_of::<usize>() - 1);
+
+/// Largest maximum length of a vector that is only merkleized.
+const MAX_TREE_LEN: u64 = 1 << 63;
 
 /// Required depth of given length.
 pub fn required_depth(len: u64) -> usize {
@@ -26,7 +29,7 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 		return Err(Error::InvalidParameter)
 	}
 
-	if max_len.map(|max_len| max_len > MAX_LEN).unwrap_or(false) {
+	if max_len.map(|max_len| max_len > MAX_TREE_LEN).unwrap_or(false) {
 		return Err(Error::InvalidParameter)
 	}
 
-- 
2.43.0


From 6c5ffe98f3008eca4739dff478c8239e4ffb67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 20/24] fix: refuse partial positions in vectors longer than
 indices reach

The search for the depth of a vector of more than 2^63 elements overflowed
(a panic, or an endless loop in release builds).
---
 le/src/partial.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 6039bea..76927d6 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -88,7 +88,13 @@ impl PartialIndex {
 
 		let (index, len) = match self.sub {
 			PartialSubIndex::Raw(sub) => return checked_sub(parent, sub).ok_or(Error::CorruptedDatabase),
-			PartialSubIndex::Vector(index, len) => (index, len),
+			PartialSubIndex::Vector(index, len) => {
+				if len as u64 > MAX_LEN {
+					return Err(Error::InvalidParameter)
+				} else {
+					(index, len)
+				}
+			},
 			PartialSubIndex::List(index) => {
 				let len_index = checked_sub(parent, Index::root().right()).ok_or(Error::CorruptedDatabase)?;
 				let len_root = raw.get(db, len_index)?.ok_or(Error::CorruptedDatabase)?;
-- 
2.43.0


From e527214e19e0f5e6367d803b156b029bfc3c0a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 21/24] fix: expand an entry once when compacting proofs

Proofs::into_compact expanded every occurrence of equal subtrees, so the proof
of one read in an empty region (an unwritten element of a list of up to 2^40)
took time and memory exponential in its depth. Further occurrences are left
abbreviated; expanding the compact form gives the same entries and root.
---
 src/proving.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/proving.rs b/src/proving.rs
index 94b8340..9b4ec3a 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -162,9 +162,15 @@ impl<V: Eq + Hash + Ord + fmt::Debug> fmt::Debug for Proofs<V> {
 impl<V: Eq + Hash + Ord + Clone + Default> Proofs<V> {
 	/// Create compact merkle proofs from complete entries.
 	pub fn into_compact(&self, root: V) -> CompactValue<V> {
-		if let Some((left, right)) = self.0.get(&root) {
-			let compact_left = self.into_compact(left.clone());
-			let compact_right = self.into_compact(right.clone());
+		self.into_compact_with(root, &mut Default::default())
+	}
+
+	// An entry is expanded only where it is met first. Expanding all of equal subtrees (such as empty ones) would take
+	// time and space exponential in their depth, and adds nothing.
+	fn into_compact_with(&self, root: V, expanded: &mut Set<V>) -> CompactValue<V> {
+		if let Some((left, right)) = self.0.get(&root).filter(|_| expanded.insert(root.clone())) {
+			let compact_left = self.into_compact_with(left.clone(), expanded);
+			let compact_right = self.into_compact_with(right.clone(), expanded);
 			CompactValue::Combined(Box::new((compact_left, compact_right)))
 		} else {
 			CompactValue::Single(root)
-- 
2.43.0


From 53eb9d8520958af30b3ad89ea07dd92c1ce79298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 22/24] fix: count a node as written by the session only if its
 insertion succeeded

The recorder marked a node as the session's own before the wrapped backend had
accepted it, so after a failed insertion later reads of that (already stored)
node were left out of the proof.
---
 src/proving.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proving.rs b/src/proving.rs
index 9b4ec3a..f65faf4 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -111,8 +111,9 @@ impl<'a, DB: WriteBackend + ?Sized> WriteBackend for ProvingBackend<'a, DB> wher
 		key: <DB::Construct as Construct>::Value,
 		value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)
 	) -> Result<(), Self::Error> {
-		self.state.inserts.insert(key.clone());
-		self.db.insert(key, value)
+		self.db.insert(key.clone(), value)?;
+		self.state.inserts.insert(key);
+		Ok(())
 	}
 }
 
-- 
2.43.0


From d230b4ea57a26e8488733bdcf585bed2eb6866a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 23/24] fix: let populated nodes hold the children they have

---
 src/memory.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index edfd1a9..36ca204 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -220,9 +220,16 @@ impl<C: Construct> InMemoryBackend<C> where
 	/// Populate the database with proofs.
 	pub fn populate(&mut self, proofs: Map<C::Value, (C::Value, C::Value)>) {
 		for (key, (left, right)) in proofs {
-			self.0.insert(key, (Some((left.clone(), right.clone())), None));
-			self.0.entry(left).or_insert((None, None));
-			self.0.entry(right).or_insert((None, None));
+			let old = self.0.insert(key, (Some((left.clone(), right.clone())), None));
+			let counted = old.map(|old| old.0.is_some()).unwrap_or(false);
+
+			// A populated node stays for good, and so do the children it has.
+			for child in [left, right].iter() {
+				let count = &mut self.0.entry(child.clone()).or_insert((None, None)).1;
+				if !counted {
+					count.as_mut().map(|v| *v += 1);
+				}
+			}
 		}
 	}
 }
-- 
2.43.0


From 8e1cc02165c4abac1b8fb5e0967cad8b1eaf1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:27 +0000
Subject: [PATCH 24/24] fix: keep what a failed flush of a partial view has not
 written

---
 le/src/partial.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 76927d6..b5e52be 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -190,17 +190,17 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct
 	{
-		let is_set = mem::replace(&mut self.is_set, false);
-		let value = self.value.take();
-
 		// A value that was only fetched may be outdated.
-		if let Some(value) = value.filter(|_| is_set) {
+		if let Some(value) = self.value.as_ref().filter(|_| self.is_set) {
 			let index = self.index.resolve(raw, db)?;
 			let value_root = value.into_tree(db)?;
 
 			raw.set(db, index, value_root)?;
 		}
 
+		// What fails to be written is kept, to be flushed again.
+		self.value = None;
+		self.is_set = false;
 		Ok(())
 	}
 }
@@ -243,27 +243,24 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let mut values = Map::default();
-		mem::swap(&mut values, &mut self.values);
-
-		for (_, mut value) in values {
+		for (_, value) in &mut self.values {
 			value.flush(raw, db)?;
 		}
+		self.values.clear();
 
-		let mut pushed = Vec::default();
-		mem::swap(&mut pushed, &mut self.pushed);
-		if pushed.is_empty() {
+		if self.pushed.is_empty() {
 			return Ok(())
 		}
 
 		let index = self.index.resolve(raw, db)?;
 		let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
 		let mut list = DanglingList::reconstruct(list_root, db, None)?;
-		for value in pushed {
+		for value in &self.pushed {
 			let value_root = value.into_tree(db)?;
 			list.push(db, value_root)?;
 		}
 		raw.set(db, index, list.root())?;
+		self.pushed.clear();
 
 		Ok(())
 	}
-- 
2.43.0

