//! The digests the workloads use: the real ones, or, for builds run by an interpreter, cheap ones.
#[cfg(not(feature = "toy"))]
pub use sha2::{Sha224, Sha256, Sha384, Sha512, Sha512Trunc256};
pub use digest::Digest;

#[cfg(feature = "toy")]
mod toy {
	use digest::{FixedOutput, Input, Reset};
	use generic_array::{ArrayLength, GenericArray};
	use std::marker::PhantomData;
	/// 256 bits of state, eight bytes at a time; defined on bytes, so the same on every host.
	#[derive(Clone)]
	pub struct Toy<N, const TAG: u64>([u64; 4], [u8; 8], usize, PhantomData<N>);
	impl<N, const TAG: u64> Default for Toy<N, TAG> { fn default() -> Self { Toy([TAG, 0x9E37_79B9_7F4A_7C15, 0xD1B5_4A32_D192_ED03, 0x2545_F491_4F6C_DD1D], [0; 8], 0, PhantomData) } }
	impl<N, const TAG: u64> Toy<N, TAG> {
		fn word(&mut self, w: u64) {
			crate::infra::work(1);
			let s = &mut self.0;
			let m = (s[0] ^ w).wrapping_mul(0xff51_afd7_ed55_8ccd);
			let m = m ^ (m >> 29);
			s[0] = s[1].rotate_left(17) ^ m;
			s[1] = s[2].wrapping_add(m.wrapping_mul(0xc4ce_b9fe_1a85_ec53));
			s[2] = s[3] ^ m.rotate_left(31) ^ w;
			s[3] = m.wrapping_add(s[0] >> 7);
		}
	}
	impl<N, const TAG: u64> Input for Toy<N, TAG> {
		fn input<B: AsRef<[u8]>>(&mut self, data: B) {
			for b in data.as_ref() {
				self.1[self.2 % 8] = *b;
				self.2 += 1;
				if self.2 % 8 == 0 { let w = u64::from_le_bytes(self.1); self.word(w); }
			}
		}
	}
	impl<N: ArrayLength<u8>, const TAG: u64> FixedOutput for Toy<N, TAG> {
		type OutputSize = N;
		fn fixed_result(mut self) -> GenericArray<u8, N> {
			let n = self.2;
			for i in n % 8..8 { self.1[i] = 0; }
			let w = u64::from_le_bytes(self.1);
			self.word(w);
			self.word(n as u64);
			for _ in 0..4 { self.word(1); }
			let mut out = GenericArray::<u8, N>::default();
			for (i, b) in out.iter_mut().enumerate() {
				if i > 0 && i % 32 == 0 { for _ in 0..4 { self.word(2); } }
				*b = self.0[i / 8 % 4].to_le_bytes()[i % 8];
			}
			out
		}
	}
	impl<N, const TAG: u64> Reset for Toy<N, TAG> { fn reset(&mut self) { *self = Self::default(); } }
	pub type Sha256 = Toy<typenum::U32, 1>;
	pub type Sha512Trunc256 = Toy<typenum::U32, 2>;
	pub type Sha224 = Toy<typenum::U28, 3>;
	pub type Sha384 = Toy<typenum::U48, 4>;
	pub type Sha512 = Toy<typenum::U64, 5>;
}
#[cfg(feature = "toy")]
pub use toy::*;
