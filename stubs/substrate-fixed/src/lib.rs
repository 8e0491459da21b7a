//! Type-level stand-in for substrate-fixed: the items the analysed crates name, nothing more. Never run.
pub mod types {
	#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
	pub struct I64F64(i128);
	pub trait Num {}
	impl Num for u32 {}
	impl Num for i32 {}
	impl Num for u64 {}
	impl Num for u128 {}
	impl I64F64 {
		pub fn from_num<N: Num>(_: N) -> Self {
			unimplemented!()
		}
		pub fn to_num<N: Num>(self) -> N {
			unimplemented!()
		}
		pub fn ceil(self) -> Self {
			unimplemented!()
		}
	}
	macro_rules! op { ($($t:ident $m:ident),*) => { $(impl core::ops::$t for I64F64 { type Output = I64F64; fn $m(self, _: I64F64) -> I64F64 { unimplemented!() } })* } }
	op!(Add add, Sub sub, Mul mul, Div div);
}
pub mod transcendental {
	pub fn pow(_: super::types::I64F64, _: super::types::I64F64) -> Result<super::types::I64F64, ()> {
		unimplemented!()
	}
}
