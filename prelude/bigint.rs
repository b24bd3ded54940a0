// ---- big integers as exponents
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> BigInt<N> { pub fn new(a: [u64; N]) -> (r: BigInt<N>) ensures r.0 == a { BigInt(a) } }
impl<const N: usize> VExp for BigInt<N> { open spec fn ex(&self) -> nat { self.0@[0] as nat } open spec fn one_limb(&self) -> bool { N == 1 } }
