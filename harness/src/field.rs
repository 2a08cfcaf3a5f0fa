//! A second scalar field: a 62-bit prime with another generator (15), another
//! two-adicity (28) and elements of one machine word, so that nothing that
//! happens to fit the BLS12-381 scalar field is taken for granted.
use ark_ff::biginteger::BigInteger64;
use ark_ff::fields::{FftParameters, Fp64, Fp64Parameters, FpParameters};

pub type F62 = Fp64<F62Parameters>;
pub struct F62Parameters;
impl Fp64Parameters for F62Parameters {}
impl FftParameters for F62Parameters {
    type BigInt = BigInteger64;
    const TWO_ADICITY: u32 = 28;
    const TWO_ADIC_ROOT_OF_UNITY: BigInteger64 = BigInteger64([0xaafc130017af1b8]);
}
/// modulus 17179869057 * 2^28 + 1
impl FpParameters for F62Parameters {
    const MODULUS: BigInteger64 = BigInteger64([0x3ffffff810000001]);
    const MODULUS_BITS: u32 = 62;
    const CAPACITY: u32 = Self::MODULUS_BITS - 1;
    const REPR_SHAVE_BITS: u32 = 2;
    const R: BigInteger64 = BigInteger64([0x1fbffffffc]);
    const R2: BigInteger64 = BigInteger64([0x10007c05fffff050]);
    const INV: u64 = 0x3efffff80fffffff;
    const GENERATOR: BigInteger64 = BigInteger64([0x1dc3fffffc4]);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([0x1ffffffc08000000]);
    const T: BigInteger64 = BigInteger64([0x3ffffff81]);
    const T_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([0x1ffffffc0]);
}
