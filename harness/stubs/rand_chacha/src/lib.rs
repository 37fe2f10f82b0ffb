//! The random stream is an input of the checks: each 32-bit word is taken from the environment model
//! (a fixed sequence by default, symbolic where a harness asks for it). Everything above the block
//! function (rand's ReseedingRng, distributions, ranges) is the real code.
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};

extern "C" {
    fn sx_env_rng_word() -> u32;
    fn sx_env_rng_block() -> u32;
}

#[derive(Clone)]
pub struct Array64([u32; 64]);
impl Default for Array64 { fn default() -> Self { Array64([0; 64]) } }
impl AsRef<[u32]> for Array64 { fn as_ref(&self) -> &[u32] { &self.0 } }
impl AsMut<[u32]> for Array64 { fn as_mut(&mut self) -> &mut [u32] { &mut self.0 } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ChaCha12Core;
impl BlockRngCore for ChaCha12Core {
    type Item = u32;
    type Results = Array64;
    fn generate(&mut self, r: &mut Array64) {
        let n = unsafe { sx_env_rng_block() } as usize;
        let mut i = 0;
        while i < 64 {
            r.0[i] = if i < n { unsafe { sx_env_rng_word() } } else { 0x9E37_79B9u32.wrapping_mul(i as u32 + 1) };
            i += 1;
        }
    }
}
impl SeedableRng for ChaCha12Core {
    type Seed = [u8; 32];
    fn from_seed(_: [u8; 32]) -> Self { ChaCha12Core }
}
impl CryptoRng for ChaCha12Core {}

#[derive(Clone, Debug)]
pub struct ChaCha12Rng { rng: BlockRng<ChaCha12Core> }
impl PartialEq for ChaCha12Rng { fn eq(&self, _: &Self) -> bool { false } }
impl Eq for ChaCha12Rng {}
impl SeedableRng for ChaCha12Rng {
    type Seed = [u8; 32];
    fn from_seed(_: [u8; 32]) -> Self { ChaCha12Rng { rng: BlockRng::new(ChaCha12Core) } }
}
impl RngCore for ChaCha12Rng {
    fn next_u32(&mut self) -> u32 { self.rng.next_u32() }
    fn next_u64(&mut self) -> u64 { self.rng.next_u64() }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.rng.fill_bytes(b) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.rng.try_fill_bytes(b) }
}
impl CryptoRng for ChaCha12Rng {}
pub type ChaCha8Rng = ChaCha12Rng;
pub type ChaCha20Rng = ChaCha12Rng;
pub type ChaCha8Core = ChaCha12Core;
pub type ChaCha20Core = ChaCha12Core;
