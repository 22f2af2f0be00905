// Replacement for rand's ThreadRng used only by the verification harness: every draw is
// delegated to a hook, so that the harness can make it a symbolic input.

use crate::{CryptoRng, Error, RngCore};

/// Where random words come from (installed by the harness).
pub static mut RSX_DRAW: fn() -> u32 = zero;
fn zero() -> u32 { 0 }

/// Install a source of random words.
pub fn rsx_set_draw(f: fn() -> u32) { unsafe { RSX_DRAW = f } }

/// Stand-in for the thread-local generator.
#[derive(Clone, Debug)]
pub struct ThreadRng { _p: core::marker::PhantomData<*const ()> }

/// Retrieve the generator.
pub fn thread_rng() -> ThreadRng { ThreadRng { _p: core::marker::PhantomData } }

impl Default for ThreadRng {
    fn default() -> ThreadRng { thread_rng() }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { unsafe { RSX_DRAW() } }
    fn next_u64(&mut self) -> u64 {
        // high word first: the most significant bits are what range conversions use
        let h = self.next_u32() as u64;
        h << 32 | (h ^ 0x5bd1_e995)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let b = self.next_u32().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
