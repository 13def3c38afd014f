// Replacement for rand's thread-local generator: a byte tape.
//
// Under verification the tape's contents are symbolic, so every outcome of the
// random generator is considered.  Reading past the end of the tape is
// reported (MODEL-BOUND), never silently repeated.
#![allow(static_mut_refs)]
use crate::{CryptoRng, Error, RngCore};

/// Size of the tape.
pub const TAPE: usize = 160;
// One static whose initial contents no constant shares: Kani 0.68 gives a
// mutable static and a constant of the same contents the same memory, so that
// a `static mut LEN: usize = 0` would alias the standard library's zeros.
struct Tape {
    _magic: [u64; 2],
    bytes: [u8; TAPE],
    len: usize,
    pos: usize,
}
static mut T: Tape = Tape { _magic: [0x7461_7065_5f6f_6666, 0x9e37_79b9_7f4a_7c15], bytes: [0x5a; TAPE], len: 0, pos: 0 };

/// Load a tape and rewind it.
pub fn load_tape(bytes: &[u8]) {
    unsafe {
        T.bytes[..bytes.len()].copy_from_slice(bytes);
        T.len = bytes.len();
        T.pos = 0;
    }
}
/// How many tape bytes have been drawn since `load_tape`.
pub fn tape_used() -> usize {
    unsafe { T.pos }
}
fn draw() -> u8 {
    unsafe {
        assert!(T.pos < T.len, "MODEL-BOUND: random tape exhausted");
        let b = T.bytes[T.pos];
        T.pos += 1;
        b
    }
}

/// A handle to the tape.
#[derive(Clone, Debug)]
pub struct ThreadRng(());

/// Obtain the tape-backed generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng(())
}
impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let b = [draw(), draw(), draw(), draw()];
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let b = [draw(), draw(), draw(), draw(), draw(), draw(), draw(), draw()];
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = draw();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}

/// The operating system's generator, backed by the same tape.
#[derive(Clone, Copy, Debug, Default)]
pub struct OsRng;
impl RngCore for OsRng {
    fn next_u32(&mut self) -> u32 {
        thread_rng().next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        thread_rng().next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        thread_rng().fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        thread_rng().try_fill_bytes(dest)
    }
}
impl CryptoRng for OsRng {}
