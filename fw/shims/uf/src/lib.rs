//! MD5 as an uninterpreted function (Ackermann encoding).
//!
//! `digest(x)` returns an arbitrary 16-byte value, the only constraint being
//! functional congruence: equal inputs give equal outputs.  What the solver
//! shows with this model holds for every hash function, MD5 included.
//! Inputs longer than `W` bytes or more than `CAP` distinct calls are outside
//! the model and are reported as a model-bound failure, never ignored.
#![allow(static_mut_refs)]

pub const W: usize = 64;
pub const CAP: usize = 32;

#[derive(Clone, Copy)]
struct Entry {
    len: usize,
    key: [u128; W / 16],
    out: [u8; 16],
}

// One static whose initial contents no constant shares: Kani 0.68 gives a
// mutable static and a constant of the same contents the same memory.
struct State {
    _magic: [u64; 2],
    used: usize,
    constant: Option<[u8; 16]>,
    table: [Entry; CAP],
}
static mut S: State = State {
    _magic: [0x6861_7368_5f75_6621, 0xc2b2_ae3d_27d4_eb4f],
    used: 0,
    constant: None,
    table: [Entry { len: 0, key: [0; W / 16], out: [0; 16] }; CAP],
};

#[cfg(kani)]
fn fresh() -> [u8; 16] {
    kani::any()
}
/// Native replay with the solver's own hash values: they come from the tape.
#[cfg(not(kani))]
pub static mut SOURCE: Option<fn() -> u8> = None;
#[cfg(not(kani))]
fn fresh() -> [u8; 16] {
    let f = unsafe { SOURCE }.expect("a source of hash values");
    let mut out = [0u8; 16];
    for b in out.iter_mut() {
        *b = f();
    }
    out
}

/// From now on the hash is the constant function `out`: a special case, for
/// sizes at which the general one is out of reach.
pub fn constant(out: [u8; 16]) {
    unsafe { S.constant = Some(out) }
}

pub fn digest(input: &[u8]) -> [u8; 16] {
    let len = input.len();
    unsafe {
        if let Some(c) = S.constant {
            return c;
        }
    }
    assert!(len <= W, "MODEL-BOUND: hash input longer than the model's limit");
    let mut bytes = [0u8; W];
    bytes[..len].copy_from_slice(input);
    let key: [u128; W / 16] = unsafe { core::mem::transmute(bytes) };
    unsafe {
        // One entry per call, repeated inputs included: the number of entries
        // then does not depend on symbolic data.
        assert!(S.used < CAP, "MODEL-BOUND: more hash calls than the model's limit");
        let mut out = fresh();
        macro_rules! probe {
            ($($i:literal)*) => {$(
                if $i < S.used {
                    let e = &S.table[$i];
                    if e.len == len && e.key[0] == key[0] && e.key[1] == key[1]
                        && e.key[2] == key[2] && e.key[3] == key[3] {
                        out = e.out;
                    }
                }
            )*};
        }
        // downwards, so that the earliest equal input decides
        probe!(31 30 29 28 27 26 25 24 23 22 21 20 19 18 17 16 15 14 13 12 11 10 9 8 7 6 5 4 3 2 1 0);
        S.table[S.used] = Entry { len, key, out };
        S.used += 1;
        out
    }
}
