//! Source of nondeterminism shared by the Kani harnesses and their native replay.
//!
//! Under Kani every value is symbolic.  In the native replay the values come,
//! in the same order, from the byte string the solver's counterexample was
//! flattened into.  Harnesses draw all their inputs before they call into the
//! code under test, so the order is the same in both builds.
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    pub fn byte() -> u8 {
        kani::any()
    }
    pub fn array<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local!(static TAPE: RefCell<(Vec<u8>, usize)> = RefCell::new((Vec::new(), 0)));
    pub fn load(bytes: Vec<u8>) {
        TAPE.with(|t| *t.borrow_mut() = (bytes, 0));
    }
    pub fn byte() -> u8 {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            let i = t.1;
            t.1 += 1;
            t.0.get(i).copied().unwrap_or(0)
        })
    }
    pub fn array<const N: usize>() -> [u8; N] {
        let mut a = [0u8; N];
        for x in a.iter_mut() {
            *x = byte();
        }
        a
    }
    pub fn assume(c: bool) {
        if !c {
            // not an input the harness quantifies over
            std::process::exit(77);
        }
    }
}

pub use imp::*;

pub fn flag() -> bool {
    let b = byte();
    assume(b <= 1);
    b == 1
}
pub fn u16v() -> u16 {
    u16::from_le_bytes(array::<2>())
}
pub fn u32v() -> u32 {
    u32::from_le_bytes(array::<4>())
}
/// An arbitrary number `lo <= n <= hi` (`hi` < 256).
pub fn between(lo: usize, hi: usize) -> usize {
    let n = byte() as usize;
    assume(lo <= n && n <= hi);
    n
}

/// 16 bytes compared as one word: no loop to unwind.
pub fn eq16(a: &[u8], b: &[u8; 16]) -> bool {
    match <[u8; 16]>::try_from(a) {
        Ok(x) => u128::from_le_bytes(x) == u128::from_le_bytes(*b),
        Err(_) => false,
    }
}

/// `a == b ^ c`, each of 16 bytes.
pub fn xor16(a: &[u8], b: &[u8; 16], c: &[u8]) -> bool {
    match (<[u8; 16]>::try_from(a), <[u8; 16]>::try_from(c)) {
        (Ok(x), Ok(y)) => u128::from_le_bytes(x) == u128::from_le_bytes(*b) ^ u128::from_le_bytes(y),
        _ => false,
    }
}

/// Slice equality without a loop, for slices of at most 32 bytes.
pub fn eq_short(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let n = a.len();
    assert!(n <= 32, "MODEL-BOUND: eq_short");
    let mut same = true;
    macro_rules! at { ($($i:literal)*) => {$( if $i < n && a[$i] != b[$i] { same = false; } )*}; }
    at!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    same
}

/// The hash the properties refer to: uninterpreted under Kani (so what is shown
/// holds for every hash function), the real MD5 in the native replay.
#[cfg(any(kani, feature = "modelhash"))]
pub fn md5(input: &[u8]) -> [u8; 16] {
    uf::digest(input)
}
#[cfg(not(any(kani, feature = "modelhash")))]
pub fn md5(input: &[u8]) -> [u8; 16] {
    md5::compute(input).0
}

/// Makes the hash constant (only in the model; the real one stays itself).
pub fn constant_md5(out: [u8; 16]) {
    #[cfg(any(kani, feature = "modelhash"))]
    uf::constant(out);
}

/// Concatenation into a fixed buffer, without loops.
pub struct Buf<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { b: [0; N], n: 0 }
    }
    pub fn put(mut self, x: &[u8]) -> Self {
        self.b[self.n..self.n + x.len()].copy_from_slice(x);
        self.n += x.len();
        self
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

/// Leak a value: its destructor is not part of what a harness checks.
pub fn leak<T>(v: T) {
    core::mem::forget(v)
}

/// A reachability witness; the driver requires every one to be satisfiable.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// Declares the proofs of a module: `tier { name [unwind] => call; ... }`.
/// Under Kani each becomes a proof harness `<module>::<tier>::<name>`; in the
/// native build they are entries of a table the replay program dispatches on.
#[macro_export]
macro_rules! proofs {
    ($($tier:ident { $($name:ident [$u:literal $($fmt:ident)?] => $call:expr;)* })*) => {
        $(
            #[cfg(kani)]
            mod $tier {
                #[allow(unused_imports)]
                use super::*;
                $( proof!($($fmt)? $name $u $call); )*
            }
        )*
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$($((concat!(stringify!($tier), "::", stringify!($name)), (|| { $call; }) as fn())),*),*]
        }
    };
}
/// One proof; with `fmt` before its name the formatting is the real one.
#[macro_export]
macro_rules! proof {
    (fmt $name:ident $u:literal $call:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            $call;
            kani::cover!(true, "END");
        }
    };
    (small $name:ident $u:literal $call:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(alloc::fmt::format, $crate::nd::no_format)]
        #[kani::stub(core::fmt::write, $crate::nd::no_write)]
        #[kani::stub(alloc::vec::from_elem, $crate::nd::small_vec)]
        fn $name() {
            $call;
            kani::cover!(true, "END");
        }
    };
    (shown $name:ident $u:literal $call:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(<u8 as core::fmt::Debug>::fmt, $crate::nd::show_u8)]
        #[kani::stub(<usize as core::fmt::Debug>::fmt, $crate::nd::show_usize)]
        #[kani::stub(<str as core::fmt::Debug>::fmt, $crate::nd::show_str)]
        fn $name() {
            $call;
            kani::cover!(true, "END");
        }
    };
    (addr $name:ident $u:literal $call:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(alloc::fmt::format, $crate::nd::no_format)]
        #[kani::stub(core::fmt::write, $crate::nd::no_write)]
        #[kani::stub(<std::net::SocketAddr as core::fmt::Display>::fmt, $crate::nd::write_addr)]
        #[kani::stub(<std::net::SocketAddr as core::fmt::Debug>::fmt, $crate::nd::write_addr)]
        #[kani::stub(<std::net::IpAddr as core::fmt::Display>::fmt, $crate::nd::write_ip)]
        #[kani::stub(<std::net::IpAddr as core::fmt::Debug>::fmt, $crate::nd::write_ip)]
        #[kani::stub(<u16 as core::fmt::Display>::fmt, $crate::nd::write_u16)]
        fn $name() {
            $call;
            kani::cover!(true, "END");
        }
    };
    ($name:ident $u:literal $call:expr) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(alloc::fmt::format, $crate::nd::no_format)]
        #[kani::stub(core::fmt::write, $crate::nd::no_write)]
        fn $name() {
            $call;
            kani::cover!(true, "END");
        }
    };
}

/// Formatting of messages is not part of any property checked with it stubbed.
#[cfg(kani)]
pub fn no_format(_: core::fmt::Arguments<'_>) -> String {
    String::new()
}

#[cfg(kani)]
pub fn no_write(_: &mut dyn core::fmt::Write, _: core::fmt::Arguments<'_>) -> core::fmt::Result {
    Ok(())
}

/// How large a vector was asked for (it has 64 elements in the model if that is more).
pub static mut ASKED: (u64, usize) = (0x4153_4b45_445f_5645, 0);
#[cfg(kani)]
pub fn small_vec<T: Clone>(elem: T, n: usize) -> Vec<T> {
    if n > 64 {
        unsafe { ASKED.1 = n };
    }
    let n = if n > 64 { 64 } else { n };
    if n == 0 {
        return Vec::new();
    }
    assert!(core::mem::size_of::<T>() == 1, "MODEL-BOUND: a vector of something else than bytes");
    unsafe {
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align_unchecked(n, 1));
        let b = *(&elem as *const T as *const u8);
        if b != 0 {
            core::ptr::write_bytes(p, b, n);
        }
        Vec::from_raw_parts(p as *mut T, n, n)
    }
}

/// Leaves of a debug rendering, in a form of fixed length that differs whenever they do.
#[cfg(kani)]
mod shown {
    use core::fmt::{Formatter, Result};
    fn hex(x: u8) -> [u8; 2] {
        [b'A' + (x >> 4), b'A' + (x & 15)]
    }
    pub fn show_u8(x: &u8, f: &mut Formatter<'_>) -> Result {
        f.write_str(unsafe { core::str::from_utf8_unchecked(&hex(*x)) })
    }
    pub fn show_usize(x: &usize, f: &mut Formatter<'_>) -> Result {
        show_u8(&((*x >> 8) as u8), f)?;
        show_u8(&(*x as u8), f)
    }
    pub fn show_str(x: &str, f: &mut Formatter<'_>) -> Result {
        f.write_str(x)
    }
}
#[cfg(kani)]
pub use shown::*;

/// Addresses and port numbers written in a form of fixed length: like the real one, it
/// differs whenever the addresses do.
#[cfg(kani)]
mod addr {
    use core::fmt::{Formatter, Result};
    use std::net::{IpAddr, SocketAddr};
    fn hex(x: u8) -> (u8, u8) {
        (b'A' + (x >> 4), b'A' + (x & 15))
    }
    pub fn write_u16(x: &u16, f: &mut Formatter<'_>) -> Result {
        let (a, b) = hex((*x >> 8) as u8);
        let (c, d) = hex(*x as u8);
        f.write_str(unsafe { core::str::from_utf8_unchecked(&[a, b, c, d]) })
    }
    pub fn write_ip(x: &IpAddr, f: &mut Formatter<'_>) -> Result {
        match x {
            IpAddr::V4(v) => {
                let o = v.octets();
                let (a, b) = hex(o[0]);
                let (c, d) = hex(o[1]);
                let (e, g) = hex(o[2]);
                let (h, i) = hex(o[3]);
                f.write_str(unsafe { core::str::from_utf8_unchecked(&[a, b, c, d, e, g, h, i]) })
            }
            IpAddr::V6(_) => panic!("MODEL-BOUND: an IPv6 address"),
        }
    }
    pub fn write_addr(x: &SocketAddr, f: &mut Formatter<'_>) -> Result {
        write_ip(&x.ip(), f)?;
        write_u16(&x.port(), f)
    }
}
#[cfg(kani)]
pub use addr::*;

/// A packet without attributes, of the given code (as on the wire), identifier,
/// authenticator and secret.
pub fn packet(code: u8, id: u8, auth: &[u8; 16], secret: &[u8]) -> radius::core::packet::Packet {
    let a = auth;
    let b = [
        code, id, 0, 20, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
    ];
    match radius::core::packet::Packet::decode(&b, secret) {
        Ok(p) => p,
        Err(_) => panic!("a bare header is a packet"),
    }
}
