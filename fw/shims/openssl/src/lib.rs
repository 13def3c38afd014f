//! The part of the `openssl` crate's API that concerns message digests, over
//! the uninterpreted hash of `uf`.  `MessageDigest::md5()` is `uf::digest`;
//! any other algorithm is unrelated to it (domain-separated).
#![allow(static_mut_refs)]

pub mod error {
    use std::fmt;
    #[derive(Debug, Clone)]
    pub struct ErrorStack(pub(crate) ());
    impl fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("OpenSSL error")
        }
    }
    impl std::error::Error for ErrorStack {}
}

/// Fault injection: when set, the next digest computations fail.
pub mod fault {
    pub struct Fault {
        _magic: [u64; 2],
        pub fail_from: usize,
        pub calls: usize,
    }
    // initial contents no constant shares: see the hash model
    pub static mut F: Fault = Fault { _magic: [0x6661_756c_745f_6f70, 0x1656_67b1_9e37_79f9], fail_from: usize::MAX, calls: 0 };
}

pub mod hash {
    use super::error::ErrorStack;
    use std::ops::{Deref, DerefMut};

    #[derive(Copy, Clone, PartialEq, Eq)]
    pub struct MessageDigest(u8);
    macro_rules! algs {
        ($($name:ident = $n:literal),*) => {
            impl MessageDigest {
                $(pub fn $name() -> MessageDigest { MessageDigest($n) })*
                pub fn size(&self) -> usize { 16 }
            }
        };
    }
    algs!(md5 = 0, sha1 = 1, sha224 = 2, sha256 = 3, sha384 = 4, sha512 = 5, ripemd160 = 6, null = 7);

    #[derive(Copy, Clone, Debug)]
    pub struct DigestBytes {
        buf: [u8; 16],
    }
    impl Deref for DigestBytes {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.buf[..]
        }
    }
    impl DerefMut for DigestBytes {
        fn deref_mut(&mut self) -> &mut [u8] {
            &mut self.buf[..]
        }
    }
    impl AsRef<[u8]> for DigestBytes {
        fn as_ref(&self) -> &[u8] {
            &self.buf[..]
        }
    }

    fn run(alg: u8, data: &[u8]) -> Result<DigestBytes, ErrorStack> {
        unsafe {
            let n = super::fault::F.calls;
            super::fault::F.calls = n + 1;
            if n >= super::fault::F.fail_from {
                return Err(ErrorStack(()));
            }
        }
        if alg == 0 {
            Ok(DigestBytes { buf: uf::digest(data) })
        } else {
            let mut v = vec![0xa5, alg];
            v.extend_from_slice(data);
            Ok(DigestBytes { buf: uf::digest(&v) })
        }
    }

    pub fn hash(t: MessageDigest, data: &[u8]) -> Result<DigestBytes, ErrorStack> {
        run(t.0, data)
    }

    pub struct Hasher {
        alg: u8,
        buf: Vec<u8>,
    }
    impl Hasher {
        pub fn new(t: MessageDigest) -> Result<Hasher, ErrorStack> {
            Ok(Hasher { alg: t.0, buf: Vec::new() })
        }
        pub fn update(&mut self, data: &[u8]) -> Result<(), ErrorStack> {
            self.buf.extend_from_slice(data);
            Ok(())
        }
        pub fn finish(&mut self) -> Result<DigestBytes, ErrorStack> {
            let r = run(self.alg, &self.buf);
            self.buf.clear();
            r
        }
    }
    impl std::io::Write for Hasher {
        fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
            self.buf.extend_from_slice(data);
            Ok(data.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}

pub mod memcmp {
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        assert!(a.len() == b.len());
        a == b
    }
}
