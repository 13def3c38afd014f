//! API of the `md5` crate 0.7 over the uninterpreted hash of `uf`.
use std::{fmt, io, ops};

#[derive(Clone, Copy, Eq, Hash, PartialEq)]
pub struct Digest(pub [u8; 16]);

impl From<Digest> for [u8; 16] {
    fn from(d: Digest) -> Self {
        d.0
    }
}
impl fmt::Debug for Digest {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::LowerHex::fmt(self, f)
    }
}
impl ops::Deref for Digest {
    type Target = [u8; 16];
    fn deref(&self) -> &[u8; 16] {
        &self.0
    }
}
impl ops::DerefMut for Digest {
    fn deref_mut(&mut self) -> &mut [u8; 16] {
        &mut self.0
    }
}
macro_rules! implement {
    ($kind:ident, $format:expr) => {
        impl fmt::$kind for Digest {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                for value in &self.0 {
                    write!(f, $format, value)?;
                }
                Ok(())
            }
        }
    };
}
implement!(LowerHex, "{:02x}");
implement!(UpperHex, "{:02X}");

#[derive(Clone)]
pub struct Context {
    buf: Vec<u8>,
}
impl Context {
    pub fn new() -> Context {
        Context { buf: Vec::new() }
    }
    pub fn consume<T: AsRef<[u8]>>(&mut self, data: T) {
        self.buf.extend_from_slice(data.as_ref());
    }
    pub fn compute(self) -> Digest {
        Digest(uf::digest(&self.buf))
    }
}
impl io::Write for Context {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        self.consume(data);
        Ok(data.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn compute<T: AsRef<[u8]>>(data: T) -> Digest {
    Digest(uf::digest(data.as_ref()))
}
