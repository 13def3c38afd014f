//! C19: a packet's debug rendering does not depend on the secret.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::packet::Packet;

/// What was rendered.
struct Shown {
    b: [u8; 512],
    n: usize,
}
impl Shown {
    fn new() -> Self {
        Shown { b: [0; 512], n: 0 }
    }
}
impl core::fmt::Write for Shown {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        assert!(self.n + s.len() <= 512, "MODEL-BOUND: a long rendering");
        self.b[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
        self.n += s.len();
        Ok(())
    }
}
fn show(p: &Packet, alternate: bool) -> Shown {
    let mut s = Shown::new();
    #[cfg(kani)]
    {
        let mut o = core::fmt::FormattingOptions::new();
        o.alternate(alternate);
        assert!(core::fmt::Debug::fmt(p, &mut o.create_formatter(&mut s)).is_ok(), "a packet can be rendered");
    }
    #[cfg(not(kani))]
    {
        use core::fmt::Write;
        let t = if alternate { format!("{:#?}", p) } else { format!("{:?}", p) };
        let t = if t.len() > 512 { t[..512].to_string() } else { t };
        let _ = s.write_str(&t);
    }
    s
}
fn same(a: &Shown, b: &Shown) -> bool {
    let mut same = a.n == b.n;
    macro_rules! at { ($($i:literal)*) => {$( same &= nd::eq16(&a.b[16 * $i..16 * $i + 16], &b.b[16 * $i..16 * $i + 16].try_into().unwrap_or([0; 16])); )*}; }
    at!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    same
}
fn made(code: u8, id: u8, auth: &[u8; 16], secret: &[u8], value: &[u8]) -> Packet {
    let mut p = nd::packet(code, id, auth, secret);
    if !value.is_empty() {
        p.add(AVP::from_bytes(value[0], &value[1..]));
    }
    p
}

/// The same packet with two secrets looks the same.
fn hides<const S: usize, const T: usize, const V: usize>(code: u8, alternate: bool) {
    let (id, auth, s, t, v) = (nd::byte(), nd::array::<16>(), nd::array::<S>(), nd::array::<T>(), nd::array::<V>());
    let (p, q) = (made(code, id, &auth, &s, &v), made(code, id, &auth, &t, &v));
    assert!(same(&show(&p, alternate), &show(&q, alternate)), "the rendering is the same whatever the secret is");
    nd::leak((p, q));
}
/// Packets that differ in something else look different.
fn shows<const V: usize>() {
    let (id, jd, auth, buth, v, w) = (nd::byte(), nd::byte(), nd::array::<16>(), nd::array::<16>(), nd::array::<V>(), nd::array::<V>());
    let (p, q) = (made(1, id, &auth, b"s", &v), made(1, jd, &buth, b"s", &w));
    let equal = id == jd && auth == buth && v == w;
    assert!(same(&show(&p, false), &show(&q, false)) == equal, "the identifier, the authenticator and the attributes are shown");
    let r = made(2, id, &auth, b"s", &v);
    assert!(!same(&show(&p, false), &show(&r, false)), "the code is shown");
    witness!(equal, "equal packets");
    witness!(!equal, "other packets");
    nd::leak((p, q, r));
}

proofs! {
    quick {
        same_length [18 shown] => hides::<3, 3, 0>(1, false);
        other_length [18 shown] => hides::<1, 5, 3>(2, false);
        none [18 shown] => hides::<0, 4, 0>(4, false);
        rest [18 shown] => shows::<3>();
    }
}
