//! C20: fresh packets are unpredictable.
use crate::nd;
use radius::core::code::Code;
use radius::core::packet::Packet;
use rand::tape::{load_tape, TAPE};

fn fresh(fixed: Option<u8>) -> Packet {
    match fixed {
        None => Packet::new(Code::AccessRequest, b"sec"),
        Some(i) => Packet::new_with_identifier(Code::AccessRequest, b"sec", i),
    }
}

/// Sixteen symbolic bytes at a time are enough: the tape repeats them, xor-ed with a
/// pattern that keeps its parts different.
fn spread(seed: &[u8; TAPE], flip: u8) -> [u8; TAPE] {
    let mut t = *seed;
    if flip != 0 {
        macro_rules! word { ($($i:literal)*) => {$(
            let mut w = [0u8; 16];
            w.copy_from_slice(&seed[$i * 16..$i * 16 + 16]);
            t[$i * 16..$i * 16 + 16].copy_from_slice(&(!u128::from_le_bytes(w)).to_le_bytes());
        )*}; }
        word!(0 1 2 3 4 5 6 7 8 9);
    }
    t
}

/// Every bit is decided by the generator: were all the bits it delivers
/// different, all the bits of the authenticator (and of the identifier, unless
/// the caller chose one) would be.
fn every_bit(fixed: bool) {
    let seed = nd::array::<TAPE>();
    let id = nd::byte();
    let id = if fixed { Some(id) } else { None };
    load_tape(&spread(&seed, 0));
    let p = fresh(id);
    load_tape(&spread(&seed, 1));
    let q = fresh(id);
    let (a, b) = (p.get_authenticator(), q.get_authenticator());
    assert!(a.len() == 16 && b.len() == 16, "an authenticator has sixteen bytes");
    let mut x = [0u8; 16];
    x.copy_from_slice(a);
    assert!(nd::xor16(b, &x, &[255; 16]), "every bit of a fresh authenticator comes from the random generator");
    match id {
        None => assert!(p.get_identifier() == !q.get_identifier(), "every bit of a fresh identifier comes from the random generator"),
        Some(i) => assert!(p.get_identifier() == i && q.get_identifier() == i, "a chosen identifier is kept"),
    }
    nd::leak((p, q));
}

/// No byte of the generator is used twice, within a packet or in the next.
fn no_reuse(fixed: bool) {
    let x = nd::byte();
    let (i, j) = (nd::between(0, 15), nd::between(0, 15));
    let mut t = [0u8; TAPE];
    macro_rules! set { ($($h:literal)*) => {$(
        set!(@ $h, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    )*};
    (@ $h:literal, $($l:literal)*) => {$( t[$h * 16 + $l] = x ^ ($h * 16 + $l); )*}; }
    set!(0 1 2 3 4 5 6 7 8 9);
    load_tape(&t);
    let id = if fixed { Some(9) } else { None };
    let p = fresh(id);
    let q = fresh(id);
    let (a, b) = (p.get_authenticator(), q.get_authenticator());
    assert!(a.len() == 16 && b.len() == 16, "an authenticator has sixteen bytes");
    assert!(i == j || a[i] != a[j], "the bytes of an authenticator are drawn one by one");
    assert!(a[i] != b[j], "the next packet's authenticator is drawn anew");
    if !fixed {
        assert!(p.get_identifier() != q.get_identifier(), "the next packet's identifier is drawn anew");
        assert!(a[i] != p.get_identifier() && b[i] != q.get_identifier(), "the identifier is no byte of the authenticator");
    }
    nd::leak((p, q));
}

/// Apart from that a fresh packet is what was asked for.
fn rest(wire: u8) {
    let seed = nd::array::<TAPE>();
    let secret = nd::array::<5>();
    let (t, id) = (nd::byte(), nd::byte());
    load_tape(&seed);
    let code = Code::from(wire);
    let p = Packet::new_with_identifier(code, &secret, id);
    assert!(p.get_code() == code && p.get_identifier() == id, "a fresh packet has the wanted code and identifier");
    assert!(nd::eq_short(p.get_secret(), &secret), "a fresh packet has the caller's secret");
    assert!(p.lookup(t).is_none(), "a fresh packet has no attributes");
    nd::leak(p);
    load_tape(&seed);
    let p = Packet::new(code, &secret);
    assert!(p.get_code() == code, "a fresh packet has the wanted code");
    assert!(nd::eq_short(p.get_secret(), &secret), "a fresh packet has the caller's secret");
    assert!(p.lookup(t).is_none(), "a fresh packet has no attributes");
    nd::leak(p);
}

/// An Access-Request goes out with the authenticator that was drawn.
fn on_the_wire() {
    let seed = nd::array::<TAPE>();
    load_tape(&seed);
    let p = Packet::new(Code::AccessRequest, b"s");
    match p.encode() {
        Ok(w) => {
            let mut a = [0u8; 16];
            a.copy_from_slice(&w[4..20]);
            assert!(nd::eq16(p.get_authenticator(), &a) && w[1] == p.get_identifier(), "what was drawn is what goes out");
            nd::leak(w);
        }
        Err(_) => panic!("a small packet is encoded"),
    }
    nd::leak(p);
}

proofs! {
    quick {
        bits [18] => every_bit(false);
        bits_fixed [18] => every_bit(true);
        reuse [18] => no_reuse(false);
        reuse_fixed [18] => no_reuse(true);
        rest_request [18] => rest(1);
        rest_acct [18] => rest(4);
        wire [18] => on_the_wire();
    }
}
