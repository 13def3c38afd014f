//! C02: decoding accepts exactly the well-formed datagrams, and is faithful.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::{Packet, PacketError};

const SECRET: [u8; 3] = [0x73, 0x65, 0x63];

/// Where the attributes of a region start: the reference parser, unrolled.
/// `None` when the region is not a sequence of attributes.
struct Region {
    n: usize,
    at: [usize; 5],
}
fn parse(r: &[u8]) -> Option<Region> {
    let mut out = Region { n: 0, at: [0; 5] };
    let mut i = 0;
    macro_rules! step {
        ($($k:literal)*) => {$(
            if i < r.len() {
                if i + 1 >= r.len() {
                    return None;
                }
                let l = r[i + 1] as usize;
                if l < 2 || i + l > r.len() {
                    return None;
                }
                out.at[$k] = i;
                out.n = $k + 1;
                i += l;
            }
        )*};
    }
    step!(0 1 2 3 4);
    assert!(i >= r.len(), "MODEL-BOUND: more attributes than the reference parser follows");
    Some(out)
}

fn outcome(bs: &[u8], d: &Result<Packet, PacketError>) -> bool {
    if bs.len() < 20 {
        assert!(matches!(d, Err(PacketError::InsufficientPacketPayloadLengthError(20, n)) if *n == bs.len()), "a datagram shorter than a header is refused");
        return false;
    }
    let len = ((bs[2] as usize) << 8) | bs[3] as usize;
    if len < 20 {
        assert!(matches!(d, Err(PacketError::InsufficientHeaderDefinedPacketLengthError(n, 20)) if *n == len), "a length field below 20 is refused");
        return false;
    }
    if len > 4096 {
        assert!(matches!(d, Err(PacketError::HeaderDefinedPacketLengthExceedsMaximumLimitError(n, 4096)) if *n == len), "a length field above 4096 is refused");
        return false;
    }
    if len > bs.len() {
        assert!(matches!(d, Err(PacketError::InsufficientPacketPayloadLengthError(n, m)) if *n == len && *m == bs.len()), "a datagram shorter than its length field is refused");
        return false;
    }
    true
}

/// Every datagram of at most `max` bytes: accepted exactly when well formed, and
/// what was accepted has the datagram's code, identifier, authenticator,
/// secret and - re-encoded - its very bytes.
fn any_short<const MAX: usize>(min: usize) {
    let bytes = nd::array::<MAX>();
    let n = nd::between(min, MAX);
    let bs = &bytes[..n];
    let d = Packet::decode(bs, &SECRET);
    if !outcome(bs, &d) {
        nd::leak(d);
        return;
    }
    let len = ((bs[2] as usize) << 8) | bs[3] as usize;
    let want = parse(&bs[20..len]);
    match &d {
        Ok(p) => {
            assert!(want.is_some(), "what is not a sequence of attributes is refused");
            header(p, bs);
        }
        Err(e) => {
            assert!(want.is_none(), "every well-formed datagram is accepted");
            assert!(matches!(e, PacketError::DecodingError(_)), "malformed attributes are a decoding error");
        }
    }
    witness!(d.is_ok() && len < n, "accepted, with trailing bytes");
    witness!(d.is_err() && len == n, "refused");
    nd::leak(d);
}

fn header(p: &Packet, bs: &[u8]) {
    assert!(p.get_code() == Code::from(bs[0]), "the code is the first byte");
    assert!(p.get_identifier() == bs[1], "the identifier is the second byte");
    let mut a = [0u8; 16];
    a.copy_from_slice(&bs[4..20]);
    assert!(nd::eq16(p.get_authenticator(), &a), "the authenticator is bytes 4 to 20");
    assert!(nd::eq_short(p.get_secret(), &SECRET), "the secret is the caller's");
}

/// A well-formed attribute region of the given value sizes: the attributes are
/// exactly the ones in the datagram, in order, whatever the code and the types.
macro_rules! shape {
    ($fname:ident, $total:expr, [$($off:expr, $sz:expr);*], $trail:expr) => {
        fn $fname() {
            let mut b = nd::array::<{ $total + $trail }>();
            b[2] = ($total as usize >> 8) as u8;
            b[3] = ($total as usize & 255) as u8;
            $( b[$off + 1] = $sz + 2; )*
            let t = nd::byte();
            let d = Packet::decode(&b, &SECRET);
            match &d {
                Ok(p) => {
                    header(p, &b);
                    let got = p.lookup_all(t);
                    let mut k = 0usize;
                    $(
                        if b[$off] == t {
                            assert!(k < got.len(), "every attribute of the datagram is found under its type");
                            assert!(*got[k] == AVP::from_bytes(t, &b[$off + 2..$off + 2 + $sz]), "an attribute has the datagram's value, in the datagram's order");
                            k += 1;
                        }
                    )*
                    assert!(got.len() == k, "no attribute is found that the datagram does not hold");
                    witness!(k > 0, "an attribute of the wanted type");
                    nd::leak(got);
                }
                Err(_) => panic!("every well-formed datagram is accepted"),
            }
            nd::leak(d);
        }
    };
}
shape!(one_empty, 22, [20, 0], 0);
shape!(one_one, 23, [20, 1], 3);
shape!(two, 20 + 5 + 3, [20, 3; 25, 1], 0);
shape!(three, 20 + 2 + 6 + 3, [20, 0; 22, 4; 28, 1], 2);


/// One attribute of any length from `min` to 255 in a datagram that ends with
/// it: accepted whole, byte for byte.
fn long_attribute(min: usize) {
    let mut b = [0u8; 275];
    let l = nd::between(min, 255);
    let (t, id, at, v) = (nd::byte(), nd::byte(), nd::between(0, 252), nd::byte());
    nd::assume(at + 2 < l);
    let total = 20 + l;
    b[0] = 1;
    b[1] = id;
    b[2] = (total >> 8) as u8;
    b[3] = (total & 255) as u8;
    b[20] = t;
    b[21] = l as u8;
    b[22 + at] = v;
    match Packet::decode(&b[..total], &SECRET) {
        Ok(p) => {
            match p.lookup(t) {
                Some(a) => {
                    let w = a.encode_bytes();
                    assert!(w.len() == l - 2, "an attribute has as many bytes as its length byte says");
                    assert!(w[at] == v, "every byte of a long attribute is kept");
                    nd::leak(w);
                }
                None => panic!("a long attribute is found"),
            }
            nd::leak(p);
        }
        Err(_) => panic!("an attribute may have up to 255 bytes"),
    }
    witness!(l == 255, "the longest attribute");
}

/// Around the largest packet: a 4099-byte datagram of sixteen attributes,
/// of which the length field takes a part.
fn largest(len: usize) {
    let mut b = [0u8; 4099];
    let (t, at, v) = (nd::byte(), nd::between(0, 252), nd::byte());
    b[0] = 1;
    b[2] = (len >> 8) as u8;
    b[3] = (len & 255) as u8;
    macro_rules! attr { ($($k:literal)*) => {$( b[20 + 255 * $k + 1] = 255; )*}; }
    attr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    let last = 20 + 255 * 15;
    b[last] = t;
    b[last + 1] = if len == 4095 { 250 } else { 251 };
    nd::assume(t != 0);
    b[last + 2 + at % 248] = v;
    let d = Packet::decode(&b, &SECRET);
    if outcome(&b, &d) {
        match &d {
            Ok(p) => match p.lookup(t) {
                Some(a) => {
                    let w = a.encode_bytes();
                    assert!(len != 20 + 15 * 255, "bytes after the packet are not attributes");
                    assert!(w.len() == len - last - 2 && w[at % 248] == v, "the last attribute of a large packet is kept");
                    nd::leak(w);
                }
                None => assert!(len == 20 + 15 * 255, "the last attribute of a large packet is found"),
            },
            Err(_) => panic!("packets of up to 4096 bytes are accepted"),
        }
    }
    nd::leak(d);
}

proofs! {
    quick {
        any24 [6] => any_short::<24>(0);
        any28 [6] => any_short::<28>(25);
        any30 [7] => any_short::<30>(29);
        shape_one_empty [6] => one_empty();
        shape_one_one [6] => one_one();
        shape_two [6] => two();
        shape_three [8] => three();
        long [4] => long_attribute(3);
        huge_4096 [18] => largest(4096);
        huge_4097 [18] => largest(4097);
    }
    thorough {
        huge_4095 [18] => largest(4095);
        huge_trailing [18] => largest(20 + 15 * 255);
    }
}
