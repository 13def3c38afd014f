//! C03: encoding writes the exact RFC 2865 layout and never exceeds its limits.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::{Packet, PacketError};

/// Attributes of the given value sizes, with any types and values, in any
/// packet whose authenticator is sent as it is.
macro_rules! shape {
    ($fname:ident, $total:expr, [$($off:expr, $sz:expr);*]) => {
        fn $fname(code: u8) {
            // the wire image the packet must encode to
            let mut w = nd::array::<{ $total }>();
            let at = nd::between(0, $total - 1);
            w[0] = code;
            w[2] = ($total as usize >> 8) as u8;
            w[3] = ($total as usize & 255) as u8;
            $( w[$off + 1] = $sz + 2; )*
            let mut auth = [0u8; 16];
            auth.copy_from_slice(&w[4..20]);
            let mut p = nd::packet(code, w[1], &auth, b"s");
            $( p.add(AVP::from_bytes(w[$off], &w[$off + 2..$off + 2 + $sz])); )*
            match p.encode() {
                Ok(got) => {
                    assert!(got.len() == $total, "a packet is its header and its attributes");
                    assert!(got[at] == w[at], "every byte is the one the layout prescribes");
                    nd::leak(got);
                }
                Err(_) => panic!("a small packet is encoded"),
            }
            nd::leak(p);
        }
    };
}
shape!(none, 20, []);
shape!(one_empty, 22, [20, 0]);
shape!(one, 26, [20, 4]);
shape!(two, 20 + 5 + 3, [20, 3; 25, 1]);
shape!(three, 20 + 2 + 6 + 3, [20, 0; 22, 4; 28, 1]);
shape!(four, 20 + 3 + 3 + 4 + 18, [20, 1; 23, 1; 26, 2; 30, 16]);

fn refused(r: &Result<Vec<u8>, PacketError>) -> bool {
    matches!(r, Err(PacketError::EncodingError(_)))
}

/// An attribute is encoded exactly when its value has at most 253 bytes.
fn attribute_limit(min: usize, max: usize) {
    let big = [0x5au8; 600];
    let extra = nd::u16v() as usize;
    let (t, id, at, v) = (nd::byte(), nd::byte(), nd::between(0, 252), nd::byte());
    let n = min + extra;
    nd::assume(extra < 600 && n <= max);
    let mut val = big;
    val[at] = v;
    let mut p = nd::packet(1, id, &[7; 16], b"s");
    p.add(AVP::from_bytes(t, &val[..n]));
    let r = p.encode();
    if n > 253 {
        assert!(refused(&r), "a value of more than 253 bytes is refused");
    } else {
        match &r {
            Ok(w) => {
                assert!(w.len() == 22 + n && ((w[2] as usize) << 8 | w[3] as usize) == 22 + n, "the length field is the length");
                assert!(w[20] == t && w[21] as usize == n + 2, "an attribute starts with its type and length");
                assert!(at >= n || w[22 + at] == v, "every byte of a long value is written");
            }
            Err(_) => panic!("a value of up to 253 bytes is encoded"),
        }
    }
    witness!(n == min, "the lower end");
    witness!(n == max, "the upper end");
    nd::leak(r);
    nd::leak(p);
}

/// A packet is encoded exactly when it has at most 4096 bytes: fifteen
/// attributes of the largest size and one of any size.
fn packet_limit(n: usize) {
    let v = [0x5au8; 253];
    let id = nd::byte();
    let mut p = nd::packet(1, id, &[7; 16], b"s");
    p.extend(vec![AVP::from_bytes(1, &v); 15]);
    p.add(AVP::from_bytes(2, &v[..n]));
    let r = p.encode();
    let total = 20 + 15 * 255 + 2 + n;
    if total > 4096 {
        assert!(refused(&r), "a packet of more than 4096 bytes is refused");
    } else {
        match &r {
            Ok(w) => assert!(w.len() == total && ((w[2] as usize) << 8 | w[3] as usize) == total, "the length field is the length"),
            Err(_) => panic!("a packet of up to 4096 bytes is encoded"),
        }
    }
    nd::leak(r);
    nd::leak(p);
}

/// More attributes than a 16-bit length can count are refused as well.
fn beyond_u16(n: usize) {
    let v = [0x5au8; 253];
    let mut p = nd::packet(1, 9, &[7; 16], b"s");
    p.extend(vec![AVP::from_bytes(1, &v); 256]);
    p.add(AVP::from_bytes(2, &v[..n]));
    let r = p.encode();
    assert!(refused(&r), "a packet of more than 4096 bytes is refused, however large");
    nd::leak(r);
    nd::leak(p);
}

proofs! {
    quick {
        shape_none [6] => none(1);
        shape_one_empty [6] => one_empty(1);
        shape_one [6] => one(1);
        shape_two [6] => two(1);
        shape_three [6] => three(1);
        shape_four [6] => four(1);
        shape_status [6] => two(12);
        limit_attr [4] => attribute_limit(250, 260);
        limit_attr_far [4] => attribute_limit(500, 520);
        limit_packet_4095 [18] => packet_limit(248);
        limit_packet_4096 [18] => packet_limit(249);
        limit_packet_4097 [18] => packet_limit(250);
    }
    thorough {
        limit_u16 [260] => beyond_u16(253);
    }
}
