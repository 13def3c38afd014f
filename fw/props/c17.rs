//! C17: vendor-specific attributes.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::rfc2865;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};

fn text<const N: usize>() -> ([u8; N], usize) {
    let mut w = nd::array::<N>();
    let at = nd::between(0, if N == 0 { 0 } else { N - 1 });
    macro_rules! ascii { ($($i:literal)*) => {$( if $i < N { nd::assume(w[$i] < 0x80); } )*}; }
    ascii!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    (w, at)
}

/// Vendor id (four bytes, most significant first), vendor type, the length of
/// type + length + value, and the value.
fn plain<const N: usize>() {
    let (w, at) = text::<N>();
    let id = nd::u32v() as i32;
    let typ = nd::byte();
    let s = unsafe { core::str::from_utf8_unchecked(&w) };
    let v = StringVSA::new(id, typ, s);
    let m = v.message();
    let b = id.to_be_bytes();
    assert!(m.len() == 4 + 2 + N, "a vendor attribute is vendor id, type, length and value");
    assert!(m[0] == b[0] && m[1] == b[1] && m[2] == b[2] && m[3] == b[3], "the vendor id comes first, most significant byte first");
    assert!(m[4] == typ, "the vendor type follows the vendor id");
    assert!(m[5] as usize == 2 + N, "the vendor length covers type, length and value");
    assert!(N == 0 || m[6 + at] == w[at], "the value comes last");
    assert!(v.len() == 2 + N && !v.is_empty(), "the length is the vendor length");
    nd::leak((v, m));
}

fn tagged<const N: usize>() {
    let (w, at) = text::<N>();
    let id = nd::u32v() as i32;
    let typ = nd::byte();
    let tag = nd::byte();
    let s = unsafe { core::str::from_utf8_unchecked(&w) };
    let v = TaggedStringVSA::new(id, typ, tag, s);
    let m = v.message();
    let b = id.to_be_bytes();
    assert!(m.len() == 4 + 3 + N, "a tagged vendor attribute is vendor id, type, length, tag and value");
    assert!(m[0] == b[0] && m[1] == b[1] && m[2] == b[2] && m[3] == b[3], "the vendor id comes first, most significant byte first");
    assert!(m[4] == typ, "the vendor type follows the vendor id");
    assert!(m[5] as usize == 3 + N, "the vendor length covers type, length, tag and value");
    assert!(m[6] == tag, "the tag follows the length");
    assert!(N == 0 || m[7 + at] == w[at], "the value comes last");
    assert!(v.len() == 3 + N && !v.is_empty(), "the length is the vendor length");
    nd::leak((v, m));
}

/// Added to a packet, the message is the attribute's value, attribute after
/// attribute.
fn in_packet() {
    let (w, at) = text::<3>();
    let id = nd::u32v() as i32;
    let typ = nd::byte();
    let tag = nd::byte();
    let auth = nd::array::<16>();
    let s = unsafe { core::str::from_utf8_unchecked(&w) };
    let a = StringVSA::new(id, typ, s);
    let b = TaggedStringVSA::new(id, typ, tag, s);
    let (ma, mb) = (a.message(), b.message());
    let mut p = nd::packet(1, 7, &auth, &[1]);
    p.add(AVP::from_bytes(rfc2865::VENDOR_SPECIFIC_TYPE, &ma));
    p.add(AVP::from_bytes(rfc2865::VENDOR_SPECIFIC_TYPE, &mb));
    assert!(rfc2865::VENDOR_SPECIFIC_TYPE == 26, "vendor attributes have type 26");
    let want = nd::Buf::<64>::new().put(&[26, 11]).put(&ma).put(&[26, 12]).put(&mb);
    match p.encode() {
        Ok(out) => {
            assert!(out.len() == 43, "vendor attributes are encoded one after the other");
            assert!(nd::eq_short(&out[20..], want.get()), "a vendor attribute is its type, length and message");
            nd::leak(out);
        }
        Err(_) => panic!("a small packet is encoded"),
    }
    rfc2865::delete_vendor_specific(&mut p);
    assert!(p.lookup(26).is_none(), "vendor attributes are deleted by their type");
    nd::leak((a, b, ma, mb));
    nd::leak(p);
}

proofs! {
    quick {
        plain0 [20] => plain::<0>();
        plain1 [20] => plain::<1>();
        plain5 [20] => plain::<5>();
        plain247 [20] => plain::<247>();
        tagged0 [20] => tagged::<0>();
        tagged1 [20] => tagged::<1>();
        tagged6 [20] => tagged::<6>();
        tagged246 [20] => tagged::<246>();
        packet [20] => in_packet();
    }
    thorough {
        plain16 [20] => plain::<16>();
        plain128 [20] => plain::<128>();
        plain253 [20] => plain::<253>();
        tagged16 [20] => tagged::<16>();
        tagged252 [20] => tagged::<252>();
    }
}
