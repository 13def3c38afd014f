//! C12: strings and tagged values.
use crate::nd;
use radius::core::avp::{AVPError, AVP};
use radius::core::tag::Tag;

/// Any `N` bytes read as a string: refused exactly when they are not UTF-8.
fn string_from_wire<const N: usize>() {
    let w = nd::array::<N>();
    let at = nd::between(0, if N == 0 { 0 } else { N - 1 });
    let valid = core::str::from_utf8(&w).is_ok();
    let avp = AVP::from_bytes(1, &w);
    match avp.encode_string() {
        Ok(s) => {
            assert!(valid, "what is not UTF-8 is refused");
            assert!(s.len() == N && (N == 0 || s.as_bytes()[at] == w[at]), "a string is its bytes");
            witness!(N < 2 || w[0] > 0x7f, "a multi-byte character");
            nd::leak(s);
        }
        Err(e) => {
            assert!(!valid, "what is UTF-8 is a string");
            assert!(matches!(&e, AVPError::DecodingError(_)), "the refusal is a decoding error");
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

/// Any string of `N` bytes goes out as its bytes and comes back.
fn string_round<const N: usize>() {
    let w = nd::array::<N>();
    let typ = nd::byte();
    let at = nd::between(0, if N == 0 { 0 } else { N - 1 });
    nd::assume(core::str::from_utf8(&w).is_ok());
    {
        let s = unsafe { core::str::from_utf8_unchecked(&w) };
        let avp = AVP::from_string(typ, s);
        let out = avp.encode_bytes();
        assert!(out.len() == N && (N == 0 || out[at] == w[at]), "a string is written as its bytes");
        match avp.encode_string() {
            Ok(t) => {
                assert!(t.len() == N && (N == 0 || t.as_bytes()[at] == w[at]), "a string comes back unchanged");
                nd::leak(t);
            }
            Err(_) => panic!("a string comes back"),
        }
        nd::leak((avp, out));
    }
}

/// ASCII of a given length.
fn ascii_round<const N: usize>() {
    let mut w = nd::array::<N>();
    let x = nd::byte();
    let at = nd::between(0, N - 1);
    w = [b'a'; N];
    w[at] = x & 0x7f;
    let s = unsafe { core::str::from_utf8_unchecked(&w) };
    let avp = AVP::from_string(1, s);
    let out = avp.encode_bytes();
    assert!(out.len() == N && out[at] == w[at], "a string is written as its bytes");
    nd::leak((avp, out));
}

fn tagged_u32_write() {
    let v = nd::u32v();
    let tag = nd::byte();
    let typ = nd::byte();
    let some = nd::flag();
    let t = Tag::new(tag);
    let avp = AVP::from_tagged_u32(typ, if some { Some(&t) } else { None }, v);
    let wire = [if some { tag } else { 0 }, (v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];
    assert!(avp == AVP::from_bytes(typ, &wire), "a tagged number is its tag (zero when unused) and four bytes, most significant first");
    match avp.encode_tagged_u32() {
        Ok((w, t)) => {
            assert!(wire[0] <= 0x1f, "tags above 0x1f are refused in numbers");
            assert!(w == v && t.get_value() == wire[0], "a tagged number comes back with its tag");
            witness!(!some, "without a tag");
            witness!(some && tag == 0x1f, "with the highest tag");
        }
        Err(e) => {
            assert!(wire[0] > 0x1f, "tags up to 0x1f are accepted in numbers");
            assert!(e == AVPError::InvalidTagForIntegerValueError(), "the refusal names the tag");
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

fn tagged_u32_read<const N: usize>() {
    let w = nd::array::<N>();
    let avp = AVP::from_bytes(64, &w);
    match avp.encode_tagged_u32() {
        Ok((v, t)) => {
            assert!(N == 5 && w[0] <= 0x1f, "a tagged number has five bytes, the first a tag");
            assert!(N < 5 || (v == u32::from_be_bytes([w[1], w[2], w[3], w[4]]) && t.get_value() == w[0]), "a tagged number is read as written");
        }
        Err(e) => {
            assert!(N != 5 || w[0] > 0x1f, "five bytes with a tag are a tagged number");
            if N == 0 {
                assert!(e == AVPError::TagMissingError(), "nothing has no tag");
            } else if N == 5 {
                assert!(e == AVPError::InvalidTagForIntegerValueError(), "the refusal names the tag");
            } else {
                assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, n) if *n == N) || (w[0] > 0x1f && e == AVPError::InvalidTagForIntegerValueError()), "the refusal reports the length or the tag");
            }
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

fn tagged_string_write<const N: usize>(some: bool) {
    let w = nd::array::<N>();
    let tag = nd::byte();
    let at = nd::between(0, if N == 0 { 0 } else { N - 1 });
    let t = Tag::new(tag);
    nd::assume(core::str::from_utf8(&w).is_ok());
    {
        let s = unsafe { core::str::from_utf8_unchecked(&w) };
        let avp = AVP::from_tagged_string(65, if some { Some(&t) } else { None }, s);
        let out = avp.encode_bytes();
        if some {
            assert!(out.len() == N + 1 && out[0] == tag, "a tagged string starts with its tag");
            assert!(N == 0 || out[at + 1] == w[at], "a tagged string goes on with its bytes");
        } else {
            assert!(out.len() == N && (N == 0 || out[at] == w[at]), "a string without a tag is its bytes");
        }
        if some && 1 <= tag && tag <= 0x1f {
            match avp.encode_tagged_string() {
                Ok((got, Some(t))) => {
                    assert!(t.get_value() == tag, "the tag comes back");
                    assert!(got.len() == N && (N == 0 || got.as_bytes()[at] == w[at]), "a tagged string comes back unchanged");
                    nd::leak(got);
                }
                _ => panic!("a tagged string comes back with its tag"),
            }
        }
        nd::leak((avp, out));
    }
}

fn tagged_string_read<const N: usize>() {
    let w = nd::array::<N>();
    let at = nd::between(0, if N == 0 { 0 } else { N - 1 });
    let avp = AVP::from_bytes(65, &w);
    let first = if N == 0 { 0 } else { w[0] };
    let tagged = 1 <= first && first <= 0x1f;
    let rest_ok = N != 0 && core::str::from_utf8(&w[1..]).is_ok();
    let whole_ok = core::str::from_utf8(&w).is_ok();
    match avp.encode_tagged_string() {
        Ok((got, t)) => {
            assert!(N != 0 && first != 0, "an empty value, or one with tag zero, is no tagged string");
            if tagged {
                assert!(rest_ok && matches!(&t, Some(t) if t.get_value() == first), "a first byte of 1..=0x1f is the tag");
                assert!(got.len() + 1 == N && (at == 0 || got.as_bytes()[at - 1] == w[at]), "the string follows the tag");
            } else {
                assert!(whole_ok && t.is_none(), "a first byte above 0x1f belongs to the string");
                assert!(got.len() == N && (N == 0 || got.as_bytes()[at] == w[at]), "without a tag the string is the whole value");
            }
            witness!(tagged, "with a tag");
            nd::leak(got);
        }
        Err(e) => {
            if N == 0 {
                assert!(e == AVPError::TagMissingError(), "nothing has no tag");
            } else if first == 0 {
                assert!(e == AVPError::InvalidTagForStringValueError(), "tag zero is refused in strings");
            } else {
                assert!(if tagged { !rest_ok } else { !whole_ok }, "UTF-8 is a string");
                assert!(matches!(&e, AVPError::DecodingError(_)), "the refusal is a decoding error");
            }
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

fn tag_predicates() {
    let v = nd::byte();
    let t = Tag::new(v);
    assert!(t.get_value() == v, "a tag keeps its value");
    assert!(t.is_zero() == (v == 0), "the unused tag is zero");
    assert!(t.is_valid_value() == (1 <= v && v <= 0x1f), "valid tags are 1..=0x1f");
    assert!(Tag::new_unused() == Tag::new(0), "the unused tag is zero");
}

proofs! {
    quick {
        str0 [6] => string_from_wire::<0>();
        str1 [6] => string_from_wire::<1>();
        str2 [6] => string_from_wire::<2>();
        str3 [6] => string_from_wire::<3>();
        str4 [7] => string_from_wire::<4>();
        round0 [6] => string_round::<0>();
        round1 [6] => string_round::<1>();
        round4 [7] => string_round::<4>();
        ascii253 [6] => ascii_round::<253>();
        tu32_write [18] => tagged_u32_write();
        tu32_0 [18] => tagged_u32_read::<0>();
        tu32_1 [18] => tagged_u32_read::<1>();
        tu32_4 [18] => tagged_u32_read::<4>();
        tu32_5 [18] => tagged_u32_read::<5>();
        tu32_6 [18] => tagged_u32_read::<6>();
        ts_write0 [6] => tagged_string_write::<0>(true);
        ts_write1 [6] => tagged_string_write::<1>(false);
        ts_write3 [6] => tagged_string_write::<3>(true);
        ts_0 [6] => tagged_string_read::<0>();
        ts_1 [6] => tagged_string_read::<1>();
        ts_2 [6] => tagged_string_read::<2>();
        ts_4 [7] => tagged_string_read::<4>();
        predicates [18] => tag_predicates();
    }
    thorough {
        str6 [9] => string_from_wire::<6>();
        str9 [12] => string_from_wire::<9>();
        round8 [11] => string_round::<8>();
        ts_write6 [9] => tagged_string_write::<6>(true);
        ts_7 [10] => tagged_string_read::<7>();
    }
}
