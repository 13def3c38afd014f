//! C11: numbers, addresses and dates.
use crate::nd;
use chrono::{DateTime, Timelike, Utc};
use radius::core::avp::{AVPError, AVP};
use radius::core::tag::Tag;
use std::net::{Ipv4Addr, Ipv6Addr};

fn wire_is(avp: &AVP, typ: u8, wire: &[u8]) -> bool {
    *avp == AVP::from_bytes(typ, wire)
}

fn u32_any() {
    let v = nd::u32v();
    let typ = nd::byte();
    let avp = AVP::from_u32(typ, v);
    let wire = [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8];
    assert!(wire_is(&avp, typ, &wire), "a 32-bit number is four bytes, most significant first");
    assert!(avp.encode_u32() == Ok(v), "a 32-bit number reads back unchanged");
    nd::leak(avp);
}

fn u16_any() {
    let v = nd::u16v();
    let typ = nd::byte();
    let avp = AVP::from_u16(typ, v);
    assert!(wire_is(&avp, typ, &[(v >> 8) as u8, v as u8]), "a 16-bit number is two bytes, most significant first");
    assert!(avp.encode_u16() == Ok(v), "a 16-bit number reads back unchanged");
    nd::leak(avp);
}

fn ipv4_any() {
    let o = nd::array::<4>();
    let typ = nd::byte();
    let a = Ipv4Addr::from(o);
    let avp = AVP::from_ipv4(typ, &a);
    assert!(wire_is(&avp, typ, &o), "an IPv4 address is its four octets");
    assert!(avp.encode_ipv4() == Ok(a), "an IPv4 address reads back unchanged");
    nd::leak(avp);
}

fn ipv6_any() {
    let o = nd::array::<16>();
    let typ = nd::byte();
    let a = Ipv6Addr::from(o);
    let avp = AVP::from_ipv6(typ, &a);
    assert!(wire_is(&avp, typ, &o), "an IPv6 address is its sixteen octets");
    assert!(avp.encode_ipv6() == Ok(a), "an IPv6 address reads back unchanged");
    nd::leak(avp);
}

fn date_any(part: u8) {
    let w = nd::array::<4>();
    // the solver does one eighth of the range at a time
    nd::assume(w[0] >> 5 == part);
    let typ = nd::byte();
    let nanos = nd::u32v();
    nd::assume(nanos < 1_000_000_000);
    let avp = AVP::from_bytes(typ, &w);
    let dt: DateTime<Utc> = match avp.encode_date() {
        Ok(dt) => dt,
        Err(_) => panic!("every four bytes are a date"),
    };
    let s = u32::from_be_bytes(w);
    assert!(dt.timestamp() == s as i64, "a date is its Unix time in four bytes, most significant first");
    assert!(dt.timestamp_subsec_nanos() == 0, "a date has no sub-second part");
    witness!(s > i32::MAX as u32, "a date after 2038");
    witness!(s == u32::MAX, "the last date");
    let dt = dt.with_nanosecond(nanos).unwrap();
    let back = AVP::from_date(typ, &dt);
    assert!(wire_is(&back, typ, &w), "a date is written as its Unix time in four bytes");
    nd::leak(avp);
    nd::leak(back);
}

/// Values of the wrong size are refused with their size, never misread.
fn wrong_sizes(min: usize, max: usize) {
    let bytes = nd::array::<18>();
    let n = nd::between(min, max);
    let typ = nd::byte();
    let avp = AVP::from_bytes(typ, &bytes[..n]);
    macro_rules! exact {
        ($call:expr, $size:literal, $what:literal) => {
            match $call {
                Ok(_) => assert!(n == $size, $what),
                Err(e) => {
                    assert!(n != $size, $what);
                    match &e {
                        AVPError::InvalidAttributeLengthError(_, got) => assert!(*got == n, "the refusal reports the actual size"),
                        _ => panic!("a wrong size is reported as a length error"),
                    }
                    nd::leak(e);
                }
            }
        };
    }
    exact!(avp.encode_u32(), 4, "a 32-bit number has four bytes");
    exact!(avp.encode_u16(), 2, "a 16-bit number has two bytes");
    exact!(avp.encode_ipv4(), 4, "an IPv4 address has four bytes");
    exact!(avp.encode_ipv6(), 16, "an IPv6 address has sixteen bytes");
    if n != 4 {
        exact!(avp.encode_date(), 4, "a date has four bytes");
    }
    match avp.encode_ipv4_prefix() {
        Ok(p) => {
            assert!(n == 6, "an IPv4 prefix has six bytes");
            assert!(nd::eq_short(&p, &bytes[2..6]), "an IPv4 prefix is the last four of its bytes");
            nd::leak(p);
        }
        Err(e) => {
            assert!(n != 6, "an IPv4 prefix has six bytes");
            nd::leak(e);
        }
    }
    match avp.encode_ipv6_prefix() {
        Ok(p) => {
            assert!(n >= 2, "an IPv6 prefix has a two-byte header");
            assert!(nd::eq_short(&p, &bytes[2..n]), "an IPv6 prefix follows its two-byte header");
            nd::leak(p);
        }
        Err(e) => {
            assert!(n < 2, "an IPv6 prefix has a two-byte header");
            nd::leak(e);
        }
    }
    witness!(n == min, "shortest");
    witness!(n == max, "longest");
    nd::leak(avp);
}

fn ipv4_prefix(n: usize) {
    let p = nd::array::<8>();
    let typ = nd::byte();
    match AVP::from_ipv4_prefix(typ, &p[..n]) {
        Ok(avp) => {
            assert!(n == 4, "only four bytes are an IPv4 prefix");
            let wire = avp.encode_bytes();
            assert!(wire.len() == 6 && wire[0] == 0, "an IPv4 prefix has six bytes, the first of them zero");
            assert!(nd::eq_short(&wire[2..], &p[..4]), "the prefix follows the two-byte header");
            match avp.encode_ipv4_prefix() {
                Ok(q) => { assert!(nd::eq_short(&q, &p[..4]), "an IPv4 prefix reads back unchanged"); nd::leak(q); }
                Err(_) => panic!("an IPv4 prefix reads back"),
            }
            nd::leak(wire);
            nd::leak(avp);
        }
        Err(e) => {
            assert!(n != 4, "four bytes are an IPv4 prefix");
            assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, k) if *k == n), "the refusal reports the size");
            nd::leak(e);
        }
    }
}

fn ipv6_prefix(n: usize) {
    let p = nd::array::<24>();
    let typ = nd::byte();
    match AVP::from_ipv6_prefix(typ, &p[..n]) {
        Ok(avp) => {
            assert!(n <= 16, "an IPv6 prefix has at most sixteen bytes");
            let wire = avp.encode_bytes();
            assert!(wire.len() == n + 2 && wire[0] == 0 && wire[1] as usize == 8 * n, "an IPv6 prefix starts with zero and its length in bits");
            assert!(nd::eq_short(&wire[2..], &p[..n]), "the prefix follows the two-byte header");
            match avp.encode_ipv6_prefix() {
                Ok(q) => { assert!(nd::eq_short(&q, &p[..n]), "an IPv6 prefix reads back unchanged"); nd::leak(q); }
                Err(_) => panic!("an IPv6 prefix reads back"),
            }
            nd::leak(wire);
            nd::leak(avp);
        }
        Err(e) => {
            assert!(n > 16, "up to sixteen bytes are an IPv6 prefix");
            assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, k) if *k == n), "the refusal reports the size");
            nd::leak(e);
        }
    }
}

fn v4_prefixes() {
    ipv4_prefix(0); ipv4_prefix(1); ipv4_prefix(2); ipv4_prefix(3); ipv4_prefix(4);
    ipv4_prefix(5); ipv4_prefix(6); ipv4_prefix(8);
}
fn v6_prefixes_low() {
    ipv6_prefix(0); ipv6_prefix(1); ipv6_prefix(2); ipv6_prefix(3); ipv6_prefix(4);
    ipv6_prefix(5); ipv6_prefix(6); ipv6_prefix(7); ipv6_prefix(8);
}
fn v6_prefixes_high() {
    ipv6_prefix(9); ipv6_prefix(10); ipv6_prefix(11); ipv6_prefix(12); ipv6_prefix(13);
    ipv6_prefix(14); ipv6_prefix(15); ipv6_prefix(16); ipv6_prefix(17); ipv6_prefix(24);
}

proofs! {
    quick {
        u32 [20] => u32_any();
        u16 [20] => u16_any();
        ipv4 [20] => ipv4_any();
        ipv6 [20] => ipv6_any();
        date_0 [20] => date_any(0);
        date_1 [20] => date_any(1);
        date_2 [20] => date_any(2);
        date_3 [20] => date_any(3);
        date_4 [20] => date_any(4);
        date_5 [20] => date_any(5);
        date_6 [20] => date_any(6);
        date_7 [20] => date_any(7);
        sizes_short [20] => wrong_sizes(0, 8);
        sizes_long [20] => wrong_sizes(9, 18);
        prefix4 [20] => v4_prefixes();
        prefix6_low [20] => v6_prefixes_low();
        prefix6_high [26] => v6_prefixes_high();
    }
}
