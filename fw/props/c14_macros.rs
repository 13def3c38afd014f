//! Generated: C14, the accessors of every dictionary attribute.
use crate::nd;
use chrono::{DateTime, TimeZone, Utc};
use radius::core::avp::{AVPError, AVP};
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use radius::core::*;
use std::net::{Ipv4Addr, Ipv6Addr};

/// A packet with attributes of the neighbouring types.
fn start(num: u8, v: &[u8; 4]) -> Packet {
    let mut p = nd::packet(1, v[0], &[3; 16], b"xyz");
    p.add(AVP::from_bytes(num.wrapping_add(1), v));
    p.add(AVP::from_bytes(num.wrapping_sub(1), v));
    p
}
/// The neighbours are as they were.
fn neighbours(p: &Packet, num: u8, v: &[u8; 4]) {
    let (a, b) = (p.lookup_all(num.wrapping_add(1)), p.lookup_all(num.wrapping_sub(1)));
    assert!(a.len() == 1 && b.len() == 1, "attributes of other types are neither added nor removed");
    assert!(*a[0] == AVP::from_bytes(num.wrapping_add(1), v) && *b[0] == AVP::from_bytes(num.wrapping_sub(1), v), "attributes of other types are left alone");
    nd::leak((a, b));
}
/// Exactly these two values, in their wire form, are there under `num`.
fn carries(p: &Packet, num: u8, one: &[u8], two: &[u8]) {
    let a = p.lookup_all(num);
    assert!(a.len() == 2, "adding a value appends one attribute of the dictionary's type");
    assert!(nd::eq_short(&a[0].encode_bytes(), one) && nd::eq_short(&a[1].encode_bytes(), two), "a value goes out in the wire form of its dictionary type");
    assert!(*a[0] == AVP::from_bytes(num, one), "the attribute is of the dictionary's type");
    nd::leak(a);
}
fn count(p: &Packet, num: u8) -> usize {
    let a = p.lookup_all(num);
    let n = a.len();
    nd::leak(a);
    n
}
/// A packet that holds only a malformed value of the type.
fn malformed(num: u8, v: &[u8]) -> Packet {
    let mut p = nd::packet(1, 1, &[3; 16], b"xyz");
    p.add(AVP::from_bytes(num, v));
    p
}

/// Values that are copied into the packet (`$add` cannot fail), compared by `==`.
macro_rules! plain {
    ($fn:ident, $const:path, $num:literal, $lookup:path, $all:path, $del:path, $one:expr, $two:expr, $w1:expr, $w2:expr, $v:expr, |$p:ident, $x:ident| $add:expr, |$a:ident, $b:ident| $eq:expr) => {{
        assert!($const == $num, "the type constant is the dictionary's number");
        let v = $v;
        let mut p = start($num, &v);
        assert!($lookup(&p).is_none(), "what is not there is not found");
        match $all(&p) {
            Ok(l) => { assert!(l.is_empty(), "what is not there is not found"); nd::leak(l); }
            Err(_) => panic!("what is not there is no error"),
        }
        { let $p = &mut p; let $x = $one; $add; }
        { let $p = &mut p; let $x = $two; $add; }
        carries(&p, $num, &$w1, &$w2);
        match $lookup(&p) {
            Some(Ok(got)) => { let ($a, $b) = (&got, $one); assert!($eq, "a lookup gives the first value"); nd::leak(got); }
            _ => panic!("a value that was added is found"),
        }
        match $all(&p) {
            Ok(l) => {
                assert!(l.len() == 2, "a lookup of all gives all values");
                { let ($a, $b) = (&l[0], $one); assert!($eq, "a lookup of all gives the values in order"); }
                { let ($a, $b) = (&l[1], $two); assert!($eq, "a lookup of all gives the values in order"); }
                nd::leak(l);
            }
            Err(_) => panic!("values that were added are found"),
        }
        neighbours(&p, $num, &v);
        $del(&mut p);
        assert!(count(&p, $num) == 0 && $lookup(&p).is_none(), "deleting removes all values");
        neighbours(&p, $num, &v);
        nd::leak(p);
    }};
}
/// A malformed value is refused by both lookups.
macro_rules! refused {
    ($num:literal, $lookup:path, $all:path, $bad:expr) => {{
        let p = malformed($num, &$bad);
        let (a, b) = ($lookup(&p), $all(&p));
        assert!(matches!(&a, Some(Err(_))) && b.is_err(), "a value of the wrong form is refused");
        nd::leak((a, b, p));
    }};
}
/// What cannot be added leaves the packet as it was.
macro_rules! not_added {
    ($num:literal, $add:path, $v:expr, $bad:expr) => {{
        let mut p = start($num, &$v);
        match $add(&mut p, &$bad) {
            Ok(()) => panic!("a value of the wrong size is refused"),
            Err(e) => {
                assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, n) if *n == $bad.len()), "the refusal reports the size");
                nd::leak(e);
            }
        }
        assert!(count(&p, $num) == 0, "a refused value is not added");
        nd::leak(p);
    }};
}

macro_rules! integer {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::u32v(), nd::u32v(), nd::array::<4>(), nd::array::<3>());
            plain!($fn, $const, $num, $lookup, $all, $del, a, b, a.to_be_bytes(), b.to_be_bytes(), v, |p, x| $add(p, x), |g, w| *g == w);
            refused!($num, $lookup, $all, bad);
        }
    };
}
macro_rules! short {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::u16v(), nd::u16v(), nd::array::<4>(), nd::array::<4>());
            plain!($fn, $const, $num, $lookup, $all, $del, a, b, a.to_be_bytes(), b.to_be_bytes(), v, |p, x| $add(p, x), |g, w| *g == w);
            refused!($num, $lookup, $all, bad);
        }
    };
}
macro_rules! ipv4 {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::array::<4>(), nd::array::<4>(), nd::array::<4>(), nd::array::<5>());
            plain!($fn, $const, $num, $lookup, $all, $del, Ipv4Addr::from(a), Ipv4Addr::from(b), a, b, v, |p, x| $add(p, &x), |g, w| *g == w);
            refused!($num, $lookup, $all, bad);
        }
    };
}
macro_rules! ipv6 {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::array::<16>(), nd::array::<16>(), nd::array::<4>(), nd::array::<15>());
            plain!($fn, $const, $num, $lookup, $all, $del, Ipv6Addr::from(a), Ipv6Addr::from(b), a, b, v, |p, x| $add(p, &x), |g, w| nd::eq16(&g.octets(), &w.octets()));
            refused!($num, $lookup, $all, bad);
        }
    };
}
macro_rules! date {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::byte(), nd::byte(), nd::array::<4>(), nd::array::<3>());
            let (sa, sb) = (1_600_000_000 + a as u32, 4_000_000_000 + b as u32);
            let (da, db): (DateTime<Utc>, DateTime<Utc>) = (Utc.timestamp_opt(sa as i64, 0).unwrap(), Utc.timestamp_opt(sb as i64, 0).unwrap());
            plain!($fn, $const, $num, $lookup, $all, $del, &da, &db, sa.to_be_bytes(), sb.to_be_bytes(), v, |p, x| $add(p, x), |g, w| g.timestamp() == w.timestamp());
            refused!($num, $lookup, $all, bad);
        }
    };
}
macro_rules! tagged_integer {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, t, v, bad) = (nd::u32v(), nd::u32v(), nd::byte(), nd::array::<4>(), nd::array::<4>());
            nd::assume(t <= 0x1f);
            let tag = Tag::new(t);
            let (x, y) = (a.to_be_bytes(), b.to_be_bytes());
            plain!($fn, $const, $num, $lookup, $all, $del, (Some(&tag), a, t), (None::<&Tag>, b, 0u8), [t, x[0], x[1], x[2], x[3]], [0, y[0], y[1], y[2], y[3]], v,
                   |p, x| $add(p, x.0, x.1), |g, w| g.0 == w.1 && g.1.get_value() == w.2);
            refused!($num, $lookup, $all, bad);
        }
    };
}
fn ascii(w: &[u8; 2]) -> &str {
    nd::assume(w[0] < 0x80 && w[1] < 0x80);
    unsafe { core::str::from_utf8_unchecked(w) }
}
fn text(a: &str, b: &str) -> bool {
    nd::eq_short(a.as_bytes(), b.as_bytes())
}
macro_rules! string {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v) = (nd::array::<2>(), nd::array::<2>(), nd::array::<4>());
            plain!($fn, $const, $num, $lookup, $all, $del, ascii(&a), ascii(&b), a, b, v, |p, x| $add(p, x), |g, w| text(g, w));
            refused!($num, $lookup, $all, [0xff]);
        }
    };
}
macro_rules! tagged_string {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, t) = (nd::array::<2>(), nd::array::<2>(), nd::array::<4>(), nd::byte());
            nd::assume(1 <= t && t <= 0x1f && b[0] > 0x1f);
            let tag = Tag::new(t);
            plain!($fn, $const, $num, $lookup, $all, $del, (Some(&tag), ascii(&a), t), (None::<&Tag>, ascii(&b), 0u8), [t, a[0], a[1]], b, v, |p, x| $add(p, x.0, x.1),
                   |g, w| text(&g.0, w.1) && match &g.1 { Some(t) => t.get_value() == w.2, None => w.2 == 0 });
            refused!($num, $lookup, $all, [0x41, 0xff]);
        }
    };
}
/// Values of the wrong size cannot be added; what is on the wire is given back.
macro_rules! ipv4_prefix {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::array::<4>(), nd::array::<4>(), nd::array::<4>(), nd::array::<5>());
            plain!($fn, $const, $num, $lookup, $all, $del, &a, &b, [0, 4, a[0], a[1], a[2], a[3]], [0, 4, b[0], b[1], b[2], b[3]], v,
                   |p, x| assert!($add(p, x).is_ok(), "a prefix is accepted"), |g, w| nd::eq_short(g, w));
            refused!($num, $lookup, $all, bad);
            not_added!($num, $add, v, bad);
        }
    };
}
macro_rules! ipv6_prefix {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v, bad) = (nd::array::<4>(), nd::array::<2>(), nd::array::<4>(), nd::array::<1>());
            plain!($fn, $const, $num, $lookup, $all, $del, &a[..], &b[..], [0, 32, a[0], a[1], a[2], a[3]], [0, 16, b[0], b[1]], v,
                   |p, x| assert!($add(p, x).is_ok(), "a prefix is accepted"), |g, w| nd::eq_short(g, w));
            refused!($num, $lookup, $all, bad);
            not_added!($num, $add, v, [0u8; 17]);
        }
    };
}
/// Octets are given back as they are on the wire.
macro_rules! bytes {
    ($const:path, $num:literal, $lookup:path, $all:path, $del:path, $a:expr, $b:expr, $v:expr, |$p:ident, $x:ident| $add:expr) => {{
        assert!($const == $num, "the type constant is the dictionary's number");
        let v = $v;
        let mut p = start($num, &v);
        assert!($lookup(&p).is_none() && $all(&p).is_empty(), "what is not there is not found");
        { let $p = &mut p; let $x = &$a; $add; }
        { let $p = &mut p; let $x = &$b; $add; }
        carries(&p, $num, &$a, &$b);
        match $lookup(&p) {
            Some(got) => { assert!(nd::eq_short(&got, &$a), "a lookup gives the first value"); nd::leak(got); }
            None => panic!("a value that was added is found"),
        }
        let l = $all(&p);
        assert!(l.len() == 2 && nd::eq_short(&l[0], &$a) && nd::eq_short(&l[1], &$b), "a lookup of all gives the values in order");
        nd::leak(l);
        neighbours(&p, $num, &v);
        $del(&mut p);
        assert!(count(&p, $num) == 0 && $lookup(&p).is_none(), "deleting removes all values");
        neighbours(&p, $num, &v);
        nd::leak(p);
    }};
}
macro_rules! octets {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, b, v) = (nd::array::<3>(), nd::array::<1>(), nd::array::<4>());
            bytes!($const, $num, $lookup, $all, $del, a, b, v, |p, x| $add(p, x));
        }
    };
}
macro_rules! fixed {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path, $size:literal) => {
        fn $fn() {
            let (a, b, v) = (nd::array::<$size>(), nd::array::<$size>(), nd::array::<4>());
            bytes!($const, $num, $lookup, $all, $del, a, b, v, |p, x| assert!($add(p, x).is_ok(), "a value of the dictionary's size is accepted"));
            not_added!($num, $add, v, [7u8; $size - 1]);
            not_added!($num, $add, v, [7u8; $size + 1]);
        }
    };
}
macro_rules! vsa {
    ($fn:ident, $const:path, $num:literal, $del:path) => {
        fn $fn() {
            let v = nd::array::<4>();
            assert!($const == $num, "the type constant is the dictionary's number");
            let mut p = start($num, &v);
            p.add(AVP::from_bytes($num, &v));
            p.add(AVP::from_bytes($num, &v));
            $del(&mut p);
            assert!(count(&p, $num) == 0, "deleting removes all values");
            neighbours(&p, $num, &v);
            nd::leak(p);
        }
    };
}
/// Hidden with the packet's own secret and authenticator.
macro_rules! password {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, secret, auth, id) = (nd::array::<2>(), nd::array::<3>(), nd::array::<16>(), nd::byte());
            nd::assume(a[0] != 0 && a[1] != 0);
            assert!($const == $num, "the type constant is the dictionary's number");
            let mut p = nd::packet(1, id, &auth, &secret);
            assert!($lookup(&p).is_none(), "what is not there is not found");
            match $add(&mut p, &a) { Ok(()) => {}, Err(_) => panic!("a short password is accepted") }
            let h = nd::md5(nd::Buf::<19>::new().put(&secret).put(&auth).get());
            let mut padded = [0u8; 16];
            padded[0] = a[0];
            padded[1] = a[1];
            let on_wire = p.lookup_all($num);
            assert!(on_wire.len() == 1 && nd::xor16(&on_wire[0].encode_bytes(), &h, &padded), "a password is hidden with the packet's secret and authenticator");
            nd::leak(on_wire);
            match $lookup(&p) {
                Some(Ok(got)) => { assert!(nd::eq_short(&got, &a), "a password comes back"); nd::leak(got); }
                _ => panic!("a password comes back"),
            }
            match $all(&p) {
                Ok(l) => { assert!(l.len() == 1 && nd::eq_short(&l[0], &a), "a password comes back"); nd::leak(l); }
                _ => panic!("a password comes back"),
            }
            $del(&mut p);
            assert!(count(&p, $num) == 0, "deleting removes all values");
            nd::leak(p);
        }
    };
}
macro_rules! tunnel_password {
    ($fn:ident, $const:path, $num:literal, $add:path, $lookup:path, $all:path, $del:path) => {
        fn $fn() {
            let (a, secret, auth, id, t) = (nd::array::<2>(), nd::array::<3>(), nd::array::<16>(), nd::byte(), nd::byte());
            let tape = nd::array::<16>();
            rand::tape::load_tape(&tape);
            nd::assume(a[0] != 0 && a[1] != 0);
            assert!($const == $num, "the type constant is the dictionary's number");
            let tag = Tag::new(t);
            let mut p = nd::packet(2, id, &auth, &secret);
            assert!($lookup(&p).is_none(), "what is not there is not found");
            match $add(&mut p, Some(&tag), &a) { Ok(()) => {}, Err(_) => panic!("a short password is accepted") }
            let on_wire = p.lookup_all($num);
            assert!(on_wire.len() == 1, "adding a value appends one attribute of the dictionary's type");
            let w = on_wire[0].encode_bytes();
            assert!(w.len() == 19 && w[0] == t, "a tunnel password goes out with its tag");
            let h = nd::md5(nd::Buf::<21>::new().put(&secret).put(&auth).put(&w[1..3]).get());
            let mut padded = [0u8; 16];
            padded[0] = a[0];
            padded[1] = a[1];
            assert!(nd::xor16(&w[3..], &h, &padded), "a tunnel password is hidden with the packet's secret and authenticator");
            nd::leak((w, on_wire));
            match $lookup(&p) {
                Some(Ok((got, tag))) => { assert!(nd::eq_short(&got, &a) && tag.get_value() == t, "a tunnel password comes back"); nd::leak(got); }
                _ => panic!("a tunnel password comes back"),
            }
            match $all(&p) {
                Ok(l) => { assert!(l.len() == 1 && nd::eq_short(&l[0].0, &a) && l[0].1.get_value() == t, "a tunnel password comes back"); nd::leak(l); }
                _ => panic!("a tunnel password comes back"),
            }
            $del(&mut p);
            assert!(count(&p, $num) == 0, "deleting removes all values");
            nd::leak(p);
        }
    };
}

