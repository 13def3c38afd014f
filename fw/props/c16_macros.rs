//! Generated: C16, values that span several attributes.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::*;

macro_rules! spanning {
    ($m:ident, $const:path, $num:literal, $add:path, $lookup:path, $del:path) => {
        mod $m {
            use super::*;
            /// A value of `N` bytes, one of them anything, anywhere.
            pub fn split<const N: usize>() {
                let (at, v, x) = (nd::u16v() as usize, nd::byte(), nd::array::<2>());
                nd::assume(at < N || (N == 0 && at == 0));
                assert!($const == $num, "the type constant is the dictionary's number");
                let mut val = [0x30u8; N];
                if N > 0 {
                    val[0] = 0x31;
                    val[N - 1] = 0x32;
                    val[at] = v;
                }
                let mut p = nd::packet(1, 5, &[3; 16], b"xyz");
                p.add(AVP::from_bytes($num - 1, &x));
                assert!($lookup(&p).is_none(), "what is not there is reported absent");
                $add(&mut p, &val);
                p.add(AVP::from_bytes($num + 1, &x));
                let parts = p.lookup_all($num);
                let n = (N + 252) / 253;
                assert!(parts.len() == n, "a value takes as few attributes as it needs");
                let check = |i: usize| {
                    if i < n {
                        let b = parts[i].encode_bytes();
                        let size = if i + 1 < n { 253 } else { N - 253 * i };
                        assert!(b.len() == size, "every attribute but the last is full");
                        assert!(at / 253 != i || b[at % 253] == val[at], "the value goes out in order");
                        assert!(i > 0 || at == 0 || b[0] == 0x31, "the value starts at its start");
                        nd::leak(b);
                    }
                };
                check(0);
                check(1);
                check(2);
                check(3);
                check(4);
                nd::leak(parts);
                match $lookup(&p) {
                    Some(got) => {
                        assert!(N > 0 && got.len() == N, "the value comes back with its length");
                        assert!(got[at] == val[at] && got[N - 1] == val[N - 1] && got[0] == val[0], "the value comes back unchanged");
                        nd::leak(got);
                    }
                    None => assert!(N == 0, "the value comes back"),
                }
                assert!(matches!(p.lookup($num - 1), Some(a) if *a == AVP::from_bytes($num - 1, &x)), "other attributes stay");
                assert!(matches!(p.lookup($num + 1), Some(a) if *a == AVP::from_bytes($num + 1, &x)), "other attributes stay");
                $del(&mut p);
                assert!($lookup(&p).is_none() && p.lookup($num - 1).is_some() && p.lookup($num + 1).is_some(), "deleting removes the value and nothing else");
                nd::leak(p);
            }
            /// Parts of any sizes, with other attributes in between, are put together in order.
            pub fn parts() {
                let (a, b, c, x) = (nd::array::<2>(), nd::array::<3>(), nd::array::<1>(), nd::array::<2>());
                let mut p = nd::packet(1, 5, &[3; 16], b"xyz");
                p.add(AVP::from_bytes($num, &a));
                p.add(AVP::from_bytes($num + 1, &x));
                p.add(AVP::from_bytes($num, &b));
                p.add(AVP::from_bytes($num, &[]));
                p.add(AVP::from_bytes($num - 1, &x));
                p.add(AVP::from_bytes($num, &c));
                match $lookup(&p) {
                    Some(got) => {
                        assert!(nd::eq_short(&got, &[a[0], a[1], b[0], b[1], b[2], c[0]]), "all attributes of the type are put together in order");
                        nd::leak(got);
                    }
                    None => panic!("the value is found"),
                }
                nd::leak(p);
            }
            /// Two values added one after the other are one value to the reader.
            pub fn twice() {
                let (a, b) = (nd::array::<2>(), nd::array::<3>());
                let mut p = nd::packet(1, 5, &[3; 16], b"xyz");
                $add(&mut p, &a);
                $add(&mut p, &b);
                match $lookup(&p) {
                    Some(got) => {
                        assert!(nd::eq_short(&got, &[a[0], a[1], b[0], b[1], b[2]]), "what was added is put together in order");
                        nd::leak(got);
                    }
                    None => panic!("the value is found"),
                }
                nd::leak(p);
            }
            /// A received attribute without a value is a value of no bytes.
            pub fn bare() {
                let mut p = nd::packet(1, 5, &[3; 16], b"xyz");
                p.add(AVP::from_bytes($num, &[]));
                match $lookup(&p) {
                    Some(got) => { assert!(got.is_empty(), "an empty attribute has no bytes"); nd::leak(got); }
                    None => panic!("an attribute that is there is found"),
                }
                nd::leak(p);
            }
        }
    };
}

