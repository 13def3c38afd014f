//! C01: nothing that arrives from the network makes the library panic or loop.
//!
//! The assertions here are Kani's own: no panic, no overflow, no index out of
//! bounds, every loop ends.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::{rfc2865, rfc2868, rfc2869, rfc3162};

/// Any datagram of `min..=MAX` bytes, and any secret, even an empty one.
fn datagram<const MAX: usize>(min: usize) {
    let bytes = nd::array::<MAX>();
    let n = nd::between(min, MAX);
    let s = nd::between(0, 2);
    let d = Packet::decode(&bytes[..n], &[1, 2][..s]);
    witness!(n < MAX || d.is_ok(), "accepted");
    witness!(d.is_err(), "refused");
    nd::leak(d);
}

/// Any one attribute of any length whatever its length byte says.
fn length_byte<const N: usize>() {
    let mut b = [0x41u8; N];
    let (l, t, at, v) = (nd::byte(), nd::byte(), nd::between(22, if N > 256 { 255 } else { N - 1 }), nd::byte());
    b[0] = 1;
    b[2] = (N >> 8) as u8;
    b[3] = (N & 255) as u8;
    b[20] = t;
    b[21] = l;
    b[at] = v;
    // a second attribute may start anywhere; it must reach beyond the end or close to it
    nd::assume(l as usize + 20 + 2 >= N || l < 2);
    let d = Packet::decode(&b, &[1]);
    witness!(d.is_err(), "refused");
    nd::leak(d);
}

/// The authenticity checks, of any bytes.
fn authentic_request<const N: usize, const S: usize>() {
    let b = nd::array::<N>();
    let s = nd::array::<S>();
    let _ = Packet::is_authentic_request(&b, &s);
}
fn authentic_response<const N: usize, const M: usize, const S: usize>() {
    let b = nd::array::<N>();
    let q = nd::array::<M>();
    let s = nd::array::<S>();
    let _ = Packet::is_authentic_response(&b, &q, &s);
}

/// An attribute of any type with any value of `N` bytes, read as anything.
fn numbers<const N: usize>() {
    let v = nd::array::<N>();
    let t = nd::byte();
    let a = AVP::from_bytes(t, &v);
    nd::leak(a.encode_u32());
    nd::leak(a.encode_u16());
    nd::leak(a.encode_tagged_u32());
    nd::leak(a.encode_bytes());
    nd::leak(a.encode_ipv4());
    nd::leak(a.encode_ipv4_prefix());
    nd::leak(a.encode_ipv6());
    nd::leak(a.encode_ipv6_prefix());
    nd::leak(a.encode_date());
    nd::leak(a);
}
fn strings<const N: usize>() {
    let v = nd::array::<N>();
    let a = AVP::from_bytes(1, &v);
    nd::leak(a.encode_string());
    nd::leak(a.encode_tagged_string());
    nd::leak(a);
}
fn passwords<const N: usize, const S: usize, const A: usize>() {
    let v = nd::array::<N>();
    let s = nd::array::<S>();
    let r = nd::array::<A>();
    nd::constant_md5(nd::array::<16>());
    let a = AVP::from_bytes(2, &v);
    nd::leak(a.encode_user_password(&s, &r));
    nd::leak(a.encode_tunnel_password(&s, &r));
    nd::leak(a);
}

/// Received, decoded and read through the accessors: an attribute of any type
/// with any value of `N` bytes.
fn received<const N: usize>(t: u8, s: usize) {
    let v = nd::array::<N>();
    let (code, id, auth) = (nd::byte(), nd::byte(), nd::array::<16>());
    nd::constant_md5(nd::array::<16>());
    let w = nd::Buf::<{ 20 + 2 + 253 }>::new()
        .put(&[code, id, 0, 22 + N as u8])
        .put(&auth)
        .put(&[t, 2 + N as u8])
        .put(&v);
    match Packet::decode(w.get(), &[9, 8][..s]) {
        Ok(p) => {
            match t {
                1 => nd::leak((rfc2865::lookup_user_name(&p), rfc2865::lookup_all_user_name(&p))),
                2 => nd::leak((rfc2865::lookup_user_password(&p), rfc2865::lookup_all_user_password(&p))),
                4 => nd::leak((rfc2865::lookup_nas_ip_address(&p), rfc2865::lookup_all_nas_ip_address(&p))),
                5 => nd::leak((rfc2865::lookup_nas_port(&p), rfc2865::lookup_all_nas_port(&p))),
                24 => nd::leak((rfc2865::lookup_state(&p), rfc2865::lookup_all_state(&p))),
                55 => nd::leak((rfc2869::lookup_event_timestamp(&p), rfc2869::lookup_all_event_timestamp(&p))),
                64 => nd::leak((rfc2868::lookup_tunnel_type(&p), rfc2868::lookup_all_tunnel_type(&p))),
                66 => nd::leak((rfc2868::lookup_tunnel_client_endpoint(&p), rfc2868::lookup_all_tunnel_client_endpoint(&p))),
                69 => nd::leak((rfc2868::lookup_tunnel_password(&p), rfc2868::lookup_all_tunnel_password(&p))),
                79 => nd::leak((rfc2869::lookup_eap_message(&p), 0)),
                95 => nd::leak((rfc3162::lookup_nas_ipv6_address(&p), rfc3162::lookup_all_nas_ipv6_address(&p))),
                96 => nd::leak((rfc3162::lookup_framed_interface_id(&p), rfc3162::lookup_all_framed_interface_id(&p))),
                97 => nd::leak((rfc3162::lookup_framed_ipv6_prefix(&p), rfc3162::lookup_all_framed_ipv6_prefix(&p))),
                _ => panic!("MODEL-BOUND: no accessor for this type"),
            }
            nd::leak(p);
        }
        Err(_) => panic!("a well-formed packet is accepted"),
    }
}

proofs! {
    quick {
        any19 [4] => datagram::<19>(0);
        any28 [6] => datagram::<28>(20);
        len60 [4] => length_byte::<60>();
        len275 [4] => length_byte::<275>();
        len300 [4] => length_byte::<300>();
        req0 [18] => authentic_request::<0, 1>();
        req19 [18] => authentic_request::<19, 3>();
        req20 [18] => authentic_request::<20, 1>();
        req20_none [18] => authentic_request::<20, 0>();
        req23 [18] => authentic_request::<23, 3>();
        resp0 [18] => authentic_response::<0, 20, 1>();
        resp20_0 [18] => authentic_response::<20, 0, 1>();
        resp19 [18] => authentic_response::<19, 20, 3>();
        resp20_19 [18] => authentic_response::<20, 19, 3>();
        resp20 [18] => authentic_response::<20, 20, 1>();
        resp20_none [18] => authentic_response::<20, 20, 0>();
        resp23 [18] => authentic_response::<23, 21, 3>();
        num0 [18] => numbers::<0>();
        num1 [18] => numbers::<1>();
        num2 [18] => numbers::<2>();
        num3 [18] => numbers::<3>();
        num4 [18] => numbers::<4>();
        num5 [18] => numbers::<5>();
        num6 [18] => numbers::<6>();
        num16 [18] => numbers::<16>();
        num17 [18] => numbers::<17>();
        num18 [18] => numbers::<18>();
        num19 [18] => numbers::<19>();
        num253 [18] => numbers::<253>();
        str0 [6] => strings::<0>();
        str1 [6] => strings::<1>();
        str4 [7] => strings::<4>();
        pw0 [20] => passwords::<0, 0, 0>();
        pw1 [20] => passwords::<1, 1, 16>();
        pw16 [36] => passwords::<16, 3, 16>();
        pw16_keys [36] => passwords::<16, 0, 5>();
        pw19 [36] => passwords::<19, 3, 16>();
        pw19_keys [36] => passwords::<19, 1, 15>();
        pw35 [52] => passwords::<35, 2, 16>();
        got_string [6] => received::<2>(1, 1);
        got_password [20] => received::<16>(2, 1);
        got_password_none [20] => received::<16>(2, 0);
        got_password_short [20] => received::<3>(2, 1);
        got_ip [6] => received::<3>(4, 1);
        got_number [6] => received::<0>(5, 1);
        got_octets [6] => received::<1>(24, 1);
        got_date [6] => received::<3>(55, 1);
        got_tagged [6] => received::<0>(64, 1);
        got_tagged5 [6] => received::<5>(64, 1);
        got_tagged_string [6] => received::<0>(66, 1);
        got_tagged_string2 [6] => received::<2>(66, 1);
        got_tunnel [22] => received::<19>(69, 1);
        got_tunnel_none [22] => received::<19>(69, 0);
        got_tunnel_short [22] => received::<0>(69, 1);
        got_concat [6] => received::<0>(79, 1);
        got_ipv6 [18] => received::<15>(95, 1);
        got_ifid [18] => received::<7>(96, 1);
        got_prefix [18] => received::<0>(97, 1);
        got_prefix1 [18] => received::<1>(97, 1);
    }
    thorough {
        any32 [7] => datagram::<32>(20);
        str7 [10] => strings::<7>();
        num252 [18] => numbers::<252>();
        pw128 [130] => passwords::<128, 3, 16>();
        pw127 [130] => passwords::<127, 3, 16>();
        pw243 [245] => passwords::<243, 3, 16>();
    }
}
