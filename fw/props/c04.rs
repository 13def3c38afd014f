//! C04: what is sent is what is received.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;

/// A datagram of a code whose authenticator is sent as it is: decoded and
/// encoded again it has the very same bytes.
macro_rules! again {
    ($fname:ident, $total:expr, [$($off:expr, $sz:expr);*]) => {
        fn $fname(code: u8) {
            let mut w = nd::array::<{ $total }>();
            let at = nd::between(0, $total - 1);
            w[0] = code;
            w[2] = ($total as usize >> 8) as u8;
            w[3] = ($total as usize & 255) as u8;
            $( w[$off + 1] = $sz + 2; )*
            let p = match Packet::decode(&w, b"key") {
                Ok(p) => p,
                Err(_) => panic!("a well-formed packet is accepted"),
            };
            match p.encode() {
                Ok(got) => {
                    assert!(got.len() == $total && got[at] == w[at], "a received request is forwarded byte for byte");
                    nd::leak(got);
                }
                Err(_) => panic!("a received packet is encoded"),
            }
            nd::leak(p);
        }
    };
}
again!(again_none, 20, []);
again!(again_empty, 22, [20, 0]);
again!(again_two, 20 + 5 + 3, [20, 3; 25, 1]);
again!(again_three, 20 + 2 + 6 + 18, [20, 0; 22, 4; 28, 16]);

/// A packet put together from attributes, sent and received: the same code,
/// identifier, authenticator (where it is sent as it is) and attributes, and
/// the receiver finds it authentic.
macro_rules! delivered {
    ($fname:ident, $total:expr, [$($off:expr, $sz:expr);*]) => {
        fn $fname(code: Code, wire: u8, request: u8) {
            let w = nd::array::<{ $total }>();
            let secret = nd::array::<3>();
            let q = nd::array::<20>();
            let t = nd::byte();
            let mut auth = [0u8; 16];
            auth.copy_from_slice(&q[4..20]);
            let rq = nd::packet(request, q[1], &auth, &secret);
            let mut p = if request == wire { rq } else { let r = rq.make_response_packet(code); nd::leak(rq); r };
            $( p.add(AVP::from_bytes(w[$off], &w[$off + 2..$off + 2 + $sz])); )*
            let sent = match p.encode() {
                Ok(got) => got,
                Err(_) => panic!("a small packet is encoded"),
            };
            // The wire image, whose lengths are constants to the solver: what
            // was sent is shown to be it, and the receiver is given it.
            let mut img = w;
            img[0] = wire;
            img[1] = q[1];
            img[2] = 0;
            img[3] = $total;
            $( img[$off + 1] = $sz + 2; )*
            assert!(sent.len() == $total, "a packet is its header and its attributes");
            img[4..20].copy_from_slice(&sent[4..20]);
            assert!(nd::eq_short(&sent[..4], &img[..4]) && nd::eq_short(&sent[20..], &img[20..]), "a packet is sent as its header and its attributes");
            nd::leak(sent);
            let sent = img;
            if request == wire {
                assert!(Packet::is_authentic_request(&sent, &secret), "the receiver finds the library's own request authentic");
            } else {
                let mut rb = q;
                rb[0] = request;
                rb[2] = 0;
                rb[3] = 20;
                assert!(Packet::is_authentic_response(&sent, &rb, &secret), "the requester finds the library's own response authentic");
            }
            let d = Packet::decode(&sent, &secret);
            match &d {
                Ok(r) => {
                    assert!(r.get_code() == code && r.get_identifier() == q[1], "code and identifier arrive");
                    assert!(!(wire == 1 || wire == 12) || nd::eq16(r.get_authenticator(), &auth), "an authenticator that is sent as it is arrives");
                    $(
                        match r.lookup(w[$off]) {
                            Some(a) => {
                                let v = a.encode_bytes();
                                assert!(nd::eq_short(&v, &w[$off + 2..$off + 2 + $sz]), "the attribute arrives");
                                nd::leak(v);
                            }
                            None => panic!("the attribute arrives"),
                        }
                    )*
                    $( nd::assume(w[$off] != t); )*
                    assert!(r.lookup(t).is_none(), "nothing else arrives");
                }
                Err(_) => panic!("the library accepts its own packets"),
            }
            nd::leak((p, d));
        }
    };
}
delivered!(deliver_none, 20, []);
delivered!(deliver_one, 20 + 5, [20, 3]);

/// An attribute of the largest size.
fn largest() {
    let (t, at, v, id) = (nd::byte(), nd::between(0, 252), nd::byte(), nd::byte());
    let mut val = [0x33u8; 253];
    val[at] = v;
    let mut p = nd::packet(1, id, &[4; 16], b"s");
    p.add(AVP::from_bytes(t, &val));
    let sent = match p.encode() {
        Ok(got) => got,
        Err(_) => panic!("an attribute of 253 bytes is encoded"),
    };
    match Packet::decode(&sent, b"s") {
        Ok(r) => {
            match r.lookup(t) {
                Some(a) => {
                    let w = a.encode_bytes();
                    assert!(w.len() == 253 && w[at] == v, "the largest attribute arrives whole");
                    nd::leak(w);
                }
                None => panic!("the largest attribute arrives"),
            }
            nd::leak(r);
        }
        Err(_) => panic!("the library accepts its own packets"),
    }
    nd::leak((p, sent));
}

proofs! {
    quick {
        none [18] => again_none(1);
        none_status [18] => again_none(12);
        empty [18] => again_empty(1);
        two [18] => again_two(12);
        three [18] => again_three(1);
        access [18] => deliver_one(Code::AccessRequest, 1, 1);
        status [18] => deliver_none(Code::StatusServer, 12, 12);
        acct [18] => deliver_one(Code::AccountingRequest, 4, 4);
        disconnect [18] => deliver_one(Code::DisconnectRequest, 40, 40);
        coa [18] => deliver_one(Code::CoARequest, 43, 43);
        accept [18] => deliver_one(Code::AccessAccept, 2, 1);
        accept_bare [18] => deliver_none(Code::AccessAccept, 2, 1);
        reject [18] => deliver_one(Code::AccessReject, 3, 1);
        challenge [18] => deliver_one(Code::AccessChallenge, 11, 1);
        acct_response [18] => deliver_one(Code::AccountingResponse, 5, 4);
        coa_ack [18] => deliver_one(Code::CoAACK, 44, 43);
        coa_nak [18] => deliver_one(Code::CoANAK, 45, 43);
        disconnect_ack [18] => deliver_one(Code::DisconnectACK, 41, 40);
        disconnect_nak [18] => deliver_one(Code::DisconnectNAK, 42, 40);
        big [4] => largest();
    }
}
