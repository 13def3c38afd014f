//! C05: the authenticators of outgoing packets.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::code::Code;

/// `code` on the wire -> does its authenticator hash zeros instead of the
/// packet's own (that is, the request's) authenticator?
fn zeroed(code: u8) -> bool {
    code == 4 || code == 40 || code == 43
}

/// A response made from any request, with attributes of the given sizes and a
/// secret of `S` bytes: identifier of the request, and the MD5 of code,
/// identifier, length, request authenticator, attributes and secret.
macro_rules! response {
    ($fname:ident, $slen:literal, $total:expr, [$($off:expr, $sz:expr);*]) => {
        fn $fname(code: Code, wire_code: u8) {
            let mut w = nd::array::<{ $total }>();
            let auth = nd::array::<16>();
            let secret = nd::array::<$slen>();
            let req_code = if zeroed(wire_code) { wire_code } else { 1 };
            let at = nd::between(0, $total - 1);
            w[0] = wire_code;
            w[2] = ($total as usize >> 8) as u8;
            w[3] = ($total as usize & 255) as u8;
            $( w[$off + 1] = $sz + 2; )*
            let mut req = nd::packet(req_code, w[1], &auth, &secret);
            let mut p = if zeroed(wire_code) {
                req
            } else {
                // an attribute of the request is not carried over
                req.add(AVP::from_bytes(1, &[1, 2]));
                let p = req.make_response_packet(code);
                nd::leak(req);
                p
            };
            assert!(p.get_code() == code && p.get_identifier() == w[1], "a response has the wanted code and the request's identifier");
            $( p.add(AVP::from_bytes(w[$off], &w[$off + 2..$off + 2 + $sz])); )*
            let own = if zeroed(wire_code) { [0u8; 16] } else { auth };
            let h = nd::md5(nd::Buf::<{ $total + $slen }>::new().put(&w[..4]).put(&own).put(&w[20..]).put(&secret).get());
            let want = nd::Buf::<{ $total }>::new().put(&w[..4]).put(&h).put(&w[20..]);
            match p.encode() {
                Ok(got) => {
                    assert!(got.len() == $total, "the authenticator does not change the length");
                    assert!(got[at] == want.b[at], "the authenticator is the MD5 of the packet, the request authenticator (zeros in a request) and the secret");
                    nd::leak(got);
                }
                Err(_) => panic!("a small packet is encoded"),
            }
            assert!(nd::eq16(p.get_authenticator(), &auth), "encoding leaves the packet's authenticator alone");
            nd::leak(p);
        }
    };
}
response!(bare, 3, 20, []);
response!(one, 5, 24, [20, 2]);
response!(two, 1, 20 + 3 + 6, [20, 1; 23, 4]);
response!(two_long_secret, 16, 20 + 2 + 5, [20, 0; 22, 3]);

/// Responses copy the request's identifier, authenticator and secret, and
/// start without attributes, for every code.
fn response_of() {
    let auth = nd::array::<16>();
    let secret = nd::array::<4>();
    let (id, t, wire) = (nd::byte(), nd::byte(), nd::byte());
    let code = Code::from(wire);
    let mut req = nd::packet(1, id, &auth, &secret);
    req.add(AVP::from_bytes(t, &[9]));
    let p = req.make_response_packet(code);
    assert!(p.get_code() == code, "a response has the wanted code");
    assert!(p.get_identifier() == id, "a response has the request's identifier");
    assert!(nd::eq16(p.get_authenticator(), &auth), "a response remembers the request's authenticator");
    assert!(nd::eq_short(p.get_secret(), &secret), "a response has the request's secret");
    assert!(p.lookup(t).is_none(), "a response starts without attributes");
    witness!(code == Code::AccessAccept, "accept");
    nd::leak(p);
    nd::leak(req);
}

proofs! {
    quick {
        of_request [18] => response_of();
        accept [18] => one(Code::AccessAccept, 2);
        reject [18] => one(Code::AccessReject, 3);
        challenge [18] => one(Code::AccessChallenge, 11);
        acct_response [18] => one(Code::AccountingResponse, 5);
        disconnect_ack [18] => one(Code::DisconnectACK, 41);
        disconnect_nak [18] => one(Code::DisconnectNAK, 42);
        coa_ack [18] => one(Code::CoAACK, 44);
        coa_nak [18] => one(Code::CoANAK, 45);
        acct_request [18] => one(Code::AccountingRequest, 4);
        disconnect_request [18] => one(Code::DisconnectRequest, 40);
        coa_request [18] => one(Code::CoARequest, 43);
        bare_accept [18] => bare(Code::AccessAccept, 2);
        bare_acct_request [18] => bare(Code::AccountingRequest, 4);
        two_challenge [18] => two(Code::AccessChallenge, 11);
        two_coa_request [18] => two_long_secret(Code::CoARequest, 43);
    }
}
