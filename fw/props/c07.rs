//! C07: is_authentic_response accepts exactly the responses sealed with the
//! secret for that request, including every response this library makes.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;

const ZERO: [u8; 16] = [0; 16];

fn refused_outright() {
    let a = nd::array::<22>();
    let b = nd::array::<22>();
    let s = nd::array::<2>();
    let (n, k, m) = (nd::between(0, 22), nd::between(0, 22), nd::between(0, 2));
    nd::assume(n < 20 || k < 20 || m == 0);
    assert!(!Packet::is_authentic_response(&a[..n], &b[..k], &s[..m]), "a truncated response or request, or an empty secret, is not authentic");
    witness!(n == 22 && k == 22, "whole packets with an empty secret");
    witness!(n == 19 && k == 22 && m == 2, "a truncated response");
    witness!(n == 22 && k == 19 && m == 2, "a truncated request");
}

/// Any response `N` bytes long to any request `K` bytes long.
fn sealed<const N: usize, const K: usize, const S: usize>(forged: bool) {
    let mut r = nd::array::<N>();
    let q = nd::array::<K>();
    let s = nd::array::<S>();
    let mask = nd::array::<16>();
    let variant = nd::between(0, 5);
    if !forged {
        nd::assume(nd::eq16(&mask, &ZERO));
        nd::assume(variant == 0);
    }
    let own = [r[4], r[5], r[6], r[7], r[18], r[9], r[10], r[11], r[12], r[13], r[14], r[15], r[16], r[17], r[18], r[19]];
    let good = nd::md5(nd::Buf::<96>::new().put(&r[..4]).put(&q[4..20]).put(&r[20..]).put(&s).get());
    let base = match variant {
        0 => good,
        1 => nd::md5(nd::Buf::<96>::new().put(&r[..4]).put(&q[4..20]).put(&r[20..]).get()),
        2 => nd::md5(nd::Buf::<96>::new().put(&r[..4]).put(&q[4..20]).put(&s).get()),
        3 => nd::md5(nd::Buf::<96>::new().put(&r[..4]).put(&own).put(&r[20..]).put(&s).get()),
        4 => nd::md5(nd::Buf::<96>::new().put(&r[..4]).put(&ZERO).put(&r[20..]).put(&s).get()),
        _ => own,
    };
    let auth = (u128::from_le_bytes(base) ^ u128::from_le_bytes(mask)).to_le_bytes();
    r[4..20].copy_from_slice(&auth);
    if forged {
        nd::assume(!nd::eq16(&auth, &good));
        assert!(!Packet::is_authentic_response(&r, &q, &s), "a response whose authenticator is not the MD5 of it, the request's authenticator and the secret is not authentic");
        witness!(variant == 0, "some bits flipped");
        witness!(variant == 5, "any other authenticator");
    } else {
        assert!(Packet::is_authentic_response(&r, &q, &s), "a response with the right authenticator is authentic");
        witness!(r[0] == 2, "Access-Accept");
        witness!(r[0] == 44, "CoA-ACK");
    }
}

/// What this library answers to a request is authentic to whoever sent it.
fn own_response(code: Code, req_code: u8) {
    let mut q = nd::array::<23>();
    let s = nd::array::<4>();
    let v = nd::array::<2>();
    let t = nd::byte();
    q[0] = req_code;
    q[2] = 0;
    q[3] = 23;
    q[21] = 3;
    match Packet::decode(&q, &s) {
        Ok(req) => {
            let mut p = req.make_response_packet(code);
            p.add(AVP::from_bytes(t, &v));
            match p.encode() {
                Ok(w) => {
                    assert!(Packet::is_authentic_response(&w, &q, &s), "the library's own response is authentic");
                    nd::leak(w);
                }
                Err(_) => panic!("a small response is encoded"),
            }
            nd::leak(p);
            nd::leak(req);
        }
        Err(_) => panic!("a well-formed request is accepted"),
    }
}

proofs! {
    quick {
        short_or_no_secret [4] => refused_outright();
        good [18] => sealed::<25, 22, 3>(false);
        forged [18] => sealed::<25, 22, 3>(true);
        bare_good [18] => sealed::<20, 20, 1>(false);
        bare_forged [18] => sealed::<20, 20, 1>(true);
        long_good [18] => sealed::<40, 30, 16>(false);
        long_forged [18] => sealed::<40, 30, 16>(true);
        own_accept [18] => own_response(Code::AccessAccept, 1);
        own_challenge [18] => own_response(Code::AccessChallenge, 1);
        own_acct [18] => own_response(Code::AccountingResponse, 4);
        own_coa [18] => own_response(Code::CoAACK, 43);
        own_disconnect [18] => own_response(Code::DisconnectNAK, 40);
    }
}
