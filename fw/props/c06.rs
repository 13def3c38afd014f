//! C06: is_authentic_request decides exactly as RFC 2866/5176 say.
use crate::nd;
use radius::core::packet::Packet;

const ZERO: [u8; 16] = [0; 16];

/// Anything shorter than a header, and any empty secret, is refused.
fn refused_outright() {
    let b = nd::array::<24>();
    let s = nd::array::<2>();
    let n = nd::between(0, 24);
    let m = nd::between(0, 2);
    nd::assume(n < 20 || m == 0);
    assert!(!Packet::is_authentic_request(&b[..n], &s[..m]), "a truncated request, or one checked with an empty secret, is not authentic");
    witness!(n == 24, "a whole request with an empty secret");
    witness!(n == 19 && m == 2, "a truncated request");
}

/// Codes without a request authenticator to check, and codes that are no
/// requests at all.
fn by_code() {
    let b = nd::array::<22>();
    let s = nd::array::<2>();
    let c = b[0];
    nd::assume(c != 4 && c != 40 && c != 43);
    let want = c == 1 || c == 12;
    assert!(Packet::is_authentic_request(&b, &s) == want, "Access-Request and Status-Server pass, what is not a request fails");
    witness!(c == 1, "Access-Request");
    witness!(c == 2, "Access-Accept");
}

/// `code` with the correct authenticator, xor-ed with `mask`.
fn sealed<const N: usize, const S: usize>(code: u8, forged: bool) {
    let mut b = nd::array::<N>();
    let s = nd::array::<S>();
    let mask = nd::array::<16>();
    let variant = nd::between(0, 5);
    b[0] = code;
    if !forged {
        nd::assume(nd::eq16(&mask, &ZERO));
        nd::assume(variant == 0);
    }
    let own = [b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15], b[16], b[17], b[18], b[19]];
    let good = nd::md5(nd::Buf::<96>::new().put(&b[..4]).put(&ZERO).put(&b[20..]).put(&s).get());
    // what a forger without the secret, or a careless implementation, would hash
    let base = match variant {
        0 => good,
        1 => nd::md5(nd::Buf::<96>::new().put(&b[..4]).put(&ZERO).put(&b[20..]).get()),
        2 => nd::md5(nd::Buf::<96>::new().put(&b[..4]).put(&ZERO).put(&s).get()),
        3 => nd::md5(nd::Buf::<96>::new().put(&b[..4]).put(&own).put(&b[20..]).put(&s).get()),
        4 => nd::md5(nd::Buf::<96>::new().put(&ZERO).put(&b[20..]).put(&s).get()),
        _ => own,
    };
    let auth = (u128::from_le_bytes(base) ^ u128::from_le_bytes(mask)).to_le_bytes();
    b[4..20].copy_from_slice(&auth);
    let want = nd::eq16(&auth, &good);
    if forged {
        nd::assume(!want);
        assert!(!Packet::is_authentic_request(&b, &s), "a request whose authenticator is not the MD5 of it and the secret is not authentic");
        witness!(variant == 0, "some bits flipped");
        witness!(variant == 5, "any other authenticator");
    } else {
        assert!(Packet::is_authentic_request(&b, &s), "a request with the right authenticator is authentic");
    }
}

proofs! {
    quick {
        short_or_no_secret [4] => refused_outright();
        other_codes [18] => by_code();
        acct_good [18] => sealed::<25, 3>(4, false);
        acct_forged [18] => sealed::<25, 3>(4, true);
        disconnect_good [18] => sealed::<25, 3>(40, false);
        disconnect_forged [18] => sealed::<25, 3>(40, true);
        coa_good [18] => sealed::<25, 3>(43, false);
        coa_forged [18] => sealed::<25, 3>(43, true);
        bare_good [18] => sealed::<20, 1>(4, false);
        bare_forged [18] => sealed::<20, 1>(43, true);
        long_good [18] => sealed::<40, 16>(4, false);
        long_forged [18] => sealed::<40, 16>(40, true);
    }
}
