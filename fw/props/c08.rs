//! C08: a user password goes over the wire hidden exactly as RFC 2865 5.2 says.
use crate::nd;
use radius::core::avp::{AVPError, AVP};

/// `L` bytes of password under a secret of `S` bytes: as many whole blocks as
/// the password needs (at least one), block i being p(i) xor MD5(S + c(i-1)),
/// with c(0) the request authenticator.
fn hidden<const L: usize, const S: usize>() {
    let plain = nd::array::<L>();
    let secret = nd::array::<S>();
    let auth = nd::array::<16>();
    let typ = nd::byte();
    match AVP::from_user_password(typ, &plain, &secret, &auth) {
        Ok(avp) => {
            let blocks = if L == 0 { 1 } else { (L + 15) / 16 };
            let wire = avp.encode_bytes();
            assert!(wire.len() == 16 * blocks, "a password is padded to whole blocks of sixteen, at least one");
            let mut padded = [0u8; 128];
            padded[..L].copy_from_slice(&plain);
            macro_rules! block { ($($i:literal)*) => {$( if $i < blocks {
                let prev: &[u8] = if $i == 0 { &auth } else { &wire[$i * 16 - 16..$i * 16] };
                let h = nd::md5(nd::Buf::<64>::new().put(&secret).put(prev).get());
                assert!(nd::xor16(&wire[$i * 16..$i * 16 + 16], &h, &padded[$i * 16..$i * 16 + 16]), "every block is its part of the password xor the MD5 of the secret and the previous block");
            } )*}; }
            block!(0 1 2 3 4 5 6 7);
            if L <= 16 {
                assert!(avp == AVP::from_bytes(typ, &wire), "the attribute has the wanted type");
            }
            nd::leak((wire, avp));
        }
        Err(_) => panic!("a password of at most 128 bytes is hidden"),
    }
}

/// A password that is too long is refused, whatever it holds.
fn too_long<const L: usize>() {
    let plain = nd::array::<L>();
    let secret = nd::array::<3>();
    let auth = nd::array::<16>();
    match AVP::from_user_password(nd::byte(), &plain, &secret, &auth) {
        Ok(_) => panic!("a password of more than 128 bytes is refused"),
        Err(e) => {
            assert!(e == AVPError::UserPasswordPlainTextMaximumLengthExceededError(L), "the refusal reports the length");
            nd::leak(e);
        }
    }
}

fn no_secret<const L: usize>() {
    let plain = nd::array::<L>();
    let auth = nd::array::<16>();
    match AVP::from_user_password(nd::byte(), &plain, &[], &auth) {
        Ok(_) => panic!("a password is not hidden without a secret"),
        Err(e) => {
            assert!(e == AVPError::PasswordSecretMissingError(), "the refusal names the missing secret");
            nd::leak(e);
        }
    }
}

fn bad_authenticator<const L: usize, const A: usize>() {
    let plain = nd::array::<L>();
    let secret = nd::array::<3>();
    let auth = nd::array::<A>();
    match AVP::from_user_password(nd::byte(), &plain, &secret, &auth) {
        Ok(_) => panic!("a password is not hidden with a malformed authenticator"),
        Err(e) => {
            assert!(e == AVPError::InvalidRequestAuthenticatorLength(), "the refusal names the authenticator");
            nd::leak(e);
        }
    }
}

proofs! {
    quick {
        len0 [18] => hidden::<0, 3>();
        len1 [18] => hidden::<1, 5>();
        len15 [18] => hidden::<15, 16>();
        len16 [18] => hidden::<16, 7>();
        len17 [18] => hidden::<17, 2>();
        len33 [18] => hidden::<33, 17>();
        len64 [18] => hidden::<64, 14>();
        len128 [18] => hidden::<128, 4>();
        refused129 [18] => too_long::<129>();
        refused253 [18] => too_long::<253>();
        refused256 [18] => too_long::<256>();
        no_secret0 [18] => no_secret::<0>();
        no_secret20 [18] => no_secret::<20>();
        auth0 [18] => bad_authenticator::<4, 0>();
        auth15 [18] => bad_authenticator::<0, 15>();
        auth17 [18] => bad_authenticator::<17, 17>();
        auth32 [18] => bad_authenticator::<1, 32>();
    }
    thorough {
        refused144 [18] => too_long::<144>();
        len127 [18] => hidden::<127, 3>();
        len100 [18] => hidden::<100, 3>();
        len48 [18] => hidden::<48, 9>();
        len32 [18] => hidden::<32, 4>();
        len31 [18] => hidden::<31, 40>();
        len8 [18] => hidden::<8, 1>();
        len2 [18] => hidden::<2, 6>();
        len14 [18] => hidden::<14, 11>();
        len47 [18] => hidden::<47, 10>();
        len49 [18] => hidden::<49, 12>();
        len63 [18] => hidden::<63, 13>();
        len65 [18] => hidden::<65, 15>();
        len80 [18] => hidden::<80, 32>();
        len96 [18] => hidden::<96, 48>();
        len111 [18] => hidden::<111, 1>();
        len112 [18] => hidden::<112, 2>();
        len113 [18] => hidden::<113, 20>();
        refused160 [18] => too_long::<160>();
        refused512 [18] => too_long::<512>();
    }
}
