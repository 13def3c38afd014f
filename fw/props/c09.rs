//! C09: what reads a hidden user password recovers exactly what was hidden.
use crate::nd;
use radius::core::avp::{AVPError, AVP};
use radius::core::rfc2865;

/// Checks `got` against `full` cut at its first zero byte, without a loop.
fn cut_at_zero(got: &[u8], full: &[u8], at: usize) {
    let k = got.len();
    assert!(k <= full.len(), "a password is at most as long as its hidden form");
    if at < k {
        assert!(got[at] == full[at], "every byte is the hidden byte xor the MD5 of the secret and the previous block");
        assert!(full[at] != 0, "a password ends at the first zero byte");
    }
    assert!(k == full.len() || full[k] == 0, "a password goes on to the first zero byte");
}

/// Any value of `N` bytes (whole blocks).
fn unhide<const N: usize, const S: usize>() {
    let wire = nd::array::<N>();
    let secret = nd::array::<S>();
    let auth = nd::array::<16>();
    let typ = nd::byte();
    let at = nd::between(0, N - 1);
    let avp = AVP::from_bytes(typ, &wire);
    let mut full = [0u8; N];
    macro_rules! block { ($($i:literal)*) => {$( if $i * 16 < N {
        let h = {
            let prev: &[u8] = if $i == 0 { &auth } else { &wire[$i * 16 - 16..$i * 16] };
            nd::md5(nd::Buf::<64>::new().put(&secret).put(prev).get())
        };
        let c = u128::from_le_bytes(<[u8; 16]>::try_from(&wire[$i * 16..$i * 16 + 16]).unwrap());
        full[$i * 16..$i * 16 + 16].copy_from_slice(&(c ^ u128::from_le_bytes(h)).to_le_bytes());
    } )*}; }
    block!(0 1 2 3 4 5 6 7);
    match avp.encode_user_password(&secret, &auth) {
        Ok(got) => {
            cut_at_zero(&got, &full, at);
            witness!(got.is_empty(), "an empty password");
            witness!(got.len() == N, "a password that fills its blocks");
            witness!(got.len() + 1 == N, "a password that ends in a zero byte");
            nd::leak(got);
        }
        Err(_) => panic!("whole blocks are a password"),
    }
    nd::leak(avp);
}

/// The longest values are accepted.
fn accepted<const N: usize>() {
    nd::constant_md5([0x55; 16]);
    let wire = [0x21u8; N];
    let avp = AVP::from_bytes(2, &wire);
    match avp.encode_user_password(&[7], &[9; 16]) {
        Ok(got) => nd::leak(got),
        Err(_) => panic!("whole blocks are a password"),
    }
    nd::leak(avp);
}

/// Hidden, put into a packet, taken out, recovered: the same `L` bytes.
fn round_trip<const L: usize, const S: usize>() {
    let plain = nd::array::<L>();
    let secret = nd::array::<S>();
    let auth = nd::array::<16>();
    let id = nd::byte();
    let at = nd::between(0, if L == 0 { 0 } else { L - 1 });
    // a NUL cannot be told from padding, and is not claimed to survive
    macro_rules! no_nul { ($($i:literal)*) => {$( if $i < L { nd::assume(plain[$i] != 0); } )*}; }
    no_nul!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34);
    let mut p = nd::packet(1, id, &auth, &secret);
    match rfc2865::add_user_password(&mut p, &plain) {
        Ok(()) => {}
        Err(_) => panic!("a short password is accepted"),
    }
    match rfc2865::lookup_user_password(&p) {
        Some(Ok(got)) => {
            assert!(got.len() == L, "a password comes back with its length");
            assert!(L == 0 || got[at] == plain[at], "a password comes back unchanged");
            nd::leak(got);
        }
        _ => panic!("a hidden password is found and recovered"),
    }
    nd::leak(p);
}

fn bad_value<const N: usize>() {
    let wire = nd::array::<N>();
    let secret = nd::array::<3>();
    let auth = nd::array::<16>();
    let avp = AVP::from_bytes(2, &wire);
    match avp.encode_user_password(&secret, &auth) {
        Ok(_) => panic!("a value outside 16..=128 bytes is no password"),
        Err(e) => {
            assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, n) if *n == N), "the refusal reports the length");
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

fn bad_key<const S: usize, const A: usize>() {
    let wire = nd::array::<16>();
    let secret = nd::array::<S>();
    let auth = nd::array::<A>();
    let avp = AVP::from_bytes(2, &wire);
    match avp.encode_user_password(&secret, &auth) {
        Ok(_) => panic!("a password is not recovered without secret or authenticator"),
        Err(e) => {
            if A == 16 {
                assert!(e == AVPError::PasswordSecretMissingError(), "the refusal names the missing secret");
            } else {
                assert!(e == AVPError::InvalidRequestAuthenticatorLength(), "the refusal names the authenticator");
            }
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

proofs! {
    quick {
        one_block [18] => unhide::<16, 3>();
        two_blocks [34] => unhide::<32, 16>();
        eight_blocks [130] => accepted::<128>();
        rt0 [18] => round_trip::<0, 3>();
        rt1 [18] => round_trip::<1, 7>();
        rt16 [18] => round_trip::<16, 3>();
        rt17 [34] => round_trip::<17, 4>();
        rt32 [34] => round_trip::<32, 1>();
        bad1 [18] => bad_value::<1>();
        bad15 [18] => bad_value::<15>();
        bad129 [18] => bad_value::<129>();
        bad253 [18] => bad_value::<253>();
        no_secret [18] => bad_key::<0, 16>();
        auth0 [18] => bad_key::<2, 0>();
        auth17 [18] => bad_key::<2, 17>();
    }
    thorough {
        rt15 [18] => round_trip::<15, 2>();
        rt33 [50] => round_trip::<33, 40>();
        three_blocks [50] => unhide::<48, 1>();
        auth15 [18] => bad_key::<2, 15>();
        bad144 [18] => bad_value::<144>();
        bad0 [18] => bad_value::<0>();
        seven_long [130] => accepted::<112>();
        eight_whole [130] => unhide::<128, 2>();
        four_blocks [66] => unhide::<64, 40>();
        five_blocks [82] => unhide::<80, 3>();
        six_blocks [98] => unhide::<96, 3>();
        seven_blocks [114] => unhide::<112, 3>();
        rt2 [18] => round_trip::<2, 7>();
        rt8 [18] => round_trip::<8, 17>();
        rt31 [34] => round_trip::<31, 5>();
    }
}
