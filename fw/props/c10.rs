//! C10: tunnel passwords are salted, hidden and recovered (RFC 2868 3.5).
use crate::nd;
use radius::core::avp::{AVPError, AVP};
use radius::core::tag::Tag;
use rand::tape::load_tape;

fn set_tape(t: u128) {
    let mut a = [0u8; rand::tape::TAPE];
    let b = t.to_le_bytes();
    a[..16].copy_from_slice(&b);
    load_tape(&a);
}

fn hidden<const L: usize, const S: usize>(tagged: bool) {
    hidden_at::<L, S>(tagged, 0xffff)
}

/// Checks the blocks of `mask` only.
fn hidden_at<const L: usize, const S: usize>(tagged: bool, mask: u16) {
    if mask != 0xffff {
        nd::constant_md5(nd::array::<16>());
    }
    let plain = nd::array::<L>();
    let secret = nd::array::<S>();
    let auth = nd::array::<16>();
    let typ = nd::byte();
    let tag = nd::byte();
    let tape = u128::from_le_bytes(nd::array::<16>());
    set_tape(tape);
    let t = Tag::new(tag);
    match AVP::from_tunnel_password(typ, if tagged { Some(&t) } else { None }, &plain, &secret, &auth) {
        Ok(avp) => {
            let blocks = if L == 0 { 1 } else { (L + 15) / 16 };
            let wire = avp.encode_bytes();
            assert!(wire.len() == 3 + 16 * blocks, "a tag, a salt of two bytes, and whole blocks of sixteen, at least one");
            assert!(wire[0] == if tagged { tag } else { 0 }, "the tag comes first, zero when unused");
            assert!(wire[1] & 0x80 == 0x80, "the most significant bit of the salt is set");
            let mut padded = [0u8; 256];
            padded[..L].copy_from_slice(&plain);
            macro_rules! block { ($($i:literal)*) => {$( if $i < blocks && mask & (1 << $i) != 0 {
                let h = if $i == 0 {
                    nd::md5(nd::Buf::<64>::new().put(&secret).put(&auth).put(&wire[1..3]).get())
                } else {
                    nd::md5(nd::Buf::<64>::new().put(&secret).put(&wire[3 + $i * 16 - 16..3 + $i * 16]).get())
                };
                assert!(nd::xor16(&wire[3 + $i * 16..$i * 16 + 19], &h, &padded[$i * 16..$i * 16 + 16]), "every block is its part of the password xor the MD5 of the secret and the previous block (first: authenticator and salt)");
            } )*}; }
            block!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
            if L <= 16 {
                assert!(avp == AVP::from_bytes(typ, &wire), "the attribute has the wanted type");
            }
            nd::leak((wire, avp));
        }
        Err(_) => panic!("a tunnel password of at most 240 bytes is hidden"),
    }
}

/// Every bit of the salt but the first follows the random source.
fn salt_is_random() {
    let secret = nd::array::<2>();
    let auth = nd::array::<16>();
    let tape = u128::from_le_bytes(nd::array::<16>());
    set_tape(tape);
    let a = AVP::from_tunnel_password(69, None, &[], &secret, &auth);
    set_tape(!tape);
    let b = AVP::from_tunnel_password(69, None, &[], &secret, &auth);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (a.encode_bytes(), b.encode_bytes());
            assert!((x[1] ^ y[1]) == 0x7f && (x[2] ^ y[2]) == 0xff, "fifteen bits of the salt come from the random source");
            nd::leak((x, y));
        }
        _ => panic!("an empty tunnel password is hidden"),
    }
    nd::leak((a, b));
}

/// Two attributes made one after the other draw their salts separately.
fn salt_is_fresh() {
    let secret = nd::array::<2>();
    let auth = nd::array::<16>();
    let tape = nd::array::<16>();
    // the source's values are pairwise different
    macro_rules! distinct { ($($i:literal)*) => {$( nd::assume(tape[$i] == tape[0] ^ $i); )*}; }
    distinct!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    set_tape(u128::from_le_bytes(tape));
    let a = AVP::from_tunnel_password(69, None, &[], &secret, &auth);
    let b = AVP::from_tunnel_password(69, None, &[], &secret, &auth);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (a.encode_bytes(), b.encode_bytes());
            assert!(x[1] != y[1] || x[2] != y[2], "two tunnel passwords get salts of their own");
            assert!(x[1] & 0x7f != x[2] & 0x7f, "the two salt bytes are drawn separately");
            nd::leak((x, y));
        }
        _ => panic!("an empty tunnel password is hidden"),
    }
    nd::leak((a, b));
}

fn cut_at_zero(got: &[u8], full: &[u8], at: usize) {
    let k = got.len();
    assert!(k <= full.len(), "a password is at most as long as its hidden form");
    if at < k {
        assert!(got[at] == full[at], "every byte is the hidden byte xor the MD5 of the secret and the previous block");
        assert!(full[at] != 0, "a password ends at the first zero byte");
    }
    assert!(k == full.len() || full[k] == 0, "a password goes on to the first zero byte");
}

/// Any value of `N` bytes, N = 3 + whole blocks, with any tag and salt.
fn unhide<const N: usize, const S: usize>() {
    let wire = nd::array::<N>();
    let secret = nd::array::<S>();
    let auth = nd::array::<16>();
    let at = nd::between(0, N - 4);
    let avp = AVP::from_bytes(69, &wire);
    let mut full = [0u8; 240];
    macro_rules! block { ($($i:literal)*) => {$( if $i * 16 < N - 3 {
        let h = if $i == 0 {
            nd::md5(nd::Buf::<64>::new().put(&secret).put(&auth).put(&wire[1..3]).get())
        } else {
            nd::md5(nd::Buf::<64>::new().put(&secret).put(&wire[3 + $i * 16 - 16..3 + $i * 16]).get())
        };
        let c = u128::from_le_bytes(<[u8; 16]>::try_from(&wire[3 + $i * 16..3 + $i * 16 + 16]).unwrap());
        full[$i * 16..$i * 16 + 16].copy_from_slice(&(c ^ u128::from_le_bytes(h)).to_le_bytes());
    } )*}; }
    block!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    match avp.encode_tunnel_password(&secret, &auth) {
        Ok((got, tag)) => {
            assert!(wire[1] & 0x80 == 0x80, "a salt without its top bit is refused");
            assert!(tag.get_value() == wire[0], "the tag is the first byte");
            cut_at_zero(&got, &full[..N - 3], at);
            witness!(got.is_empty(), "an empty password");
            witness!(got.len() == N - 3, "a password that fills its blocks");
            nd::leak(got);
        }
        Err(e) => {
            assert!(wire[1] & 0x80 == 0, "whole blocks with a proper salt are a password");
            assert!(matches!(&e, AVPError::InvalidSaltMSBError(s) if *s == wire[1]), "the refusal reports the salt");
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

/// The longest values: accepted, and as long as they are when nothing in them
/// decrypts to zero.
fn accepted<const N: usize>() {
    nd::constant_md5([0x55; 16]);
    let mut wire = [0x21u8; N];
    wire[0] = nd::byte();
    wire[1] = nd::byte() | 0x80;
    let avp = AVP::from_bytes(69, &wire);
    match avp.encode_tunnel_password(&[7], &[9; 16]) {
        Ok((got, tag)) => {
            assert!(tag.get_value() == wire[0], "the tag is the first byte");
            nd::leak(got);
        }
        Err(_) => panic!("whole blocks with a proper salt are a password"),
    }
    nd::leak(avp);
}

/// Hidden and recovered: the same `L` bytes.
fn round_trip<const L: usize, const S: usize>(tagged: bool) {
    let plain = nd::array::<L>();
    let secret = nd::array::<S>();
    let auth = nd::array::<16>();
    let tag = nd::byte();
    let at = nd::between(0, if L == 0 { 0 } else { L - 1 });
    let tape = u128::from_le_bytes(nd::array::<16>());
    set_tape(tape);
    // a NUL cannot be told from padding, and is not claimed to survive
    macro_rules! no_nul { ($($i:literal)*) => {$( if $i < L { nd::assume(plain[$i] != 0); } )*}; }
    no_nul!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34);
    let t = Tag::new(tag);
    let avp = match AVP::from_tunnel_password(69, if tagged { Some(&t) } else { None }, &plain, &secret, &auth) {
        Ok(avp) => avp,
        Err(_) => panic!("a short tunnel password is accepted"),
    };
    match avp.encode_tunnel_password(&secret, &auth) {
        Ok((got, t)) => {
            assert!(t.get_value() == if tagged { tag } else { 0 }, "the tag comes back");
            assert!(got.len() == L, "a tunnel password comes back with its length");
            assert!(L == 0 || got[at] == plain[at], "a tunnel password comes back unchanged");
            nd::leak(got);
        }
        Err(_) => panic!("a hidden tunnel password is recovered"),
    }
    nd::leak(avp);
}

fn hide_refused<const L: usize, const S: usize, const A: usize>() {
    let plain = nd::array::<L>();
    let secret = nd::array::<S>();
    let auth = nd::array::<A>();
    let tag = nd::byte();
    set_tape(u128::from_le_bytes(nd::array::<16>()));
    match AVP::from_tunnel_password(69, Some(&Tag::new(tag)), &plain, &secret, &auth) {
        Ok(_) => panic!("refused: too long, no secret, or a malformed authenticator"),
        Err(e) => {
            if L > 240 {
                assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, n) if *n == L), "the refusal reports the length");
            } else if S == 0 {
                assert!(e == AVPError::PasswordSecretMissingError(), "the refusal names the missing secret");
            } else {
                assert!(e == AVPError::InvalidRequestAuthenticatorLength(), "the refusal names the authenticator");
            }
            nd::leak(e);
        }
    }
}

fn bad_value<const N: usize>() {
    let wire = nd::array::<N>();
    let secret = nd::array::<3>();
    let auth = nd::array::<16>();
    let avp = AVP::from_bytes(69, &wire);
    match avp.encode_tunnel_password(&secret, &auth) {
        Ok(_) => panic!("a value that is not a tag, a salt and whole blocks is no tunnel password"),
        Err(e) => {
            assert!(matches!(&e, AVPError::InvalidAttributeLengthError(_, n) if *n == N), "the refusal reports the length");
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

fn bad_key<const S: usize, const A: usize>() {
    let mut wire = nd::array::<19>();
    let secret = nd::array::<S>();
    let auth = nd::array::<A>();
    wire[1] |= 0x80;
    let avp = AVP::from_bytes(69, &wire);
    match avp.encode_tunnel_password(&secret, &auth) {
        Ok(_) => panic!("a tunnel password is not recovered without secret or authenticator"),
        Err(e) => {
            if A == 16 {
                assert!(e == AVPError::PasswordSecretMissingError(), "the refusal names the missing secret");
            } else {
                assert!(e == AVPError::InvalidRequestAuthenticatorLength(), "the refusal names the authenticator");
            }
            nd::leak(e);
        }
    }
    nd::leak(avp);
}

proofs! {
    quick {
        len0 [22] => hidden::<0, 3>(true);
        len1 [22] => hidden::<1, 5>(false);
        len16 [22] => hidden::<16, 7>(false);
        len17 [18] => hidden::<17, 2>(true);
        len240 [18] => hidden_at::<240, 2>(false, 0x7fff);
        salt_random [18] => salt_is_random();
        salt_fresh [18] => salt_is_fresh();
        one_block [18] => unhide::<19, 3>();
        two_blocks [34] => unhide::<35, 16>();
        fifteen_blocks [242] => accepted::<243>();
        rt0 [18] => round_trip::<0, 3>(true);
        rt1 [18] => round_trip::<1, 7>(false);
        rt16 [18] => round_trip::<16, 3>(true);
        rt17 [34] => round_trip::<17, 4>(true);
        long241 [18] => hide_refused::<241, 3, 16>();
        long496 [18] => hide_refused::<496, 3, 16>();
        hide_no_secret [18] => hide_refused::<5, 0, 16>();
        hide_auth17 [18] => hide_refused::<17, 2, 17>();
        bad18 [18] => bad_value::<18>();
        bad20 [18] => bad_value::<20>();
        bad242 [18] => bad_value::<242>();
        bad253 [18] => bad_value::<253>();
        no_secret [18] => bad_key::<0, 16>();
        auth0 [18] => bad_key::<2, 0>();
        auth17 [18] => bad_key::<2, 17>();
    }
    thorough {
        hide_auth15 [18] => hide_refused::<0, 2, 15>();
        auth15 [18] => bad_key::<2, 15>();
        len15 [22] => hidden::<15, 16>(true);
        rt33 [50] => round_trip::<33, 20>(true);
        len33 [18] => hidden::<33, 17>(true);
        three_blocks [50] => unhide::<51, 1>();
        bad0 [18] => bad_value::<0>();
        bad259 [18] => bad_value::<259>();
        bad34 [18] => bad_value::<34>();
        bad3 [18] => bad_value::<3>();
        long256 [18] => hide_refused::<256, 3, 16>();
        fourteen_blocks [242] => accepted::<227>();
        len31 [18] => hidden::<31, 4>(true);
        len32 [18] => hidden::<32, 6>(true);
        len64 [18] => hidden::<64, 8>(true);
        len100 [18] => hidden::<100, 9>(true);
        len128 [18] => hidden::<128, 9>(true);
        len129 [18] => hidden::<129, 9>(true);
        len239 [18] => hidden::<239, 10>(true);
        five_blocks [82] => unhide::<83, 3>();
        eight_blocks [130] => unhide::<131, 3>();
        rt15 [18] => round_trip::<15, 7>(false);
        rt32 [34] => round_trip::<32, 11>(true);
    }
}
