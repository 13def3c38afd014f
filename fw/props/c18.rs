//! C18: packet codes.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::{Packet, PacketError};

fn expected(b: u8) -> Code {
    match b {
        1 => Code::AccessRequest,
        2 => Code::AccessAccept,
        3 => Code::AccessReject,
        4 => Code::AccountingRequest,
        5 => Code::AccountingResponse,
        11 => Code::AccessChallenge,
        12 => Code::StatusServer,
        13 => Code::StatusClient,
        40 => Code::DisconnectRequest,
        41 => Code::DisconnectACK,
        42 => Code::DisconnectNAK,
        43 => Code::CoARequest,
        44 => Code::CoAACK,
        45 => Code::CoANAK,
        255 => Code::Reserved,
        _ => Code::Invalid,
    }
}

/// The packets the library sends.
fn sendable(b: u8) -> bool {
    b == 1 || b == 2 || b == 3 || b == 4 || b == 5 || b == 11 || b == 12 || (40 <= b && b <= 45)
}

fn from_byte() {
    let b = nd::byte();
    let c = Code::from(b);
    assert!(c == expected(b), "every code byte has the meaning the RFCs give it, and any other is invalid");
    assert!(c == Code::Invalid || c as u8 == b, "a known code is written as the byte it was read from");
    assert!(c != Code::Invalid || c as u8 == 0, "the invalid code is written as zero");
    witness!(c == Code::CoANAK, "the last CoA code");
}

fn decoded() {
    let (b, id, auth) = (nd::byte(), nd::byte(), nd::array::<16>());
    let p = nd::packet(b, id, &auth, b"s");
    assert!(p.get_code() == expected(b), "a received packet has the code of its first byte");
    nd::leak(p);
}

/// Whether, and with which first byte, a packet of each code is encoded.
fn encoded(attr: bool) {
    let (b, id, v, auth) = (nd::byte(), nd::byte(), nd::byte(), nd::array::<16>());
    nd::constant_md5([3; 16]);
    let mut p = nd::packet(b, id, &auth, b"s");
    if attr {
        p.add(AVP::from_bytes(1, &[v]));
    }
    let r = p.encode();
    match &r {
        Ok(w) => {
            assert!(sendable(b), "no packet is sent with an invalid, reserved or Status-Client code");
            assert!(w[0] == b, "the first byte is the packet's code");
            assert!(w.len() == if attr { 23 } else { 20 }, "the packet is encoded whole");
        }
        Err(e) => {
            assert!(!sendable(b), "a packet of every other code is encoded");
            assert!(matches!(e, PacketError::UnknownCodeError(_)), "the refusal names the code");
        }
    }
    witness!(r.is_ok(), "encoded");
    witness!(r.is_err(), "refused");
    nd::leak(r);
    nd::leak(p);
}

fn named(c: Code, name: &'static str) {
    let at = nd::between(0, 30);
    let s = c.string();
    assert!(s.len() == name.len(), "a code has its name");
    assert!(at >= s.len() || s.as_bytes()[at] == name.as_bytes()[at], "a code has its name");
}
fn names() {
    named(Code::AccessRequest, "Access-Request");
    named(Code::AccessAccept, "Access-Accept");
    named(Code::AccessReject, "Access-Reject");
    named(Code::AccountingRequest, "Accounting-Request");
    named(Code::AccountingResponse, "Accounting-Response");
    named(Code::AccessChallenge, "Access-Challenge");
    named(Code::StatusServer, "Status-Server");
    named(Code::StatusClient, "Status-Client");
    named(Code::DisconnectRequest, "Disconnect-Request");
    named(Code::DisconnectACK, "Disconnect-ACK");
    named(Code::DisconnectNAK, "Disconnect-NAK");
    named(Code::CoARequest, "CoA-Request");
    named(Code::CoAACK, "CoA-ACK");
    named(Code::CoANAK, "CoA-NAK");
    named(Code::Reserved, "Reserved");
    named(Code::Invalid, "Invalid");
}

proofs! {
    quick {
        bytes [18] => from_byte();
        read [18] => decoded();
        write [18] => encoded(false);
        write_attr [18] => encoded(true);
        all_names [4] => names();
    }
}
