//! C24: the client returns the response to its request, or says what went wrong, in time.
use crate::nd;
use radius::client::{Client, ClientError};
use radius::core::packet::Packet;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::time::Duration;
use tokio::model as m;

fn v4() -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::from(nd::array::<4>())), nd::u16v())
}
fn v6() -> SocketAddr {
    SocketAddr::new(IpAddr::V6(Ipv6Addr::from(nd::array::<16>())), nd::u16v())
}
/// What takes how long, in milliseconds: the limits (0: none), and connecting, sending, receiving.
#[derive(Clone, Copy)]
struct Times(u64, u64, u64, u64, u64);
const SOON: Times = Times(50, 60, 10, 10, 20);
fn any_times(connect_limit: bool, socket_limit: bool) -> Times {
    let some = |y: bool| if y { nd::between(1, 255) as u64 } else { 0 };
    Times(some(connect_limit), some(socket_limit), nd::byte() as u64, nd::byte() as u64, nd::byte() as u64)
}
fn limit(t: u64) -> (Option<Duration>, u64) {
    if t > 0 {
        (Some(Duration::from_millis(t)), t)
    } else {
        (None, m::NEVER)
    }
}
fn response<const N: usize>(any: bool) -> [u8; N] {
    let d = if any { nd::array::<N>() } else { [7; N] };
    let i = &mut m::net().inbox[0];
    i.kind = 1;
    i.len = N;
    i.data[..N].copy_from_slice(&d);
    d
}

#[derive(Clone, Copy, PartialEq)]
enum Fails {
    Nothing,
    Bind,
    Connect,
    Encode,
    Send,
    Receive,
}

/// The whole exchange: a request without attributes, an answer of `N` bytes (none when 0) that takes its time.
fn exchange<const N: usize>(any: bool, code: u8, to: SocketAddr, times: Times, fails: Fails) {
    let (id, auth, secret) = if any { (nd::byte(), nd::array::<16>(), nd::array::<3>()) } else { (9, [3; 16], [5; 3]) };
    let d = if N > 0 { response::<N>(any) } else { [0; N] };
    let Times(ct, st, c, s, r) = times;
    let ((ct, connect_limit), (st, socket_limit)) = (limit(ct), limit(st));
    let n = m::net();
    // (an answer at the very moment the time is up may go either way)
    nd::assume(c != connect_limit && s + r != socket_limit && s != socket_limit);
    (n.connect_takes, n.send_takes, n.recv_takes) = (c, s, r);
    match fails {
        Fails::Bind => n.bind_fails = true,
        Fails::Connect => n.connect_fails = true,
        Fails::Send => n.send_fails = true,
        Fails::Receive => n.inbox[0].kind = 2,
        _ => (),
    }
    let request = nd::packet(code, id, &auth, &secret);
    let wire = request.encode();
    let client = Client::new(ct, st);
    let result = m::drive(client.send_packet(&to, &request));
    let n = m::net();

    // what went over the network
    assert!(n.bound == 1, "one socket is bound");
    match n.bound_addr {
        Some(a) => assert!(a.is_ipv4() == to.is_ipv4() && a.port() == 0 && a.ip().is_unspecified(), "the socket is any of the destination's kind"),
        None => panic!("the socket is any of the destination's kind"),
    }
    assert!(n.connected == (fails != Fails::Bind) as u8, "the socket is connected once");
    assert!(fails == Fails::Bind || n.connected_to == Some(to), "the socket is connected to the destination");
    let connects = !matches!(fails, Fails::Bind | Fails::Connect) && c < connect_limit;
    let sends = connects && fails != Fails::Encode;
    assert!(n.sent == sends as u8, "the request is sent once, when the connection is there");
    if sends {
        match &wire {
            Ok(w) => assert!(n.sent_len == 20 && w.len() == 20 && nd::eq_short(&n.sent_data[..20], w), "what is sent is the encoded request"),
            Err(_) => panic!("what is sent is the encoded request"),
        }
    }

    if n.receives > 0 {
        let room = if cfg!(kani) && n.room == 64 { unsafe { nd::ASKED.1 } } else { n.room };
        assert!(n.receives == 1 && room >= 4096, "an answer of any size is received, and only one");
    }

    // what comes of it
    let answered = sends && matches!(fails, Fails::Nothing) && N > 0 && s + r < socket_limit;
    let good = match &wire {
        Ok(w) => answered && Packet::is_authentic_response(&d, w, &secret),
        Err(_) => false,
    };
    let read = Packet::decode(&d, &secret);
    let good = good && read.is_ok() && d[1] == id;
    witness!(good, "answered");
    witness!(answered && !good, "answered by something else");
    witness!(sends && !answered, "not answered");
    match result {
        None => {
            assert!(sends && fails == Fails::Nothing && N == 0 && socket_limit == m::NEVER, "the client waits for ever only when it is told to and nothing comes");
        }
        Some(Ok(p)) => {
            assert!(good, "only an authentic response to this request that came in time is returned");
            match &read {
                Ok(q) => assert!(p.get_code() as u8 == q.get_code() as u8 && p.get_identifier() == d[1] && nd::eq16(&d[4..20], &auth_of(&p)), "the response that came is returned"),
                Err(_) => panic!("the response that came is returned"),
            }
            nd::leak(p);
        }
        Some(Err(e)) => {
            assert!(!good, "an authentic response to this request that came in time is returned");
            let right = match &e {
                ClientError::FailedUdpSocketBindingError(_) => fails == Fails::Bind,
                ClientError::ConnectionTimeoutError() => c > connect_limit && fails != Fails::Bind,
                ClientError::FailedEstablishingUdpConnectionError(..) => fails == Fails::Connect && c < connect_limit,
                ClientError::FailedRadiusPacketEncodingError(_) => fails == Fails::Encode && connects,
                ClientError::FailedSendingRadiusPacketError(..) => fails == Fails::Send && sends && s < socket_limit,
                ClientError::FailedReceivingResponseError(..) => fails == Fails::Receive && sends && s + r < socket_limit,
                ClientError::SocketTimeoutError() => sends && (s > socket_limit || fails != Fails::Send && (N == 0 && socket_limit != m::NEVER || s + r > socket_limit)),
                ClientError::FailedDecodingRadiusResponseError(_) => answered,
            };
            assert!(right, "the error says what went wrong");
            nd::leak(e);
        }
    }
    nd::leak(read);
    nd::leak(wire);
    nd::leak(request);
}
fn auth_of(p: &Packet) -> [u8; 16] {
    let mut a = [0; 16];
    let x = p.get_authenticator();
    assert!(x.len() == 16, "an authenticator has 16 bytes");
    a.copy_from_slice(x);
    a
}

/// Each limit applies to its own part of the exchange.
const CONNECT_BEYOND_SOCKET_LIMIT: Times = Times(60, 50, 55, 10, 20);
const ANSWER_BEYOND_CONNECT_LIMIT: Times = Times(50, 100, 10, 20, 60);
const ANSWER_TOO_LATE: Times = Times(100, 50, 10, 10, 70);
const ANSWER_TOO_LATE_IN_ALL: Times = Times(100, 50, 10, 30, 30);
const SENT_TOO_LATE: Times = Times(100, 50, 10, 70, 5);
const CONNECTED_TOO_LATE: Times = Times(50, 60, 55, 10, 20);
const ONLY_SOCKET_LIMIT: Times = Times(0, 50, 255, 10, 20);
const ONLY_CONNECT_LIMIT: Times = Times(50, 0, 10, 255, 255);
const ONLY_SOCKET_LIMIT_LATE: Times = Times(0, 50, 10, 30, 30);

proofs! {
    quick {
        bare [5 small] => exchange::<20>(true, 1, v4(), SOON, Fails::Nothing);
        one [5 small] => exchange::<23>(true, 1, v4(), SOON, Fails::Nothing);
        short [5 small] => exchange::<19>(true, 1, v4(), SOON, Fails::Nothing);
        unlimited [5 small] => exchange::<20>(true, 12, v6(), Times(0, 0, 10, 10, 20), Fails::Nothing);
        slow_connect [5 small] => exchange::<20>(true, 1, v4(), CONNECT_BEYOND_SOCKET_LIMIT, Fails::Nothing);
        slow_answer [5 small] => exchange::<20>(true, 1, v4(), ANSWER_BEYOND_CONNECT_LIMIT, Fails::Nothing);
        late_in_all [5 small] => exchange::<20>(true, 1, v4(), ANSWER_TOO_LATE_IN_ALL, Fails::Nothing);
        late_connected [5 small] => exchange::<20>(true, 1, v4(), CONNECTED_TOO_LATE, Fails::Nothing);
        silent [5 small] => exchange::<0>(false, 1, v4(), any_times(true, true), Fails::Nothing);
        bind [5 small] => exchange::<1>(false, 1, v4(), any_times(true, true), Fails::Bind);
        connect [5 small] => exchange::<0>(false, 1, v4(), any_times(true, true), Fails::Connect);
        encode [5 small] => exchange::<1>(false, 13, v4(), any_times(true, true), Fails::Encode);
        send [5 small] => exchange::<1>(false, 1, v4(), any_times(true, true), Fails::Send);
        receive [5 small] => exchange::<1>(false, 1, v4(), any_times(true, true), Fails::Receive);
    }
    thorough {
        over_v6 [5 small] => exchange::<20>(true, 1, v6(), SOON, Fails::Nothing);
        late [5 small] => exchange::<20>(true, 1, v4(), ANSWER_TOO_LATE, Fails::Nothing);
        late_sent [5 small] => exchange::<20>(true, 1, v4(), SENT_TOO_LATE, Fails::Nothing);
        only_socket [5 small] => exchange::<20>(true, 1, v4(), ONLY_SOCKET_LIMIT, Fails::Nothing);
        only_socket_late [5 small] => exchange::<20>(true, 1, v4(), ONLY_SOCKET_LIMIT_LATE, Fails::Nothing);
        only_connect [5 small] => exchange::<20>(true, 1, v4(), ONLY_CONNECT_LIMIT, Fails::Nothing);
        times_connect [5 small] => exchange::<1>(false, 1, v4(), any_times(true, false), Fails::Nothing);
        silent_for_ever [5 small] => exchange::<0>(false, 1, v4(), any_times(true, false), Fails::Nothing);
        bare_acct [24 small] => exchange::<20>(true, 4, v4(), SOON, Fails::Nothing);
        bare_coa [24 small] => exchange::<20>(true, 43, v4(), SOON, Fails::Nothing);
    }
}
