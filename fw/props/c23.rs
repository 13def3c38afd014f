//! C23: the server listens where it is told to, and serves until it is told to stop.
use crate::nd;
use crate::srv::*;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::model as m;

fn request(k: usize) {
    let mut d = nd::array::<20>();
    (d[0], d[2], d[3]) = (1, 0, 20);
    put(k, &d, peer(1, 1000));
}
/// The trigger: fires when asked the so-manieth time.
struct Stop(u8);
impl Future for Stop {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 || m::net().idle {
            return Poll::Ready(());
        }
        self.0 -= 1;
        Poll::Pending
    }
}

/// The trigger fires before or while the server waits; there may be a request to take.
fn told_to_stop(second_first: bool, at: u8, requests: usize) {
    m::net().select_second_first = second_first;
    request(0);
    m::net().avail = requests;
    let mut server = listening();
    server.set_buffer_size(32);
    match m::drive(server.run(Stop(at))) {
        Some(Ok(())) => (),
        Some(Err(_)) => panic!("the server ends well when it is told to stop"),
        None => panic!("the server ends when it is told to stop"),
    }
    assert!(m::net().next <= requests, "no datagram is taken twice");
    nd::leak(server);
}

/// Nobody tells it to stop: it serves on, unless its socket fails.
fn socket_fails() {
    request(0);
    m::net().inbox[1].kind = 2;
    m::net().avail = 2;
    let mut server = listening();
    server.set_buffer_size(32);
    match m::drive(server.run(core::future::pending::<()>())) {
        Some(Err(e)) => nd::leak(e),
        Some(Ok(())) => panic!("the server does not end well unless it is told to stop"),
        None => panic!("the server does not wait at a socket that fails"),
    }
    assert!(m::net().next == 2 && m::net().spawned == 1, "what came before is taken");
    nd::leak(server);
}

/// A server that was stopped can be run again.
fn again() {
    request(0);
    request(1);
    let mut server = listening();
    server.set_buffer_size(32);
    serve_all(&mut server, 1);
    serve_all(&mut server, 2);
    assert!(world().calls == 2, "a server that was stopped can be run again");
    nd::leak(server);
}

fn listen_address() {
    let port = u16::from_le_bytes(nd::array::<2>());
    m::net().local = Some(peer(nd::byte(), port));
    match m::drive(Srv::listen("10.1.2.3", 1812, H, P)) {
        Some(Ok(s)) => {
            assert!(m::net().bound == 1, "the server listens at one address");
            match s.get_listen_address() {
                Ok(a) => assert!(Some(a) == m::net().local, "the listening address is the socket's"),
                Err(_) => panic!("the listening address is known"),
            }
            m::net().local_addr_fails = 1;
            match s.get_listen_address() {
                Ok(_) => panic!("a socket without an address has none"),
                Err(e) => nd::leak(e),
            }
            nd::leak(s);
        }
        _ => panic!("listening succeeds when the address can be bound"),
    }
}
fn listen_fails() {
    m::net().bind_fails = true;
    match m::drive(Srv::listen("10.1.2.3", 1812, H, P)) {
        Some(Err(e)) => nd::leak(e),
        _ => panic!("what cannot be bound is reported"),
    }
}

proofs! {
    quick {
        idle [5] => told_to_stop(false, 9, 0);
        idle_other_order [5] => told_to_stop(true, 9, 0);
        busy [5] => told_to_stop(false, 9, 1);
        at_once [5] => told_to_stop(false, 0, 0);
        at_once_other_order [5] => told_to_stop(true, 0, 1);
        at_second [5] => told_to_stop(true, 1, 1);
        fails [5] => socket_fails();
        twice [5] => again();
        cannot_listen [5] => listen_fails();
        address [5] => listen_address();
    }
}
