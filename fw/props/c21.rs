//! C21: the server hands a request to the handler exactly when it may.
use crate::nd;
use crate::srv::*;
use radius::core::packet::Packet;
use tokio::model as m;

#[derive(Clone, Copy, PartialEq)]
enum Provider {
    Gives,
    Empty,
    Fails,
}

/// One datagram of `N` bytes.
fn gate<const N: usize>(skip: bool, provider: Provider, code: Option<u8>) {
    let (mut d, secret) = (nd::array::<N>(), nd::array::<3>());
    if let Some(c) = code {
        d[0] = c;
    }
    put(0, &d, peer(1, 1000));
    world().secret = secret;
    world().secret_len = match provider { Provider::Empty => 0, _ => 3 };
    world().secret_fails = provider == Provider::Fails;
    let mut server = listening();
    if skip {
        server.set_skip_authenticity_validation(true);
    }
    server.set_buffer_size(64);
    serve_all(&mut server, 1);
    nd::leak(server);
    let w = world();
    let authentic = provider == Provider::Gives && Packet::is_authentic_request(&d, &secret);
    let read = Packet::decode(&d, &secret);
    let want = provider == Provider::Gives && (skip || authentic) && read.is_ok();
    assert!(w.calls <= 1, "a request is handled once");
    assert!((w.calls == 1) == want, "a datagram reaches the handler exactly when it is authentic (unless that is not asked for) and well-formed");
    assert!(w.asked == 1 && w.asked_for == Some(peer(1, 1000)), "the secret is that of the sender");
    if w.calls == 1 {
        let c = &w.call[0];
        assert!(c.remote == Some(peer(1, 1000)) && c.local == m::net().local, "the handler is told the sender and the own address");
        assert!(c.code == radius::core::code::Code::from(d[0]) as u8 && c.id == d[1], "the handler gets the packet that came");
        assert!(nd::eq16(&d[4..20], &c.auth), "the handler gets the packet that came");
        assert!(c.secret_len == 3 && c.secret == secret, "the packet carries the sender's secret");
    }
    assert!(m::net().sent == 0, "the server itself sends nothing");
    witness!(w.calls == 1, "handled");
    witness!(w.calls == 0, "dropped");
    nd::leak(read);
}

/// What does not fit the buffer is not looked at.
fn cut_off() {
    let (d, secret) = (nd::array::<26>(), nd::array::<3>());
    put(0, &d, peer(1, 1000));
    world().secret = secret;
    let mut server = listening();
    server.set_skip_authenticity_validation(true);
    server.set_buffer_size(23);
    serve_all(&mut server, 1);
    nd::leak(server);
    let read = Packet::decode(&d[..23], &secret);
    assert!((world().calls == 1) == read.is_ok(), "a datagram is read as far as the buffer goes");
    witness!(world().calls == 1, "handled");
    witness!(world().calls == 0, "dropped");
    nd::leak(read);
}

/// The buffer a datagram is received into.
fn buffer() {
    put(0, &[0], peer(1, 1000));
    let mut server = listening();
    serve_all(&mut server, 1);
    assert!(m::net().room == 1500, "datagrams of up to 1500 bytes are taken");
    m::net().next = 0;
    server.set_buffer_size(300);
    serve_all(&mut server, 1);
    assert!(m::net().room == 300, "datagrams of up to the size that was set are taken");
    nd::leak(server);
}

/// A datagram the server can do nothing with does not keep it from the next one.
fn goes_on(why: u8) {
    let (bad, mut d) = (nd::array::<20>(), nd::array::<20>());
    (d[0], d[2], d[3]) = (1, 0, 20);
    put(0, &bad, peer(1, 1000));
    put(1, &d, peer(2, 1000));
    let mut server = listening();
    server.set_buffer_size(64);
    match why {
        0 => nd::assume(bad[3] != 20),
        1 => m::net().local_addr_fails = 1,
        2 => world().secret_fails_once = true,
        3 => world().secret_empty_once = true,
        // a failing handler
        _ => {
            nd::assume(bad[0] == 1 && bad[2] == 0 && bad[3] == 20);
            world().way[0] = Way::Fails;
        }
    }
    serve_all(&mut server, 2);
    nd::leak(server);
    let w = world();
    let n = if why > 3 { 2 } else { 1 };
    assert!(w.calls == n, "the server goes on with the next datagram");
    assert!(w.call[n - 1].id == d[1] && w.call[n - 1].remote == Some(peer(2, 1000)), "the server goes on with the next datagram");
}

proofs! {
    quick {
        short [5] => gate::<19>(true, Provider::Gives, None);
        bare [5] => gate::<20>(false, Provider::Gives, None);
        bare_skip [5] => gate::<20>(true, Provider::Gives, None);
        one [5] => gate::<23>(false, Provider::Gives, None);
        one_skip [5] => gate::<23>(true, Provider::Gives, None);
        acct [5] => gate::<22>(false, Provider::Gives, Some(4));
        coa [5] => gate::<20>(false, Provider::Gives, Some(43));
        empty [5] => gate::<20>(true, Provider::Empty, None);
        fails [5] => gate::<20>(true, Provider::Fails, None);
        cut [5] => cut_off();
        room [5] => buffer();
        after_malformed [5] => goes_on(0);
        after_no_address [5] => goes_on(1);
        after_no_secret [5] => goes_on(2);
        after_empty_secret [5] => goes_on(3);
        after_failed_handler [5] => goes_on(4);
    }
    thorough {
        more [6] => gate::<26>(false, Provider::Gives, None);
        more_skip [6] => gate::<26>(true, Provider::Gives, None);
        disconnect [5] => gate::<20>(false, Provider::Gives, Some(40));
    }
}
