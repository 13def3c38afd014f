//! C22: a request is handled once, however often it comes while it is being handled.
use crate::nd;
use crate::srv::*;
use std::net::SocketAddr;
use tokio::model as m;

/// A bare request.
fn bare(k: usize, id: u8, from: SocketAddr) {
    let mut d = [0u8; 20];
    d[0] = nd::byte();
    d[1] = id;
    d[3] = 20;
    put(k, &d, from);
}
fn somebody(symbolic: bool, port: u16) -> SocketAddr {
    if symbolic {
        peer(nd::byte(), u16::from_le_bytes(nd::array::<2>()))
    } else {
        peer(1, port)
    }
}
fn server() -> Srv {
    let mut server = listening();
    server.set_skip_authenticity_validation(true);
    server.set_buffer_size(32);
    server
}
fn served_meanwhile() {
    let upto = m::net().next + 1;
    serve(unsafe { &mut *world().server }, upto);
}
fn two_served_meanwhile() {
    served_meanwhile();
    served_meanwhile();
}

/// A comes, and while it is being handled B.
fn overlap(same_place: bool) {
    let (a, b) = (nd::byte(), nd::byte());
    let from_a = somebody(!same_place, 1000);
    let from_b = if same_place { from_a } else { somebody(true, 0) };
    bare(0, a, from_a);
    bare(1, b, from_b);
    let mut server = core::mem::ManuallyDrop::new(server());
    let w = world();
    w.server = &mut *server;
    w.waits[0] = true;
    w.meanwhile = served_meanwhile;
    serve_all(&mut server, 1);
    let same = a == b && from_a == from_b;
    assert!(w.call[0].ended && w.call[0].id == a && w.call[0].remote == Some(from_a), "the first request is handled");
    if same {
        assert!(w.calls == 1, "a request that is being handled is not handled once more");
    } else {
        assert!(w.calls == 2 && w.call[1].ended, "a request of another sender or identifier is handled");
        assert!(w.call[1].id == b && w.call[1].remote == Some(from_b), "a request of another sender or identifier is handled");
    }
    witness!(same, "the same request");
    witness!(a == b && from_a != from_b || same_place, "the same identifier from elsewhere");
    witness!(a != b && from_a == from_b, "another identifier of the same sender");
}

/// A comes, and while it is being handled B and C.
fn overlap_twice() {
    let (a, b, c) = (nd::byte(), nd::byte(), nd::byte());
    let from = peer(1, 1000);
    bare(0, a, from);
    bare(1, b, from);
    bare(2, c, from);
    let mut server = core::mem::ManuallyDrop::new(server());
    let w = world();
    w.server = &mut *server;
    w.waits[0] = true;
    w.meanwhile = two_served_meanwhile;
    serve_all(&mut server, 1);
    let want = 1 + (a != b) as usize + (a != c) as usize;
    assert!(w.calls == want, "as long as a request is being handled it is not handled once more, others are");
    witness!(want == 1, "both the same");
    witness!(want == 3, "both others");
}

/// A comes and is handled, then B.
fn one_after_the_other(fails: bool) {
    let (a, b) = (nd::byte(), nd::byte());
    let from = peer(1, 1000);
    bare(0, a, from);
    bare(1, b, from);
    let mut server = core::mem::ManuallyDrop::new(server());
    let w = world();
    w.way[0] = if fails { Way::Fails } else { Way::Succeeds };
    serve_all(&mut server, 2);
    assert!(w.calls == 2 && w.call[1].id == b, "once a request has been handled, the next one is, even with the same identifier");
    witness!(a == b, "the same identifier again");
}

proofs! {
    quick {
        same_sender [7 addr] => overlap(true);
        any_sender [7 addr] => overlap(false);
        twice [7 addr] => overlap_twice();
        again [7 addr] => one_after_the_other(false);
        again_after_failure [7 addr] => one_after_the_other(true);
    }
}
