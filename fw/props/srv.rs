//! The world around the server: a handler and a secret provider whose behaviour the
//! harness sets and whose calls it reads back.
use crate::nd;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::model as m;
use tokio::net::UdpSocket;

pub const CALLS: usize = 4;

#[derive(Clone, Copy)]
pub struct Call {
    pub code: u8,
    pub id: u8,
    pub auth: [u8; 16],
    pub secret: [u8; 3],
    pub secret_len: usize,
    pub local: Option<SocketAddr>,
    pub remote: Option<SocketAddr>,
    pub begun: bool,
    /// Has the handler come to its end?
    pub ended: bool,
}
const NONE: Call = Call { code: 0, id: 0, auth: [0; 16], secret: [0; 3], secret_len: 0, local: None, remote: None, begun: false, ended: false };

/// How the handler goes on: it waits until its turn, then succeeds or fails.
#[derive(Clone, Copy, PartialEq)]
pub enum Way {
    Succeeds,
    Fails,
    Panics,
}

pub struct World {
    pub magic: u64,
    pub secret: [u8; 3],
    pub secret_len: usize,
    pub secret_fails: bool,
    pub secret_fails_once: bool,
    pub secret_empty_once: bool,
    pub asked: u8,
    pub asked_for: Option<SocketAddr>,
    pub made: usize,
    pub calls: usize,
    pub call: [Call; CALLS],
    /// Does the k-th call wait before it ends, and what happens meanwhile?
    pub waits: [bool; CALLS],
    pub meanwhile: fn(),
    pub way: [Way; CALLS],
    pub server: *mut Srv,
}
static mut WORLD: World = World {
    magic: 0x574f_524c_445f_5256,
    secret: [b'x'; 3],
    secret_len: 3,
    secret_fails: false,
    secret_fails_once: false,
    secret_empty_once: false,
    asked: 0,
    asked_for: None,
    made: 0,
    calls: 0,
    call: [NONE; CALLS],
    waits: [false; CALLS],
    meanwhile: nothing,
    way: [Way::Succeeds; CALLS],
    server: core::ptr::null_mut(),
};
fn nothing() {}
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}

pub struct H;
pub struct P;
pub type Srv = Server<u8, u8, H, P>;

/// The handler at work on its k-th call.
struct Handling {
    k: usize,
    begun: bool,
}
impl Future for Handling {
    type Output = Result<u8, u8>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let (w, k) = (world(), self.k);
        if !self.begun {
            self.begun = true;
            w.calls += 1;
            w.call[k].begun = true;
        }
        if w.waits[k] {
            #[cfg(kani)]
            {
                w.waits[k] = false;
                (w.meanwhile)();
            }
            #[cfg(not(kani))]
            return Poll::Pending;
        }
        w.call[k].ended = true;
        Poll::Ready(match w.way[k] {
            Way::Succeeds => Ok(1),
            Way::Fails => Err(2),
            Way::Panics => panic!("a handler that panics"),
        })
    }
}

impl RequestHandler<u8, u8> for H {
    /// (what #[async_trait] makes of an async fn)
    fn handle_radius_request<'a, 'b, 'c, 'r>(
        &'a self,
        _conn: &'b UdpSocket,
        request: &'c Request,
    ) -> Pin<Box<dyn Future<Output = Result<u8, u8>> + Send + 'r>>
    where
        'a: 'r,
        'b: 'r,
        'c: 'r,
    {
        let w = world();
        let k = w.made;
        assert!(k < CALLS, "MODEL-BOUND: more calls than the model holds");
        w.made = k + 1;
        let p = request.get_packet();
        let c = &mut w.call[k];
        c.code = p.get_code() as u8;
        c.id = p.get_identifier();
        if p.get_authenticator().len() == 16 {
            c.auth.copy_from_slice(p.get_authenticator());
        }
        c.secret_len = p.get_secret().len();
        if c.secret_len == 3 {
            c.secret.copy_from_slice(p.get_secret());
        }
        c.local = Some(request.get_local_addr());
        c.remote = Some(request.get_remote_addr());
        Box::pin(Handling { k, begun: false })
    }
}
impl SecretProvider for P {
    fn fetch_secret(&self, remote_addr: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let w = world();
        w.asked += 1;
        w.asked_for = Some(remote_addr);
        if w.secret_empty_once {
            w.secret_empty_once = false;
            return Ok(Vec::new());
        }
        if w.secret_fails || w.secret_fails_once {
            w.secret_fails_once = false;
            return Err(SecretProviderError::GenericError(String::new()));
        }
        Ok(w.secret[..w.secret_len].to_vec())
    }
}

pub fn peer(host: u8, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, host)), port)
}

/// The k-th datagram to arrive.
pub fn put(k: usize, data: &[u8], from: SocketAddr) {
    let d = &mut m::net().inbox[k];
    d.kind = 1;
    d.len = data.len();
    d.data[..data.len()].copy_from_slice(data);
    d.from = Some(from);
}

pub fn listening() -> Srv {
    m::net().local = Some(peer(9, 1812));
    match m::drive(Srv::listen("h", 1812, H, P)) {
        Some(Ok(s)) => s,
        _ => panic!("listening succeeds when the address can be bound"),
    }
}

/// Ready as soon as the server waits for the next datagram.
struct Idle;
impl Future for Idle {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if m::net().idle {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// The server takes the next datagrams, up to the `upto`-th, and its tasks run until they end or wait.
pub fn serve(server: &mut Srv, upto: usize) {
    m::net().avail = upto;
    m::net().idle = false;
    let first = m::net().spawned;
    match m::drive(server.run(Idle)) {
        Some(Ok(())) => (),
        _ => panic!("the server serves on until it is shut down"),
    }
    assert!(m::net().next >= upto, "the server takes every datagram");
    if cfg!(not(kani)) {
        let mut k = first;
        while k < m::net().spawned {
            m::step(k);
            k += 1;
        }
    }
}
/// As `serve`, and then what was waiting goes on.
pub fn serve_all(server: &mut Srv, upto: usize) {
    let first = m::net().spawned;
    serve(server, upto);
    #[cfg(not(kani))]
    {
        let w = world();
        let mut k = 0;
        while k < w.made {
            if w.waits[k] {
                (w.meanwhile)();
                w.waits[k] = false;
                let mut t = first;
                while t < m::net().spawned {
                    m::step(t);
                    t += 1;
                }
            }
            k += 1;
        }
    }
    let _ = first;
}
