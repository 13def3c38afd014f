//! A stand-in for tokio: the parts radius uses, over a modelled network and a
//! virtual clock.  The harness decides what arrives, when, in which order tasks
//! run, and reads back what was bound, sent and spawned.

//!
//! In the native replay tasks and futures wait as they do in tokio.  In the solver's
//! model every future that is awaited runs to its end at once (see coll::AtOnce), so a
//! receive that would wait lets the clock run, or gives control back to the select!
//! or timeout it is inside of.

#[cfg(kani)]
use coll::{io, AtOnce as _};
#[cfg(not(kani))]
use std::io;

#[cfg(kani)]
macro_rules! wait {
    ($f:expr) => {
        ($f).at_once()
    };
}
#[cfg(not(kani))]
macro_rules! wait {
    ($f:expr) => {
        ($f).await
    };
}

/// What the harness sets and reads.
pub mod model {
    use std::future::Future;
    use crate::io;
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::task::Poll;

    pub const NEVER: u64 = u64::MAX;
    pub const IN: usize = 4;
    pub const TASKS: usize = 4;

    /// What a receive yields: nothing (it waits for ever), a datagram, or an error.
    #[derive(Clone, Copy)]
    pub struct Datagram {
        pub kind: u8,
        pub len: usize,
        pub data: [u8; 64],
        pub from: Option<SocketAddr>,
    }
    pub const NOTHING: Datagram = Datagram { kind: 0, len: 0, data: [0x5a; 64], from: None };

    pub struct Net {
        pub magic: u64,
        /// Datagrams in the order of their arrival.
        pub inbox: [Datagram; IN],
        pub next: usize,
        pub receives: usize,
        /// The room the last receive offered.
        pub room: usize,
        /// What fails.
        pub bind_fails: bool,
        pub connect_fails: bool,
        pub send_fails: bool,
        /// The first so many calls of local_addr fail.
        pub local_addr_fails: u8,
        pub local: Option<SocketAddr>,
        /// How long things take, on the virtual clock.
        pub connect_takes: u64,
        pub send_takes: u64,
        pub recv_takes: u64,
        pub now: u64,
        pub wake: u64,
        /// What was done.
        pub bound: u8,
        pub bound_text: [u8; 32],
        pub bound_len: usize,
        pub bound_addr: Option<SocketAddr>,
        pub connected: u8,
        pub connected_to: Option<SocketAddr>,
        pub sent: u8,
        pub sent_len: usize,
        pub sent_data: [u8; 64],
        pub sent_to: Option<SocketAddr>,
        pub timeouts: u8,
        /// Which branch of a select! is polled first.
        pub select_second_first: bool,
        pub spawned: usize,
        /// Only so many datagrams have arrived yet.
        pub avail: usize,
        /// A receive found nothing and waits.
        pub idle: bool,
        /// Model: the select! this is inside of gets control back.
        pub suspended: bool,
        /// Model: when the timeouts this is inside of elapse.
        pub deadline: u64,
    }
    pub static mut NET: Net = Net {
        magic: 0x4e45_545f_4d4f_4445,
        inbox: [NOTHING; IN],
        next: 0,
        receives: 0,
        room: 0,
        bind_fails: false,
        connect_fails: false,
        send_fails: false,
        local_addr_fails: 0,
        local: None,
        connect_takes: 0,
        send_takes: 0,
        recv_takes: 0,
        now: 0,
        wake: NEVER,
        bound: 0,
        bound_text: [0; 32],
        bound_len: 0,
        bound_addr: None,
        connected: 0,
        connected_to: None,
        sent: 0,
        sent_len: 0,
        sent_data: [0; 64],
        sent_to: None,
        timeouts: 0,
        select_second_first: false,
        spawned: 0,
        avail: IN,
        idle: false,
        suspended: false,
        deadline: NEVER,
    };

    pub type Task = Pin<Box<dyn Future<Output = ()>>>;
    pub struct Tasks {
        pub magic: u64,
        pub slot: [Option<Task>; TASKS],
    }
    pub static mut RUNNING: Tasks = Tasks { magic: 0x5441_534b_5f4d_4f44, slot: [None, None, None, None] };

    #[allow(static_mut_refs)]
    pub fn net() -> &'static mut Net {
        unsafe { &mut NET }
    }
    #[allow(static_mut_refs)]
    pub fn tasks() -> &'static mut Tasks {
        unsafe { &mut RUNNING }
    }

    pub fn failure() -> io::Error {
        io::Error::from(io::ErrorKind::Other)
    }

    pub use coll::poll;

    /// Runs a future to its end, letting the clock run to the next event while it waits.
    #[cfg(kani)]
    pub fn drive<F: Future>(f: F) -> Option<F::Output> {
        use coll::AtOnce;
        let v = f.at_once();
        if net().suspended {
            core::mem::forget(v);
            return None;
        }
        Some(v)
    }
    /// None: it waits for ever.
    #[cfg(not(kani))]
    pub fn drive<F: Future>(f: F) -> Option<F::Output> {
        let mut f = Box::pin(f);
        let mut rounds = 0;
        while rounds < 9 {
            net().wake = NEVER;
            if let Poll::Ready(v) = poll(f.as_mut()) {
                return Some(v);
            }
            if net().wake == NEVER {
                // what one part did while it was polled another may have been waiting for
                if let Poll::Ready(v) = poll(f.as_mut()) {
                    return Some(v);
                }
                if net().wake == NEVER {
                    return None;
                }
            }
            net().now = net().wake;
            rounds += 1;
        }
        panic!("MODEL-BOUND: more events than the model holds");
    }

    /// Lets the clock reach `due`, or waits.
    #[cfg(not(kani))]
    pub fn until(due: u64) -> bool {
        if net().now >= due {
            return true;
        }
        if due < net().wake {
            net().wake = due;
        }
        false
    }
    #[cfg(kani)]
    pub fn until(due: u64) -> bool {
        let n = net();
        if n.now < due {
            n.now = due;
        }
        true
    }
    /// Model: is this past the end of a timeout it is inside of (so it does not happen any more)?
    pub fn gone() -> bool {
        let n = net();
        n.suspended || n.now > n.deadline
    }

    /// Takes up a task that was spawned.
    pub fn adopt<F: Future + 'static>(f: F) -> usize {
        let k = net().spawned;
        assert!(k < TASKS, "MODEL-BOUND: more tasks than the model holds");
        net().spawned = k + 1;
        #[cfg(kani)]
        {
            use coll::AtOnce;
            f.at_once();
            return k;
        }
        #[cfg(not(kani))]
        keep(k, f)
    }
    #[cfg(not(kani))]
    fn keep<F: Future + 'static>(k: usize, f: F) -> usize {
        let old = core::mem::replace(
            &mut tasks().slot[k],
            Some(Box::pin(async move {
                let _ = wait!(f);
            })),
        );
        core::mem::forget(old);
        k
    }

    /// Lets a task run until it waits; true when it has ended.
    pub fn step(k: usize) -> bool {
        match &mut tasks().slot[k] {
            None => true,
            Some(t) => match poll(t.as_mut()) {
                Poll::Ready(()) => {
                    let t = tasks().slot[k].take();
                    core::mem::forget(t);
                    true
                }
                Poll::Pending => false,
            },
        }
    }
    /// The task is given up where it waits.
    pub fn abort(k: usize) {
        let t = tasks().slot[k].take();
        drop(t);
    }
}

pub mod net {
    use super::model::{failure, gone, net, until, NEVER};
    #[cfg(kani)]
    use coll::AtOnce as _;
    use std::future::Future;
    use crate::io;
    use std::net::{IpAddr, SocketAddr};
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub trait ToSocketAddrs {
        fn note(&self) -> Noted;
    }
    pub enum Noted {
        Text([u8; 32], usize),
        Addr(SocketAddr),
    }
    fn text(s: &str) -> Noted {
        let mut b = [0u8; 32];
        assert!(s.len() <= 32, "MODEL-BOUND: long address");
        b[..s.len()].copy_from_slice(s.as_bytes());
        Noted::Text(b, s.len())
    }
    impl ToSocketAddrs for str {
        fn note(&self) -> Noted {
            text(self)
        }
    }
    impl ToSocketAddrs for String {
        fn note(&self) -> Noted {
            text(self)
        }
    }
    impl ToSocketAddrs for SocketAddr {
        fn note(&self) -> Noted {
            Noted::Addr(*self)
        }
    }
    impl ToSocketAddrs for (IpAddr, u16) {
        fn note(&self) -> Noted {
            Noted::Addr(SocketAddr::new(self.0, self.1))
        }
    }
    impl ToSocketAddrs for (&str, u16) {
        fn note(&self) -> Noted {
            text(&format!("{}:{}", self.0, self.1))
        }
    }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
        fn note(&self) -> Noted {
            (**self).note()
        }
    }

    /// Ready once the clock reaches `due`.
    struct Due(u64);
    impl Future for Due {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if until(self.0) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    fn after(d: u64) -> Due {
        Due(net().now.saturating_add(d))
    }

    #[derive(Debug)]
    pub struct UdpSocket {
        _private: u8,
    }
    impl UdpSocket {
        pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
            let n = net();
            n.bound += 1;
            match addr.note() {
                Noted::Text(b, l) => {
                    n.bound_text = b;
                    n.bound_len = l;
                }
                Noted::Addr(a) => n.bound_addr = Some(a),
            }
            if n.bind_fails {
                return Err(failure());
            }
            Ok(UdpSocket { _private: 1 })
        }
        pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
            net().connected += 1;
            if let Noted::Addr(a) = addr.note() {
                net().connected_to = Some(a);
            }
            wait!(after(net().connect_takes));
            if net().connect_fails {
                Err(failure())
            } else {
                Ok(())
            }
        }
        fn keep(buf: &[u8], to: Option<SocketAddr>) {
            let n = net();
            if gone() {
                return;
            }
            n.sent += 1;
            assert!(buf.len() <= 64, "MODEL-BOUND: long datagram");
            n.sent_len = buf.len();
            n.sent_data[..buf.len()].copy_from_slice(buf);
            n.sent_to = to;
        }
        pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
            Self::keep(buf, None);
            wait!(after(net().send_takes));
            if net().send_fails {
                Err(failure())
            } else {
                Ok(buf.len())
            }
        }
        pub async fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], to: A) -> io::Result<usize> {
            Self::keep(
                buf,
                match to.note() {
                    Noted::Addr(a) => Some(a),
                    _ => None,
                },
            );
            wait!(after(net().send_takes));
            if net().send_fails {
                Err(failure())
            } else {
                Ok(buf.len())
            }
        }
        async fn take(buf: &mut [u8]) -> io::Result<(usize, Option<SocketAddr>)> {
            net().receives += 1;
            net().room = buf.len();
            wait!(after(net().recv_takes));
            #[cfg(kani)]
            {
                let n = net();
                if gone() {
                    return Err(failure());
                }
                if n.next >= n.avail || n.inbox[n.next].kind == 0 {
                    n.idle = true;
                    if n.deadline < NEVER {
                        n.now = NEVER;
                    } else {
                        n.suspended = true;
                    }
                    return Err(failure());
                }
            }
            #[cfg(not(kani))]
            core::future::poll_fn(|_| {
                let n = net();
                if n.next >= n.avail || n.inbox[n.next].kind == 0 {
                    n.idle = true;
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            })
            .await;
            let n = net();
            let d = &n.inbox[n.next];
            n.next += 1;
            if d.kind == 2 {
                return Err(failure());
            }
            // what does not fit is cut off
            let l = if d.len < buf.len() { d.len } else { buf.len() };
            buf[..l].copy_from_slice(&d.data[..l]);
            Ok((l, d.from))
        }
        pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
            wait!(Self::take(buf)).map(|r| r.0)
        }
        pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
            match wait!(Self::take(buf)) {
                Ok((l, Some(a))) => Ok((l, a)),
                Ok((_, None)) => panic!("MODEL-BOUND: a datagram without a sender"),
                Err(e) => Err(e),
            }
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            let n = net();
            if n.local_addr_fails > 0 {
                n.local_addr_fails -= 1;
                return Err(failure());
            }
            match n.local {
                Some(a) => Ok(a),
                None => Err(failure()),
            }
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            match net().connected_to {
                Some(a) => Ok(a),
                None => Err(failure()),
            }
        }
    }
}

pub mod time {
    use super::model::{net, until};
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    pub struct Timeout<F> {
        f: F,
        due: u64,
    }
    /// As tokio's: the future first, then the clock.
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
        net().timeouts += 1;
        Timeout { f, due: net().now.saturating_add(d.as_millis() as u64) }
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        #[cfg(kani)]
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = unsafe { self.get_unchecked_mut() };
            let n = net();
            let outer = n.deadline;
            if me.due < outer {
                n.deadline = me.due;
            }
            let r = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx);
            n.deadline = outer;
            match r {
                // (a wait that an outer timeout ends is that one's business)
                Poll::Ready(v) if n.now <= me.due => Poll::Ready(Ok(v)),
                r => {
                    core::mem::forget(r);
                    if me.due < outer {
                        n.now = me.due;
                    }
                    Poll::Ready(Err(error::Elapsed(())))
                }
            }
        }
        #[cfg(not(kani))]
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = unsafe { self.get_unchecked_mut() };
            if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if until(me.due) {
                return Poll::Ready(Err(error::Elapsed(())));
            }
            Poll::Pending
        }
    }
    pub struct Sleep {
        due: u64,
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep { due: net().now.saturating_add(d.as_millis() as u64) }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if until(self.due) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
}

pub mod task {
    pub struct JoinHandle<T> {
        pub id: usize,
        _t: core::marker::PhantomData<T>,
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            super::model::abort(self.id)
        }
    }
    pub fn spawn<F: std::future::Future + 'static>(f: F) -> JoinHandle<F::Output> {
        JoinHandle { id: super::model::adopt(f), _t: core::marker::PhantomData }
    }
}
pub use task::spawn;

/// The outcome of the macro's two branches.
pub enum Either<A, B> {
    A(A),
    B(B),
}
pub struct Select<A, B> {
    pub a: A,
    pub b: B,
    pub biased: bool,
}
impl<A: std::future::Future, B: std::future::Future> std::future::Future for Select<A, B> {
    type Output = Either<A::Output, B::Output>;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        use std::pin::Pin;
        use std::task::Poll;
        let me = unsafe { self.get_unchecked_mut() };
        // In the model a branch that gave control back is one that waits for good; whatever
        // ends the wait is noticed at a later poll of the other one.
        let (mut a_gave_up, mut b_gave_up) = (false, false);
        macro_rules! branch {
            ($f:ident, $E:ident, $gave_up:ident) => {
                if !$gave_up {
                    let r = unsafe { Pin::new_unchecked(&mut me.$f) }.poll(cx);
                    #[cfg(kani)]
                    let r = if model::net().suspended {
                        model::net().suspended = false;
                        $gave_up = true;
                        core::mem::forget(r);
                        Poll::Pending
                    } else {
                        r
                    };
                    if let Poll::Ready(v) = r {
                        return Poll::Ready(Either::$E(v));
                    }
                }
            };
        }
        if !me.biased && model::net().select_second_first {
            branch!(b, B, b_gave_up);
            branch!(a, A, a_gave_up);
        } else {
            branch!(a, A, a_gave_up);
            branch!(b, B, b_gave_up);
        }
        #[cfg(kani)]
        {
            if !a_gave_up {
                branch!(a, A, a_gave_up);
            } else {
                branch!(b, B, b_gave_up);
            }
        }
        let _ = (&mut a_gave_up, &mut b_gave_up);
        Poll::Pending
    }
}

#[macro_export]
macro_rules! select {
    (biased; $($rest:tt)*) => { $crate::select_two!(true; $($rest)*) };
    ($($rest:tt)*) => { $crate::select_two!(false; $($rest)*) };
}
#[macro_export]
macro_rules! select_two {

    ($biased:literal; $p1:pat = $f1:expr => $b1:block $p2:pat = $f2:expr => $b2:expr $(,)?) => { $crate::select_two!(@ $biased; $p1 = $f1 => $b1, $p2 = $f2 => $b2) };
    ($biased:literal; $p1:pat = $f1:expr => $b1:expr, $p2:pat = $f2:expr => $b2:expr $(,)?) => { $crate::select_two!(@ $biased; $p1 = $f1 => $b1, $p2 = $f2 => $b2) };
    (@ $biased:literal; $p1:pat = $f1:expr => $b1:expr, $p2:pat = $f2:expr => $b2:expr) => {{
        match $crate::waited!($crate::Select { a: $f1, b: $f2, biased: $biased }) {
            $crate::Either::A($p1) => $b1,
            $crate::Either::B($p2) => $b2,
        }
    }};
}


#[cfg(kani)]
pub use coll::AtOnce;
#[cfg(kani)]
#[macro_export]
macro_rules! waited {
    ($f:expr) => {
        $crate::AtOnce::at_once($f)
    };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! waited {
    ($f:expr) => {
        ($f).await
    };
}
