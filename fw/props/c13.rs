//! C13: a packet's attributes are an ordered multimap.
use crate::nd;
use radius::core::avp::AVP;
use radius::core::packet::Packet;

/// The reference: types and values in order.
#[derive(Clone, Copy)]
struct Model {
    n: usize,
    t: [u8; 6],
    v: [u8; 6],
}
impl Model {
    fn push(&mut self, t: u8, v: u8) {
        self.t[self.n] = t;
        self.v[self.n] = v;
        self.n += 1;
    }
    fn without(&self, t: u8) -> Model {
        let mut m = Model { n: 0, t: [0; 6], v: [0; 6] };
        macro_rules! each { ($($i:literal)*) => {$( if $i < self.n && self.t[$i] != t { m.push(self.t[$i], self.v[$i]); } )*}; }
        each!(0 1 2 3 4 5);
        m
    }
}

fn is(a: &AVP, t: u8, v: u8) -> bool {
    *a == AVP::from_bytes(t, &[v])
}

/// What is found under `u` is what the reference holds under it, in its order.
fn same_lookups(p: &Packet, m: &Model, u: u8) {
    let got = p.lookup_all(u);
    let mut k = 0usize;
    macro_rules! each {
        ($($i:literal)*) => {$(
            if $i < m.n && m.t[$i] == u {
                assert!(k < got.len() && is(got[k], u, m.v[$i]), "an attribute is found under its type, in the order of addition");
                if k == 0 {
                    assert!(matches!(p.lookup(u), Some(a) if is(a, u, m.v[$i])), "a lookup gives the first one");
                }
                k += 1;
            }
        )*};
    }
    each!(0 1 2 3 4 5);
    assert!(got.len() == k, "nothing else is found under a type");
    assert!(k > 0 || p.lookup(u).is_none(), "a lookup of what is not there gives nothing");
    witness!(k == 0, "nothing under the type");
    witness!(k == 2, "two under the type");
    nd::leak(got);
}

/// On the wire the attributes come in the order of the reference.
fn same_wire(p: &Packet, m: &Model, at: usize) {
    match p.encode() {
        Ok(w) => {
            assert!(w.len() == 20 + 3 * m.n, "the packet on the wire holds every attribute once");
            if at < m.n {
                assert!(w[20 + 3 * at] == m.t[at] && w[21 + 3 * at] == 3 && w[22 + 3 * at] == m.v[at], "the attributes go out in their order");
            }
            nd::leak(w);
        }
        Err(_) => panic!("a small packet is encoded"),
    }
}

fn header_kept(p: &Packet, id: u8) {
    assert!(p.get_code() == radius::core::code::Code::AccessRequest && p.get_identifier() == id, "the header is left alone");
    assert!(nd::eq16(p.get_authenticator(), &[7; 16]) && p.get_secret().len() == 1 && p.get_secret()[0] == b's', "the authenticator and secret are left alone");
}

/// An arbitrary packet with `n` attributes, read from the wire.
fn state(n: usize, id: u8, b: &[u8; 6]) -> (Packet, Model) {
    let mut w = [7u8; 20 + 9];
    w[0] = 1;
    w[1] = id;
    w[2] = 0;
    w[3] = 20 + 3 * n as u8;
    let mut m = Model { n: 0, t: [0; 6], v: [0; 6] };
    macro_rules! each { ($($i:literal)*) => {$( if $i < n {
        w[20 + 3 * $i] = b[2 * $i];
        w[21 + 3 * $i] = 3;
        w[22 + 3 * $i] = b[2 * $i + 1];
        m.push(b[2 * $i], b[2 * $i + 1]);
    } )*}; }
    each!(0 1 2);
    match Packet::decode(&w[..20 + 3 * n], b"s") {
        Ok(p) => (p, m),
        Err(_) => panic!("a well-formed packet is accepted"),
    }
}

fn add(n: usize, wire: bool) {
    let (b, id, t, v, u, at) = (nd::array::<6>(), nd::byte(), nd::byte(), nd::byte(), nd::byte(), nd::between(0, 5));
    let (mut p, mut m) = state(n, id, &b);
    p.add(AVP::from_bytes(t, &[v]));
    m.push(t, v);
    if wire { same_wire(&p, &m, at) } else { same_lookups(&p, &m, u) }
    header_kept(&p, id);
    nd::leak(p);
}

fn extend(n: usize, k: usize, wire: bool) {
    let (b, id, e, u, at) = (nd::array::<6>(), nd::byte(), nd::array::<4>(), nd::byte(), nd::between(0, 5));
    let (mut p, mut m) = state(n, id, &b);
    if k == 0 {
        p.extend(vec![]);
    } else {
        p.extend(vec![AVP::from_bytes(e[0], &[e[1]]), AVP::from_bytes(e[2], &[e[3]])]);
        m.push(e[0], e[1]);
        m.push(e[2], e[3]);
    }
    if wire { same_wire(&p, &m, at) } else { same_lookups(&p, &m, u) }
    header_kept(&p, id);
    nd::leak(p);
}

fn delete(n: usize, wire: bool) {
    let (b, id, t, u, at) = (nd::array::<6>(), nd::byte(), nd::byte(), nd::byte(), nd::between(0, 5));
    let (mut p, m) = state(n, id, &b);
    p.delete(t);
    let left = m.without(t);
    assert!(p.lookup(t).is_none(), "nothing is left under a deleted type");
    if wire { same_wire(&p, &left, at) } else { same_lookups(&p, &left, u) }
    header_kept(&p, id);
    witness!(n == 0 || left.n == 0, "everything is deleted");
    witness!(n == 0 || left.n == n, "nothing is deleted");
    witness!(n < 2 || (left.n == n - 1 && b[0] == t), "the first is deleted");
    nd::leak(p);
}

/// Long histories of additions and deletions of fixed types, with any values.
fn history(types: [u8; 6], del: [u8; 2], wire: bool) {
    let (b, id, u, at) = (nd::array::<6>(), nd::byte(), nd::byte(), nd::between(0, 5));
    let (mut p, mut m) = state(0, id, &b);
    p.add(AVP::from_bytes(types[0], &[b[0]]));
    p.add(AVP::from_bytes(types[1], &[b[1]]));
    p.add(AVP::from_bytes(types[2], &[b[2]]));
    p.delete(del[0]);
    p.add(AVP::from_bytes(types[3], &[b[3]]));
    p.extend(vec![AVP::from_bytes(types[4], &[b[4]]), AVP::from_bytes(types[5], &[b[5]])]);
    p.delete(del[1]);
    macro_rules! each { ($($i:literal)*) => {$(
        if (($i > 2) || types[$i] != del[0]) && types[$i] != del[1] { m.push(types[$i], b[$i]); }
    )*}; }
    each!(0 1 2 3 4 5);
    if wire { same_wire(&p, &m, at) } else { same_lookups(&p, &m, u) }
    header_kept(&p, id);
    nd::leak(p);
}

/// A copy of a packet is equal to it and independent of it.
fn copies() {
    let (b, id, t, v, id2) = (nd::array::<6>(), nd::byte(), nd::byte(), nd::byte(), nd::byte());
    let (p, m) = state(1, id, &b);
    let mut q = p.clone();
    q.set_identifier(id2);
    q.add(AVP::from_bytes(t, &[v]));
    header_kept(&p, id);
    same_lookups(&p, &m, t);
    nd::leak((p, q));
}

/// Packets are equal exactly when all they hold is.
fn equality() {
    let (b, id, c, id2) = (nd::array::<6>(), nd::byte(), nd::array::<6>(), nd::byte());
    let (p, _) = state(1, id, &b);
    let (q, _) = state(1, id2, &c);
    assert!((p == q) == (id == id2 && b[0] == c[0] && b[1] == c[1]), "packets are equal exactly when identifier and attributes are");
    witness!(p == q, "equal packets");
    nd::leak((p, q));
}

/// What a getter lends is what the setter set.
fn identifier() {
    let (b, id, id2) = (nd::array::<6>(), nd::byte(), nd::byte());
    let (mut p, m) = state(1, id, &b);
    p.set_identifier(id2);
    header_kept(&p, id2);
    same_lookups(&p, &m, b[0]);
    match p.encode() {
        Ok(w) => {
            assert!(w[1] == id2, "the identifier on the wire is the one that was set");
            nd::leak(w);
        }
        Err(_) => panic!("a small packet is encoded"),
    }
    nd::leak(p);
}

proofs! {
    quick {
        add0 [8] => add(0, false);
        add1 [8] => add(1, false);
        add3 [8] => add(3, false);
        add3_wire [8] => add(3, true);
        extend0 [8] => extend(0, 2, false);
        extend_nothing [8] => extend(2, 0, false);
        extend2 [8] => extend(2, 2, false);
        extend2_wire [8] => extend(2, 2, true);
        delete0 [8] => delete(0, false);
        delete1 [8] => delete(1, false);
        delete2 [8] => delete(2, false);
        delete3 [8] => delete(3, false);
        delete_wire_first [8] => history([5, 1, 2, 3, 1, 4], [5, 9], true);
        delete_wire_all [8] => history([5, 5, 5, 3, 3, 5], [5, 3], true);
        delete_wire_middle [8] => history([1, 5, 2, 4, 4, 1], [5, 4], true);
        delete_wire_last [8] => history([1, 2, 5, 5, 7, 5], [5, 7], true);
        delete_wire_mixed [8] => history([5, 1, 5, 2, 5, 1], [5, 1], true);
        delete_mixed [8] => history([5, 1, 5, 2, 5, 1], [5, 2], false);
        copy [8] => copies();
        equal [18] => equality();
        ident [8] => identifier();
    }
}
