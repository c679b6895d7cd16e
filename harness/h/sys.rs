//! S01..S13 and T01..T04 end to end: the whole broker on the modelled world, against the reference broker in `world`.
use super::refdec::{self, Verdict};
use super::refmatch::*;
use super::shape::{ascii, topic, Sut, shared, one, shaped, history, shaped_history, change_one, long_levels, utf, deep, deep_levels};
use super::world::*;
use std::io::ErrorKind;
use std::time::Duration;
use tokio::kernel::{self, k};

fn secs(n: u64) -> Duration { Duration::from_secs(n) }
fn ms(n: u64) -> Duration { Duration::from_millis(n) }
/// A client that watches topic "t" (and "x/+") and one that publishes.
fn pair(ctx: &'static str) -> (W, usize, usize) {
    let mut w = W::boot(ctx);
    let a = w.settled_connect("a"); w.subscribe(a, [1, 2], &[(s("t"), 2)]); w.settle();
    let b = w.settled_connect("b");
    (w, a, b)
}
fn pick(n: usize, name: &str) -> usize { sx::choice(n as u64, name) as usize }
fn id_other(a: [u8; 2], name: &str) -> [u8; 2] { let b = id2(name); sx::assume((a[0] != b[0]) | (a[1] != b[1])); b }

/// One request of client c. `n` counts them, to keep payloads apart.
fn request(w: &mut W, c: usize, n: usize) {
    let id = id2("packet id");
    let p = [b'p', n as u8];
    match pick(10, "request") {
        0 => { let q = pick(3, "qos") as u8; w.subscribe(c, id, &[(s("x/+"), q), (s("y"), 1)]) }
        1 => w.unsubscribe(c, id, &[s("x/+")]),
        2 => w.publish(c, 0, b"t", id, &p),
        3 => w.publish(c, 2, b"t", id, &p),
        4 => w.publish(c, 4, b"t", id, &p),
        5 => w.pubrec(c, id),
        6 => w.pubrel(c, id),
        7 => w.ping(c),
        8 => w.puback(c, id),
        _ => w.pubcomp(c, id),
    }
}
/// What the reference broker makes of a well-formed packet.
fn apply(w: &mut W, c: usize, flat: &[u8]) {
    struct F<'a>(&'a [u8], usize);
    impl<'a> F<'a> {
        fn u8(&mut self) -> u8 { self.1 += 1; self.0[self.1 - 1] }
        fn id(&mut self) -> [u8; 2] { [self.u8(), self.u8()] }
        fn s(&mut self) -> Vec<u8> { let n = (self.u8() as usize) << 16 | (self.u8() as usize) << 8 | self.u8() as usize; let n = sx::conc(n as u64) as usize; self.1 += n; self.0[self.1 - n..self.1].to_vec() }
        fn end(&self) -> bool { self.1 >= self.0.len() }
    }
    let mut f = F(flat, 0);
    let ty = sx::conc(f.u8() as u64) as u8;
    let fl = f.u8() << 3 | sx::conc(f.u8() as u64) as u8 * 2 | f.u8();
    match ty {
        1 => { for _ in 0..8 { f.u8(); } let id = if sx::conc(f.u8() as u64) == 1 { f.s() } else { vec![] }; w.m_connect(c, &id); sx::cover("CONNECT") }
        3 => { let t = f.s(); let id = if sx::conc(f.u8() as u64) == 1 { f.id() } else { [0, 0] }; let p = f.s(); w.m_publish(c, fl, &t, id, &p); sx::cover("PUBLISH") }
        4 | 7 => { let id = f.id(); w.m_puback(c, id) }
        5 => { let id = f.id(); w.m_pubrec(c, id) }
        6 => { let id = f.id(); w.m_pubrel(c, id) }
        8 => { let id = f.id(); let mut v = vec![]; while !f.end() { let t = f.s(); let q = sx::conc(f.u8() as u64) as u8; v.push((t, q)) } w.m_subscribe(c, id, &v); sx::cover("SUBSCRIBE") }
        10 => { let id = f.id(); let mut v = vec![]; while !f.end() { v.push(f.s()) } w.m_unsubscribe(c, id, &v) }
        12 => { w.m_ping(c); sx::cover("PINGREQ") }
        14 => { w.gone(c); sx::cover("DISCONNECT") }
        _ => {}
    }
}
/// Sends arbitrary bytes, and follows them through the reference decoder and the reference broker.
fn raw(w: &mut W, c: usize, b: &[u8]) {
    w.bytes(c, b);
    let mut at = 0;
    loop {
        let r = refdec::decode(&b[at..]);
        match r.verdict {
            Verdict::Partial => { w.stuck(c); w.cl[c].lossy = true; sx::cover("partial"); break }
            Verdict::Bad => { w.gone(c); sx::cover("malformed"); break }
            Verdict::Open => {
                // server-only packets end the connection whether they are decoded or not
                let ty = sx::conc((b[at] >> 4) as u64);
                if matches!(ty, 2 | 9 | 11 | 13) { w.gone(c); sx::cover("server only"); break }
                // anything else may be refused or not: the broker must only survive it
                kernel::run(w.polls); sx::stop()
            }
            Verdict::Good => { apply(w, c, &r.flat); at += r.size }
        }
        if w.cl[c].st == St::Gone || at == b.len() { break }
    }
}

// ---- S01: CONNECT comes first, once ----
/// Any well-formed packet other than CONNECT comes first.
fn first_packet() {
    let (mut w, a, b) = pair("S01");
    let c = w.open();
    let id = id2("packet id");
    match pick(14, "first packet") {
        0 => w.publish(c, 0, b"t", id, b"early"),
        1 => w.publish(c, 2, b"t", id, b"early"),
        2 => w.publish(c, 4, b"t", id, b"early"),
        3 => w.subscribe(c, id, &[(s("t"), 1)]),
        4 => w.unsubscribe(c, id, &[s("t")]),
        5 => w.puback(c, id), 6 => w.pubrec(c, id), 7 => w.pubrel(c, id), 8 => w.pubcomp(c, id),
        9 => w.ping(c), 10 => w.bye(c),
        11 => w.bad(c, &[0xd0, 0]), 12 => w.bad(c, &[0x20, 2, 0, 0]), _ => w.bad(c, &[0xb0, 2, id[0], id[1]]),
    }
    if pick(2, "timing") == 0 { w.settle() }
    // what comes behind it does not count either
    w.connect(c, "c"); w.subscribe(c, id, &[(s("t"), 1)]); w.publish(c, 0, b"t", id, b"late");
    w.settle();
    w.publish(b, 0, b"t", id, b"after");
    w.settle();
    if w.cl[c].got != 0 { w.fail("", "a connection without CONNECT is answered") }
    w.alive(); sx::cover("end"); let _ = a;
}
/// Arbitrary bytes on a new connection.
fn raw_first(n: usize) {
    let (mut w, _, b) = pair("S01");
    let c = w.open();
    let v = sx::vec(n, "bytes"); raw(&mut w, c, &v);
    w.settle();
    w.publish(b, 0, b"t", [0, 1], b"after"); w.alive(); sx::cover("end");
}
/// A CONNECT packet with arbitrary flags, keep alive and payload bytes.
fn raw_connect(n: usize) {
    let (mut w, _, b) = pair("S01");
    let c = w.open();
    let mut v = b"\0\x04MQTT\x04".to_vec(); v.extend_from_slice(&sx::vec(n, "rest"));
    // a client id that is in use would take that connection over: S10
    let v = packet(0x10, &v); let r = refdec::decode(&v);
    raw(&mut w, c, &v);
    w.settle();
    if w.cl[c].st == St::Up {
        sx::cover("accepted");
        w.subscribe(c, [9, 9], &[(s("t"), 0)]); w.settle();
    } else { sx::cover("refused") }
    w.publish(b, 0, b"t", [0, 1], b"after"); w.alive(); sx::cover("end"); let _ = r;
}
/// A second CONNECT, or a packet only a server sends, on an established connection.
fn second_connect() {
    let (mut w, _, b) = pair("S01");
    let c = w.settled_connect("c");
    if pick(2, "subscribed") == 1 { w.subscribe(c, [0, 7], &[(s("t"), 1)]); w.settle() }
    match pick(6, "packet") {
        0 => { let id = ["c", "a", "d", ""][pick(4, "client id")]; let keep = sx::bytes::<2>("keep alive"); w.connect_as(c, id.as_bytes(), keep, 2) }
        1 => { let x = sx::byte("session present"); sx::assume(x < 2); let r = sx::byte("code"); sx::assume(r < 6); w.bad(c, &[0x20, 2, x, r]) }
        2 => { let q = sx::byte("code"); w.bad(c, &[0x90, 3, 0, 7, q]) }
        3 => w.bad(c, &[0xb0, 2, 0, 7]),
        4 => w.bad(c, &[0xd0, 0]),
        _ => { let ty = [0x00, 0xf0][pick(2, "reserved")]; w.bad(c, &[ty, 0]) }
    }
    if pick(2, "timing") == 0 { w.settle() }
    w.publish(c, 0, b"t", [0, 1], b"late");
    w.settle();
    w.publish(b, 0, b"t", [0, 1], b"after"); w.alive(); sx::cover("end");
}
/// CONNECT and requests behind it in one go.
fn connect_then(n: usize, sel: u32) {
    let (mut w, _, b) = pair("S01");
    k().sym_select = sel;
    let c = w.open();
    w.connect(c, "c");
    for i in 0..n { request(&mut w, c, i) }
    w.settle();
    w.publish(b, 0, b"t", [0, 1], b"after"); w.alive(); sx::cover("end");
}
// ---- S02: requests and their answers ----
fn requests(n: usize) {
    let (mut w, _, b) = pair("S02");
    for i in 0..n { request(&mut w, b, i); w.settle() }
    w.alive(); sx::cover("end");
}
/// All requests arrive at once, with the branch that select! polls first chosen freely.
fn requests_at_once(n: usize, sel: u32) {
    let (mut w, _, b) = pair("S02");
    k().sym_select = sel;
    for i in 0..n { request(&mut w, b, i) }
    w.settle(); k().sym_select = 0;
    w.alive(); sx::cover("end");
}
/// A client that is sent messages while it makes requests, tasks scheduled freely.
fn requests_crossed(n: usize, sched: u32, sel: u32) {
    let (mut w, a, b) = pair("S02");
    k().sym_sched = sched; k().sym_select = sel;
    w.publish(b, 0, b"t", [0, 1], b"1");
    for i in 0..n { request(&mut w, a, i) }
    w.publish(b, 2, b"t", [0, 2], b"2");
    w.settle(); k().sym_sched = 0; k().sym_select = 0;
    w.alive(); sx::cover("end");
}
/// Arbitrary bytes on an established connection.
fn raw_next(ctx: &'static str, n: usize, watch: &str) {
    let mut w = W::boot(ctx);
    let a = w.settled_connect("a"); w.subscribe(a, [1, 2], &[(s(watch), 2)]); w.settle();
    let c = w.settled_connect("c");
    let v = sx::vec(n, "bytes"); raw(&mut w, c, &v);
    w.settle();
    w.publish(a, 0, b"t", [0, 1], b"after"); w.alive(); sx::cover("end");
}
// ---- S03: how the stream is cut ----
fn session_bytes(id: [u8; 2], pay: &[u8]) -> Vec<Vec<u8>> {
    vec![p_connect(b"c", [0, 60], 2), p_subscribe([0, 1], &[(s("t/c"), 1), (s("+/+/#"), 0)]), p_publish(2, b"t", id, pay), p_publish(0, b"t/c", [0, 0], b"own"), p_publish(12, b"t", id, b"q2"), p_id(0x62, id), PING.to_vec(), p_unsubscribe([0, 2], &[s("+/+/#")]), p_publish(0, b"t", [0, 0], b""), BYE.to_vec()]
}
fn model_session(w: &mut W, c: usize, id: [u8; 2], pay: &[u8], bye: bool) {
    w.m_connect(c, b"c"); w.m_subscribe(c, [0, 1], &[(s("t/c"), 1), (s("+/+/#"), 0)]); w.m_publish(c, 2, b"t", id, pay); w.m_publish(c, 0, b"t/c", [0, 0], b"own");
    w.m_publish(c, 12, b"t", id, b"q2"); w.m_pubrel(c, id); w.m_ping(c); w.m_unsubscribe(c, [0, 2], &[s("+/+/#")]); w.m_publish(c, 0, b"t", [0, 0], b"");
    if bye { w.gone(c) }
}
/// A whole session cut at `cuts` arbitrary places, each piece handled before the next arrives (or not).
fn cut(cuts: usize, wait: bool) {
    let (mut w, a, _) = pair("S03");
    let c = w.open();
    let id = [1, 2]; let pay = sx::bytes::<2>("payload");
    let bye = pick(2, "bye") == 1;
    let mut parts = session_bytes(id, &pay); if !bye { parts.pop(); }
    let all: Vec<u8> = parts.concat();
    let mut at = 0;
    for _ in 0..cuts {
        let n = pick(all.len() - at, "cut"); w.bytes(c, &all[at..at + n]); at += n;
        if wait && !kernel::run(1000) { w.fail("S09", "the broker does not come to rest") }
    }
    w.bytes(c, &all[at..]);
    model_session(&mut w, c, id, &pay, bye);
    w.settle(); w.alive(); sx::cover("end"); let _ = a;
}
/// Reads return at most `k` bytes, or any number the transport likes.
fn short_reads(free: bool) {
    let (mut w, _, _) = pair("S03");
    let c = w.open();
    let id = id2("packet id"); let pay = sx::bytes::<2>("payload");
    let bye = pick(2, "bye") == 1;
    let mut parts = session_bytes(id, &pay); if !bye { parts.pop(); }
    let all: Vec<u8> = parts.concat();
    let n = if free { [0, 4, 999][pick(3, "read size")] } else { pick(24, "read size") }; w.conn(c).max_read = n + 1;
    if free {
        // the first few reads are free, the others are of one size
        w.conn(c).sym_read = true; w.conn(c).max_read = 6;
        let first = 12; w.bytes(c, &all[..first]); if !kernel::run(1000) { w.fail("S09", "the broker does not come to rest") }
        w.conn(c).sym_read = false; w.conn(c).max_read = n + 1; w.bytes(c, &all[first..]);
    } else { w.bytes(c, &all) }
    model_session(&mut w, c, id, &pay, bye);
    w.settle(); w.alive(); sx::cover("end");
}
/// Every packet kind, cut at every place, with other traffic in between that wakes the connection's task.
fn cut_crossed() {
    let (mut w, a, b) = pair("S03 S05");
    let id = id2("packet id");
    let p = match pick(8, "packet") {
        0 => { w.m_subscribe(a, id, &[(s("u"), 1)]); p_subscribe(id, &[(s("u"), 1)]) }
        1 => { w.m_unsubscribe(a, id, &[s("zz")]); p_unsubscribe(id, &[s("zz")]) }
        2 => p_publish(2, b"t", id, b"cut"),
        3 => p_publish(4, b"t", id, b"cut"),
        4 => { w.m_pubrec(a, id); p_id(0x50, id) }
        5 => { w.m_pubrel(a, id); p_id(0x62, id) }
        6 => { w.m_ping(a); PING.to_vec() }
        _ => p_publish(0, b"t", id, b"cut"),
    };
    // the expected answer is due once the last byte is there
    let owed = std::mem::take(&mut w.cl[a].acks);
    let n = 1 + pick(p.len() - 1, "cut");
    w.bytes(a, &p[..n]); w.settle();
    for i in 0..2 { w.publish(b, 2 * i, b"t", [0, 1], &[i]); w.settle() }
    if pick(2, "gap") == 1 { w.pass(secs(20)) }
    w.bytes(a, &p[n..]);
    w.cl[a].acks = owed;
    if p[0] >> 4 == 3 { w.m_publish(a, p[0] & 15, b"t", id, b"cut") }
    w.settle();
    w.alive(); sx::cover("end");
}
/// Packets around and above the sizes of read buffers.
fn large(sizes: &[usize], step: usize) {
    let (mut w, _, b) = pair("S03");
    let n = sizes[pick(sizes.len(), "size")];
    let mut pay = vec![b'x'; n]; for i in (0..n).step_by(step) { pay[i] = (i / step) as u8 }
    let e = sx::bytes::<2>("ends"); pay[0] = e[0]; pay[n - 1] = e[1];
    w.polls = 100_000;
    let p = p_publish(2, b"t", [3, 4], &pay);
    let mode = pick(4, "arrival");
    match mode {
        0 => w.bytes(b, &p),
        1 => { w.conn(b).max_read = 1000; w.bytes(b, &p) }
        2 => { let h = p.len() / 2; w.bytes(b, &p[..h]); w.settle(); w.bytes(b, &p[h..]) }
        _ => { let h = p.len() - 1; w.bytes(b, &p[..h]); w.settle(); w.bytes(b, &p[h..]) }
    }
    // the next packet follows directly
    w.bytes(b, &PING);
    w.m_publish(b, 2, b"t", [3, 4], &pay); w.m_ping(b);
    w.settle(); w.alive(); sx::cover("end");
}
/// Packets whose lengths fill a buffer up to its last bytes: many in a row, arriving at once.
fn many_at_once(n: usize, size: usize) {
    let (mut w, _, b) = pair("S03");
    let mut all = vec![];
    let extra = pick(16, "extra");
    for i in 0..n {
        let pay = vec![i as u8; size + if i == 0 { extra } else { 0 }];
        all.extend_from_slice(&p_publish(0, b"t", [0, 0], &pay)); w.m_publish(b, 0, b"t", [0, 0], &pay);
    }
    w.bytes(b, &all); w.settle(); w.alive(); sx::cover("end");
}
// ---- S04: outgoing bytes ----
/// Every write takes at most some number of bytes; `free`: any number for the first few.
fn short_writes(free: u32) {
    let mut w = W::boot("S04");
    let a = w.open();
    let n = if free > 0 { [0, 6, 999][pick(3, "write size")] } else { pick(40, "write size") }; w.conn(a).max_write = n + 1;
    let when = if free > 0 { pick(2, "free") } else { 2 };
    let open = |w: &mut W, on: bool| { let c = w.conn(a); c.sym_write = on; c.max_write = if on { free as usize } else { n + 1 } };
    if when == 0 { open(&mut w, true) }
    w.connect(a, "a");
    w.subscribe(a, [1, 2], &[(s("t"), 2), (s("u/#"), 1)]);
    w.settle(); open(&mut w, false);
    let b = w.settled_connect("b");
    let id = id2("packet id");
    if when == 1 { open(&mut w, true) }
    w.publish(b, 2, b"t", id, b"first"); w.settle(); open(&mut w, false);
    w.publish(b, 0, b"u/v", id, b"2"); w.publish(b, 4, b"t", id, b"third message");
    w.unsubscribe(a, id, &[s("t"), s("u/#")]); w.ping(a);
    w.settle(); w.alive(); sx::cover("end");
}
/// The transport takes some bytes, then none for a while, then more.
fn blocked_writes(two: bool) {
    let (mut w, a, b) = pair("S04");
    w.cl[a].lossy = false; w.cl[a].cut = true;
    let due = 40;
    let n = pick(due, "window"); kernel::set_window(w.cl[a].conn, n);
    // nothing is due before the window opens again
    let id = id2("packet id");
    let mut out: Vec<(u8, [u8; 2], &[u8])> = vec![(0, [0, 0], b"one"), (2, id, b"two"), (4, id, b"three")];
    if pick(2, "order") == 1 { out.reverse() }
    for (f, i, p) in &out { w.bytes(b, &p_publish(*f, b"t", *i, p)); }
    w.bytes(a, &PING);
    if !kernel::run(1000) { w.fail("S09", "the broker spins on a connection that takes no bytes") }
    if two { let m = pick(20, "window"); kernel::set_window(w.cl[a].conn, m); if !kernel::run(1000) { w.fail("S09", "the broker spins on a connection that takes no bytes") } }
    for (f, i, p) in &out { w.m_publish(b, *f, b"t", *i, p) }
    w.m_ping(a);
    kernel::set_window(w.cl[a].conn, usize::MAX); w.cl[a].cut = false;
    w.settle(); w.alive(); sx::cover("end");
}
/// Requests of a client whose transport has stopped taking bytes somewhere within what it was to get.
fn blocked_asks(n: usize) {
    let (mut w, a, b) = pair("S02 S04 S05");
    w.cl[a].cut = true;
    let k = pick(16, "window"); kernel::set_window(w.cl[a].conn, k);
    let (id, pay) = (id2("packet id"), b"a message");
    let q = 2 * pick(2, "published") as u8;
    w.bytes(b, &p_publish(q, b"t", id, pay)); w.bytes(b, &p_publish(q, b"t", id, b"more"));
    if !kernel::run(1000) { w.fail("S09", "the broker spins on a connection that takes no bytes") }
    w.m_publish(b, q, b"t", id, pay); w.m_publish(b, q, b"t", id, b"more");
    for i in 0..n { request(&mut w, a, i); if pick(2, "settle") == 1 && !kernel::run(1000) { w.fail("S09", "the broker spins on a connection that takes no bytes") } }
    kernel::set_window(w.cl[a].conn, usize::MAX); w.cl[a].cut = false;
    w.settle(); w.alive(); sx::cover("end");
}
/// Large messages through a transport that takes them in pieces.
fn large_writes(n: usize) {
    let (mut w, a, b) = pair("S04");
    w.conn(a).max_write = [1, 100, 4096, 65536][pick(if n > 5000 { 3 } else { 4 }, "write size") + if n > 5000 { 1 } else { 0 }];
    let mut pay = vec![b'x'; n]; for i in (0..n).step_by(251) { pay[i] = i as u8 }
    let e = sx::bytes::<2>("ends"); pay[0] = e[0]; pay[n - 1] = e[1];
    w.publish(b, 2, b"t", [1, 1], &pay); w.publish(b, 0, b"t", [1, 1], b"next");
    w.polls = 20000; w.settle(); w.alive(); sx::cover("end");
}
// ---- S05: messages arrive ----
fn three(ctx: &'static str) -> (W, usize, usize, usize) {
    let mut w = W::boot(ctx);
    let (a, b, c) = (w.settled_connect("a"), w.settled_connect("b"), w.settled_connect("c"));
    (w, a, b, c)
}
/// Arbitrary topic and payload; subscribers by name, by '+', by '#', and the publisher itself.
fn content(t: usize, p: usize) {
    let (mut w, a, b, c) = three("S05");
    let top = topic(t); let n = pick(p + 1, "payload"); let pay = sx::vec(n, "payload");
    w.subscribe(a, [0, 1], &[(top.clone(), 2)]);
    w.subscribe(b, [0, 1], &[(s("#"), 1)]);
    w.subscribe(c, [0, 1], &[(s("a/+"), 0)]);
    w.settle();
    let fl = (pick(3, "qos") as u8) << 1 | pick(2, "retain") as u8;
    let from = [a, b, c][pick(3, "publisher")];
    w.publish(from, fl, &top, [5, 6], &pay); w.settle();
    w.alive(); sx::cover("end");
}
/// Two publishers at once, tasks scheduled freely: everything arrives, each publisher's messages in order.
fn order(n: usize, sched: u32, sel: u32) {
    let (mut w, a, b, c) = three("S05");
    w.subscribe(a, [0, 1], &[(s("t"), 2)]); w.settle();
    if pick(2, "own") == 1 { w.subscribe(b, [0, 1], &[(s("t"), 1)]); w.settle() }
    k().sym_sched = sched; k().sym_select = sel;
    for i in 0..n {
        w.publish(b, 2 * (i as u8 % 3), b"t", [1, i as u8 + 1], &[b'b', i as u8]);
        w.publish(c, 2 * ((i as u8 + 1) % 3), b"t", [1, i as u8 + 1], &[b'c', i as u8]);
    }
    w.settle(); k().sym_sched = 0; k().sym_select = 0;
    w.alive(); sx::cover("end");
}
/// A longer run of requests by several clients, settled one by one.
fn mixed(n: usize) {
    let (mut w, a, b, c) = three("S05");
    for i in 0..n {
        let x = [a, b, c][if i == 0 { 0 } else { pick(3, "client") }];
        match pick(4, "operation") {
            0 => { let f = ["t", "+", "#", "t/u"][pick(4, "filter")]; let q = (i % 3) as u8; w.subscribe(x, [0, 1 + i as u8], &[(s(f), q)]) }
            1 => { let f = ["t", "+", "#", "t/u"][pick(4, "filter")]; w.unsubscribe(x, [0, 1 + i as u8], &[s(f)]) }
            2 => w.publish(x, 2, b"t", [0, 1 + i as u8], &[i as u8]),
            _ => w.publish(x, 0, b"t/u", [0, 0], &[i as u8]),
        }
        w.settle();
    }
    let x = [a, b, c][pick(3, "publisher")];
    w.publish(x, 2, b"t", [7, 7], b"end1"); w.publish(x, 4, b"t/u", [7, 8], b"end2"); w.settle();
    w.alive(); sx::cover("end");
}
/// A burst of messages to a client that reads: none may be lost, whatever is scheduled first.
fn burst(n: usize) {
    let (mut w, a, b) = pair("S04 S05");
    let mut all = vec![];
    for i in 0..n { let p = [(i >> 8) as u8, i as u8]; all.extend_from_slice(&p_publish(0, b"t", [0, 0], &p)); w.m_publish(b, 0, b"t", [0, 0], &p) }
    // the subscriber's transport is blocked for the moment
    let hold = pick(2, "blocked") == 1;
    if hold { kernel::set_window(w.cl[a].conn, 0) }
    w.bytes(b, &all);
    w.polls = 100 * n as u32 + 3000;
    if hold { if !kernel::run(w.polls) { w.fail("S11", "the broker does not come to rest") } kernel::set_window(w.cl[a].conn, usize::MAX) }
    w.settle(); w.alive(); sx::cover("end");
}
// ---- S06: QoS and packet identifiers ----
fn qos_pairs() {
    let (mut w, a, b, c) = three("S06");
    let (g, g2) = (pick(3, "granted") as u8, pick(3, "granted") as u8);
    w.subscribe(a, [0, 1], &[(s("t"), g)]); w.subscribe(b, [0, 1], &[(s("t"), g2), (s("+"), 0)]); w.settle();
    for i in 0..2 { let q = pick(3, "published") as u8; let id = id2("packet id"); w.publish(c, q << 1, b"t", id, &[i]); w.settle() }
    w.alive(); sx::cover("end");
}
fn qos_ids(n: usize) {
    let (mut w, a, b) = pair("S06");
    if pick(2, "publisher") == 1 { w.subscribe(a, [0, 1], &[(s("u"), 1)]); w.settle() }
    for i in 0..n {
        let q = 1 + pick(2, "published") as u8; let id = [2, 2 + i as u8];
        w.publish(b, q << 1, b"t", id, &[i as u8]); if pick(2, "other topic") == 1 { w.publish(b, q << 1, b"u", [3, id[1]], &[i as u8, 1]) }
        if pick(2, "settle") == 1 { w.settle() }
        // the subscriber acknowledges what it has got, or does not
        // (in any order)
        let got: Vec<[u8; 2]> = w.cl[a].ids.iter().filter(|x| x.0).map(|x| x.1).collect();
        if !got.is_empty() { let p = got[if got.len() > 1 { pick(got.len().min(3), "which") } else { 0 }]; match if i + 1 < n { pick(3, "acknowledged") } else { 0 } { 0 => {} 1 => w.puback(a, p), _ => w.pubcomp(a, p) } }
    }
    w.settle(); w.alive(); sx::cover("end");
}
/// So many deliveries that the identifiers start over.
fn ids_wrap(n: usize) {
    let (mut w, a, b) = pair("S06");
    w.cl[a].used = vec![0; 65536];
    let mut left = n;
    while left > 0 {
        let k = left.min(512); left -= k;
        let mut all = vec![];
        for i in 0..k { let p = [(i >> 8) as u8, i as u8]; all.extend_from_slice(&p_publish(2, b"t", [7, 7], &p)); w.m_publish(b, 2, b"t", [7, 7], &p) }
        w.polls = 100 * k as u32 + 3000;
        w.bytes(b, &all); w.settle(); w.trim();
    }
    w.alive(); sx::cover("end");
}
// ---- S07: QoS 2 ----
fn exactly_once(n: usize, arbitrary: bool) {
    let (mut w, _, b) = pair("S07");
    let (x, y) = if arbitrary { ([0, 0], [0, 0]) } else { let x = id2("packet id"); (x, id_other(x, "packet id")) };
    for i in 0..n {
        let id = if arbitrary { id2("packet id") } else if i == 0 { x } else { [x, y][pick(2, "identifier")] };
        match if i == 0 { 0 } else { pick(5, "operation") } {
            0 => w.publish(b, 4, b"t", id, &[i as u8]),
            1 => w.publish(b, 12, b"t", id, &[i as u8]),
            2 => w.pubrel(b, id),
            3 => w.publish(b, 2, b"t", id, &[i as u8]),
            _ => w.pubrec(b, id),
        }
        if !arbitrary { w.settle() }
    }
    w.settle(); w.alive(); sx::cover("end");
}
/// Two publishers with the same identifiers do not get in each other's way, nor does a new connection.
fn exactly_once_two() {
    let (mut w, _, b) = pair("S07");
    let mut c = w.settled_connect("c");
    let id = id2("packet id");
    for i in 0..4 {
        let x = [b, c][pick(2, "client")];
        match pick(4, "operation") {
            0 => w.publish(x, 4, b"t", id, &[i]), 1 => w.publish(x, 12, b"t", id, &[i]), 2 => w.pubrel(x, id),
            _ => { w.bye(c); w.settle(); c = w.settled_connect("c") }
        }
        w.settle();
    }
    w.alive(); sx::cover("end");
}
// ---- S08: keep alive ----
fn any_packet(w: &mut W, c: usize, i: usize) {
    let id = [4, 1 + i as u8];
    match pick(10, "packet") {
        0 => w.ping(c), 1 => w.publish(c, 0, b"k", id, &[i as u8]), 2 => w.publish(c, 2, b"k", id, &[i as u8]), 3 => w.publish(c, 4, b"k", id, &[i as u8]),
        4 => w.subscribe(c, id, &[(s("v"), 1)]), 5 => w.unsubscribe(c, id, &[s("v")]), 6 => w.puback(c, id), 7 => w.pubrec(c, id), 8 => w.pubrel(c, id), _ => w.pubcomp(c, id),
    }
}
/// An active client stays for any keep alive; then it falls silent.
fn keep_alive(n: usize) {
    let mut w = W::boot("S08");
    let c = w.open();
    let keep = sx::bytes::<2>("keep alive"); let s = (keep[0] as u64) << 8 | keep[1] as u64;
    sx::assume(s > 0);
    w.connect_as(c, b"c", keep, 2); w.settle();
    for i in 0..n { w.pass(secs(s)); any_packet(&mut w, c, i); w.settle(); if w.cl[c].st == St::Up { sx::cover("stays") } }
    silent(&mut w, c, s);
}
/// From now on the client sends nothing.
fn silent(w: &mut W, c: usize, s: u64) {
    w.pass(secs(s) - ms(1));
    w.gone(c);
    w.pass_free(secs(s / 2) + ms(5502), &[c]);
    w.count("S09"); sx::cover("goes");
}
/// Packets at arbitrary moments within the keep alive.
fn keep_alive_gaps(n: usize) {
    let mut w = W::boot("S08");
    let c = w.open();
    let s = [1, 2, 10, 60, 300][pick(5, "keep alive")] as u64;
    w.connect_as(c, b"c", [(s >> 8) as u8, s as u8], 2); w.settle();
    for i in 0..n {
        let g = sx::bytes::<2>("gap"); let g = (g[0] as u64) << 8 | g[1] as u64; sx::assume(g <= s);
        w.pass(secs(g)); if i % 2 == 0 { w.ping(c) } else { w.publish(c, 0, b"k", [0, 0], b"") } w.settle();
    }
    silent(&mut w, c, s);
}
/// What other clients do keeps nobody alive, and does not end anybody's connection either.
fn keep_alive_others() {
    let (mut w, _, b) = pair("S08");
    let c = w.open(); w.connect_as(c, b"c", [0, 10], 2); w.subscribe(c, [0, 1], &[(s("t"), pick(2, "qos") as u8)]); w.settle();
    let step = [4000, 1000, 300][pick(3, "step")];
    // messages that arrive until it is closed are fine
    w.cl[c].unsure = true; w.cl[c].lossy = true;
    let mut at = [0, 250, 600, 950][pick(4, "phase")]; w.pass(ms(at));
    while at + step <= 20_000 { at += step; w.pass(ms(step)); w.publish(b, 2, b"t", [0, 1], &[(at / 250) as u8]); w.settle() }
    w.pass(ms(20_100 - at)); w.gone(c); w.cl[c].unsure = false; w.settle();
    w.alive(); w.count("S09"); sx::cover("goes");
}
fn keep_alive_zero() {
    let mut w = W::boot("S08");
    let b = w.open(); w.connect_as(b, b"b", [0, 0], 2); w.settle();
    let c = w.open(); w.connect_as(c, b"c", [0, 0], 2); w.subscribe(c, [0, 1], &[(s("t"), 0)]); w.settle();
    let n = pick(2, "active");
    for i in 0..3 {
        w.pass(secs(sx::byte("gap") as u64 * 400 + 1));
        if n == 1 { any_packet(&mut w, c, i); w.settle() }
        sx::cover("stays");
    }
    // a week
    w.pass(secs(7 * 86400));
    w.publish(b, 0, b"t", [0, 0], b"still"); w.settle(); w.alive();
}
/// A peer that does not get as far as CONNECT.
fn keep_alive_none() {
    let mut w = W::boot("S08");
    let c = w.open();
    let p = p_connect(b"client", [0, 60], 2);
    let n = pick(p.len(), "bytes"); let gap = [0, 1, 30, 50][pick(4, "gap")];
    w.settle();
    for i in 0..n { w.bytes(c, &p[i..i + 1]); if !kernel::run(1000) { w.fail("S09", "the broker does not come to rest") } if gap > 0 && i < 5 { kernel::advance_to(k().now + secs(gap), 3000); } }
    w.gone(c); w.pass_free(secs(300), &[c]); w.count("S09"); sx::cover("goes");
}
/// Silent in the middle of a packet, or without reading what it gets.
fn keep_alive_stuck() {
    let (mut w, _, b) = pair("S08");
    let c = w.open(); w.connect_as(c, b"c", [0, 20], 2); w.subscribe(c, [0, 1], &[(s("u"), 2)]); w.settle();
    match pick(3, "how") {
        0 => { let p = p_publish(2, b"t", [1, 1], b"never complete"); let n = 1 + pick(p.len() - 1, "bytes"); w.bytes(c, &p[..n]) }
        1 => { w.stalled(c); kernel::set_window(w.cl[c].conn, pick(3, "window")); for i in 0..5 { w.publish(b, 0, b"u", [0, 0], &[i]) } }
        _ => { w.stalled(c); kernel::set_window(w.cl[c].conn, 1); w.ping(c) }
    }
    w.settle();
    w.pass(secs(19)); w.ping(0); w.ping(b); w.settle();
    w.gone(c); w.pass_free(secs(17), &[c]); w.count("S09"); w.alive(); sx::cover("goes");
}
// ---- S09: endings ----
/// Ends connection c in one of many ways.
fn end(w: &mut W, c: usize) { let way = pick(11, "ending"); end_by(w, c, way) }
fn end_by(w: &mut W, c: usize, way: usize) {
    let conn = w.cl[c].conn;
    match way {
        0 => w.bye(c),
        1 => w.close(c),
        2 => { kernel::fail_read(conn, [ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::TimedOut, ErrorKind::BrokenPipe][pick(4, "error")]); w.gone(c) }
        3 => { kernel::fail_write(conn, [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset][pick(2, "error")]); kernel::fail_read(conn, ErrorKind::ConnectionReset); w.cl[c].cut = true; w.gone(c) }
        4 => { kernel::fail_write(conn, ErrorKind::BrokenPipe); w.cl[c].cut = true; w.ping(c); w.gone(c) }
        5 => w.bad(c, &[0x36, 3, 0, 1, b't']),
        6 => w.bad(c, &[0xf0, 0]),
        7 => w.bad(c, &[0x30, 0xff, 0xff, 0xff, 0xff, 1]),
        8 => { let p = p_publish(2, b"t", [9, 9], b"incomplete"); let n = 1 + pick(p.len() - 1, "bytes"); w.bytes(c, &p[..n]); w.close(c) }
        9 => w.bad(c, &[0xd0, 0]),
        _ => { w.gone(c); w.pass_alive(secs(96), c) }
    }
}
fn endings(ctx: &'static str, again: bool) {
    let (mut w, a, b) = pair(ctx);
    let before = kernel::live();
    let c = w.open();
    let stage = pick(5, "stage");
    if stage > 0 { w.connect(c, "c"); if stage != 4 { w.settle() } }
    if stage > 1 { w.subscribe(c, [0, 1], &[(s("t"), 1), (s("#"), 2)]); if stage != 4 { w.settle() } }
    if stage > 2 { w.publish(b, 2, b"t", [7, 7], b"before"); if stage != 4 { w.settle() } }
    end(&mut w, c);
    w.settle();
    if kernel::live() != before { w.fail("S09", "the connection's task is still there") }
    w.count("S09");
    for i in 0..2 { w.publish(b, 2, b"t", [8, 8 + i], &[i]); w.settle() }
    if again {
        let d = w.settled_connect("c"); w.publish(b, 0, b"t", [0, 0], b"not yet"); w.settle();
        w.subscribe(d, [0, 1], &[(s("t"), 1)]); w.settle(); w.publish(b, 2, b"t", [8, 1], b"again"); w.settle(); w.count("S09");
        w.bye(d); w.settle(); w.count("S09");
    }
    w.publish(a, 0, b"t", [0, 0], b"own"); w.alive(); sx::cover("end");
}
/// A connection ends while packets wait to be written to it.
fn endings_behind() {
    let (mut w, a, b) = pair("S09 S11");
    let before = kernel::live();
    let c = w.settled_connect("c"); w.subscribe(c, [0, 1], &[(s("t"), 1), (s("#"), 2)]); w.settle();
    kernel::set_window(w.cl[c].conn, [0, 1, 9, 30][pick(4, "window")]); w.stalled(c);
    let n = [1, 3, 40, 150][pick(4, "messages")];
    for i in 0..n { w.publish(b, 2, b"t", [7, 7], &[i as u8; 40]) }
    w.settle();
    // with so many waiting nothing more is read until some are written
    if n > 100 { let way = [3, 4, 10][pick(3, "ending")]; end_by(&mut w, c, way) } else if pick(2, "kind") == 0 { end(&mut w, c) }
    else {
        kernel::fail_write(w.cl[c].conn, [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::TimedOut][pick(4, "error")]);
        w.gone(c)
    }
    w.settle();
    if kernel::live() != before { w.fail("S09", "the connection's task is still there") }
    w.count("S09");
    for i in 0..2 { w.publish(b, 2, b"t", [8, 8 + i], &[i]); w.settle() }
    let d = w.settled_connect("c"); w.subscribe(d, [0, 1], &[(s("t"), 1)]); w.settle(); w.publish(b, 2, b"t", [8, 1], b"again"); w.settle(); w.count("S09");
    w.publish(a, 0, b"t", [0, 0], b"own"); w.alive(); sx::cover("end");
}
/// Many connections come and go.
fn churn(n: usize) {
    let (mut w, _, b) = pair("S09");
    let before = kernel::live();
    for i in 0..n {
        let c = w.open(); let id = ["c", "d", "e"][i % 3];
        if pick(3, "stage") > 0 { w.connect(c, id); w.settle(); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle() }
        match pick(3, "ending") { 0 => w.bye(c), 1 => w.close(c), _ => w.bad(c, &[0xf0, 0]) }
        w.settle(); w.publish(b, 0, b"t", [0, 0], &[i as u8]); w.settle(); w.count("S09");
    }
    if kernel::live() != before { w.fail("S09", "tasks are left behind") }
    w.alive(); sx::cover("end");
}
// ---- S10: takeover ----
fn takeover() {
    let (mut w, _, b) = pair("S10");
    let c = w.settled_connect("c");
    let held = pick(3, "held");
    if held > 0 { w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle() }
    if held > 1 { w.subscribe(c, [0, 2], &[(s("+"), 0)]); w.settle() }
    let early = pick(2, "early") == 1;
    let d = w.open();
    w.connect(d, "c");
    if early { w.subscribe(d, [0, 1], &[(s("t"), 2)]) }
    // the old connection is not silent meanwhile; what it sends may come before or after the takeover
    w.cl[c].unsure = false;
    match pick(5, "late") {
        0 => {} 1 => w.bytes(c, &BYE), 2 => w.bytes(c, &p_subscribe([0, 3], &[(s("late"), 1)])), 3 => w.bytes(c, &p_unsubscribe([0, 4], &[s("t")])), _ => kernel::close(w.cl[c].conn),
    }
    w.old(c); w.settle();
    if !early { w.publish(b, 0, b"t", [0, 0], b"none"); w.settle(); w.subscribe(d, [0, 1], &[(s("t"), 2)]); w.settle() }
    for i in 0..2 { w.publish(b, 4, b"t", [0, 1 + i], &[i]); w.settle() }
    w.publish(b, 0, b"late", [0, 0], b"x"); w.settle();
    w.unsubscribe(d, [0, 9], &[s("t")]); w.settle(); w.publish(b, 0, b"t", [0, 0], b"gone"); w.settle();
    w.count("S09"); w.alive(); sx::cover("end");
}
/// A chain of connections with the same id, tasks scheduled freely.
fn takeover_free(n: usize, sched: u32, sel: u32) {
    let (mut w, _, b) = pair("S10");
    let mut c = w.settled_connect("c"); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle();
    for i in 0..n {
        let d = w.open();
        k().sym_sched = sched; k().sym_select = sel;
        w.connect(d, "c"); w.subscribe(d, [0, 1], &[(s("t"), 1)]);
        match pick(3, "old") { 0 => {} 1 => w.bytes(c, &BYE), _ => w.bytes(c, &p_unsubscribe([0, 4], &[s("t")])) }
        w.old(c); w.settle(); k().sym_sched = 0; k().sym_select = 0;
        w.publish(b, 2, b"t", [0, 1], &[i as u8]); w.settle();
        c = d;
    }
    w.count("S09"); w.alive(); sx::cover("end");
}
/// The old connection takes no bytes, or has a full queue.
fn takeover_stalled() {
    let (mut w, _, b) = pair("S10");
    let c = w.settled_connect("c"); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle();
    w.stalled(c); kernel::set_window(w.cl[c].conn, pick(3, "window"));
    let n = [0, 1, 5, 250][pick(4, "messages")];
    for i in 0..n { w.publish(b, 2, b"t", [0, 1], &[i as u8, 7]) }
    w.settle();
    let d = w.settled_connect("c");
    w.subscribe(d, [0, 1], &[(s("t"), 1)]); w.settle(); w.publish(b, 2, b"t", [0, 1], b"new"); w.settle();
    w.count("S09"); w.alive(); sx::cover("end");
}
/// Clients without an id of their own do not replace each other; ids that only look alike neither.
fn takeover_not() {
    let (mut w, _, b) = pair("S10");
    let (x, y) = [("", ""), ("c", "C"), ("c", "c "), ("cc", "c"), ("c", "")][pick(5, "ids")];
    let c = w.open(); w.connect_own(c, x); w.settle(); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle();
    let d = w.open(); w.connect_own(d, y); w.settle(); w.subscribe(d, [0, 1], &[(s("t"), 1)]); w.settle();
    w.publish(b, 2, b"t", [0, 1], b"both"); w.settle();
    if pick(2, "ending") == 0 { w.bye(c) } else { w.close(d) }
    w.settle(); w.publish(b, 2, b"t", [0, 2], b"one"); w.settle();
    w.count("S09"); w.alive(); sx::cover("end");
}
// ---- S11: one bad client ----
fn misbehave(sched: u32) {
    let (mut w, a, b) = pair("S11");
    let c = w.settled_connect("c"); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle();
    k().sym_sched = sched;
    match pick(9, "how") {
        0 => { w.stalled(c); kernel::set_window(w.cl[c].conn, pick(3, "window")) }
        1 => { let p = p_publish(2, b"t", [9, 9], b"incomplete"); let n = 1 + pick(p.len() - 1, "bytes"); w.bytes(c, &p[..n]); w.stuck(c) }
        2 => w.bad(c, &[0x00, 0x00]),
        3 => w.bad(c, &[0x82, 5, 0, 1, 0, 200, b't']),
        4 => { w.cl[c].cut = true; kernel::fail_write(w.cl[c].conn, ErrorKind::BrokenPipe); w.cl[c].unsure = true; w.cl[c].lossy = true }
        5 => { for i in 0..150 { w.ping(c); if i % 50 == 0 { w.publish(b, 0, b"t", [0, 0], &[i]) } } }
        6 => { w.stalled(c); kernel::set_window(w.cl[c].conn, 0); for _ in 0..100 { w.bytes(c, &PING) } w.cl[c].unsure = true; for _ in 0..100 { w.m_ping(c) } }
        7 => for _ in 0..1 + pick(2, "times") { kernel::fail_accept([ErrorKind::ConnectionAborted, ErrorKind::ConnectionReset, ErrorKind::OutOfMemory][pick(3, "error")]) },
        _ => { let p = p_publish(0, b"t", [0, 0], &[7; 300]); w.bytes(c, &p[..200]); w.close(c) }
    }
    for i in 0..3 { w.publish(b, 2, b"t", [1, 1 + i], &[i]); w.publish(a, 0, b"t", [0, 0], &[i, 1]); if sched == 0 { w.settle() } }
    w.settle(); k().sym_sched = 0;
    let d = w.settled_connect("d"); w.subscribe(d, [0, 1], &[(s("t"), 0)]); w.settle();
    w.publish(d, 0, b"t", [0, 0], b"d"); w.settle();
    w.alive(); sx::cover("end");
}
/// Well-formed packets that a broker hardly ever sees. What they mean is left open here: nobody else may notice.
fn odd() {
    let (mut w, a, b) = pair("S11");
    let c = w.settled_connect("c"); w.cl[c].blind = true;
    let slashes = |n: usize| vec![b'/'; n];
    let plus = |n: usize| { let mut v = vec![b'+']; for _ in 1..n { v.extend_from_slice(b"/+") } v };
    let what = match pick(24, "topic") {
        0 => s("$share"), 1 => s("$share/"), 2 => s("$share/g"), 3 => s("$share/g/t"), 4 => s("$share/g/#"), 5 => s("$share//t"), 6 => s("$SYS"), 7 => s("$SYS/broker/uptime"), 8 => s("$"),
        9 => s("/"), 10 => s("//"), 11 => s("t/"), 12 => s("$share/+/t"), 13 => s("$queue/t"), 14 => slashes(199), 15 => slashes(200), 16 => slashes(1000), 17 => slashes(65535), 18 => plus(200), 19 => plus(32768),
        20 => vec![b'x'; 65535], 21 => { let mut v = slashes(65534); v.push(b'#'); v } 22 => vec![0xc3, 0xa9, b'/', 0xf0, 0x9f, 0x98, 0x80], _ => s("$share/g"),
    };
    let wild = what.iter().any(|x| *x == b'+' || *x == b'#');
    w.bytes(c, &p_subscribe([0, 1], &[(what.clone(), 1), (s("$share/g/x"), 1), (what.clone(), 2)])); w.settle();
    if !wild { w.bytes(c, &p_publish(2, &what, [0, 2], b"odd")); w.settle() }
    w.publish(b, 2, b"t", [0, 1], b"others"); w.settle();
    match pick(4, "then") {
        0 => { w.bytes(c, &p_unsubscribe([0, 3], &[what.clone(), s("$share/g/x"), s("$share/h/x"), s("$share")])); w.settle() }
        1 => { w.bye(c); w.settle() }
        2 => { let d = w.settled_connect("c"); w.subscribe(d, [0, 1], &[(s("t"), 0)]); w.settle() }
        _ => { w.bytes(c, &p_subscribe([0, 4], &[(what.clone(), 0)])); w.settle() }
    }
    if !wild { w.bytes(c, &p_publish(4, &what, [0, 5], b"odd again")); w.settle() }
    w.publish(b, 4, b"t", [0, 2], b"others"); w.publish(a, 0, b"t", [0, 2], b"own"); w.settle();
    w.alive(); sx::cover("end");
}
/// Filters of shared groups, and invalid ones, in one request with ordinary ones: each of the latter is treated as if it stood alone.
fn odd_among() {
    let (mut w, a, b) = pair("T03 T04");
    let c = w.settled_connect("c"); w.subscribe(a, [1, 3], &[(s("u"), 1), (s("u/#"), 0)]); w.settle();
    let x = s(["$share", "$share/", "$share/g", "$share/g/u", "$share/g/#", "$share/g/t/x", "#/x", "u+", "$share//u"][pick(9, "odd filter")]); let wrong = x[0] != b'$';
    let u = || s("u"); let t = || s("t");
    match pick(4, "request") {
        0 => w.subscribe(c, [0, 1], &[(x.clone(), 1), (u(), 2)]),
        1 => w.subscribe(c, [0, 1], &[(u(), 2), (x.clone(), 2)]),
        2 => w.subscribe(c, [0, 1], &[(x.clone(), 1), (u(), 2), (x.clone(), 0), (t(), 1)]),
        _ => { w.subscribe(c, [0, 1], &[(t(), 0), (u(), 2)]); w.settle(); w.subscribe(c, [0, 1], &[(s("u/#"), 0), (x.clone(), 1), (u(), 1)]) }
    }
    w.settle(); w.publish(b, 4, b"u", [0, 1], b"1"); w.publish(b, 4, b"t", [0, 2], b"2"); w.settle();
    match pick(if wrong { 3 } else { 6 }, "and then") {
        0 => w.unsubscribe(c, [0, 2], &[u()]),
        1 => w.bye(c),
        2 => w.unsubscribe(a, [0, 2], &[u(), t()]),
        3 => w.unsubscribe(c, [0, 2], &[x.clone(), u()]),
        4 => w.unsubscribe(c, [0, 2], &[u(), x.clone(), t(), x.clone(), s("u/#")]),
        _ => w.unsubscribe(c, [0, 2], &[x.clone()]),
    }
    w.settle(); w.publish(b, 4, b"u", [0, 3], b"3"); w.publish(b, 2, b"t", [0, 4], b"4"); w.publish(b, 2, b"u/x", [0, 5], b"5"); w.settle();
    w.alive(); sx::cover("end");
}
/// A client that stops reading while very many messages are published to it.
fn flood(n: usize) {
    let (mut w, a, b) = pair("S11");
    let c = w.settled_connect("c"); w.subscribe(c, [0, 1], &[(s("f"), 0)]); w.settle();
    w.stalled(c); kernel::set_window(w.cl[c].conn, 0);
    let one = p_publish(0, b"f", [0, 0], b""); let mut all = Vec::with_capacity(one.len() * n);
    for _ in 0..n { all.extend_from_slice(&one) }
    w.polls = 100 * n as u32 + 3000;
    w.bytes(b, &all); w.settle();
    w.publish(b, 2, b"t", [0, 1], b"others"); w.settle();
    let d = w.settled_connect("d"); w.subscribe(d, [0, 1], &[(s("f"), 0)]); w.settle();
    w.publish(a, 0, b"f", [0, 0], b"x"); w.cl[c].msgs.clear(); w.settle();
    w.publish(b, 0, b"f", [0, 0], b"y"); w.cl[c].msgs.clear(); w.settle();
    // the stalled client is replaced or leaves; nobody notices
    w.cl[c].unsure = true;
    w.alive(); sx::cover("end");
}
// ---- S12: shutdown ----
/// The signal arrives after any number of steps of a session with several clients.
fn interrupted(max: usize) {
    let (mut w, a, b) = pair("S12");
    let c = w.open();
    w.connect(c, "c"); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.publish(c, 2, b"t", [0, 1], b"own"); w.publish(b, 4, b"t", [0, 1], b"1"); w.publish(a, 0, b"t", [0, 1], b"2");
    let d = w.open(); w.bytes(d, &p_connect(b"c", [0, 60], 2)); w.bytes(c, &BYE);
    let n = pick(max, "steps");
    for _ in 0..n { if !kernel::step() { sx::cover("quiet"); break } }
    w.shutdown();
}
/// The signal arrives in one of many settled states, with connections in every condition.
fn shutdown_states() {
    let (mut w, a, b) = pair("S12");
    let conds = 2;
    for i in 0..conds {
        let c = w.open(); let conn = w.cl[c].conn;
        match pick(8, "condition") {
            0 => {}
            1 => { w.connect(c, ["c", "d"][i]); w.settle() }
            2 => { w.bytes(c, &p_connect(b"c", [0, 60], 2)[..5]) }
            3 => { w.connect_as(c, ["c", "d"][i].as_bytes(), [0, 0], 2); w.subscribe(c, [0, 1], &[(s("t"), 1)]); w.settle(); w.stalled(c); kernel::set_window(conn, pick(2, "window")); for j in 0..120 { w.publish(b, 2, b"t", [0, 1], &[j]) } w.settle() }
            4 => { w.connect_as(c, ["c", "d"][i].as_bytes(), [0, 0], 2); w.settle(); w.stalled(c); kernel::set_window(conn, 0); for _ in 0..100 { w.bytes(c, &PING) } kernel::run(w.polls); }
            5 => { w.connect(c, "same"); w.settle() }
            6 => { w.connect(c, ["c", "d"][i]); w.settle(); w.bytes(c, &[0x32, 100, 0, 1, b't']); w.settle() }
            _ => { w.connect(c, ["c", "d"][i]); w.settle(); w.bye(c); w.settle() }
        }
    }
    kernel::run(w.polls);
    w.shutdown(); let _ = a;
}
/// Tasks scheduled freely after the signal.
fn shutdown_free(sched: u32, sel: u32) {
    let (mut w, a, b) = pair("S12");
    k().sym_sched = sched; k().sym_select = sel;
    w.publish(b, 4, b"t", [0, 1], b"1"); w.subscribe(a, [0, 9], &[(s("u"), 1)]);
    let n = pick(6, "steps"); for _ in 0..n { kernel::step(); }
    w.shutdown();
}
/// The signal while requests wait everywhere: in the broker's own queues, before them, and behind what clients do not read.
fn shutdown_busy(sched: u32, n: usize) {
    let (mut w, a, b) = pair("S12");
    w.polls = 100_000;
    let how = pick(3, "requests");
    let all: Vec<u8> = (0..n).flat_map(|i| match how { 0 => p_publish(0, b"t", [0, 0], &[i as u8]), 1 => p_publish(2, b"t", [0, 1], &[i as u8]), _ => p_subscribe([0, 1], &[(s("t"), 1)]) }).collect();
    let blocked = pick(2, "blocked") == 1;
    if blocked { kernel::set_window(w.cl[a].conn, 0); kernel::set_window(w.cl[b].conn, 0) }
    w.bytes(b, &all); if pick(2, "both") == 1 { w.bytes(a, &all) }
    let k0 = pick(4, "steps");
    for _ in 0..k0 { kernel::step(); }
    k().sym_sched = sched;
    w.shutdown();
}
// ---- S13: counters ----
fn counted(n: usize) {
    let (mut w, a, b) = pair("S13");
    for i in 0..n {
        let x = if i == 0 { b } else { [a, b][pick(2, "client")] };
        request(&mut w, x, i); w.settle(); w.counters();
    }
    sx::cover("counted");
    match pick(3, "ending") { 0 => w.bye(a), 1 => w.close(b), _ => {} }
    w.settle(); w.counters(); w.alive(); w.counters(); sx::cover("end");
}
fn counted_cut() {
    let (mut w, a, b) = pair("S13");
    let c = w.open();
    let n = [1, 2, 3, 7, 1000][pick(5, "read size")]; w.conn(c).max_read = n; let m = [1, 2, 3, 5, 1000][pick(5, "write size")]; w.conn(a).max_write = m; w.conn(c).max_write = m;
    w.connect(c, "c"); w.subscribe(c, [0, 1], &[(s("t"), 1), (s("a/#"), 2)]);
    w.publish(c, 2, b"t", [0, 1], b"own"); w.publish(c, 4, b"t", [0, 1], b"2"); w.publish(c, 12, b"t", [0, 1], b"2"); w.pubrel(c, [0, 1]); w.ping(c);
    w.settle(); w.counters();
    w.publish(b, 0, b"t", [0, 1], &[5; 200]); w.publish(b, 2, b"a/b", [0, 1], &[6; 130]); w.settle(); w.counters();
    w.bye(c); w.settle(); w.counters(); sx::cover("counted");
    w.publish(b, 0, b"t", [0, 1], b"last"); w.settle(); w.counters(); sx::cover("end");
}
/// Large messages, and very many.
fn counted_big(n: usize) {
    let (mut w, a, b) = pair("S13");
    for i in 0..3 { w.publish(b, 2, b"t", [0, 1 + i], &vec![i; 60_000]); w.settle(); w.counters() }
    let mut left = n;
    while left > 0 {
        let k = left.min(512); left -= k;
        let mut all = vec![];
        for i in 0..k { let p = p_publish(2, b"t", [7, 7], &[i as u8]); w.cl[b].rx += 1; w.cl[b].rx_pub += 1; w.cl[b].rx_bytes += p.len(); all.extend_from_slice(&p); w.m_publish(b, 2, b"t", [7, 7], &[i as u8]) }
        w.polls = 100 * k as u32 + 3000;
        w.bytes(b, &all); w.settle(); w.counters();
    }
    w.bye(a); w.settle(); w.counters(); sx::cover("counted"); w.alive(); sx::cover("end");
}
/// Very many connections.
fn counted_clients(n: usize) {
    let (mut w, _, b) = pair("S13");
    let c = w.open(); w.connect(c, "c"); w.settle(); w.bye(c); w.settle();
    for i in 0..n { let c = w.open(); w.connect(c, "c"); w.settle(); if i % 2 == 0 { w.bye(c) } else { w.close(c) } w.settle(); w.count("S13"); w.cl.pop(); }
    w.publish(b, 0, b"t", [0, 0], b"x"); w.alive(); sx::cover("counted"); sx::cover("end");
}
/// Two connections served at the same time on two threads.
fn counted_parallel(left: u64) {
    let (mut w, a, b) = pair("S13");
    let c = w.settled_connect("c");
    w.sub(b, "m/0", 1); w.sub(c, "m/1", 1); w.settle();
    let kinds = [pick(7, "one"), pick(7, "other")];
    k().par = left;
    for i in 0..2 { do_kind(&mut w, kinds[i], a, [b, c][i], i) }
    w.settle(); k().par = 0;
    w.counters(); sx::cover("counted");
    w.alive(); w.counters();
    // a counterexample is tried for longer
    if sx::NATIVE { let start = std::time::Instant::now(); w.race(kinds); while std::env::var("KSX_VIOLATION").is_ok() && start.elapsed() < Duration::from_secs(40) { w.race(kinds) } }
    sx::cover("end");
}
fn do_kind(w: &mut W, kind: usize, a: usize, c: usize, i: usize) {
    match kind {
        0 => w.publish(c, 0, b"t", [0, 1], b"abc"),
        1 => w.ping(c),
        2 => { let n = w.open(); let id = format!("{}-{}", i, n); w.connect(n, &id) }
        3 => w.bye(c),
        4 => w.close(c),
        5 => w.subscribe(c, [0, 7], &[(s("q"), 1)]),
        _ => w.publish(a, 4, &[b'm', b'/', b'0' + i as u8], [0, 1], b"def"),
    }
}
impl W {
    /// The same on real threads, very often: every thread serves a broker of its own, only the counters are shared.
    fn race(&mut self, kinds: [usize; 2]) {
        let before = stats();
        let turn = std::sync::Arc::new((std::sync::Mutex::new(()), std::sync::Barrier::new(4)));
        let t: Vec<_> = (0..4).map(|i| { let (kind, turn) = (kinds[i % 2], turn.clone()); std::thread::Builder::new().stack_size(8 << 20).spawn(move || solo(kind, i % 2, &turn)).unwrap() }).collect();
        let mut sum = [0; 7];
        for x in t { let r = x.join().unwrap(); for i in 0..7 { sum[i] += r[i] } }
        let (Some(x), Some(y)) = (before, stats()) else { return };
        for i in 0..7 { if y[i] != x[i] + sum[i] { self.fail("S13", "updates of the counters are lost") } }
    }
}
fn solo(kind: usize, i: usize, turn: &(std::sync::Mutex<()>, std::sync::Barrier)) -> [usize; 7] {
    let mut sum = [0; 7];
    let g = turn.0.lock().unwrap();
    let mut w = W::boot("S13");
    let r = w.settled_connect("r"); w.sub(r, "t", 0); w.settle();
    drop(g);
    for _ in 0..100 {
        let g = turn.0.lock().unwrap();
        let who: Vec<usize> = (0..if kind == 3 || kind == 4 { 60 } else if kind == 2 { 0 } else { 1 }).map(|j| { let c = w.open(); w.connect(c, &format!("{}", j)); c }).collect();
        w.settle();
        if kind == 6 { w.sub(who[0], ["m/0", "m/1"][i], 1); w.settle() }
        drop(g);
        turn.1.wait();
        for j in 0..60 { do_kind(&mut w, kind, r, if who.is_empty() { 0 } else { who[j % who.len()] }, i); if kind != 6 || j % 20 == 19 { w.settle() } }
        turn.1.wait();
        let g = turn.0.lock().unwrap();
        for n in 1..w.cl.len() { w.close(n) }
        w.settle();
        for c in &w.cl { let x = &mut k().conns[c.conn]; for (i, v) in [c.rx_bytes, x.outbox.len(), 0, c.rx, c.got, c.rx_pub, c.got_pub].into_iter().enumerate() { sum[i] += v } }
        w.trim(); w.cl.truncate(1);
        let c = &mut w.cl[0]; c.rx_bytes = 0; c.rx = 0; c.got = 0; c.rx_pub = 0; c.got_pub = 0;
        drop(g);
    }
    sum[2] += 1;
    sum
}
// ---- G01 ----
/// The started broker listens on port 1883 of all interfaces, and goes on accepting connections.
fn listens(sel: u32) {
    let mut w = W::boot("G01");
    k().sym_select = sel;
    if k().binds.len() != 1 { w.fail("", "not listening exactly once") }
    let a = k().binds[0];
    if a.port() != 1883 { w.fail("", "listening on another port") }
    if a.ip() != std::net::IpAddr::V4(std::net::Ipv4Addr::UNSPECIFIED) && a.ip() != std::net::IpAddr::V6(std::net::Ipv6Addr::UNSPECIFIED) { w.fail("", "not listening on all interfaces") }
    let n = 1 + pick(4, "clients"); let all = pick(2, "together") == 1;
    for i in 0..n { let c = w.open(); w.connect(c, ["a", "b", "c", "d"][i]); if !all { w.settle() } }
    w.settle();
    if k().binds.len() != 1 || !k().listener_open { w.fail("", "no longer listening") }
    w.alive(); sx::cover("end");
}
// ---- S14: nothing is left of what is over ----
/// The same session over and over, of fresh clients, of one that reconnects, or on one lasting connection: what the
/// broker has allocated may not grow every time the number of sessions doubles.
fn residue(ops: usize, all_endings: bool) {
    k().measure = true;
    let (mut w, a, b) = pair("S14");
    w.sub(a, "n/+/z", 1); w.settle();
    let who = pick(3, "client");
    let plan: Vec<usize> = (0..ops).map(|_| pick(13, "operation")).collect();
    let pay = sx::bytes::<1>("payload");
    let how = if who == 2 { 0 } else if all_endings { pick(10, "ending") } else { [1, 8, 9][pick(3, "ending")] };
    let mut lasting = None; let mut leaving = None; let mut at = vec![];
    // run natively, hash maps have many shards, each of which keeps what it once needed, at a random time: that takes longer to level off
    let unit = if sx::NATIVE { 50 } else { 1 };
    for i in 1..=32 * unit {
        let c = match lasting { Some(c) => c, None => { let c = w.open(); if leaving.is_some() { w.settle() } let id = if who == 0 { nth(i) } else { s("c") }; w.connect_as(c, &id, [0, 60], 2); if let Some(o) = leaving.take() { w.close(o) } w.settle(); c } };
        if who == 2 { lasting = Some(c) }
        let n = nth(i); let mine = [&n[..], b"/+/x"].concat(); let share = [b"$share/", &n[2..], b"/", &n[..]].concat(); let root = [b"root", &n[2..]].concat(); let troot = [b"$share/g/", &root[..]].concat();
        let pid = [(i >> 8) as u8 + 1, i as u8];
        for o in &plan {
            match o {
                0 => w.subscribe(c, pid, &[(mine.clone(), 1)]),
                1 => w.subscribe(c, pid, &[(s("n/#"), 2), (s("t"), 0)]),
                2 => w.subscribe(c, pid, &[(mine.clone(), 0), ([&n[..], b"/a"].concat(), 2), ([&n[..], b"/#/"].concat(), 1), (n.clone(), 1), (root.clone(), 1), ([&root[..], b"/a"].concat(), 0)]),
                3 => w.subscribe(c, pid, &[(share.clone(), 1), (s("$share/g/n"), 0)]),
                4 => w.subscribe(c, pid, &[([&share[..], b"/a/b"].concat(), 1), ([b"$share/g/", &n[..]].concat(), 1), (troot.clone(), 0)]),
                5 => w.unsubscribe(c, pid, &[mine.clone(), share.clone(), s("n/#"), s("none"), [&n[..], b"/none"].concat()]),
                6 => { w.publish(c, 0, &[&n[..], b"/a/x"].concat(), pid, &pay); w.publish(b, 2, &[&n[..], b"/z"].concat(), pid, &pay) }
                7 => w.publish(c, 4, b"t", pid, &pay),
                8 => { w.publish(c, 4, &[&n[..], b"/z"].concat(), pid, &pay); w.pubrel(c, pid) }
                9 => { w.publish(b, 4, b"t", pid, &pay); w.pubrel(b, pid); w.puback(c, pid); w.pubrec(c, pid) }
                10 => { w.publish(b, 2, b"t", pid, &pay); w.ping(c) }
                12 => w.subscribe(c, pid, &[(s("kept"), (i % 3) as u8), (s("$share/kept/kept"), 0)]),
                _ => { let f: Vec<(Vec<u8>, u8)> = (0..20u8).map(|j| ([&n[..], &[b'/', b'A' + j]].concat(), j % 3)).collect(); w.subscribe(c, pid, &f) }
            }
            w.settle();
        }
        if who == 2 {
            let mut f: Vec<Vec<u8>> = vec![mine, s("n/#"), s("t"), [&n[..], b"/a"].concat(), n.clone(), share.clone(), s("$share/g/n"), [&share[..], b"/a/b"].concat(), [b"$share/g/", &n[..]].concat(), [&root[..], b"/a"].concat(), root, troot];
            if plan.contains(&11) { f.extend((0..20u8).map(|j| [&n[..], &[b'/', b'A' + j]].concat())) }
            w.unsubscribe(c, pid, &f); w.pubrel(c, pid);
        } else {
            let conn = w.cl[c].conn;
            match how {
                0 => w.bye(c), 1 => w.close(c),
                2 => { kernel::fail_read(conn, ErrorKind::ConnectionReset); w.gone(c) }
                3 => { kernel::fail_write(conn, ErrorKind::BrokenPipe); w.cl[c].cut = true; w.ping(c); w.gone(c) }
                4 => w.bad(c, &[0x36, 3, 0, 1, b't']),
                5 => { w.bytes(c, &p_publish(2, b"t", [9, 9], b"incomplete")[..6]); w.close(c) }
                6 => { w.gone(c); w.pass_alive(secs(96), c) }
                7 => { kernel::set_window(conn, 1); w.stalled(c); w.publish(b, 0, b"t", pid, b"unread"); w.settle(); w.close(c) }
                // closes when the next connection comes
                9 => { w.cl[c].lossy = true; leaving = Some(c) }
                // the next connection takes over, or the connection is in error
                _ => if who == 0 { w.bad(c, &[0xf0, 0]) },
            }
        }
        w.settle();
        if [4, 8, 16, 32].iter().any(|x| x * unit == i) { at.push(sx::live()) }
    }
    let grown = at.windows(2).all(|x| x[0] < x[1]);
    // what every session leaves behind doubles with their number; that is at least a pointer's worth
    let steady = |a: u64, b: u64, c: u64| c - b >= 8 * 16 * unit as u64 && (c - b) * 4 > (b - a) * 5;
    if grown && (!sx::NATIVE || steady(at[1] as u64, at[2] as u64, at[3] as u64)) { w.fail("", "what ended sessions leave behind grows and grows") }
    w.alive(); sx::cover("end");
}
// ---- scale: what only shows with many of something, or with long text ----
fn nth(i: usize) -> Vec<u8> { let mut v = s("n/"); let mut i = i; loop { v.push(b'a' + (i % 26) as u8); i /= 26; if i == 0 { break v } } }
/// Text whose characters take `width` bytes each, after `shift` bytes of others: it cannot be split at any other byte.
pub fn text(len: usize, width: usize, shift: usize) -> Vec<u8> {
    let c: &[u8] = [&b"x"[..], "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes()][width - 1];
    let mut v = vec![b'x'; shift]; while v.len() + width <= len { v.extend_from_slice(c) } while v.len() < len { v.push(b'x') }
    v
}
/// One client with very many filters, in few requests; one of them is given up, then all of them.
fn many_filters(n: usize, ctx: &'static str) {
    let (mut w, a, b) = pair(ctx);
    let c = w.settled_connect("c");
    let id = id2("packet id");
    w.polls = 100_000;
    let parts = [0, 5, n - 20, n];
    for k in 0..3 { let fs: Vec<(Vec<u8>, u8)> = (parts[k]..parts[k + 1]).map(|i| (nth(i), (i % 3) as u8)).collect(); w.subscribe(c, id, &fs); w.settle() }
    w.sub(b, &String::from_utf8_lossy(&nth(n / 2)), 1); w.sub(b, "n/+", 0); w.settle();
    let look = [0, 1, 31, 63, 64, 99, 100, 127, 128, 255, 256, n / 3, n / 2, n - 2, n - 1];
    let x = look[pick(look.len(), "filter")];
    let mut turn = 0;
    let mut all = |w: &mut W| { turn += 1; for i in [x, (x + 1) % n, (x + n - 1) % n, n / 2] { w.publish(a, 4, &nth(i), [turn, i as u8], &[turn, i as u8]); } w.settle() };
    all(&mut w);
    w.unsubscribe(c, id, &[nth(x)]); w.settle(); all(&mut w);
    w.subscribe(c, id, &[(nth(x), 2)]); w.settle(); all(&mut w);
    match pick(4, "then") {
        0 => { let fs: Vec<Vec<u8>> = (0..n).map(nth).collect(); w.unsubscribe(c, id, &fs); w.settle() }
        1 => { w.bye(c); w.settle() }
        2 => { let d = w.open(); w.connect(d, "c"); w.settle(); all(&mut w); w.sub(d, "n/b", 2) }
        _ => w.sub(c, "n/#", 0),
    }
    all(&mut w); w.alive(); sx::cover("end");
}
/// Very many clients with the same filter; some more connections that never say anything.
fn crowd(n: usize, ctx: &'static str) {
    let (mut w, a, b) = pair(ctx);
    w.polls = 100_000;
    for i in 0..n { let c = w.open(); let id = nth(i); w.connect_as(c, &id, [0, 0], 2); w.subscribe(c, [0, 1], &[(s("t"), (i % 3) as u8), (s(["u", "#", "t/#", "+"][i % 4]), 1)]) }
    let idle: Vec<usize> = (0..n / 3).map(|_| w.open()).collect();
    w.settle(); w.count("S13");
    let id = id2("packet id");
    w.publish(a, 4, b"t", id, b"to all"); w.settle();
    let x = 2 + [0, 1, n / 2, n - 2, n - 1][pick(5, "client")];
    match pick(3, "then") { 0 => w.bye(x), 1 => w.close(x), _ => w.unsubscribe(x, [0, 2], &[s("t")]) }
    w.settle(); w.count("S13");
    w.publish(b, 2, b"t", id, b"to the others"); w.pubrel(a, id); w.publish(a, 4, b"u", id, b"to some"); w.settle();
    match pick(2, "and then") {
        0 => { for c in idle { w.close(c) } w.settle(); w.count("S13"); w.alive() }
        _ => w.shutdown(),
    }
    sx::cover("end");
}
/// Very many QoS 2 messages that are not released yet.
fn once_many(n: usize) {
    let (mut w, _, b) = pair("S07");
    w.polls = 100_000;
    let at = |i: usize| [(i + 1 >> 8) as u8, (i + 1) as u8];
    for i in 0..n { w.publish(b, 4, b"t", at(i), &at(i)); if i % 256 == 255 { w.settle() } }
    w.settle();
    let look = [0, 1, n / 2, n - 2, n - 1]; let x = at(look[pick(look.len(), "identifier")]);
    w.publish(b, 12, b"t", x, &x); w.publish(b, 12, b"t", at(0), &at(0)); w.settle();
    let id = id2("packet id"); w.publish(b, 12, b"t", id, b"any"); w.settle();
    w.pubrel(b, x); w.settle();
    w.publish(b, 12, b"t", at(1), &at(1)); w.publish(b, 4, b"t", x, b"anew"); w.publish(b, 12, b"t", at(n - 1), &at(n - 1)); w.settle();
    w.alive(); sx::cover("end");
}
/// Thousands of QoS 2 messages, none of which is released yet (every hash is the same here, so that time grows with the square).
fn once_all(n: usize) {
    let (mut w, _, b) = pair("S07");
    let at = |i: usize| [(i + 1 >> 8) as u8, (i + 1) as u8];
    let mut i = 0;
    while i < n {
        let k = (n - i).min(512); let mut all = vec![];
        for _ in 0..k { let p = at(i); all.extend_from_slice(&p_publish(4, b"t", p, &p)); let mut h = std::mem::take(&mut w.cl[b].held); w.m_publish(b, 4, b"t", p, &p); h.push(p); w.cl[b].held = h; i += 1 }
        w.polls = 100 * k as u32 + 3000;
        w.bytes(b, &all); w.settle(); w.trim();
    }
    let look = [0, n / 3, n - 1]; let x = at(look[pick(look.len(), "identifier")]);
    w.publish(b, 12, b"t", x, &x); w.settle();
    w.pubrel(b, x); w.publish(b, 12, b"t", at(1), &at(1)); w.publish(b, 4, b"t", x, b"anew"); w.settle();
    w.alive(); sx::cover("end");
}
/// Long text in every place, of characters of every width, in every alignment.
fn long_text(lens: &[usize], ctx: &'static str) {
    let mut w = W::boot(ctx);
    let len = lens[pick(lens.len(), "length")];
    let width = 1 + pick(4, "width"); let shift = pick(width, "shift");
    let x = text(len, width, shift);
    let c = w.open();
    let long_id = pick(2, "client id") == 1;
    w.connect_as(c, if long_id { &x } else { b"c" }, [0, 60], 2); w.settle();
    let p = w.settled_connect("p");
    let y = [text(len / 2, width, shift), s("/"), text(len - len / 2 - 1, width, 0)].concat();
    let bad = match pick(4, "invalid") { 0 => [&x[..], b"#"].concat(), 1 => [b"#/", &x[..]].concat(), 2 => [&x[..], b"/+x"].concat(), _ => [&x[..], b"+/", &x[..]].concat() };
    w.subscribe(c, [0, 1], &[(x.clone(), 1), (y.clone(), 2)]);
    if bad.len() < 65536 { w.subscribe(c, [0, 2], &[(y.clone(), 2), (bad, 1), (x.clone(), 1)]) }
    w.settle();
    w.publish(p, 4, &x, [0, 1], &x); w.publish(p, 2, &y, [0, 2], b"two levels"); w.settle();
    if long_id { let d = w.open(); w.connect_as(d, &x, [0, 60], 2); w.old(c); w.settle(); w.sub(d, "+/#", 1); w.settle() }
    else { w.unsubscribe(c, [0, 3], &[x.clone()]); w.settle() }
    w.publish(p, 4, &x, [0, 4], b"gone"); w.publish(p, 4, &y, [0, 5], b"still here"); w.settle();
    w.alive(); sx::cover("end");
}
/// A CONNECT with everything in it, in long text.
fn long_connect(lens: &[usize]) {
    let (mut w, a, b) = pair("S01");
    let len = lens[pick(lens.len(), "length")]; let width = 1 + pick(4, "width"); let x = text(len, width, pick(width, "shift"));
    let mut body = b"\0\x04MQTT\x04\xe6\0\x3c".to_vec();
    for _ in 0..5 { put(&mut body, &x) }
    let c = w.open(); w.bytes(c, &packet(0x10, &body)); w.m_connect(c, &x); w.settle();
    w.sub(c, "t", 2); w.settle(); w.publish(b, 4, b"t", [0, 1], b"m"); w.settle();
    w.publish(a, 0, b"t", [0, 0], b"n"); w.alive(); sx::cover("end");
}
// ---- T01..T04 end to end ----
/// The whole broker, driven through its clients; one more client publishes.
struct Whole { w: W, n: usize }
impl Sut for Whole {
    fn start(clients: usize, ids: &'static str) -> Whole {
        let mut w = W::boot(ids);
        for c in ["a", "b", "c"][..clients].iter() { w.settled_connect(c); }
        w.settled_connect("publisher");
        Whole { w, n: 0 }
    }
    fn sub(&mut self, c: usize, f: &[u8], q: u8) { self.w.subscribe(c, [0, 1], &[(f.to_vec(), q)]); self.w.settle() }
    fn unsub(&mut self, c: usize, f: &[u8]) { if !valid_filter(f) { sx::stop() } self.w.unsubscribe(c, [0, 2], &[f.to_vec()]); self.w.settle() }
    fn publish(&mut self, t: &[u8]) { self.n += 1; let p = self.w.cl.len() - 1; self.w.publish(p, 4, t, [3, self.n as u8], &[self.n as u8]); self.w.settle(); sx::cover("end") }
}
/// A SUBSCRIBE with several filters, some of them invalid, and an UNSUBSCRIBE with several.
fn t_codes(n: usize, f: usize) {
    let mut w = W::boot("T04");
    let a = w.settled_connect("a"); let b = w.settled_connect("b");
    let k = 1 + pick(n, "filters"); let id = id2("packet id");
    let turn = pick(3, "qos");
    let mut fs = vec![];
    for i in 0..k { let x = ascii(1, f, "filter"); fs.push((x, ((i + turn) % 3) as u8)) }
    w.subscribe(a, id, &fs); w.settle();
    w.publish(b, 4, b"a/b", [0, 1], b"m"); w.publish(b, 4, b"c", [0, 2], b"n"); w.settle();
    let fs: Vec<Vec<u8>> = fs.into_iter().map(|x| x.0).collect();
    w.unsubscribe(a, id, &fs); w.settle();
    w.publish(b, 4, b"a/b", [0, 3], b"o"); w.settle(); w.alive(); sx::cover("end");
}
/// Many filters in one request.
fn t_many(n: usize) {
    let mut w = W::boot("T04");
    let a = w.settled_connect("a");
    let bad = pick(n, "invalid one"); let shape = ["#a", "a/#/b", "a+", "+a/b", "a/b#", "##"][pick(6, "shape")];
    let fs: Vec<(Vec<u8>, u8)> = (0..n).map(|i| (if i == bad { s(shape) } else { vec![b'a' + (i % 26) as u8, b'/', b'0' + (i / 26) as u8] }, (i % 3) as u8)).collect();
    w.subscribe(a, [0, 1], &fs); w.settle();
    for i in [0, n / 2, n - 1] { w.publish(a, 4, &[b'a' + (i % 26) as u8, b'/', b'0' + (i / 26) as u8], [0, 1 + i as u8], &[i as u8]) }
    w.settle(); w.alive(); sx::cover("end");
}

super::entries! {
    h_sys_many_filters => many_filters(300, "T01 T03 T04 S02 S05");
    h_sys_many_filters2 => many_filters(1500, "T01 T03 T04 S02 S05");
    h_sys_crowd => crowd(120, "S01 S05 S06 S11 S12 S13 T02");
    h_sys_crowd2 => crowd(400, "S01 S05 S06 S11 S12 S13 T02");
    h_sys_residue1 => residue(1, true);
    h_sys_residue2 => residue(2, false);
    h_sys_residue2b => residue(2, true);
    h_sys_residue3 => residue(3, false);
    h_sys_once_many => once_many(300);
    h_sys_once_all => once_all(12_000);
    h_sys_once_lots => once_all(5_000);
    h_sys_once_many2 => once_many(700);
    h_sys_long_text => long_text(&[70, 300], "S05 S10 S11 T01 T03 T04");
    h_sys_long_text2 => long_text(&[5000, 65535], "S05 S10 S11 T01 T03 T04");
    h_sys_long_connect => long_connect(&[70, 300, 65535]);
    h_sys_first => first_packet();
    h_sys_raw_first6 => raw_first(6);
    h_sys_raw_first8 => raw_first(8);
    h_sys_raw_connect6 => raw_connect(6);
    h_sys_raw_connect10 => raw_connect(10);
    h_sys_second_connect => second_connect();
    h_sys_connect_then1 => connect_then(1, 4);
    h_sys_connect_then2 => connect_then(2, 4);
    h_sys_requests2 => requests(2);
    h_sys_requests3 => requests(3);
    h_sys_requests4 => requests(4);
    h_sys_at_once2 => requests_at_once(2, 4);
    h_sys_at_once2b => requests_at_once(2, 7);
    h_sys_at_once3 => requests_at_once(3, 3);
    h_sys_crossed1 => requests_crossed(1, 6, 3);
    h_sys_crossed2 => requests_crossed(2, 4, 2);
    h_sys_crossed2b => requests_crossed(2, 6, 4);
    h_sys_raw_next6 => raw_next("S02", 6, "#");
    h_sys_raw_next8 => raw_next("S02", 8, "#");
    h_sys_raw_next10 => raw_next("S02", 10, "#");
    h_sys_cut1 => cut(1, true);
    h_sys_cut2 => cut(2, true);
    h_sys_cut_crossed => cut_crossed();
    h_sys_short_reads => short_reads(false);
    h_sys_free_reads => short_reads(true);
    h_sys_large => large(&[8100, 8183, 8184, 8185, 8186, 8187, 8188, 8192, 9000, 16384, 20000], 97);
    h_sys_huge => large(&[65535, 70000, 140000, 1_100_000, 2_200_000], 997);
    h_sys_huge2 => large(&[5_000_000], 997);
    h_sys_many => many_at_once(100, 150);
    h_sys_short_writes => short_writes(0);
    h_sys_free_writes => short_writes(6);
    h_sys_blocked => blocked_writes(false);
    h_sys_blocked2 => blocked_writes(true);
    h_sys_blocked_ask => blocked_asks(1);
    h_sys_blocked_asks => blocked_asks(2);
    h_sys_large_writes => large_writes(3000);
    h_sys_huge_writes => large_writes(70000);
    h_sys_huge_writes2 => large_writes(2_200_000);
    h_sys_content => content(3, 2);
    h_sys_content5 => content(5, 3);
    h_sys_order => order(2, 8, 2);
    h_sys_order3 => order(3, 10, 2);
    h_sys_mixed3 => mixed(3);
    h_sys_mixed4 => mixed(4);
    h_sys_burst => burst(400);
    h_sys_burst_big => burst(3000);
    h_sys_qos => qos_pairs();
    h_sys_ids3 => qos_ids(3);
    h_sys_ids4 => qos_ids(4);
    h_sys_ids_wrap => ids_wrap(65_540);
    h_sys_once4 => exactly_once(4, false);
    h_sys_once5 => exactly_once(5, false);
    h_sys_once6 => exactly_once(6, false);
    h_sys_once_any3 => exactly_once(3, true);
    h_sys_once_any4 => exactly_once(4, true);
    h_sys_once_two => exactly_once_two();
    h_sys_keep0 => keep_alive(0);
    h_sys_keep1 => keep_alive(1);
    h_sys_keep3 => keep_alive(3);
    h_sys_keep_gaps => keep_alive_gaps(3);
    h_sys_keep_others => keep_alive_others();
    h_sys_keep_zero => keep_alive_zero();
    h_sys_keep_none => keep_alive_none();
    h_sys_keep_stuck => keep_alive_stuck();
    h_sys_endings => endings("S09", false);
    h_sys_endings_behind => endings_behind();
    h_sys_endings_again => endings("S09", true);
    h_sys_churn3 => churn(3);
    h_sys_churn5 => churn(5);
    h_sys_takeover => takeover();
    h_sys_takeover_free => takeover_free(1, 6, 3);
    h_sys_takeover_free2 => takeover_free(2, 5, 2);
    h_sys_takeover_stalled => takeover_stalled();
    h_sys_takeover_not => takeover_not();
    h_sys_bad => misbehave(0);
    h_sys_bad_free => misbehave(4);
    h_sys_odd_among => odd_among();
    h_sys_odd => odd();
    h_sys_flood => flood(10300);
    h_sys_flood_small => flood(600);
    h_sys_interrupted => interrupted(60);
    h_sys_shutdown => shutdown_states();
    h_sys_shutdown_free => shutdown_free(5, 3);
    h_sys_shutdown_busy => shutdown_busy(3, 260);
    h_sys_shutdown_busy2 => shutdown_busy(5, 1200);
    h_sys_shutdown_free2 => shutdown_free(6, 5);
    h_sys_counted2 => counted(2);
    h_sys_counted3 => counted(3);
    h_sys_counted_big => counted_big(300);
    h_sys_counted_many => counted_big(65_540);
    h_sys_counted_clients => counted_clients(300);
    h_sys_counted_parallel => counted_parallel(1);
    h_sys_counted_parallel2 => counted_parallel(2);
    h_sys_counted_parallel3 => counted_parallel(3);
    h_sys_counted_cut => counted_cut();
    h_sys_listens => listens(4);
    h_sys_t_levels => deep_levels::<Whole>(&[1, 2, 5, 64, 200]);
    h_sys_t_levels2 => deep_levels::<Whole>(&[1, 2, 3, 4, 5, 8, 16, 32, 33, 64, 127, 128, 129, 199, 200]);
    h_sys_t_one5 => one::<Whole>(5, 5);
    h_sys_t_one6 => one::<Whole>(6, 6);
    h_sys_t_one7 => one::<Whole>(7, 7);
    h_sys_t_long => long_levels::<Whole>(3);
    h_sys_t_long4 => long_levels::<Whole>(6);
    h_sys_t_utf => utf::<Whole>();
    h_sys_t_two3 => shaped::<Whole>(2, 2, 3, 3, false);
    h_sys_t_two2 => shaped::<Whole>(2, 2, 2, 2, true);
    h_sys_t_two4 => shaped::<Whole>(2, 2, 4, 4, false);
    h_sys_t_over2 => shaped::<Whole>(3, 1, 2, 2, false);
    h_sys_t_over1 => shaped::<Whole>(3, 1, 1, 1, true);
    h_sys_t_change1 => change_one::<Whole>(2, 2, 2, 2);
    h_sys_t_one4 => one::<Whole>(4, 4);
    h_sys_t_over3 => shaped::<Whole>(3, 1, 3, 3, false);
    h_sys_t_three2 => shaped::<Whole>(3, 3, 2, 2, false);
    h_sys_t_three3 => shaped::<Whole>(3, 3, 3, 3, false);
    h_sys_t_hist2 => history::<Whole>(2, 3, 3);
    h_sys_t_hist3 => history::<Whole>(3, 2, 2);
    h_sys_t_hist3b => history::<Whole>(3, 3, 3);
    h_sys_t_shist2 => shaped_history::<Whole>(3, 2, 2, 2);
    h_sys_t_shist3 => shaped_history::<Whole>(3, 2, 3, 3);
    h_sys_t_shist4 => shaped_history::<Whole>(4, 1, 2, 2);
    h_sys_t_shist4b => shaped_history::<Whole>(4, 2, 2, 2);
    h_sys_t_change2 => change_one::<Whole>(2, 2, 3, 3);
    h_sys_t_change3 => change_one::<Whole>(3, 1, 2, 2);
    h_sys_t_change3b => change_one::<Whole>(3, 3, 2, 2);
    h_sys_t_deep6 => deep::<Whole>(6);
    h_sys_t_deep3 => deep::<Whole>(3);
    h_sys_t_codes2 => t_codes(2, 3);
    h_sys_t_codes3 => t_codes(3, 2);
    h_sys_t_many => t_many(60);
}
