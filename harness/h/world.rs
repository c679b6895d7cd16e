//! A small reference broker: what every client of the real one has to see. Written from the MQTT 3.1.1 standard.
use super::refmatch::*;
use std::time::Duration;
use tokio::kernel::{self, k};

#[derive(Clone, Copy, PartialEq)]
pub enum St { New, Up, Gone }
pub struct Msg { pub src: usize, pub topic: Vec<u8>, pub payload: Vec<u8>, pub qos: u8 }
pub struct Cl {
    pub conn: usize, pub st: St, pub id: Vec<u8>, pub subs: Vec<(Vec<u8>, u8)>, pub held: Vec<[u8; 2]>,
    /// what this client still has to receive
    pub acks: Vec<Vec<u8>>, pub msgs: Vec<Msg>,
    /// a refusing CONNACK may be sent before the connection closes
    pub refusable: bool,
    /// deliveries may be lost (the client stopped reading or is being replaced)
    pub lossy: bool,
    /// either outcome of the connection is right
    pub unsure: bool,
    /// the last packet it receives may be cut off (its connection broke, or it takes no more)
    pub cut: bool,
    /// its connection was taken over while it still sent requests: they may be answered or not
    pub old: bool,
    /// nothing is said about what this client sees
    pub blind: bool,
    pub seen: usize, pub last_id: Option<[u8; 2]>,
    /// identifiers as it got them in PUBLISH packets (true) and acknowledged them, lately
    pub ids: Vec<(bool, [u8; 2])>,
    /// where among the deliveries each identifier was last used, if that is followed
    pub used: Vec<u32>, pub got_pub: usize, pub got: usize,
    /// what the broker has received: bytes and packets, PUBLISH packets
    pub rx_bytes: usize, pub rx: usize, pub rx_pub: usize,
}
pub struct W { pub cl: Vec<Cl>, pub ctx: &'static str, pub polls: u32 }

pub fn s(b: &str) -> Vec<u8> { b.as_bytes().to_vec() }
pub fn put(v: &mut Vec<u8>, b: &[u8]) { v.extend_from_slice(&[(b.len() >> 8) as u8, b.len() as u8]); v.extend_from_slice(b) }
pub fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first]; let mut n = body.len();
    loop { let b = (n % 128) as u8; n /= 128; if n > 0 { v.push(b | 128) } else { v.push(b); break } }
    v.extend_from_slice(body); v
}
pub fn p_connect(id: &[u8], keep: [u8; 2], flags: u8) -> Vec<u8> { let mut b = b"\0\x04MQTT\x04".to_vec(); b.push(flags); b.extend_from_slice(&keep); put(&mut b, id); packet(0x10, &b) }
pub fn p_subscribe(pid: [u8; 2], f: &[(Vec<u8>, u8)]) -> Vec<u8> { let mut b = pid.to_vec(); for (t, q) in f { put(&mut b, t); b.push(*q) } packet(0x82, &b) }
pub fn p_unsubscribe(pid: [u8; 2], f: &[Vec<u8>]) -> Vec<u8> { let mut b = pid.to_vec(); for t in f { put(&mut b, t) } packet(0xa2, &b) }
pub fn p_publish(flags: u8, topic: &[u8], pid: [u8; 2], payload: &[u8]) -> Vec<u8> { let mut b = vec![]; put(&mut b, topic); if flags & 6 != 0 { b.extend_from_slice(&pid) } b.extend_from_slice(payload); packet(0x30 | flags, &b) }
pub fn p_id(first: u8, pid: [u8; 2]) -> Vec<u8> { packet(first, &pid) }
pub const PING: [u8; 2] = [0xc0, 0];
pub const BYE: [u8; 2] = [0xe0, 0];

const OPEN: u8 = 0x7f;
fn bare_share(t: &[u8]) -> bool { t.len() == 6 && super::shape::shared(t) }
impl W {
    /// Starts the broker: its own main(), on the modelled world.
    pub fn boot(ctx: &'static str) -> W {
        kernel::spawn(async { let r = crate::main().await; crate::harness::world::EXIT.store(if r.is_ok() { 1 } else { 2 }, std::sync::atomic::Ordering::Relaxed); });
        let w = W { cl: vec![], ctx, polls: 3000 };
        if !kernel::run(1000) { w.fail("", "the broker does not come up") }
        w
    }
    /// Forgets the bytes that have been looked at (the counters do not survive this).
    pub fn trim(&mut self) { for c in self.cl.iter_mut() { let x = &mut k().conns[c.conn]; x.outbox.drain(..c.seen); c.seen = 0; let n = x.rpos; x.inbox.drain(..n); x.rpos = 0; x.avail = x.inbox.len() } }
    /// `base`: the properties that any such failure breaks, besides the one this scenario is about.
    pub fn fail(&self, base: &str, msg: &str) -> ! { self.fail_only(base, self.ctx, msg) }
    /// A failure that concerns the properties of this scenario only if they are among `also`.
    pub fn fail_only(&self, base: &str, also: &str, msg: &str) -> ! {
        let mut ids = String::from(base);
        for i in self.ctx.split(' ') { if also.contains(i) && !base.contains(i) { if !ids.is_empty() { ids.push(' ') } ids.push_str(i) } }
        sx::fail(&format!("{} {}", ids, msg))
    }
    pub fn must(&self, c: bool, base: &str, msg: &str) { if !c { self.fail(base, msg) } }
    pub fn open(&mut self) -> usize {
        let conn = kernel::connect();
        self.cl.push(Cl { conn, st: St::New, id: vec![], subs: vec![], held: vec![], acks: vec![], msgs: vec![], refusable: false, lossy: false, unsure: false, cut: false, old: false, blind: false, seen: 0, last_id: None, ids: vec![], used: vec![], got_pub: 0, got: 0, rx_bytes: 0, rx: 0, rx_pub: 0 });
        self.cl.len() - 1
    }
    pub fn conn(&self, c: usize) -> &'static mut kernel::Conn { &mut k().conns[self.cl[c].conn] }
    /// The connection is over: nothing more is owed to this client.
    pub fn gone(&mut self, c: usize) { let x = &mut self.cl[c]; x.st = St::Gone; x.subs.clear(); x.held.clear(); }
    fn raw(&mut self, c: usize, b: &[u8]) { let x = &mut self.cl[c]; if x.st != St::Gone { x.rx_bytes += b.len(); x.rx += 1 } kernel::send(x.conn, b) }
    /// Bytes whose effect the caller works out.
    pub fn bytes(&mut self, c: usize, b: &[u8]) { kernel::send(self.cl[c].conn, b) }
    pub fn up(&mut self, c: usize) -> bool { if self.cl[c].st == St::New { self.gone(c) } self.cl[c].st == St::Up }

    pub fn m_connect(&mut self, c: usize, id: &[u8]) {
        match self.cl[c].st {
            St::New => {
                for o in 0..self.cl.len() { if o != c && self.cl[o].st == St::Up && same(&self.cl[o].id, id) { self.gone(o) } }
                let x = &mut self.cl[c]; x.st = St::Up; x.id = id.to_vec(); x.acks.push(vec![0x20, 2, 0, 0]);
            }
            St::Up => { self.cl[c].refusable = true; self.gone(c) }
            St::Gone => {}
        }
    }
    pub fn connect_as(&mut self, c: usize, id: &[u8], keep: [u8; 2], flags: u8) { self.raw(c, &p_connect(id, keep, flags)); self.m_connect(c, id) }
    pub fn connect(&mut self, c: usize, id: &str) { self.connect_as(c, id.as_bytes(), [0, 60], 2) }
    pub fn m_subscribe(&mut self, c: usize, pid: [u8; 2], f: &[(Vec<u8>, u8)]) {
        if !self.up(c) { return }
        let mut codes = pid.to_vec();
        for (t, q) in f {
            // whether the broker takes the mere keyword of shared groups is left open
            if bare_share(t) { codes.push(OPEN); continue }
            if valid_filter(t) { codes.push(*q); let x = &mut self.cl[c]; x.subs.retain(|s| !same(&s.0, t)); x.subs.push((t.clone(), *q)) } else { codes.push(0x80) }
        }
        self.cl[c].acks.push(packet(0x90, &codes));
    }
    pub fn subscribe(&mut self, c: usize, pid: [u8; 2], f: &[(Vec<u8>, u8)]) { self.raw(c, &p_subscribe(pid, f)); self.m_subscribe(c, pid, f) }
    pub fn sub(&mut self, c: usize, f: &str, q: u8) { self.subscribe(c, [0x12, 0x34], &[(s(f), q)]) }
    pub fn m_unsubscribe(&mut self, c: usize, pid: [u8; 2], f: &[Vec<u8>]) {
        if !self.up(c) { return }
        let x = &mut self.cl[c];
        for t in f { x.subs.retain(|s| !same(&s.0, t)) }
        x.acks.push(p_id(0xb0, pid));
    }
    pub fn unsubscribe(&mut self, c: usize, pid: [u8; 2], f: &[Vec<u8>]) { self.raw(c, &p_unsubscribe(pid, f)); self.m_unsubscribe(c, pid, f) }
    /// `flags`: DUP 8, QoS 6, RETAIN 1.
    pub fn m_publish(&mut self, c: usize, flags: u8, topic: &[u8], pid: [u8; 2], payload: &[u8]) {
        if !self.up(c) { return }
        let q = flags >> 1 & 3;
        match q { 1 => self.cl[c].acks.push(p_id(0x40, pid)), 2 => self.cl[c].acks.push(p_id(0x50, pid)), _ => {} }
        if q == 2 {
            if self.cl[c].held.iter().any(|h| *h == pid) { return }
            self.cl[c].held.push(pid);
        }
        for d in 0..self.cl.len() {
            let x = &mut self.cl[d];
            if x.st != St::Up { continue }
            let mut best = 9;
            for (f, g) in &x.subs { if matches(f, topic) && (best == 9 || *g > best) { best = *g } }
            if best != 9 { sx::cover("delivery"); x.msgs.push(Msg { src: c, topic: topic.to_vec(), payload: payload.to_vec(), qos: best.min(q) }) }
        }
    }
    pub fn publish(&mut self, c: usize, flags: u8, topic: &[u8], pid: [u8; 2], payload: &[u8]) {
        self.raw(c, &p_publish(flags, topic, pid, payload)); if self.cl[c].st != St::Gone { self.cl[c].rx_pub += 1 } self.m_publish(c, flags, topic, pid, payload)
    }
    fn acked(&mut self, c: usize, pid: [u8; 2]) { let x = &mut self.cl[c]; if x.ids.len() > 64 { x.ids.drain(..32); } x.ids.push((false, pid)) }
    pub fn m_puback(&mut self, c: usize, pid: [u8; 2]) { self.acked(c, pid); self.up(c); }
    pub fn puback(&mut self, c: usize, pid: [u8; 2]) { self.raw(c, &p_id(0x40, pid)); self.m_puback(c, pid) }
    pub fn m_pubrec(&mut self, c: usize, pid: [u8; 2]) { self.acked(c, pid); if self.up(c) { self.cl[c].acks.push(p_id(0x62, pid)) } }
    pub fn m_pubrel(&mut self, c: usize, pid: [u8; 2]) { if self.up(c) { let x = &mut self.cl[c]; x.held.retain(|h| *h != pid); x.acks.push(p_id(0x70, pid)) } }
    pub fn m_ping(&mut self, c: usize) { if self.up(c) { self.cl[c].acks.push(vec![0xd0, 0]) } }
    pub fn pubrec(&mut self, c: usize, pid: [u8; 2]) { self.raw(c, &p_id(0x50, pid)); self.m_pubrec(c, pid) }
    pub fn pubrel(&mut self, c: usize, pid: [u8; 2]) { self.raw(c, &p_id(0x62, pid)); self.m_pubrel(c, pid) }
    pub fn pubcomp(&mut self, c: usize, pid: [u8; 2]) { self.raw(c, &p_id(0x70, pid)); self.m_puback(c, pid) }
    pub fn ping(&mut self, c: usize) { self.raw(c, &PING); self.m_ping(c) }
    pub fn bye(&mut self, c: usize) { self.raw(c, &BYE); self.gone(c) }
    /// A packet that ends the connection without any other effect.
    pub fn bad(&mut self, c: usize, b: &[u8]) { self.bytes(c, b); self.gone(c) }
    pub fn close(&mut self, c: usize) { kernel::close(self.cl[c].conn); self.gone(c) }

    /// Runs the broker until it waits for the outside, then compares what every client has seen.
    pub fn settle(&mut self) { if !kernel::run(self.polls) { self.fail("S09 S11", "the broker does not come to rest") } self.compare() }
    pub fn step(&mut self) { self.settle() }
    pub fn compare(&mut self) { for c in 0..self.cl.len() { self.compare_one(c) } }
    fn compare_one(&mut self, c: usize) {
        let k = self.conn(c);
        if !k.accepted { self.fail("S11", "connection not accepted") }
        if self.cl[c].blind { return }
        let out = &k.outbox[..];
        let mut at = self.cl[c].seen;
        while at < out.len() {
            // one packet
            let first = sx::conc(out[at] as u64) as u8;
            let (mut n, mut h, mut m) = (0usize, 1, 1usize);
            let whole = loop {
                if at + h >= out.len() { if self.cl[c].cut { break false } self.fail("S04", "client receives part of a packet") }
                let b = sx::conc(out[at + h] as u64) as usize; n += (b & 127) * m; m *= 128; h += 1;
                if b < 128 { break true }
                if h > 4 { self.fail("S04", "client receives garbage") }
            };
            if !whole { break }
            if at + h + n > out.len() { if self.cl[c].cut { break } self.fail("S04", "client receives part of a packet") }
            let p = &out[at..at + h + n]; let body = &p[h..];
            at += h + n;
            self.cl[c].got += 1;
            if first >> 4 == 3 { self.cl[c].got_pub += 1; self.delivered(c, first, body) } else { self.answered(c, p) }
        }
        self.cl[c].seen = at;
        let x = &self.cl[c];
        if x.st != St::Gone && !x.lossy {
            if !x.acks.is_empty() { if x.acks[0][0] == 0x20 { self.fail("S01", "CONNECT not answered") } self.fail("S02", "request not answered") }
            if !x.msgs.is_empty() { self.fail("S05", "message not delivered") }
        }
        if !x.unsure {
            if x.st == St::Gone { if !k.closed { self.fail("S09", "connection not closed") } }
            else if k.closed { self.fail("", "connection closed") }
        }
    }
    fn answered(&mut self, c: usize, p: &[u8]) {
        if self.cl[c].old && p[0] != 0x20 { return }
        if self.cl[c].acks.is_empty() {
            if p[0] == 0x20 { if self.cl[c].refusable && p.len() == 4 && p[3] != 0 { self.cl[c].refusable = false; return } self.fail("S01", "CONNACK not asked for") }
            self.fail("S02", "answer to nothing");
        }
        let e = self.cl[c].acks.remove(0);
        if !same(&e, p) && !(e[0] == 0x90 && e.len() == p.len() && (0..e.len()).all(|i| e[i] == p[i] || i > 3 && e[i] == OPEN && (p[i] == 0x80 || p[i] < 3))) {
            if e[0] == 0x20 || p[0] == 0x20 { self.fail("S01", "wrong answer to CONNECT") }
            if e[0] == 0x90 && p[0] == 0x90 && p.len() >= 4 && e.len() >= 4 && p[2..4] == e[2..4] { self.fail("S02 T04", "wrong return codes in SUBACK") }
            self.fail("S02", "wrong answer")
        }
    }
    fn delivered(&mut self, c: usize, first: u8, body: &[u8]) {
        if !self.cl[c].acks.is_empty() && self.cl[c].acks[0][0] == 0x20 { self.fail("S01", "message before CONNACK") }
        let q = first >> 1 & 3;
        if body.len() < 2 { self.fail("C04 S05", "malformed PUBLISH delivered") }
        let n = sx::conc((body[0] as u64) << 8 | body[1] as u64) as usize;
        if q == 3 || body.len() < 2 + n + if q > 0 { 2 } else { 0 } {
            // an identifier that is missing shows as a topic or payload of the wrong size
            self.fail("S05 S06", "malformed PUBLISH delivered")
        }
        let topic = &body[2..2 + n];
        let (pid, payload) = if q > 0 { (Some([body[2 + n], body[3 + n]]), &body[4 + n..]) } else { (None, &body[2 + n..]) };
        let mut found = None;
        for (i, m) in self.cl[c].msgs.iter().enumerate() {
            if same(&m.topic, topic) && same(&m.payload, payload) { found = Some(i); break }
        }
        if let Some(i) = found { if !self.cl[c].lossy {
            let ms = &self.cl[c].msgs;
            if ms[..i].iter().any(|m| m.src == ms[i].src && same(&m.topic, topic)) { self.fail("S05", "messages out of order") }
        } }
        let i = match found { Some(i) => i, None => if self.cl[c].msgs.is_empty() { self.fail("S05", "message delivered that is not due") } else { self.fail("S05", "message lost or altered") } };
        let m = self.cl[c].msgs.remove(i);
        if first & 9 != 0 { self.fail("S05", "DUP or RETAIN set on a delivered message") }
        if q != m.qos { self.fail_only("S06", "T02 T03", "message delivered at the wrong QoS") }
        if let Some(p) = pid {
            if p == [0, 0] { self.fail_only("S06", "", "packet identifier 0") }
            if self.cl[c].last_id == Some(p) { self.fail_only("S06", "", "packet identifier used for two messages in a row") }
            self.cl[c].last_id = Some(p);
            let again = |w: &W| w.fail_only("S06", "", "packet identifier used again before it was acknowledged");
            if self.cl[c].used.is_empty() {
                if self.cl[c].ids.iter().any(|i| i.0 && i.1 == p) {
                    for i in self.cl[c].ids.iter().rev() { if i.1 == p { if i.0 { again(self) } break } }
                }
                let ids = &mut self.cl[c].ids; if ids.len() > 64 { ids.drain(..32); } ids.push((true, p));
            } else {
                let i = sx::conc((p[0] as u64) << 8 | p[1] as u64) as usize; let n = self.cl[c].got_pub as u32;
                let last = std::mem::replace(&mut self.cl[c].used[i], n);
                if last > 0 && n - last < 65_535 { again(self) }
            }
        }
    }
    pub fn settled_connect(&mut self, id: &str) -> usize { let c = self.open(); self.connect(c, id); self.settle(); c }
    /// Everyone who should be served still is.
    pub fn alive(&mut self) {
        for c in 0..self.cl.len() { if self.cl[c].st == St::Up && !self.cl[c].lossy && !self.cl[c].unsure { self.ping(c) } }
        self.settle();
    }
    pub fn connected(&self) -> usize { self.cl.iter().filter(|c| c.st == St::Up).count() }
    /// A client whose messages may get lost from now on, and whose last packet may be cut off.
    pub fn stalled(&mut self, c: usize) { self.cl[c].lossy = true; self.cl[c].cut = true; }
    /// Lets `ns` pass.
    pub fn pass(&mut self, ns: Duration) { let t = k().now + ns; if !kernel::advance_to(t, self.polls) { self.fail("S09 S11", "the broker does not come to rest") } self.compare() }
    /// Lets time pass while these clients, who are over, may be closed at any moment.
    pub fn pass_free(&mut self, ns: Duration, who: &[usize]) { for c in who { self.cl[*c].unsure = true } self.pass(ns); for c in who { self.cl[*c].unsure = false } self.compare() }
    /// Lets time pass while only client c is silent.
    pub fn pass_alive(&mut self, ns: Duration, c: usize) {
        let end = k().now + ns; self.cl[c].unsure = true;
        while k().now < end { let t = (k().now + Duration::from_secs(20)).min(end); self.pass(t - k().now); if t < end { for o in 0..self.cl.len() { if o != c && self.cl[o].st == St::Up { self.ping(o) } } self.settle() } }
        self.cl[c].unsure = false; self.compare()
    }
    /// Half a packet is on the wire to the broker: nothing sensible can be said to it on this connection.
    pub fn stuck(&mut self, c: usize) { self.cl[c].unsure = true }
    /// Settles without judging whether client c is still connected.
    pub fn settle_free(&mut self, c: usize) { self.cl[c].unsure = true; self.settle(); self.cl[c].unsure = false }
    /// The connection of client c, which may still be sending, is being taken over.
    pub fn old(&mut self, c: usize) { let x = &mut self.cl[c]; x.old = true; x.lossy = true; x.cut = true; if x.st == St::Up { self.gone(c) } }
    /// An empty client id is never anybody else's.
    pub fn connect_own(&mut self, c: usize, id: &str) {
        self.raw(c, &p_connect(id.as_bytes(), [0, 60], 2));
        if id.is_empty() { let own = [0xff, c as u8]; self.m_connect(c, &own) } else { self.m_connect(c, id.as_bytes()) }
    }
    /// The shutdown signal: everything has to end, without error.
    pub fn shutdown(&mut self) {
        kernel::interrupt();
        let rest = kernel::run(self.polls);
        let e = EXIT.load(std::sync::atomic::Ordering::Relaxed);
        if !rest { self.fail("S12", "shutdown does not come to rest") }
        if e != 1 { self.fail("S12", if e == 0 { "the broker does not terminate" } else { "the broker terminates with an error" }) }
        if kernel::live() != 0 { self.fail("S12", "tasks are left behind") }
        if k().listener_open { self.fail("S12", "still accepting connections") }
        for c in &k().conns { if c.accepted && !c.closed { self.fail("S12", "connection left open") } }
        sx::cover("shut down");
    }
    /// The number of connected clients that the broker reports.
    pub fn count(&mut self, base: &str) {
        let open = self.cl.iter().filter(|c| c.st != St::Gone).count();
        let Some(t) = stats() else { return };
        if t[2] != open { self.fail(base, "wrong number of connected clients") }
    }
    /// The broker's counters against what went over the wire.
    pub fn counters(&mut self) {
        let Some([rx, tx, _, mrx, mtx, prx, ptx]) = stats() else { return };
        let sum = |f: &dyn Fn(&Cl) -> usize| self.cl.iter().map(|c| f(c)).sum::<usize>();
        if rx != sum(&|c| c.rx_bytes) { self.fail("S13", "bytes received are miscounted") }
        if mrx != sum(&|c| c.rx) { self.fail("S13", "messages received are miscounted") }
        if prx != sum(&|c| c.rx_pub) { self.fail("S13", "received PUBLISH packets are miscounted") }
        if tx != sum(&|c| k().conns[c.conn].outbox.len()) { self.fail("S13", "bytes sent are miscounted") }
        if mtx != sum(&|c| c.got) { self.fail("S13", "messages sent are miscounted") }
        if ptx != sum(&|c| c.got_pub) { self.fail("S13", "sent PUBLISH packets are miscounted") }
        self.count("S13");
    }
}
#[cfg(feature = "g_stats")]
pub fn stats() -> Option<[usize; 7]> { let t = crate::core::broker_info::get_stats(); Some([t.0, t.1, t.2, t.3, t.4, t.5, t.6]) }
#[cfg(not(feature = "g_stats"))]
pub fn stats() -> Option<[usize; 7]> { None }
pub static EXIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn id2(name: &str) -> [u8; 2] { let b: [u8; 2] = sx::bytes(name); sx::assume((b[0] | b[1]) != 0); b }
