//! T01, T02, T03: histories of subscriptions followed by a publish, over whatever `Sut` drives: the subscription tree
//! alone or the whole broker.
use super::refmatch::*;
pub trait Sut {
    /// `ids`: the properties this history is about.
    fn start(clients: usize, ids: &'static str) -> Self;
    fn sub(&mut self, c: usize, f: &[u8], q: u8);
    fn unsub(&mut self, c: usize, f: &[u8]);
    /// Publishes to `t` and compares who gets it.
    fn publish(&mut self, t: &[u8]);
}
/// "$share/..." names a shared subscription, which is not part of MQTT 3.1.1: out of scope.
pub fn shared(b: &[u8]) -> bool { b.len() >= 6 && &b[..6] == b"$share" && (b.len() == 6 || b[6] == b'/') }
/// Up to `max` arbitrary ASCII bytes without NUL, at least `min`.
pub fn ascii(min: usize, max: usize, name: &str) -> Vec<u8> {
    let n = min + sx::choice((max - min + 1) as u64, name) as usize;
    let v = sx::vec(n, name);
    for b in &v { sx::assume((*b != 0) & (*b < 128)); }
    if shared(&v) { sx::stop() }
    v
}
pub fn topic(max: usize) -> Vec<u8> { let t = ascii(1, max, "topic"); for b in &t { sx::assume((*b != b'+') & (*b != b'#')) } t }
/// `n` levels of exactly one arbitrary byte each; as a filter it is valid.
pub fn levels(n: usize, name: &str, wild: bool) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 { v.push(b'/') }
        let b = sx::byte(name); sx::assume((b != 0) & (b < 128) & (b != b'/'));
        if !wild { sx::assume((b != b'+') & (b != b'#')) } else if i + 1 < n { sx::assume(b != b'#') }
        v.push(b);
    }
    v
}
pub fn some_levels(max: usize, name: &str, wild: bool) -> Vec<u8> { let n = 1 + sx::choice(max as u64, name) as usize; levels(n, name, wild) }
fn q(name: &str) -> u8 { sx::choice(3, name) as u8 }

/// One filter, one topic, arbitrary short strings.
pub fn one<S: Sut>(f: usize, t: usize) { let mut w = S::start(1, "T01"); w.sub(0, &ascii(1, f, "filter"), 1); w.publish(&topic(t)) }
/// Subscriptions of `clients` clients to filters of one-byte levels, then a topic of one-byte levels.
pub fn shaped<S: Sut>(subs: usize, clients: usize, fl: usize, tl: usize, qos: bool) {
    let mut w = S::start(clients, "T01 T02");
    let turn = if qos { 0 } else { sx::choice(3, "qos") as usize };
    for i in 0..subs {
        let c = if i == 0 { 0 } else { sx::choice(clients as u64, "client") as usize };
        let f = some_levels(fl, "filter", true); let q0 = if qos { q("qos") } else { ((i + turn) % 3) as u8 }; w.sub(c, &f, q0);
    }
    w.publish(&some_levels(tl, "topic", false));
}
/// Histories of subscribing and unsubscribing, by two clients, over arbitrary strings.
pub fn history<S: Sut>(ops: usize, f: usize, t: usize) {
    let mut w = S::start(2, "T01 T02 T03");
    for i in 0..ops {
        let c = if i == 0 { 0 } else { sx::choice(2, "client") as usize };
        let s = ascii(1, f, "filter");
        if i == 0 || sx::choice(2, "operation") == 0 { w.sub(c, &s, 1 + i as u8 % 2) } else { w.unsub(c, &s) }
    }
    w.publish(&topic(t));
}
/// Histories over filters of one-byte levels.
pub fn shaped_history<S: Sut>(ops: usize, clients: usize, fl: usize, tl: usize) {
    let mut w = S::start(clients, "T01 T02 T03");
    for i in 0..ops {
        let c = if i == 0 { 0 } else { sx::choice(clients as u64, "client") as usize };
        let s = some_levels(fl, "filter", true);
        if i == 0 || sx::choice(2, "operation") == 0 { w.sub(c, &s, i as u8 % 3) } else { w.unsub(c, &s) }
    }
    w.publish(&some_levels(tl, "topic", false));
}
/// Everything is subscribed first, then one filter is unsubscribed or subscribed anew, then a publish.
pub fn change_one<S: Sut>(held: usize, clients: usize, fl: usize, tl: usize) {
    let mut w = S::start(clients, "T01 T02 T03");
    for i in 0..held { w.sub(i % clients, &some_levels(fl, "filter", true), (i as u8 + 1) % 3) }
    let c = sx::choice(clients as u64, "client") as usize; let s = some_levels(fl, "filter", true);
    if sx::choice(2, "operation") == 0 { w.sub(c, &s, 0) } else { w.unsub(c, &s) }
    w.publish(&some_levels(tl, "topic", false));
}
/// Levels of several bytes: names that share prefixes, wildcards next to ordinary characters, empty levels.
pub fn long_levels<S: Sut>(max: u64) {
    let mut w = S::start(1, "T01");
    let lv = |name: &str, f: bool| { let n = sx::choice(max + 1, name) as usize; let v = sx::vec(n, name); for b in &v { sx::assume((*b != 0) & (*b < 128) & (*b != b'/')); if !f { sx::assume((*b != b'+') & (*b != b'#')) } } v };
    let (a, b) = (lv("filter", true), lv("filter", true)); let (c, d) = (lv("topic", false), lv("topic", false));
    let join = |x: &[u8], y: &[u8]| { let mut v = x.to_vec(); v.push(b'/'); v.extend_from_slice(y); v };
    let (f, t) = (join(&a, &b), join(&c, &d));
    if shared(&f) || shared(&t) { return; }
    w.sub(0, &f, 2); w.publish(&t);
}
/// Any bytes that are UTF-8.
pub fn utf<S: Sut>() {
    let n = 1 + sx::choice(3, "filter") as usize; let f = sx::vec(n, "filter"); let m = 1 + sx::choice(3, "topic") as usize; let t = sx::vec(m, "topic");
    for b in f.iter().chain(t.iter()) { sx::assume(*b != 0) }
    for b in &t { sx::assume((*b != b'+') & (*b != b'#')) }
    let mut w = S::start(1, "T01");
    if std::str::from_utf8(&f).is_err() || std::str::from_utf8(&t).is_err() { sx::stop() }
    w.sub(0, &f, 0); w.publish(&t);
}
/// One filter per wildcard shape around a deep topic, each held by another client; then every one is removed again.
pub fn deep<S: Sut>(n: usize) {
    let mut w = S::start(3, "T01 T02 T03");
    let t = levels(n, "topic", false);
    let mut fs: Vec<Vec<u8>> = vec![];
    for c in 0..3 {
        let mut f = t.clone();
        // replace up to two levels by an arbitrary byte, and cut or extend the filter
        for _ in 0..2 { let i = sx::choice(n as u64, "level") as usize; let b = sx::byte("replacement"); sx::assume((b != 0) & (b < 128) & (b != b'/') & (b != b'#')); f[2 * i] = b; }
        match sx::choice(3, "end") { 0 => {} 1 => { f.truncate(f.len() - 1); f.push(b'#') } _ => f.extend_from_slice(b"/#") }
        w.sub(c, &f, c as u8); fs.push(f);
        if c == 0 && n > 4 { break; }
    }
    w.publish(&t);
    w.unsub(0, &fs[0]); w.publish(&t);
}
/// Filters and topics of up to 200 levels: equal, or different in one level or at the end.
pub fn deep_levels<S: Sut>(ns: &[usize]) {
    let mut w = S::start(2, "T01 T02 T03");
    let n = ns[sx::choice(ns.len() as u64, "levels") as usize];
    let join = |v: &[u8]| { let mut r = vec![]; for (i, b) in v.iter().enumerate() { if i > 0 { r.push(b'/') } r.push(*b) } r };
    let mut f = vec![b'a'; n]; let t = f.clone();
    let at = [0, 1, n / 2, n - 1][sx::choice(4, "level") as usize];
    if at < n { let b = sx::byte("level"); sx::assume((b != 0) & (b < 128) & (b != b'/') & (b != b'#')); f[at] = b }
    match sx::choice(4, "end") { 0 => {} 1 => f.push(b'#'), 2 => f.push(b'+'), _ => f[n - 1] = b'#' }
    if f.len() > 200 { f.truncate(200) }
    w.sub(0, &join(&f), 1); w.sub(1, b"#", 2);
    let mut t = t; match sx::choice(3, "topic") { 0 => {} 1 => t.push(b'a'), _ => { t.pop(); if t.is_empty() { t.push(b'b') } } }
    w.publish(&join(&t));
    if sx::choice(2, "then") == 0 { w.unsub(0, &join(&f)) } else { w.sub(0, &join(&f), 0) }
    w.publish(&join(&t));
}
