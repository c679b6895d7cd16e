//! C01, C02, C03, C05: the decoder against the reference. C04: the encoders.
use super::refdec::*;
use crate::core::enums::ProtocalVersion;
use crate::packets::enums::*;
use crate::packets::{Packet, VariableHeader as V};
use bytes::Bytes;

fn opt(f: &mut Vec<u8>, o: Option<&[u8]>) { match o { Some(b) => { f.push(1); put(f, b) } None => f.push(0) } }
/// What the broker decoded, flattened like the reference's result. None for packets only a server sends.
pub fn flat(p: &Packet, anon: bool) -> Option<Vec<u8>> {
    let ty: u8 = match &p.variable {
        V::Connect { .. } => 1, V::Publish { .. } => 3, V::PubAck { .. } => 4, V::PubRec { .. } => 5, V::PubRel { .. } => 6, V::PubComp { .. } => 7,
        V::Subscribe { .. } => 8, V::Unsubscribe { .. } => 10, V::PingReq => 12, V::Disconnect { .. } => 14, _ => return None };
    let mut f = vec![ty, p.fixed.get_dup() as u8, match p.fixed.get_qos() { Ok(q) => q as u8, Err(_) => 9 }, p.fixed.get_retain() as u8];
    if p.fixed.get_packet_type().map(|t| t as u8).ok() != Some(ty) { f.push(99) }
    match &p.variable {
        V::Connect { flags, keepalive, client_id, username, password, will_topic, will_message, protocol_version, .. } => {
            f.extend_from_slice(&[flags.clean_session() as u8, flags.will() as u8, match flags.will_qos() { Ok(q) => q as u8, Err(_) => 9 },
                flags.will_retain() as u8, flags.has_password() as u8, flags.has_username() as u8]);
            if *protocol_version != ProtocalVersion::Four { f.push(99) }
            put16(&mut f, *keepalive);
            if anon { f.push(client_id.is_empty() as u8) } else { f.push(1); put(&mut f, client_id.as_bytes()) }
            opt(&mut f, will_topic.as_ref().map(|s| s.as_ref()));
            opt(&mut f, will_message.as_ref().map(|s| s.as_ref()));
            opt(&mut f, username.as_ref().map(|s| s.as_ref()));
            opt(&mut f, password.as_ref().map(|s| s.as_ref()));
        }
        V::Publish { topic, packet_id, payload, .. } => {
            put(&mut f, topic.as_bytes());
            match packet_id { Some(i) => { f.push(1); put16(&mut f, *i) } None => f.push(0) }
            put(&mut f, payload);
        }
        V::Subscribe { packet_id, tuples, .. } => { put16(&mut f, *packet_id); for (t, q) in tuples { put(&mut f, t.as_bytes()); f.push(*q as u8) } }
        V::Unsubscribe { packet_id, tuples, .. } => { put16(&mut f, *packet_id); for t in tuples { put(&mut f, t.as_bytes()) } }
        V::PubAck { packet_id, .. } | V::PubRec { packet_id, .. } | V::PubRel { packet_id, .. } | V::PubComp { packet_id, .. } => put16(&mut f, *packet_id),
        _ => {}
    }
    Some(f)
}
fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }

/// Decodes `b` and holds the result against the reference.
pub fn judge(b: &[u8]) {
    let r = decode(b);
    sx::cover(match r.verdict { Verdict::Good => "good", Verdict::Bad => "bad", Verdict::Open => "open", Verdict::Partial => "partial" });
    let anon = !r.flat.is_empty() && r.flat[0] == 1 && r.flat.len() > 12 && r.flat[12] == 0;
    sx::note(match r.verdict { Verdict::Good => "on panic: C01 C03", Verdict::Bad => "on panic: C01 C05", Verdict::Partial => "on panic: C01 C02", Verdict::Open => "on panic: C01" });
    let d = Packet::unpack(b, ProtocalVersion::Unknown);
    sx::out(&[d.is_ok() as u8]);
    match d {
        Ok((p, n)) => {
            sx::out(&(n as u32).to_be_bytes());
            sx::check(n >= 2 && n <= b.len(), "C01 reported size outside the received bytes");
            match header(b) { Some(Some((h, l))) => sx::check(n == h + l, "C01 C02 reported size is not header plus remaining length"), _ => sx::fail("C05 accepted a malformed remaining length") }
            let f = flat(&p, anon);
            if let Some(f) = &f { if !anon { sx::out(f) } }
            match r.verdict {
                Verdict::Bad => sx::fail("C05 malformed packet accepted"),
                Verdict::Partial => sx::fail("C02 incomplete packet accepted"),
                Verdict::Good => {
                    sx::check(n == r.size, "C03 wrong size");
                    match f { Some(f) => sx::check(same(&f, &r.flat), "C03 decoded fields differ from the packet"), None => sx::fail("C03 wrong packet type") }
                }
                Verdict::Open => if let Some(f) = f { sx::check(same(&f, &r.flat), "C03 decoded fields differ from the packet") }
            }
        }
        Err(e) => { drop(e); if r.verdict == Verdict::Good { sx::fail("C03 well-formed packet refused") } }
    }
}
/// The decoder must give the same result on the packet alone and with other bytes behind it.
fn independent(b: &[u8]) {
    let (h, l) = match header(b) { Some(Some(x)) => x, _ => return };
    if l > b.len() - h { return; }
    let n = h + sx::conc(l as u64) as usize;
    let a = Packet::unpack(&b[..n], ProtocalVersion::Unknown);
    let c = Packet::unpack(b, ProtocalVersion::Unknown);
    sx::out(&[a.is_ok() as u8, c.is_ok() as u8]);
    match (a, c) {
        (Ok((p, x)), Ok((q, y))) => {
            sx::check(x == y, "C02 size depends on bytes behind the packet");
            let anon = match (&p.variable, &q.variable) { (V::Connect { .. }, V::Connect { .. }) => { decode(&b[..n]).flat.get(12) == Some(&0) } _ => false };
            match (flat(&p, anon), flat(&q, anon)) {
                (Some(f), Some(g)) => sx::check(same(&f, &g), "C02 fields depend on bytes behind the packet"),
                (None, None) => {}
                _ => sx::fail("C02 packet type depends on bytes behind the packet"),
            }
            if n < b.len() { sx::cover("trailing") }
        }
        (Err(_), Err(_)) => {}
        _ => sx::fail("C02 acceptance depends on bytes behind the packet"),
    }
    // a prefix is never a packet
    let k = sx::choice(n as u64, "prefix") as usize;
    if let Ok(_) = Packet::unpack(&b[..k], ProtocalVersion::Unknown) { sx::fail("C02 prefix accepted as a packet") }
}

fn raw(max: usize, f: fn(&[u8])) {
    let n = sx::choice(max as u64 + 1, "length") as usize;
    f(&sx::vec(n, "bytes"));
}
/// A packet with the given first byte and symbolic body of `n` bytes, plus `tail` symbolic bytes behind it.
fn typed(first: u8, n: usize, tail: usize, f: fn(&[u8])) {
    let mut b = vec![first, n as u8];
    b.extend_from_slice(&sx::vec(n + tail, "body"));
    f(&b);
}
/// CONNECT: correct name and level, everything behind them symbolic.
fn connect(n: usize, tail: usize, f: fn(&[u8])) {
    let mut b = vec![0x10, (7 + n) as u8, 0, 4, b'M', b'Q', b'T', b'T', 4];
    b.extend_from_slice(&sx::vec(n + tail, "body"));
    f(&b);
}
/// CONNECT with one byte of name, level or lengths replaced by anything.
fn connect_name() {
    let mut b = b"\x10\x0d\0\x04MQTT\x04\x02\0\x3c\0\x01a".to_vec();
    let i = sx::choice(b.len() as u64, "position") as usize;
    b[i] = sx::byte("value");
    judge(&b);
}
/// CONNECT with any name of up to `k` bytes, any level and `n` symbolic bytes behind it.
fn connect_other(k: usize, n: usize) {
    let k = sx::choice(k as u64 + 1, "name length") as usize;
    let mut b = vec![0x10, (3 + k + n) as u8, 0, k as u8];
    b.extend_from_slice(&sx::vec(k + 1 + n, "body"));
    judge(&b);
}
/// Any first byte, remaining length `n` in one byte, everything behind symbolic.
fn sized(n: usize, tail: usize, f: fn(&[u8])) {
    let mut b = vec![sx::byte("first"), n as u8];
    b.extend_from_slice(&sx::vec(n + tail, "body"));
    f(&b);
}

// ---- larger packets: boundary sizes, mostly fixed contents with symbolic bytes at the ends ----
fn pick(list: &[usize], name: &str) -> usize { list[sx::choice(list.len() as u64, name) as usize] }
/// `n` bytes of ASCII filler, first and last symbolic.
fn fill(n: usize, seed: u8, name: &str) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + ((i as u8).wrapping_mul(7).wrapping_add(seed)) % 26).collect();
    if n > 0 { v[n - 1] = sx::byte(name); }
    if n > 1 { v[0] = sx::byte(name); }
    v
}
fn be(n: usize) -> [u8; 2] { [(n >> 8) as u8, n as u8] }
fn put_len(b: &mut Vec<u8>, s: &[u8]) { b.extend_from_slice(&be(s.len())); b.extend_from_slice(s) }
/// Fixed header with minimal remaining length, body, some trailing bytes.
fn packet(first: u8, body: &[u8], tail: usize) -> Vec<u8> {
    let mut b = vec![first]; b.extend_from_slice(&remaining(body.len()));
    b.extend_from_slice(body); b.extend_from_slice(&vec![0x30; tail]); b
}
/// The minimal encoding of a remaining length.
pub fn remaining(n: usize) -> Vec<u8> {
    let mut v = vec![];
    if n > 0x0fff_ffff { sx::limit("length") }
    if n < 128 { v.push(n as u8) }
    else if n < 128 * 128 { v.push((n & 127) as u8 | 128); v.push((n >> 7) as u8) }
    else if n < 128 * 128 * 128 { v.push((n & 127) as u8 | 128); v.push((n >> 7 & 127) as u8 | 128); v.push((n >> 14) as u8) }
    else { v.push((n & 127) as u8 | 128); v.push((n >> 7 & 127) as u8 | 128); v.push((n >> 14 & 127) as u8 | 128); v.push((n >> 21) as u8) }
    v
}
fn big_publish(topics: &[usize], totals: &[usize]) {
    let qos = sx::choice(3, "qos") as usize;
    let t = fill(pick(topics, "topic length"), 0, "topic");
    let total = pick(totals, "remaining length");
    let fixed = 2 + t.len() + if qos > 0 { 2 } else { 0 };
    if total < fixed { return; }
    let mut body = vec![]; put_len(&mut body, &t);
    if qos > 0 { body.extend_from_slice(&sx::bytes::<2>("packet id")); }
    body.extend_from_slice(&fill(total - fixed, 3, "payload"));
    judge(&packet(0x30 | (qos as u8) << 1 | (sx::choice(2, "retain") as u8), &body, 3));
}
fn big_filters(sub: bool, count: &[usize], lens: &[usize]) {
    let n = pick(count, "filters");
    let mut body = sx::bytes::<2>("packet id").to_vec();
    for i in 0..n {
        let l = if i == 0 || i == n - 1 { pick(lens, "filter length") } else { 1 + i % 5 };
        let f = if i == 0 || i == n - 1 { fill(l, i as u8, "filter") } else { vec![b'a' + (i % 26) as u8; l] };
        put_len(&mut body, &f);
        if sub { body.push(if i == 0 || i == n - 1 { sx::byte("qos") } else { (i % 3) as u8 }) }
    }
    judge(&packet(if sub { 0x82 } else { 0xa2 }, &body, 2));
}
fn big_connect(lens: &[usize]) {
    let flags = sx::byte("flags");
    let flags = sx::conc(flags as u64) as u8;
    let mut body = b"\0\x04MQTT\x04".to_vec(); body.push(flags); body.extend_from_slice(&sx::bytes::<2>("keep alive"));
    // one string long, the others short
    let which = sx::choice(5, "long string"); let long = pick(lens, "length");
    let mut k = 0; let mut next = |name: &str| { let l = if k == which { long } else { 1 }; k += 1; fill(l, k as u8, name) };
    put_len(&mut body, &next("client id"));
    if flags & 4 != 0 { put_len(&mut body, &next("will topic")); put_len(&mut body, &next("will message")); }
    if flags & 0x80 != 0 { put_len(&mut body, &next("user name")); }
    if flags & 0x40 != 0 { put_len(&mut body, &next("password")); }
    judge(&packet(0x10, &body, 1));
}

/// Long text of characters of every width, in every alignment, in every kind of packet.
fn big_text(lens: &[usize]) {
    let len = pick(lens, "length"); let width = 1 + sx::choice(4, "width") as usize; let shift = sx::choice(width as u64, "shift") as usize;
    let c: &[u8] = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}"][width - 1].as_bytes();
    let mut x = vec![b'x'; shift]; while x.len() + width <= len { x.extend_from_slice(c) }
    let mut body = vec![];
    match sx::choice(4, "kind") {
        0 => { let qos = sx::choice(3, "qos") as u8; put_len(&mut body, &x); if qos > 0 { body.extend_from_slice(&sx::bytes::<2>("packet id")) } body.extend_from_slice(&x); judge(&packet(0x30 | qos << 1, &body, 1)) }
        1 => { body.extend_from_slice(&sx::bytes::<2>("packet id")); for _ in 0..2 { put_len(&mut body, &x); body.push(sx::byte("qos")) } judge(&packet(0x82, &body, 1)) }
        2 => { body.extend_from_slice(&sx::bytes::<2>("packet id")); for _ in 0..2 { put_len(&mut body, &x) } judge(&packet(0xa2, &body, 1)) }
        _ => { body.extend_from_slice(b"\0\x04MQTT\x04"); body.push([0xe6, 0xc2, 0x06, 0x02][sx::choice(4, "flags") as usize]); body.extend_from_slice(&sx::bytes::<2>("keep alive"));
               let n = [5, 3, 3, 1][(body[7] == 0xc2) as usize + 2 * (body[7] == 0x06) as usize + 3 * (body[7] == 0x02) as usize]; for _ in 0..n { put_len(&mut body, &x) } judge(&packet(0x10, &body, 1)) }
    }
}

// ---- C04 ----
fn expect(what: &Bytes, first: u8, body: &[u8]) {
    let mut e = vec![first]; e.extend_from_slice(&remaining(body.len())); e.extend_from_slice(body);
    sx::out(what);
    sx::check(what.len() == e.len(), "C04 wrong packet length");
    sx::check(&what[..] == &e[..], "C04 wrong bytes");
}
/// Decoding what was encoded gives the values back.
fn back(what: &Bytes, want: &[u8]) {
    match Packet::unpack(what, ProtocalVersion::Unknown) {
        Ok((p, n)) => {
            sx::check(n == what.len(), "C04 encoded packet decodes to another size");
            match flat(&p, false) { Some(f) => sx::check(same(&f, want), "C04 encoded packet decodes to other fields"), None => sx::fail("C04 encoded packet decodes to another type") }
        }
        Err(_) => sx::fail("C04 encoded packet does not decode"),
    }
}
fn enc_acks() {
    let id = { let b: [u8; 2] = sx::bytes("packet id"); u16::from_be_bytes(b) };
    let ib = id.to_be_bytes();
    let kind = sx::choice(8, "kind");
    let (p, first, ty) = match kind {
        0 => (Packet::make_puback(id), 0x40, 4), 1 => (Packet::make_pubrec(id), 0x50, 5), 2 => (Packet::make_pubrel(id), 0x62, 6),
        3 => (Packet::make_pubcomp(id), 0x70, 7), 4 => (Packet::make_unsuback(id), 0xb0, 11),
        5 => { expect(&Packet::make_ping_resp(), 0xd0, &[]); return; }
        6 => {
            let sp = sx::choice(2, "session present") == 1;
            let code = sx::choice(6, "return code") as u8;
            let rc = match ConnectReturnCode::try_from(&code) { Ok(r) => r, Err(_) => return };
            expect(&Packet::make_connack(rc, sp), 0x20, &[sp as u8, code]); return;
        }
        _ => {
            let n = pick(&[1, 2, 3, 125, 126, 127, 200], "return codes");
            let mut body = ib.to_vec();
            let mut codes = vec![];
            for i in 0..n {
                let c = if i < 3 { [0u8, 1, 2, 0x80][sx::choice(4, "code") as usize] } else { [0u8, 1, 2, 0x80][i % 4] };
                body.push(c);
                codes.push(match c { 0 => SubackReturnCode::SuccessQosZero, 1 => SubackReturnCode::SuccessQosOne, 2 => SubackReturnCode::SuccessQosTwo, _ => SubackReturnCode::Failure });
            }
            expect(&Packet::make_suback(id, codes), 0x90, &body); return;
        }
    };
    expect(&p, first, &ib);
    if ty != 11 { sx::cover("round trip"); let mut w = vec![ty, 0, first >> 1 & 3, 0]; w.extend_from_slice(&ib); back(&p, &w) }
}
fn qos_of(q: u64) -> QosLevel { match q { 0 => QosLevel::AtMost, 1 => QosLevel::AtLeast, _ => QosLevel::Exactly } }
fn enc_publish(topics: &[usize], payloads: &[usize]) {
    let (q, dup, retain) = (sx::choice(3, "qos"), sx::choice(2, "dup") == 1, sx::choice(2, "retain") == 1);
    let t = sx::vec(pick(topics, "topic length"), "topic");
    if !utf8(&t) { return; }
    let payload = sx::vec(pick(payloads, "payload length"), "payload");
    let idb: [u8; 2] = sx::bytes("packet id");
    let id = if q > 0 { Some(u16::from_be_bytes(idb)) } else { None };
    let s = match String::from_utf8(t.clone()) { Ok(s) => s, Err(_) => return };
    let p = Packet::make_publish(dup, qos_of(q), retain, s, id, Bytes::from(payload.clone()));
    let mut body = vec![]; put_len(&mut body, &t); if q > 0 { body.extend_from_slice(&idb) } body.extend_from_slice(&payload);
    expect(&p, 0x30 | (dup as u8) << 3 | (q as u8) << 1 | retain as u8, &body);
    if decode(&p).verdict == Verdict::Good {
        sx::cover("round trip");
        let mut w = vec![3, dup as u8, q as u8, retain as u8]; put(&mut w, &t);
        if q > 0 { w.push(1); w.extend_from_slice(&idb) } else { w.push(0) }
        put(&mut w, &payload); back(&p, &w)
    }
}
/// Only header, length and ends of the payload are compared: for payloads of hundreds of megabytes.
fn enc_size(list: &[usize]) {
    let q = sx::choice(3, "qos"); let total = pick(list, "remaining length");
    let t = "t/u"; let id: [u8; 2] = sx::bytes("packet id");
    let fixed = 2 + t.len() + if q > 0 { 2 } else { 0 };
    let mut payload = vec![0u8; total - fixed];
    let n = payload.len();
    let ends = [sx::byte("first"), sx::byte("last")];
    payload[0] = ends[0]; payload[n - 1] = ends[1];
    let p = Packet::make_publish(false, qos_of(q), false, t.into(), if q > 0 { Some(u16::from_be_bytes(id)) } else { None }, Bytes::from(payload));
    let mut h = vec![0x30 | (q as u8) << 1]; h.extend_from_slice(&remaining(total)); put_len(&mut h, t.as_bytes());
    if q > 0 { h.extend_from_slice(&id) }
    sx::check(p.len() == h.len() + n, "C04 wrong packet length");
    sx::check(&p[..h.len()] == &h[..], "C04 wrong bytes");
    sx::check(p[h.len()] == ends[0] && p[p.len() - 1] == ends[1], "C04 payload not in place");
    sx::cover("sized");
}
#[cfg(feature = "g_len")]
/// The remaining-length codec itself, for every length.
fn enc_len() {
    let b: [u8; 4] = sx::bytes("length");
    let n = u32::from_be_bytes(b) as usize;
    if n > 0x0fff_ffff { return; }
    let before = sx::choice(4, "bytes before") as usize;
    let mut buf = bytes::BytesMut::new();
    buf.extend_from_slice(&b"abcd"[..before]);
    crate::packets::verif_hook::encode_length(n, &mut buf);
    sx::check(buf.len() > before && &buf[..before] == &b"abcd"[..before], "C04 length field overwrites other bytes");
    let got = &buf[before..];
    sx::out(got);
    sx::check(same(got, &remaining(n)), "C04 remaining length field wrong");
    let mut it = got.iter();
    match crate::packets::verif_hook::decode_length(&mut it) {
        Ok((v, k)) => sx::check(v == n && k == got.len(), "C04 remaining length does not decode to itself"),
        Err(_) => sx::fail("C04 remaining length does not decode"),
    }
    sx::cover("length");
}
#[cfg(not(feature = "g_len"))]
fn enc_len() { sx::limit("the length codec has moved") }
super::entries! {
    h_raw6 => raw(6, judge);
    h_raw8 => raw(8, judge);
    h_raw10 => raw(10, judge);
    h_raw12 => raw(12, judge);
    h_sized8 => sized(8, 2, judge);
    h_sized10 => sized(10, 2, judge);
    h_sized12 => sized(12, 2, judge);
    h_sized14 => sized(14, 2, judge);
    h_connect_name => connect_name();
    h_connect_other => connect_other(8, 7);
    h_connect_other2 => connect_other(8, 12);
    h_connect8 => connect(8, 1, judge);
    h_connect12 => connect(12, 1, judge);
    h_connect14 => connect(14, 1, judge);
    h_connect16 => connect(16, 1, judge);
    h_indep6 => raw(6, independent);
    h_indep8 => raw(8, independent);
    h_indep10 => raw(10, independent);
    h_indep12 => raw(12, independent);
    h_big_publish => big_publish(&[1, 127, 128, 255, 256], &[120, 127, 128, 129, 255, 256, 300, 1000]);
    h_big_publish2 => big_publish(&[1, 300], &[8192, 8193, 16383, 16384, 16385]);
    h_big_publish3 => big_publish(&[65535], &[65537, 65540, 70000]);
    h_huge_publish => big_publish(&[3], &[2097151, 2097152]);
    h_big_sub => big_filters(true, &[1, 2, 3, 40], &[0, 1, 2, 127, 128, 300]);
    h_big_unsub => big_filters(false, &[1, 2, 3, 40], &[0, 1, 2, 127, 128, 300]);
    h_big_filter => big_filters(true, &[1, 2], &[65535]);
    h_big_connect => big_connect(&[0, 2, 255, 256]);
    h_big_text => big_text(&[70, 300]);
    h_big_text2 => big_text(&[65535]);
    h_big_connect2 => big_connect(&[65535]);
    h_enc_acks => enc_acks();
    h_enc_publish => enc_publish(&[0, 1, 2, 3], &[0, 1, 2]);
    h_enc_publish_mid => enc_publish(&[1], &[119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129]);
    h_enc_size => enc_size(&[20, 127, 128, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153]);
    h_enc_max => enc_size(&[268435455, 268435454]);
    h_enc_len => enc_len();
}
