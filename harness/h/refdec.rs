//! Reference decoder for MQTT 3.1.1, written from the standard, sharing nothing with the broker.
//! The result is flattened to bytes (`flat`), so that it can be compared with what the broker decoded.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// the standard demands acceptance, and `flat` holds the fields
    Good,
    /// the standard demands refusal
    Bad,
    /// the standard leaves it open, or it is no packet a client may send: accepting (then with these fields, if any) and refusing are both fine
    Open,
    /// not all bytes of the packet are there
    Partial,
}
pub struct Ref { pub verdict: Verdict, pub size: usize, pub flat: Vec<u8> }

pub struct Cur<'a> { b: &'a [u8], p: usize }
impl<'a> Cur<'a> {
    fn left(&self) -> usize { self.b.len() - self.p }
    fn u8(&mut self) -> Option<u8> { if self.left() < 1 { return None; } self.p += 1; Some(self.b[self.p - 1]) }
    fn u16(&mut self) -> Option<u16> { if self.left() < 2 { return None; } self.p += 2; Some((self.b[self.p - 2] as u16) << 8 | self.b[self.p - 1] as u16) }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        if self.left() < n { return None; }
        let n = sx::conc(n as u64) as usize;
        self.p += n; Some(&self.b[self.p - n..self.p])
    }
    /// a string: its bytes, and whether it contains U+0000 (which a receiver may or may not refuse)
    fn str(&mut self) -> Option<(&'a [u8], bool)> {
        let s = self.bin()?;
        if !utf8(s) { return None; }
        Some((s, has(s, 0)))
    }
}
/// Contains the byte c, without branching on every byte.
pub fn has(s: &[u8], c: u8) -> bool { let mut f = 0u8; for x in s { f |= (*x == c) as u8; } f != 0 }
/// Well-formed UTF-8 (Unicode table 3-7).
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let c = |k: usize, lo: u8, hi: u8| i + k < s.len() && s[i + k] >= lo && s[i + k] <= hi;
        let n = if b < 0x80 { 1 }
            else if b >= 0xc2 && b <= 0xdf { if !c(1, 0x80, 0xbf) { return false; } 2 }
            else if b >= 0xe0 && b <= 0xef {
                let (lo, hi) = if b == 0xe0 { (0xa0, 0xbf) } else if b == 0xed { (0x80, 0x9f) } else { (0x80, 0xbf) };
                if !c(1, lo, hi) || !c(2, 0x80, 0xbf) { return false; } 3 }
            else if b >= 0xf0 && b <= 0xf4 {
                let (lo, hi) = if b == 0xf0 { (0x90, 0xbf) } else if b == 0xf4 { (0x80, 0x8f) } else { (0x80, 0xbf) };
                if !c(1, lo, hi) || !c(2, 0x80, 0xbf) || !c(3, 0x80, 0xbf) { return false; } 4 }
            else { return false };
        i += n;
    }
    true
}
pub fn put(f: &mut Vec<u8>, s: &[u8]) { f.push((s.len() >> 16) as u8); f.push((s.len() >> 8) as u8); f.push(s.len() as u8); f.extend_from_slice(s) }
pub fn put16(f: &mut Vec<u8>, v: u16) { f.push((v >> 8) as u8); f.push(v as u8) }

/// The fixed header: None if malformed, Some(None) if incomplete, else (header length, remaining length).
pub fn header(b: &[u8]) -> Option<Option<(usize, usize)>> {
    if b.len() < 2 { return Some(None); }
    let mut v = 0usize; let mut i = 0;
    loop {
        if i == 4 { return None; }
        if 1 + i >= b.len() { return Some(None); }
        let x = b[1 + i];
        v |= ((x & 0x7f) as usize) << (7 * i);
        i += 1;
        if x & 0x80 == 0 { return Some(Some((1 + i, v))); }
    }
}
fn res(verdict: Verdict, size: usize) -> Ref { Ref { verdict, size, flat: vec![] } }
pub fn decode(b: &[u8]) -> Ref {
    if b.is_empty() { return res(Verdict::Partial, 0); }
    match header(b) {
        None => res(Verdict::Bad, 0),
        Some(None) => res(Verdict::Partial, 0),
        Some(Some((h, n))) => {
            // more bytes than are there is all we need to know
            let n = if n > b.len() - h { return res(Verdict::Partial, 0) } else { sx::conc(n as u64) as usize };
            let mut open = false;
            let mut flat = vec![];
            match body(b[0], &b[h..h + n], &mut open, &mut flat) {
                None => res(Verdict::Bad, h + n),
                Some(()) => Ref { verdict: if open { Verdict::Open } else { Verdict::Good }, size: h + n, flat },
            }
        }
    }
}
/// Decodes variable header and payload. `f` gets: type, dup, qos, retain, then the fields.
fn body(first: u8, b: &[u8], open: &mut bool, f: &mut Vec<u8>) -> Option<()> {
    let ty = first >> 4;
    let want = match ty { 6 | 8 | 10 => 2, _ => 0 };
    if ty == 3 { if (first >> 1) & 3 == 3 { return None; } } else if first & 15 != want { return None; }
    let mut c = Cur { b, p: 0 };
    let ty = sx::conc(ty as u64) as u8;
    f.extend_from_slice(&[ty, (first >> 3) & 1, (first >> 1) & 3, first & 1]);
    match ty {
        0 | 15 => return None,
        1 => {
            if c.bin()? != b"MQTT" { return None; }
            if c.u8()? != 4 { return None; }
            let fl = c.u8()?;
            let (user, pass, wret, wqos, will, clean) = (fl >> 7 & 1, fl >> 6 & 1, fl >> 5 & 1, fl >> 3 & 3, fl >> 2 & 1, fl >> 1 & 1);
            if fl & 1 != 0 || wqos == 3 || (will == 0 && (wqos != 0 || wret != 0)) || (user == 0 && pass != 0) { return None; }
            f.extend_from_slice(&[clean, will, wqos, wret, pass, user]);
            put16(f, c.u16()?);
            let (id, nul) = c.str()?;
            *open |= nul;
            if id.is_empty() { if clean == 0 { return None; } f.push(0); } else { f.push(1); put(f, id); }
            if will == 1 {
                let (t, nul) = c.str()?;
                *open |= nul | t.is_empty() | has(t, b'+') | has(t, b'#');
                f.push(1); put(f, t);
                f.push(1); put(f, c.bin()?);
            } else { f.push(0); f.push(0); }
            if user == 1 { let (u, nul) = c.str()?; *open |= nul; f.push(1); put(f, u); } else { f.push(0); }
            if pass == 1 { f.push(1); put(f, c.bin()?); } else { f.push(0); }
        }
        3 => {
            let (t, nul) = c.str()?;
            *open |= nul;
            if t.is_empty() || has(t, b'+') || has(t, b'#') { return None; }
            let qos = (first >> 1) & 3;
            put(f, t);
            if qos > 0 { let id = c.u16()?; *open |= id == 0; f.push(1); put16(f, id); } else { *open |= first & 8 != 0; f.push(0); }
            let rest = &b[c.p..];
            c.p = b.len();
            put(f, rest);
        }
        8 | 10 => {
            let id = c.u16()?; *open |= id == 0;
            put16(f, id);
            if c.left() == 0 { return None; }
            while c.left() > 0 {
                let (t, nul) = c.str()?;
                *open |= nul | t.is_empty();
                put(f, t);
                if ty == 8 { let q = c.u8()?; if q > 2 { return None; } f.push(q); }
            }
        }
        4 | 5 | 6 | 7 => { let id = c.u16()?; *open |= id == 0; put16(f, id); }
        12 | 14 => {}
        // packets only a server sends: whether decoding accepts them is of no consequence (S01 covers their effect)
        2 => { *open = true; c.u8()?; c.u8()?; }
        9 => { *open = true; c.u16()?; c.p = b.len(); }
        11 => { *open = true; c.u16()?; }
        _ => { *open = true; }
    }
    if c.left() != 0 { return None; }
    Some(())
}
