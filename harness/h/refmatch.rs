//! MQTT 3.1.1 topic filters, written from section 4.7 of the standard.
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }
fn next(s: &[u8], at: usize) -> usize { let mut i = at; while i < s.len() && s[i] != b'/' { i += 1 } i }
/// '#' only as the whole last level, '+' only as a whole level, not empty.
pub fn valid_filter(f: &[u8]) -> bool {
    if f.is_empty() { return false; }
    let mut at = 0;
    loop {
        let end = next(f, at); let l = &f[at..end];
        let mut wild = false;
        for b in l { if (*b == b'#') | (*b == b'+') { wild = true } }
        if wild && (l.len() != 1 || (l[0] == b'#' && end != f.len())) { return false; }
        if end == f.len() { return true; }
        at = end + 1;
    }
}
pub fn matches(f: &[u8], t: &[u8]) -> bool {
    if t[0] == b'$' && (f[0] == b'+' || f[0] == b'#') { return false; }
    let (mut a, mut b) = (0, 0);
    loop {
        let e = next(f, a); let l = &f[a..e];
        if l.len() == 1 && l[0] == b'#' { return true; }
        if b > t.len() { return false; } // topic has no level left
        let d = next(t, b);
        if !(l.len() == 1 && l[0] == b'+') && !same(l, &t[b..d]) { return false; }
        let (fl, tl) = (e == f.len(), d == t.len());
        if fl && tl { return true; }
        if fl { return false; }
        a = e + 1;
        b = if tl { t.len() + 1 } else { d + 1 };
    }
}
