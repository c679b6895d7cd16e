//! Interface to the symbolic executor. Without the feature `native` these are intrinsics of ksx; with it they are a
//! replay: inputs come, in the same order, from the bytes of a model that ksx printed.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize);
        fn sx_choice(n: u64, name: *const u8, nn: usize) -> u64;
        fn sx_conc(v: u64) -> u64;
        fn sx_assume(c: bool);
        fn sx_fail(p: *const u8, n: usize);
        fn sx_stop();
        fn sx_limit(p: *const u8, n: usize);
        fn sx_cover(p: *const u8, n: usize);
        fn sx_slice(on: bool);
        fn sx_own(on: bool) -> bool;
        fn sx_live() -> u64;
        fn sx_par(f: extern "C" fn(*mut u8), g: extern "C" fn(*mut u8), a: *mut u8, b: *mut u8, n: u64) -> u64;
        fn sx_note(p: *const u8, n: usize);
        fn sx_out(p: *const u8, n: usize);
    }
    pub const NATIVE: bool = false;
    pub fn fill(b: &mut [u8], name: &str) { unsafe { sx_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } }
    /// One of `n` alternatives; the executor forks here.
    pub fn choice(n: u64, name: &str) -> u64 { unsafe { sx_conc(sx_choice(n, name.as_ptr(), name.len())) } }
    pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
    pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    pub fn fail(id: &str) -> ! { unsafe { sx_fail(id.as_ptr(), id.len()) } loop {} }
    pub fn stop() -> ! { unsafe { sx_stop() } loop {} }
    pub fn limit(id: &str) -> ! { unsafe { sx_limit(id.as_ptr(), id.len()) } loop {} }
    pub fn cover(id: &str) { unsafe { sx_cover(id.as_ptr(), id.len()) } }
    /// Marks where a task runs: one that does not come back within a hundred million instructions is a failure.
    pub fn slice(on: bool) { unsafe { sx_slice(on) } }
    /// Whether what is allocated from now on is the broker's own; returns how it was.
    pub fn own(on: bool) -> bool { unsafe { sx_own(on) } }
    /// Bytes of the broker's own that are allocated now.
    pub fn live() -> u64 { unsafe { sx_live() } }
    /// Runs f(a) and g(b) as two threads that may interrupt each other, at most `n` times, where the solver chooses,
    /// before any access to the variables of the code under test that all threads share. Returns how many of the `n` are left.
    pub fn par(f: extern "C" fn(*mut u8), g: extern "C" fn(*mut u8), a: *mut u8, b: *mut u8, n: u64) -> u64 { unsafe { sx_par(f, g, a, b, n) } }
    pub fn note(id: &str) { unsafe { sx_note(id.as_ptr(), id.len()) } }
    pub fn out(b: &[u8]) { unsafe { sx_out(b.as_ptr(), b.len()) } }
}
#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub static INPUT: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
    static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
    fn next() -> u8 { let mut g = INPUT.lock().unwrap(); let i = g.1; g.1 += 1; g.0.get(i).copied().unwrap_or(0) }
    fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
    fn end(kind: &str, id: &str, code: i32) -> ! {
        println!("OUT {}", hex(&OUT.lock().unwrap())); println!("{} {}", kind, id); std::process::exit(code)
    }
    pub const NATIVE: bool = true;
    pub fn fill(b: &mut [u8], _: &str) { for x in b { *x = next(); } }
    pub fn choice(n: u64, name: &str) -> u64 { if n <= 1 { return 0; } let v = next() as u64; if v >= n { end("ASSUME", name, 11) } v }
    pub fn conc(v: u64) -> u64 { v }
    pub fn assume(c: bool) { if !c { end("ASSUME", "assumption", 11) } }
    pub fn fail(id: &str) -> ! { end("FAIL", id, 10) }
    pub fn stop() -> ! { end("DONE", "", 0) }
    pub fn limit(id: &str) -> ! { end("LIMIT", id, 12) }
    pub fn cover(_: &str) {}
    pub fn slice(_: bool) {}
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    static OWN: AtomicBool = AtomicBool::new(false);
    static LIVE: AtomicU64 = AtomicU64::new(0);
    /// Remembers in front of every block whose it is.
    struct Counting;
    fn wide(l: Layout) -> (Layout, usize) { let a = l.align().max(16); (Layout::from_size_align(l.size() + a, a).unwrap(), a) }
    impl Counting {
        unsafe fn get(&self, l: Layout, own: bool) -> *mut u8 {
            let (w, a) = wide(l); let p = System.alloc(w);
            if p.is_null() { return p }
            *p = own as u8; if own { LIVE.fetch_add(l.size() as u64, Relaxed); }
            p.add(a)
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { self.get(l, OWN.load(Relaxed)) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let (w, a) = wide(l); let p = p.sub(a);
            if *p != 0 { LIVE.fetch_sub(l.size() as u64, Relaxed); }
            System.dealloc(p, w)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let (_, a) = wide(l);
            let q = self.get(Layout::from_size_align(n, l.align()).unwrap(), *p.sub(a) != 0);
            if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l) }
            q
        }
    }
    #[global_allocator]
    static ALLOC: Counting = Counting;
    pub fn own(on: bool) -> bool { OWN.swap(on, Relaxed) }
    pub fn live() -> u64 { LIVE.load(Relaxed) }
    /// Natively real threads are used instead: see the entries.
    pub fn par(f: extern "C" fn(*mut u8), g: extern "C" fn(*mut u8), a: *mut u8, b: *mut u8, n: u64) -> u64 { f(a); g(b); n }
    pub fn note(s: &str) { println!("NOTE {}", s) }
    pub fn out(b: &[u8]) { OUT.lock().unwrap().extend_from_slice(b) }
    /// Runs an entry point on the given model and reports how it ended.
    pub fn replay(input: Vec<u8>, f: fn()) -> ! {
        INPUT.lock().unwrap().0 = input;
        std::panic::set_hook(Box::new(|i| {
            let w = i.location().map(|l| format!("panic at {}:{}:{}", l.file(), l.line(), l.column())).unwrap_or("panic".into());
            println!("NOTE {}", i); end("FAIL", &w, 10)
        }));
        // the stack of one of the broker's worker threads
        let _ = std::thread::Builder::new().stack_size(2 << 20).spawn(move || { f(); end("DONE", "", 0) }).unwrap().join();
        end("FAIL", "thread died", 10)
    }
}
pub use imp::*;
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0; N]; fill(&mut b, name); b }
pub fn byte(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn vec(n: usize, name: &str) -> Vec<u8> { let mut b = vec![0; n]; fill(&mut b, name); b }
/// What `f` allocates is not the broker's own.
pub fn foreign<R>(f: impl FnOnce() -> R) -> R { let was = own(false); let r = f(); own(was); r }
#[track_caller]
pub fn check(c: bool, id: &str) { if !c { fail(id) } }
