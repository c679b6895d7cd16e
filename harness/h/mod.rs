//! Harness entry points, compiled into a copy of the broker's own crate.
#![allow(dead_code, unused_imports, unused_macros, non_snake_case)]
pub mod refdec;
pub mod refmatch;
pub mod shape;
#[cfg(feature = "g_sys")]
pub mod world;
#[cfg(feature = "g_codec")]
pub mod codec;
#[cfg(feature = "g_conf")]
pub mod conf;
#[cfg(feature = "g_tree")]
pub mod tree;
#[cfg(feature = "g_sys")]
pub mod sys;

pub type Entry = (&'static str, fn());
/// Declares entry points: callable by name in the IR module, and listed for the native replay.
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $( #[no_mangle] pub extern "C" fn $name() { super::logging(); $e } )*
        pub const ENTRIES: &[super::Entry] = &[ $( (stringify!($name), { fn f() { $name() } f }), )* ];
    }
}
pub(crate) use entries;

/// As in the broker's main(): the arguments of every log record are evaluated. Nothing is formatted or written.
pub fn logging() { log::set_max_level(log::LevelFilter::Trace) }

pub fn all() -> Vec<Entry> {
    #[allow(unused_mut)]
    let mut v: Vec<Entry> = vec![];
    #[cfg(feature = "g_codec")] v.extend_from_slice(codec::ENTRIES);
    #[cfg(feature = "g_conf")] v.extend_from_slice(conf::ENTRIES);
    #[cfg(feature = "g_tree")] v.extend_from_slice(tree::ENTRIES);
    #[cfg(feature = "g_sys")] v.extend_from_slice(sys::ENTRIES);
    v
}

#[cfg(feature = "native")]
pub fn replay_main() {
    let a: Vec<String> = std::env::args().collect();
    let f = all().into_iter().find(|e| e.0 == a[1]).unwrap_or_else(|| { println!("NOENTRY"); std::process::exit(13) }).1;
    let hex = if std::path::Path::new(&a[2]).exists() { std::fs::read_to_string(&a[2]).unwrap() } else { a[2].clone() };
    let hex = hex.trim().to_string();
    let input = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    sx::replay(input, f)
}
