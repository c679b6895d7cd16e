//! G01: what the configuration builder makes of its settings.
use crate::config::ConfigBuilder;
fn num<const N: usize>(name: &str) -> u64 { let b: [u8; N] = sx::bytes(name); b.iter().fold(0u64, |a, x| a << 8 | *x as u64) }
fn conf() {
    let (p, i) = (num::<2>("port") as u16, num::<8>("interval"));
    let mut b = ConfigBuilder::new();
    let order = sx::choice(4, "order");
    // a setting made twice: the last one counts
    if order >= 2 { b = b.set_port(num::<2>("port") as u16).set_sys_interval(num::<8>("interval")) }
    b = if order % 2 == 0 { b.set_port(p).set_sys_interval(i) } else { b.set_sys_interval(i).set_port(p) };
    let Ok(c) = b.build() else { sx::fail("G01 a configuration is refused") };
    if c.socket_addr.port() != p { sx::fail("G01 the port is not the one that was set") }
    if c.sys_interval != i { sx::fail("G01 the interval is not the one that was set") }
    match c.socket_addr.ip() { std::net::IpAddr::V4(a) if a.octets() == [0, 0, 0, 0] => {} _ => sx::fail("G01 not listening on all interfaces") }
    if c.user.is_some() || c.pass.is_some() || !c.allow_anonymous { sx::fail("G01 credentials out of nowhere") }
    sx::cover("built");
}
super::entries! {
    h_conf => conf();
}
