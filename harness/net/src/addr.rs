use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use utils_networking::*;

fn ip() -> IpAddr {
    match sym::choose("kind", 4) {
        0 => IpAddr::V4(Ipv4Addr::new(127, 0, sym::u8("a"), sym::u8("b"))),
        1 => IpAddr::V4(Ipv4Addr::new(sym::u8("a"), 9, 10, sym::u8("b"))),
        2 => IpAddr::V6(Ipv6Addr::new(0x2a00, 0, 0, sym::u8("a") as u16, 0, 0, 0, sym::u8("b") as u16 * 256)),
        _ => IpAddr::V6(Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x7f00, sym::u8("a") as u16)),
    }
}

fn port() -> u16 {
    match sym::choose("port range", 2) {
        0 => sym::u8("port") as u16,
        _ => 65_535 - sym::u8("port") as u16,
    }
}

//@ prop=N01
//@ time=60
//@ covers=with|without
//@ bounds=IPv4 and IPv6 addresses with two arbitrary bytes, ports up to 255 and from 65280
#[no_mangle]
pub extern "C" fn h_ip_print() {
    sym::real_fmt(true);
    let ip = ip();
    let dom = NetworkAddress::Ip(ip);
    sym::check(dom.as_ip_address() == Some(&ip), "an address knows its IP address");
    if sym::flag("with port") {
        sym::cover("with");
        let port = port();
        let a = NetworkAddressWithPort { address: dom.clone(), port };
        let s = a.to_string();
        sym::check(s == SocketAddr::new(ip, port).to_string(), "an address with a port is written like a socket address");
        sym::check(s.parse() == Ok(a.clone()), "an address with a port is read back");
        let o = NetworkAddressWithOptionalPort::from(a.clone());
        sym::check(o.port == Some(port) && o.address == dom && o.to_string() == s, "the port is kept");
        sym::check(s.parse() == Ok(o), "an address with a port is read back");
        sym::check(NetworkAddressWithPort::from(SocketAddr::new(ip, port)) == a, "a socket address is an address with a port");
        let i = IpOrSocketAddress::new_socket_address(SocketAddr::new(ip, port));
        sym::check(i.to_string() == s && s.parse().as_ref() == Ok(&i), "a socket address is read back");
        sym::check(i.to_socket_address(port ^ 1) == SocketAddr::new(ip, port) && i.to_ip_address() == ip, "a given port is used");
    } else {
        sym::cover("without");
        let a = NetworkAddressWithOptionalPort::from(dom.clone());
        let s = a.to_string();
        sym::check(s == ip.to_string() && dom.to_string() == s, "an address without a port is written alone");
        sym::check(s.parse() == Ok(a), "an address without a port is read back");
        sym::check(s.parse() == Ok(dom), "an address is read back");
        sym::check(s.parse::<NetworkAddressWithPort>().is_err(), "a missing port is an error");
        let i = IpOrSocketAddress::new_ip(ip);
        sym::check(i.to_string() == s && s.parse().as_ref() == Ok(&i), "an address is read back");
        let port = sym::u16("default");
        sym::check(i.to_socket_address(port) == SocketAddr::new(ip, port) && i.to_ip_address() == ip, "the default port is used without another");
    }
}

fn decimal(s: &[u8]) -> Option<u16> {
    let d = if s.first() == Some(&b'+') { &s[1..] } else { s };
    if d.is_empty() {
        return None;
    }
    let mut v = 0u32;
    for c in d {
        if !(b'0'..=b'9').contains(c) {
            return None;
        }
        v = v * 10 + (*c - b'0') as u32;
        if v > 65_535 {
            return None;
        }
    }
    Some(v as u16)
}

//@ prop=N01
//@ time=60
//@ covers=port|no port
//@ bounds=any ASCII text of up to 4 characters as port, also behind two prefixes of digits, of an IPv4, an IPv6 and a named address
#[no_mangle]
pub extern "C" fn h_port_text() {
    sym::real_fmt(true);
    let host = ["1.2.3.4", "[2a00::1]", "ab.com"][sym::choose("host", 3)];
    let n = sym::choose("length", 5);
    let mut b = ["", "65", "0065"][sym::choose("prefix", 3)].as_bytes().to_vec();
    b.extend(&sym::bytes::<4>("port")[..n]);
    sym::assume(b.iter().all(|c| *c < 0x80));
    // further colons start another port
    sym::assume(b.iter().all(|c| *c != b':'));
    let want = decimal(&b);
    // brackets are only understood together with a plain port
    let want = if host.starts_with('[') && b.first() == Some(&b'+') { None } else { want };
    let s = format!("{host}:{}", std::str::from_utf8(&b).unwrap());
    let got = s.parse::<NetworkAddressWithOptionalPort>().ok();
    sym::cover(if got.is_some() { "port" } else { "no port" });
    sym::check(got.as_ref().and_then(|a| a.port) == want, "a port is a number up to 65535");
    sym::check(got.is_some() == want.is_some(), "an address with a wrong port is refused");
    if let Some(a) = &got {
        let host = host.trim_matches(|c| c == '[' || c == ']');
        sym::check(a.address.to_string() == host, "the address is what stands before the port");
    }
    let strict = s.parse::<NetworkAddressWithPort>().ok();
    sym::check(strict.is_some() == got.is_some(), "a port is required and present");
    if let (Some(a), Some(b)) = (got, strict) {
        sym::check(a == b.into(), "both readings agree");
    }
}

//@ prop=N01
//@ time=60
//@ covers=name|refused
//@ bounds=any 3 ASCII characters except dots behind "a", any before ".com"
#[no_mangle]
pub extern "C" fn h_name_text() {
    sym::real_fmt(true);
    let b = sym::bytes::<3>("name");
    sym::assume(b.iter().all(|c| *c < 0x80));
    let n = std::str::from_utf8(&b).unwrap();
    let s = match sym::choose("shape", 2) {
        0 => {
            sym::assume(b.iter().all(|c| *c != b'.'));
            format!("a{n}")
        }
        _ => format!("{n}.com"),
    };
    match s.parse::<NetworkAddress>() {
        Ok(a) => {
            sym::cover(if a.as_ip_address().is_some() { "address" } else { "name" });
            sym::check(s.parse::<IpAddr>().ok().as_ref() == a.as_ip_address(), "a text is an IP address exactly when it is written as one");
            sym::check(a.as_ip_address().is_some() || a.to_string() == s, "a name is kept as it is written");
            sym::check(s.bytes().all(|c| !b" :/@[]\\"[..].contains(&c)) || a.as_ip_address().is_some(), "a name has no delimiters");
        }
        Err(e) => {
            sym::cover("refused");
            sym::check(s.parse::<IpAddr>().is_err(), "an IP address is an address");
            sym::check(e == NetworkAddressParseError::NotIpAddressOrDomainName(s.clone()), "the error names the text");
        }
    }
}

fn now<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!("nothing to wait for"),
    }
}

struct Name(Vec<u8>, bool);

impl ResolvableName for Name {
    type ResolvedAddress = u8;
    async fn resolve(&self) -> Result<impl Iterator<Item = u8> + '_, NameResolutionError> {
        if self.1 {
            Ok(self.0.iter().copied())
        } else {
            Err(NameResolutionError::CannotResolve { resolvable_name: String::new(), error_str: String::new() })
        }
    }
}

//@ prop=N01
//@ time=60
//@ covers=all|failed
//@ bounds=up to three names with up to two addresses each, any of which may fail
#[no_mangle]
pub extern "C" fn h_resolve() {
    let n = sym::choose("names", 4);
    let mut names = vec![];
    for i in 0..n {
        let len = sym::choose(["len 0", "len 1", "len 2"][i], 3);
        let b = [sym::u8(["a0", "a1", "a2"][i]), sym::u8(["b0", "b1", "b2"][i])];
        names.push(Name(b[..len].to_vec(), sym::flag(["ok 0", "ok 1", "ok 2"][i])));
    }
    let ok = names.iter().all(|n| n.1);
    sym::cover(if ok { "all" } else { "failed" });
    let all: Vec<u8> = names.iter().flat_map(|n| n.0.clone()).collect();
    let first: Vec<u8> = names.iter().flat_map(|n| n.0.first().copied()).collect();
    let copy = || names.iter().map(|n| Name(n.0.clone(), n.1)).collect::<Vec<_>>().into_iter();
    sym::check(now(resolve_all(copy())).ok() == ok.then_some(all), "resolving names gives all their addresses in order or fails");
    sym::check(now(resolve_all_take_first(copy())).ok() == ok.then_some(first), "resolving names gives the first address of each in order or fails");
    let ip = IpAddr::V4(Ipv4Addr::from(sym::u32("ip")));
    let port = if sym::flag("with port") { Some(sym::u16("port")) } else { None };
    let a = NetworkAddressWithOptionalPort { address: NetworkAddress::Ip(ip), port };
    let got: Vec<_> = now(a.resolve()).unwrap().collect();
    let want = match port {
        Some(p) => IpOrSocketAddress::Socket(SocketAddr::new(ip, p)),
        None => IpOrSocketAddress::Ip(ip),
    };
    sym::check(got == [want], "an IP address resolves to itself with its port");
}
