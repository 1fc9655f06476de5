use rpc_types::{RpcHexString, RpcString};
use serde::de::value::{Error, MapDeserializer, StrDeserializer};
use serde::de::IntoDeserializer;
use serde::Deserialize;

fn hex(s: &[u8]) -> Option<Vec<u8>> {
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

//@ prop=R01
//@ time=60
//@ covers=read|refused
//@ bounds=any text of up to 4 ASCII characters and any 4 bytes
#[no_mangle]
pub extern "C" fn h_hex() {
    sym::real_fmt(true);
    let n = sym::choose("length", 5);
    let b = sym::bytes::<4>("text")[..n].to_vec();
    let bytes = sym::bytes::<4>("bytes")[..n].to_vec();
    let h = RpcHexString::from_bytes(bytes.clone());
    let s = h.to_string();
    sym::check(s.len() == 2 * n && hex(s.as_bytes()).as_ref() == Some(&bytes), "bytes are written as hexadecimal");
    sym::check(s.bytes().all(|c| !c.is_ascii_uppercase()) && format!("{h:x}") == s, "digits are lower case");
    sym::check(s.parse::<RpcHexString>() == Ok(h), "bytes are read back");
    sym::assume(b.iter().all(|c| *c < 0x80));
    let t = std::str::from_utf8(&b).unwrap();
    let got = t.parse::<RpcHexString>().ok();
    sym::cover(if got.is_some() { "read" } else { "refused" });
    sym::check(got.map(|h| h.into_bytes()) == hex(&b), "exactly pairs of hexadecimal digits are read");
}

//@ prop=R01
//@ time=60
//@ covers=text only|hex only|both agree|both differ|neither
//@ bounds=texts of up to 2 and hexadecimal texts of up to 4 ASCII characters
#[no_mangle]
pub extern "C" fn h_string_object() {
    let (a, b) = (sym::bytes::<2>("text"), sym::bytes::<4>("hex"));
    sym::assume(a.iter().chain(&b).all(|c| *c < 0x80));
    let a = std::str::from_utf8(&a[..sym::choose("text length", 3)]).unwrap();
    let b = std::str::from_utf8(&b[..2 * sym::choose("hex length", 3)]).unwrap();
    let (with_text, with_hex) = (sym::flag("with text"), sym::flag("with hex"));
    let mut fields = vec![];
    if with_text {
        fields.push(("text", a));
    }
    if with_hex {
        fields.push(("hex", b));
    }
    let de: MapDeserializer<'_, _, Error> = MapDeserializer::new(fields.into_iter());
    let got = RpcString::deserialize(de).ok().map(|s| s.into_bytes());
    let bytes = hex(b.as_bytes());
    let want = match (with_text, with_hex) {
        (false, false) => {
            sym::cover("neither");
            None
        }
        (true, false) => {
            sym::cover("text only");
            Some(a.as_bytes().to_vec())
        }
        (false, true) => {
            sym::cover("hex only");
            bytes
        }
        (true, true) => {
            let same = bytes.as_deref() == Some(a.as_bytes());
            sym::cover(if same { "both agree" } else { "both differ" });
            bytes.filter(|_| same)
        }
    };
    sym::check(got == want, "a string is its text or its hexadecimal bytes, which must agree when both are given");
    let de: StrDeserializer<'_, Error> = a.into_deserializer();
    let got = RpcString::deserialize(de).ok().map(|s| s.into_bytes());
    sym::check(got.as_deref() == Some(a.as_bytes()), "a bare string is its text");
}

fn utf8(b: &[u8]) -> bool {
    let cont = |i: usize| b.get(i).is_some_and(|c| *c & 0xc0 == 0x80);
    let mut i = 0;
    while i < b.len() {
        let (c, d) = (b[i], b.get(i + 1).copied().unwrap_or(0));
        i += if c < 0x80 {
            1
        } else if (0xc2..0xe0).contains(&c) && cont(i + 1) {
            2
        } else if c & 0xf0 == 0xe0 && cont(i + 1) && cont(i + 2) && (c != 0xe0 || d >= 0xa0) && (c != 0xed || d < 0xa0) {
            3
        } else {
            return false;
        };
    }
    true
}

//@ prop=R01
//@ time=60
//@ covers=text|no text
//@ bounds=any 3 bytes
#[no_mangle]
pub extern "C" fn h_string_bytes() {
    let n = sym::choose("length", 4);
    let b = sym::bytes::<3>("bytes")[..n].to_vec();
    let s = RpcString::from_bytes(b.clone());
    let ok = utf8(&b);
    sym::cover(if ok { "text" } else { "no text" });
    sym::check(s.try_as_str().is_ok() == ok, "bytes are a text exactly when they are UTF-8");
    sym::check(s.as_bytes() == &b[..], "bytes are kept");
    match s.try_into_string() {
        Ok(t) => sym::check(ok && t.as_bytes() == &b[..], "the text has the bytes"),
        Err((s, _)) => sym::check(!ok && s.as_bytes() == &b[..], "bytes that are no text are given back"),
    }
}
