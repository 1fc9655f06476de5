use crypto::key::hdkd::child_number::ChildNumber;
use crypto::key::hdkd::derivable::{Derivable, DerivationError};
use crypto::key::hdkd::derivation_path::DerivationPath;
use crypto::key::hdkd::u31::U31;
use serialization::{Decode, Encode};

const HARD: u32 = 1 << 31;

fn child(v: u32) -> ChildNumber {
    ChildNumber::from_index_with_hardened_bit(v)
}

//@ prop=K01
//@ time=30
//@ covers=hardened|normal|last
//@ bounds=all 32-bit child numbers
#[no_mangle]
pub extern "C" fn h_child_number() {
    let v = sym::u32("number");
    let c = child(v);
    let hard = v >= HARD;
    let index = v % HARD;
    sym::cover(if hard { "hardened" } else { "normal" });
    sym::check(c.is_hardened() == hard && c.is_normal() == !hard, "the top bit marks a hardened child");
    sym::check(c.get_index().into_u32() == index, "the index is the rest");
    sym::check(c.into_encoded_index() == v, "the encoding is the number itself");
    sym::check(c.into_encoded_be_bytes() == [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8], "bytes are big-endian");
    sym::check(ChildNumber::from_encoded_be_bytes(c.into_encoded_be_bytes()) == c, "bytes give the number back");
    let u = U31::from_u32(v);
    sym::check(u.is_some() == !hard, "an index has 31 bits");
    sym::check(U31::try_from(v).is_ok() == !hard, "an index has 31 bits");
    if let Some(u) = u {
        sym::check(u.into_u32() == v && u32::from(u) == v, "an index keeps its value");
        sym::check(ChildNumber::from_normal(u).into_encoded_index() == v, "a normal child is its index");
        sym::check(ChildNumber::from_hardened(u).into_encoded_index() == v + HARD, "a hardened child has the top bit set");
        sym::check(U31::decode(&mut &v.to_le_bytes()[..]) == Ok(u), "an index is read back");
    } else {
        sym::check(U31::decode(&mut &v.to_le_bytes()[..]).is_err(), "an index beyond 31 bits is refused");
    }
    match c.increment() {
        Ok(n) => sym::check(index != HARD - 1 && n.into_encoded_index() == v + 1, "the next child follows and keeps the hardened mark"),
        Err(_) => {
            sym::cover("last");
            sym::check(index == HARD - 1, "only the last index has no next");
        }
    }
    let w = sym::u32("other");
    sym::check((child(w) == c) == (v == w) && (child(w) < c) == (w < v), "child numbers compare as their encodings");
}

/// The number a text of digits with an optional mark denotes.
fn denoted(s: &[u8]) -> Option<u32> {
    let (digits, mark) = match s.last() {
        Some(b'\'') | Some(b'h') => (&s[..s.len() - 1], HARD),
        _ => (s, 0),
    };
    if digits.is_empty() || digits.len() > 10 || digits.len() > 1 && digits[0] == b'0' {
        return None;
    }
    let mut v = 0u64;
    for d in digits {
        if !(b'0'..=b'9').contains(d) {
            return None;
        }
        v = v * 10 + (*d - b'0') as u64;
    }
    (v < HARD as u64).then(|| v as u32 + mark)
}

fn ascii(v: Vec<u8>) -> String {
    sym::assume(v.iter().all(|c| *c < 0x80));
    String::from_utf8(v).unwrap()
}

//@ prop=K01
//@ time=60
//@ covers=number|refused|hardened
//@ bounds=all ASCII texts of up to 4 characters, also behind seven prefixes of digits up to the largest number
#[no_mangle]
pub extern "C" fn h_child_text() {
    let n = sym::choose("length", 5);
    let p = ["", "214748", "2147483", "21474836", "429496729", "1000000", "99999"][sym::choose("prefix", 7)];
    let mut b = p.as_bytes().to_vec();
    b.extend(&sym::bytes::<4>("text")[..n]);
    let s = ascii(b.clone());
    let want = denoted(&b);
    let got = s.parse::<ChildNumber>().ok();
    sym::cover(if got.is_some() { "number" } else { "refused" });
    sym::cover_if(got.is_some_and(|c| c.is_hardened()), "hardened");
    sym::check(got.map(|c| c.into_encoded_index()) == want, "a child number is its decimal index and an optional hardened mark");
}

//@ prop=K01
//@ time=60
//@ covers=
//@ bounds=child numbers of up to 16-bit and near-maximal indices
#[no_mangle]
pub extern "C" fn h_child_print() {
    sym::real_fmt(true);
    let i = match sym::choose("range", 3) {
        0 => sym::u16("small") as u32,
        1 => HARD - 1 - sym::u8("top") as u32,
        _ => 999_999_900 + sym::u8("ten digits") as u32,
    };
    let hard = sym::flag("hardened");
    let c = child(if hard { i | HARD } else { i });
    let s = format!("{c}");
    sym::check(s.ends_with('\'') == hard, "a hardened child is marked");
    sym::check(s.parse() == Ok(c), "a printed child number is read back");
    sym::check(format!("{c:#}").replace('h', "'") == s, "the alternate form uses the other mark");
}

//@ prop=K01
//@ time=60
//@ covers=path|refused
//@ bounds=all ASCII texts of up to 7 characters
#[no_mangle]
pub extern "C" fn h_path_text() {
    let n = sym::choose("length", 8);
    let b = sym::bytes::<7>("text")[..n].to_vec();
    let s = ascii(b.clone());
    let mut parts = b.split(|c| *c == b'/');
    let want: Option<Vec<u32>> = if parts.next() == Some(b"m") { parts.map(denoted).collect() } else { None };
    let got = s.parse::<DerivationPath>().ok().map(|p| p.into_vec());
    sym::cover(if want.as_ref().is_some_and(|p| p.len() > 1) { "path" } else { "refused" });
    sym::check(got.is_some() == want.is_some(), "a path is an m followed by child numbers behind slashes");
    if let (Some(g), Some(w)) = (got, want) {
        sym::check(g.iter().map(|c| c.into_encoded_index()).eq(w), "a path has the children it lists, in order");
    }
}

fn path(len: &'static str, max: usize, names: [&'static str; 3]) -> Vec<ChildNumber> {
    let n = sym::choose(len, max + 1);
    (0..n).map(|i| child(sym::u32(names[i]))).collect()
}

struct Probe(DerivationPath, Vec<u32>, usize);

impl Derivable for Probe {
    fn derive_child(mut self, num: ChildNumber) -> Result<Self, DerivationError> {
        if self.1.len() == self.2 {
            return Err(DerivationError::KeyDerivationError);
        }
        self.1.push(num.into_encoded_index());
        Ok(self)
    }
    fn get_derivation_path(&self) -> &DerivationPath {
        &self.0
    }
}

//@ prop=K01
//@ time=60
//@ covers=below|not below
//@ bounds=paths of up to three arbitrary children
#[no_mangle]
pub extern "C" fn h_path_derive() {
    let (a, b) = (path("long", 3, ["a0", "a1", "a2"]), path("short", 3, ["b0", "b1", "b2"]));
    let (pa, pb) = (DerivationPath::try_from(a.clone()).unwrap(), DerivationPath::try_from(b.clone()).unwrap());
    sym::check(pa.len() == a.len() && pa.is_root() == a.is_empty() && pa.as_slice() == &a[..], "a path has its children");
    let below = a.len() > b.len() && a[..b.len()] == b[..];
    let diff = pa.get_super_path_diff(&pb);
    sym::cover(if below { "below" } else { "not below" });
    sym::check(diff.is_some() == below, "a path leads on from exactly its proper beginnings");
    let fail = sym::choose("fails at", 4);
    let got = Probe(pb, vec![], fail).derive_absolute_path(&pa);
    match got {
        Ok(p) => {
            sym::check(below && fail >= a.len() - b.len(), "a key is derived only along its own path");
            sym::check(p.1.iter().copied().eq(a[b.len()..].iter().map(|c| c.into_encoded_index())), "a key is derived by the remaining children in order");
        }
        Err(e) => {
            sym::check(!below || fail < a.len() - b.len(), "a key below another is derived");
            sym::check(below || e == DerivationError::CannotDerivePath(pa.clone()), "the path is named as the obstacle");
        }
    }
}

//@ prop=K01
//@ time=60
//@ covers=read|refused
//@ bounds=paths of up to three arbitrary children, any 10 bytes, and the limit of 255 children
#[no_mangle]
pub extern "C" fn h_path_bytes() {
    let a = path("length", 3, ["a0", "a1", "a2"]);
    let p = DerivationPath::try_from(a.clone()).unwrap();
    let e = p.encode();
    sym::check(e.len() == 1 + 4 * a.len() && e[0] as usize == a.len(), "a path is its length and its children");
    for (i, c) in a.iter().enumerate() {
        sym::check(e[1 + 4 * i..5 + 4 * i] == c.into_encoded_be_bytes(), "children are stored in order");
    }
    sym::check(DerivationPath::decode(&mut &e[..]).as_ref() == Ok(&p), "a stored path is read back");
    let raw = sym::bytes::<10>("bytes");
    let mut rest = &raw[..];
    match DerivationPath::decode(&mut rest) {
        Ok(p) => {
            sym::cover("read");
            sym::check(raw[0] <= 2 && p.len() == raw[0] as usize, "a path has as many children as it says");
            sym::check(rest.len() == 9 - 4 * p.len(), "a path consumes its bytes");
            sym::check(p.encode()[..] == raw[..10 - rest.len()], "a path read is stored the same way");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(raw[0] > 2, "a path cut short is refused");
        }
    }
    sym::check(DerivationPath::try_from(vec![ChildNumber::ONE; 255]).is_ok(), "a path may have 255 children");
    sym::check(DerivationPath::try_from(vec![ChildNumber::ONE; 256]).is_err(), "a path may not have more than 255 children");
}
