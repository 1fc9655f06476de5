use common::primitives::compact::Compact;
use common::primitives::per_thousand::PerThousand;
use common::primitives::rational::Rational;
use common::primitives::semver::SemVer;
use common::primitives::time::Time;
use common::primitives::{BlockDistance, BlockHeight};
use common::{Uint256, Uint512};
use serialization::{DecodeAll, Encode};
use std::cmp::Ordering;
use std::time::Duration;

fn bytes_of(c: u32) -> (u32, u32, bool) {
    (c >> 24, c & 0x7fffff, c & 0x800000 != 0)
}

//@ prop=C04
//@ time=100
//@ covers=decoded|rejected|zero
//@ bounds=all 2^32 compact encodings
#[no_mangle]
pub extern "C" fn h_compact_decode() {
    let c = sym::u32("c");
    let (size, mant, neg) = bytes_of(c);
    let size = sym::concretize(size as u64) as u32;
    // value = mant * 256^(size-3), truncated
    let mut le = [0u8; 32];
    let mut over = false;
    let mut nz = 0u8;
    for k in 0..3i32 {
        let b = (mant >> (8 * k)) as u8;
        let pos = size as i32 - 3 + k;
        if pos >= 0 && pos < 32 {
            le[pos as usize] = b;
        }
        if pos >= 32 && b != 0 {
            over = true;
        }
        if pos >= 0 {
            nz |= b;
        }
    }
    let bad = over || (neg && nz != 0);
    match Uint256::try_from(Compact(c)) {
        Ok(v) => {
            sym::cover("decoded");
            sym::check(!bad, "negative and overflowing targets are rejected");
            sym::check(v == Uint256::from_bytes(le), "the target is mantissa * 256^(size-3)");
            sym::cover_if(nz == 0, "zero");
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(bad, "only negative and overflowing targets are rejected");
        }
    }
}

//@ prop=C04
//@ time=100
//@ covers=wide|narrow
//@ bounds=all 256-bit targets
#[no_mangle]
pub extern "C" fn h_compact_encode() {
    let b = sym::bytes::<32>("target");
    let v = Uint256::from_bytes(b);
    let Compact(c) = Compact::from(v);
    let (size, mant, neg) = bytes_of(c);
    sym::check(!neg, "the sign bit is never set");
    let size = sym::concretize(size as u64) as usize;
    sym::check(size <= 33, "size is at most 33");
    match Uint256::try_from(Compact(c)) {
        Ok(w) => {
            sym::check(w <= v, "the encoding never rounds up");
            // the three significant bytes are kept; with a leading sign byte two
            let w = w.to_bytes();
            for i in 0..32 {
                if i + 3 >= size {
                    sym::check(w[i] == b[i], "the significant bytes are kept");
                } else {
                    sym::check(w[i] == 0, "lower bytes are dropped");
                }
            }
            sym::check(size == 0 || mant > 0x7fff || size < 1, "the mantissa is normalised");
            sym::check(Compact::from(Uint256::from_bytes(w)) == Compact(c), "re-encoding the decoded target gives the same bits");
            sym::cover_if(size > 3, "wide");
            sym::cover_if(size <= 3, "narrow");
        }
        Err(_) => sym::fail("an encoded target always decodes"),
    }
}

//@ prop=C05
//@ time=100
//@ covers=less|greater|equal
//@ bounds=all fractions with 64-bit numerators and non-zero 64-bit denominators
#[no_mangle]
pub extern "C" fn h_rational_u64() {
    let (a, b, c, d) = (sym::u64("a"), sym::u64("b"), sym::u64("c"), sym::u64("d"));
    sym::assume(b != 0 && d != 0);
    let o = Rational::new(a, b).cmp(&Rational::new(c, d));
    let (l, r) = (a as u128 * d as u128, c as u128 * b as u128);
    sym::check((o == Ordering::Less) == (l < r), "a/b < c/d exactly when a*d < c*b");
    sym::check((o == Ordering::Equal) == (l == r), "a/b and c/d compare equal exactly when a*d == c*b");
    sym::cover_if(o == Ordering::Less, "less");
    sym::cover_if(o == Ordering::Greater, "greater");
    sym::cover_if(o == Ordering::Equal, "equal");
}

fn rational_case<T: Into<Uint512> + Copy>(x: [T; 4], o: Ordering) {
    let [a, b, c, d] = x.map(|v| -> Uint512 { v.into() });
    let (l, r) = (a * d, c * b);
    sym::check(l.is_some() && r.is_some(), "the cross products fit");
    sym::check((o == Ordering::Less) == (l < r), "a/b < c/d exactly when a*d < c*b");
    sym::check((o == Ordering::Equal) == (l == r), "a/b and c/d compare equal exactly when a*d == c*b");
    sym::cover_if(o == Ordering::Less, "less");
    sym::cover_if(o == Ordering::Greater, "greater");
    sym::cover_if(o == Ordering::Equal, "equal");
}

//@ prop=C05
//@ time=120
//@ covers=less|greater|equal
//@ bounds=fractions of 128-bit numbers: any two numerators over denominators 2^i and 2^j, or numerators 2^i and 2^j over any two non-zero denominators (i, j of 0, 1, 64, 127); the oracle's cross products use Uint512 multiplication (C01)
#[no_mangle]
pub extern "C" fn h_rational_u128() {
    let (x, y) = (sym::u128("x"), sym::u128("y"));
    const P: [u32; 4] = [0, 1, 64, 127];
    let (p, q) = (1u128 << P[sym::choose("i", 4)], 1u128 << P[sym::choose("j", 4)]);
    let [a, b, c, d] = if sym::flag("powers below") {
        [x, p, y, q]
    } else {
        sym::assume(x != 0 && y != 0);
        [p, x, q, y]
    };
    rational_case([a, b, c, d], Rational::new(a, b).cmp(&Rational::new(c, d)));
}

//@ prop=C05
//@ time=120
//@ covers=less|greater|equal
//@ bounds=fractions of 256-bit numbers: any two numerators over denominators 2^i and 2^j, or the other way round (i, j of 0, 65, 255)
#[no_mangle]
pub extern "C" fn h_rational_u256() {
    let (x, y) = (Uint256::from_bytes(sym::bytes::<32>("x")), Uint256::from_bytes(sym::bytes::<32>("y")));
    const P: [usize; 3] = [0, 65, 255];
    let (p, q) = (Uint256::ONE << P[sym::choose("i", 3)], Uint256::ONE << P[sym::choose("j", 3)]);
    let [a, b, c, d] = if sym::flag("powers below") {
        [x, p, y, q]
    } else {
        sym::assume(x != Uint256::ZERO && y != Uint256::ZERO);
        [p, x, q, y]
    };
    rational_case([a, b, c, d], Rational::new(a, b).cmp(&Rational::new(c, d)));
}

//@ prop=C05
//@ time=120
//@ covers=less|greater|equal
//@ bounds=all fractions with 128-bit numerators over one non-zero 128-bit denominator
#[no_mangle]
pub extern "C" fn h_rational_same_denom() {
    let (a, b, c) = (sym::u128("a"), sym::u128("b"), sym::u128("c"));
    sym::assume(b != 0);
    let o = Rational::new(a, b).cmp(&Rational::new(c, b));
    sym::check(o == a.cmp(&c), "over one denominator the numerators decide");
    sym::cover_if(o == Ordering::Less, "less");
    sym::cover_if(o == Ordering::Greater, "greater");
    sym::cover_if(o == Ordering::Equal, "equal");
}

//@ prop=C06
//@ time=60
//@ covers=constructed|decoded
//@ bounds=all 16-bit values, all 2-byte encodings
#[no_mangle]
pub extern "C" fn h_per_thousand_value() {
    let v = sym::u16("v");
    match PerThousand::new(v) {
        Some(p) => {
            sym::cover("constructed");
            sym::check(v <= 1000, "values above 1000 are rejected");
            sym::check(p.value() == v && p.as_per_thousand_int() == v && p.denominator() == 1000, "the value is kept");
            let e = p.encode();
            sym::check(PerThousand::decode_all(&mut &e[..]) == Ok(p), "encode and decode are inverse");
        }
        None => sym::check(v > 1000, "values up to 1000 are accepted"),
    }
    let b = sym::bytes::<2>("b");
    match PerThousand::decode_all(&mut &b[..]) {
        Ok(p) => {
            sym::cover("decoded");
            sym::check(p.value() <= 1000, "a decoded value is at most 1000");
            sym::check(p.encode() == b, "the encoding is canonical");
        }
        Err(_) => sym::check(u16::from_le_bytes(b) > 1000, "only values above 1000 fail to decode"),
    }
}

//@ prop=C06
//@ time=100
//@ covers=done
//@ bounds=all values 0..=1000 printed as decimal and as percentage and parsed back
#[no_mangle]
pub extern "C" fn h_per_thousand_text() {
    sym::real_fmt(true);
    let v = sym::u16("v");
    sym::assume(v <= 1000);
    let p = PerThousand::new(v).unwrap();
    let s = if sym::flag("percent") { p.to_percentage_str() } else { p.to_decimal_str() };
    sym::check(matches!(PerThousand::from_decimal_str(&s), Ok(q) if q == p), "the printed text parses to the same value");
    sym::cover("done");
}

//@ prop=C06
//@ time=100
//@ covers=accepted|rejected
//@ bounds=all texts D, D.F, D.FF, D.FFF, DDD.F with symbolic digits, with and without '%', and arbitrary ASCII texts of up to 3 bytes
#[no_mangle]
pub extern "C" fn h_per_thousand_parse() {
    let (ni, nf) = (sym::choose("int", 3) + 1, sym::choose("frac", 5));
    let mut s = String::new();
    let mut v = 0u64;
    for i in 0..ni + nf {
        if i == ni {
            s.push('.');
        }
        let d = sym::range("d", 0, 9);
        v = v * 10 + d;
        s.push((b'0' + d as u8) as char);
    }
    let pct = sym::flag("pct");
    if pct {
        s.push('%');
    }
    // value in 1/1000: v / 10^nf * (10 or 1000)
    let num = v * if pct { 10 } else { 1000 };
    let den = 10u64.pow(nf as u32);
    let want = if num % den == 0 && num / den <= 1000 { Some((num / den) as u16) } else { None };
    let got = PerThousand::from_decimal_str(&s).ok().map(|p| p.value());
    sym::check(got == want, "the parsed ratio is exactly the one written, or an error");
    sym::cover_if(got.is_some(), "accepted");
    sym::cover_if(got.is_none(), "rejected");
}

//@ prop=C07
//@ time=60
//@ covers=height|none
//@ bounds=all heights and distances
#[no_mangle]
pub extern "C" fn h_height() {
    let (h, k) = (sym::u64("h"), sym::u64("k"));
    let (x, y) = (BlockHeight::new(h), BlockHeight::new(k));
    let d = sym::u64("d") as i64;
    let e = sym::u64("e") as i64;
    let opt = |v: i128| if v >= 0 && v <= i64::MAX as i128 { Some(BlockHeight::new(v as u64)) } else { None };
    let small = h <= i64::MAX as u64;
    if h as i128 + d as i128 <= i64::MAX as i128 || !small {
        let r = x + BlockDistance::new(d);
        sym::check(r == if small { opt(h as i128 + d as i128) } else { None }, "height + distance is exact or None");
        sym::cover_if(r.is_some(), "height");
        sym::cover_if(r.is_none(), "none");
    }
    sym::check(x - BlockDistance::new(d) == if small { opt(h as i128 - d as i128) } else { None }, "height - distance is exact or None");
    let dist = |v: i128| if v >= i64::MIN as i128 && v <= i64::MAX as i128 { Some(BlockDistance::new(v as i64)) } else { None };
    sym::check(x - y == if small && k <= i64::MAX as u64 { dist(h as i128 - k as i128) } else { None }, "height - height is exact or None");
    sym::check(BlockDistance::new(d) + BlockDistance::new(e) == dist(d as i128 + e as i128), "distance + distance is exact or None");
    sym::check(BlockDistance::new(d) - BlockDistance::new(e) == dist(d as i128 - e as i128), "distance - distance is exact or None");
    sym::check(x.checked_add(k) == h.checked_add(k).map(BlockHeight::new), "checked_add");
    sym::check(x.prev_height() == if h == 0 { None } else { Some(BlockHeight::new(h - 1)) }, "prev_height");
    if h < u64::MAX {
        sym::check(x.next_height() == BlockHeight::new(h + 1), "next_height");
        sym::check(x.next_height().prev_height() == Some(x), "prev undoes next");
    }
    sym::check((x < y) == (h < k) && (x == y) == (h == k), "heights are ordered numerically");
}

//@ prop=C07
//@ time=60
//@ covers=empty|some
//@ bounds=height ranges of up to 4 elements starting anywhere
#[no_mangle]
pub extern "C" fn h_height_ranges() {
    let h = sym::u64("h");
    let n = sym::choose("n", 5) as u64;
    sym::assume(h <= u64::MAX - n);
    let v: Vec<u64> = BlockHeight::new(h).iter_up_to(BlockHeight::new(h + n)).map(|x| x.into_int()).collect();
    sym::check(v.len() as u64 == n, "iter_up_to excludes the end");
    for (i, x) in v.iter().enumerate() {
        sym::check(*x == h + i as u64, "iter_up_to is consecutive");
    }
    let w: Vec<u64> = BlockHeight::new(h).iter_up_to_including(BlockHeight::new(h + n)).map(|x| x.into_int()).collect();
    sym::check(w.len() as u64 == n + 1 && w[n as usize] == h + n && w[0] == h, "iter_up_to_including includes the end");
    sym::cover_if(n == 0, "empty");
    sym::cover_if(n > 0, "some");
    if h > 0 {
        sym::check(BlockHeight::new(h).iter_up_to(BlockHeight::new(h - 1)).next().is_none(), "a reversed range is empty");
    }
}

//@ prop=C07
//@ time=60
//@ covers=fits|none
//@ bounds=all times of whole milliseconds below 2^63 and all durations of whole milliseconds
#[no_mangle]
pub extern "C" fn h_time() {
    let dur = |n: &'static str, m: &'static str| {
        let (s, ns) = (sym::u64(n), sym::u32(m));
        sym::assume(ns < 1_000_000_000);
        (s, ns, Duration::new(s, ns))
    };
    let (s1, n1, d1) = dur("s1", "n1");
    let (s2, n2, d2) = dur("s2", "n2");
    let t = Time::from_duration_since_epoch(d1);
    sym::check(t.as_duration_since_epoch() == d1 && t.as_secs_since_epoch() == s1, "accessors");
    let carry = (n1 as u64 + n2 as u64 >= 1_000_000_000) as u128;
    let sum = s1 as u128 + s2 as u128 + carry;
    let want = if sum <= u64::MAX as u128 {
        let n = n1 as u64 + n2 as u64 - 1_000_000_000 * carry as u64;
        Some(Time::from_duration_since_epoch(Duration::new(sum as u64, n as u32)))
    } else {
        None
    };
    sym::check(t + d2 == want, "time + duration is exact or None");
    sym::check(t.saturating_duration_add(d2) == want.unwrap_or(Time::from_duration_since_epoch(Duration::MAX)), "saturating add");
    sym::cover_if(want.is_some(), "fits");
    sym::cover_if(want.is_none(), "none");
    let ge = (s1, n1) >= (s2, n2);
    let t2 = Time::from_duration_since_epoch(d2);
    match t - t2 {
        Some(d) => {
            sym::check(ge, "a negative time difference is None");
            sym::check(t2 + d == Some(t), "the time difference is exact");
            sym::check(t.saturating_sub(t2) == d, "saturating_sub");
        }
        None => {
            sym::check(!ge, "the time difference is None only when negative");
            sym::check(t.saturating_sub(t2) == Duration::ZERO, "saturating_sub of a later time is 0");
        }
    }
    sym::check((t - d2) == if ge { (t - t2).map(Time::from_duration_since_epoch) } else { None }, "time - duration is exact or None");
    sym::check(t.saturating_duration_sub(d2) == (t - d2).unwrap_or(Time::from_secs_since_epoch(0)), "saturating_duration_sub");
    sym::check((t < t2) == !((s1, n1) >= (s2, n2)), "times are ordered chronologically");
}

//@ prop=C08
//@ time=100
//@ covers=done
//@ bounds=all versions with components 0..=255 and patch 0..=65535
#[no_mangle]
pub extern "C" fn h_semver_text() {
    sym::real_fmt(true);
    let v = SemVer::new(sym::u8("a"), sym::u8("b"), sym::u16("c"));
    let s = v.to_string();
    sym::check(s.parse::<SemVer>() == Ok(v), "the printed version parses to the same version");
    sym::cover("done");
}

//@ prop=C08
//@ time=100
//@ covers=accepted|rejected
//@ bounds=all ASCII texts of up to 6 bytes
#[no_mangle]
pub extern "C" fn h_semver_parse() {
    let n = sym::choose("len", 7);
    let b = sym::vec("text", n);
    for &x in &b {
        sym::assume(x < 0x80);
    }
    let s = String::from_utf8(b.clone()).unwrap();
    match s.parse::<SemVer>() {
        Ok(v) => {
            sym::cover("accepted");
            let mut part = [0u32; 3];
            let mut digits = [0u32; 3];
            let mut i = 0;
            for (k, &c) in b.iter().enumerate() {
                if c == b'.' {
                    i += 1;
                    sym::check(i < 3, "exactly three components");
                } else if c == b'+' {
                    sym::check(k == 0 || b[k - 1] == b'.', "a plus sign only leads a component");
                } else {
                    sym::check(c.is_ascii_digit(), "components are decimal numbers");
                    part[i] = part[i] * 10 + (c - b'0') as u32;
                    digits[i] += 1;
                }
            }
            sym::check(i == 2 && digits[0] > 0 && digits[1] > 0 && digits[2] > 0, "no component is missing");
            sym::check(v.major as u32 == part[0] && v.minor as u32 == part[1] && v.patch as u32 == part[2], "the version is the one written");
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(!well_formed(&b), "well-formed versions are accepted");
        }
    }
}

/// Three components, each digits (a leading '+' is let through) within its type's range.
fn well_formed(b: &[u8]) -> bool {
    let (mut n, mut digits, mut v) = (0, 0, 0u32);
    for k in 0..=b.len() {
        if k == b.len() || b[k] == b'.' {
            if digits == 0 || n > 2 || v > [255, 255, 65535][n] {
                return false;
            }
            n += 1;
            digits = 0;
            v = 0;
        } else if b[k] == b'+' {
            if k != 0 && b[k - 1] != b'.' {
                return false;
            }
        } else if b[k].is_ascii_digit() {
            digits += 1;
            v = v * 10 + (b[k] - b'0') as u32;
        } else {
            return false;
        }
    }
    n == 3
}

fn ascii(b: &[u8]) -> String {
    sym::assume(b.iter().all(|c| *c < 0x80));
    String::from_utf8(b.to_vec()).unwrap()
}

//@ prop=C06
//@ time=200
//@ covers=accepted|rejected
//@ bounds=all ASCII texts of up to 4 bytes, also behind "10", "0.00" and "99.", read as text; all 16-bit numbers as plain numbers
#[no_mangle]
pub extern "C" fn h_per_thousand_ascii() {
    use serde::de::{value::Error, IntoDeserializer};
    use serde::Deserialize;
    let n = sym::choose("length", 5);
    let mut b = ["", "10", "0.00", "99."][sym::choose("prefix", 4)].as_bytes().to_vec();
    b.extend(&sym::bytes::<4>("text")[..n]);
    let s = ascii(&b);
    let space = |c: u8| matches!(c, 9..=13 | b' ');
    let pct = b.iter().rev().find(|c| !space(**c)) == Some(&b'%');
    let mut core = &b[..];
    while let (true, [rest @ .., b'%']) = (pct, core) {
        core = rest;
    }
    let want = crate::decimal::read_checked(core).and_then(|(v, dec)| {
        let (num, den) = (v as u64 * if pct { 10 } else { 1000 }, 10u64.pow(dec as u32));
        (num % den == 0 && num / den <= 1000).then(|| (num / den) as u16)
    });
    let got = PerThousand::from_decimal_str(&s).ok().map(|p| p.value());
    sym::cover(if got.is_some() { "accepted" } else { "rejected" });
    sym::check(got == want, "the parsed ratio is exactly the one written, or an error");
    let de: serde::de::value::StrDeserializer<'_, Error> = s.as_str().into_deserializer();
    sym::check(PerThousand::deserialize(de).ok().map(|p| p.value()) == want, "a serialized text is read as text");
    let v = sym::u16("number");
    let de: serde::de::value::U16Deserializer<Error> = v.into_deserializer();
    sym::check(PerThousand::deserialize(de).ok().map(|p| p.value()) == (v <= 1000).then_some(v), "a number is the ratio in thousandths");
}

/// The number of an optional plus sign and digits, if at most max.
fn number(b: &[u8], max: u64) -> Option<u64> {
    let d = if b.first() == Some(&b'+') { &b[1..] } else { b };
    let mut v = 0u128;
    for c in d {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v * 10 + (c - b'0') as u128;
    }
    (!d.is_empty() && v <= max as u128).then_some(v as u64)
}

//@ prop=C08
//@ time=100
//@ covers=accepted|rejected
//@ bounds=versions one component of which is any 3 ASCII characters behind one of eight prefixes of digits or signs, with one to four components
#[no_mangle]
pub extern "C" fn h_semver_component() {
    let n = sym::choose("length", 4);
    let p = ["", "25", "2", "6553", "655", "000", "42949672", "1844674407370955"][sym::choose("prefix", 8)];
    let mut b = p.as_bytes().to_vec();
    b.extend(&sym::bytes::<3>("text")[..n]);
    sym::assume(b.iter().all(|c| *c != b'.'));
    let (at, parts) = (sym::choose("component", 3), sym::choose("components", 4) + 1);
    sym::assume(at < parts);
    let mut s = vec![];
    for i in 0..parts {
        if i > 0 {
            s.push(b'.');
        }
        s.extend(if i == at { &b[..] } else { b"7" });
    }
    let v = number(&b, [255, 255, 65535][at]).filter(|_| parts == 3);
    let want = v.map(|v| {
        let mut c = [7u64; 3];
        c[at] = v;
        SemVer::new(c[0] as u8, c[1] as u8, c[2] as u16)
    });
    let got = ascii(&s).parse::<SemVer>().ok();
    sym::cover(if got.is_some() { "accepted" } else { "rejected" });
    sym::check(got == want, "the version is the one written, or an error");
    sym::check(SemVer::try_from(ascii(&s)).ok() == want, "converting a text is parsing it");
}

//@ prop=C08
//@ time=60
//@ bounds=all pairs of versions
#[no_mangle]
pub extern "C" fn h_semver_order() {
    let [v, w] = [["a", "b", "c"], ["d", "e", "f"]].map(|[a, b, c]| (sym::u8(a), sym::u8(b), sym::u16(c)));
    let [x, y] = [v, w].map(|(a, b, c)| SemVer::new(a, b, c));
    sym::check((x < y) == (v < w) && (x == y) == (v == w), "versions are ordered by their components");
    let e = x.encode();
    sym::check(e == [v.0, v.1, v.2 as u8, (v.2 >> 8) as u8], "a version is stored as its components");
    sym::check(SemVer::decode_all(&mut &e[..]) == Ok(x), "a stored version is read back");
}

//@ prop=C07
//@ time=60
//@ covers=height|refused
//@ bounds=heights written as any 3 ASCII characters behind six prefixes of digits
#[no_mangle]
pub extern "C" fn h_height_text() {
    let n = sym::choose("length", 4);
    let p = ["", "429496", "922337203685477580", "18446744073709551", "184467440737095516", "0000"][sym::choose("prefix", 6)];
    let mut b = p.as_bytes().to_vec();
    b.extend(&sym::bytes::<3>("text")[..n]);
    let got = ascii(&b).parse::<BlockHeight>().ok().map(|h| h.into_int());
    sym::cover(if got.is_some() { "height" } else { "refused" });
    sym::check(got == number(&b, u64::MAX), "a height is the number written, or an error");
}

//@ prop=C07
//@ time=60
//@ covers=fits|none
//@ bounds=all block counts; all times of up to 2^64 milliseconds as mocked time
#[no_mangle]
pub extern "C" fn h_counts_and_clock() {
    use common::primitives::time;
    use common::primitives::BlockCount;
    let (a, b) = (sym::u64("a"), sym::u64("b"));
    let (x, y) = (BlockCount::new(a), BlockCount::new(b));
    sym::check((x + y).map(|c| c.to_int()) == a.checked_add(b), "count + count is exact or None");
    sym::check((x - y).map(|c| c.to_int()) == a.checked_sub(b), "count - count is exact or None");
    sym::check((x < y) == (a < b), "counts are ordered numerically");
    sym::check(BlockDistance::new(a as i64).to_int() == a as i64 && i64::from(BlockDistance::from(b as i64)) == b as i64, "a distance keeps its value");
    sym::check(u64::from(BlockHeight::from(a)) == a && BlockHeight::zero().into_int() == 0 && BlockHeight::one().into_int() == 1 && BlockHeight::max().into_int() == u64::MAX, "a height keeps its value");
    let ms = sym::u64("milliseconds");
    sym::assume(ms < 1 << 20 || ms > u64::MAX - 1000);
    let d = time::duration_from_int(ms);
    sym::check(d.as_secs() == ms / 1000 && d.subsec_millis() as u64 == ms % 1000, "a number of milliseconds is its duration");
    sym::check(time::duration_to_int(&d) == Ok(ms), "a duration is its number of milliseconds");
    sym::check(time::duration_to_int(&Duration::from_secs(u64::MAX / 1000 + 1)).is_err(), "a duration of too many milliseconds is refused");
    if ms > 0 {
        sym::cover("fits");
        sym::check(time::set(d).is_ok() && time::get_time() == Time::from_duration_since_epoch(d), "the clock shows the time it was set to");
        sym::check(common::time_getter::TimeGetter::default().get_time() == Time::from_duration_since_epoch(d), "the default clock shows the time it was set to");
    } else {
        sym::cover("none");
    }
    time::reset();
}
