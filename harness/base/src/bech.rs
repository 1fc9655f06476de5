use common::primitives::bech32_encoding::{bech32m_decode, bech32m_encode};

const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

/// the BCH checksum of BIP-173 over five-bit values
fn polymod(values: &[u8]) -> u32 {
    let gen = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut c = 1u32;
    for v in values {
        let top = c >> 25;
        c = (c & 0x1ff_ffff) << 5 ^ *v as u32;
        for (i, g) in gen.iter().enumerate() {
            if top >> i & 1 != 0 {
                c ^= *g;
            }
        }
    }
    c
}

fn expand(hrp: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = hrp.iter().map(|c| c >> 5).collect();
    v.push(0);
    v.extend(hrp.iter().map(|c| c & 31));
    v
}

/// the text of a prefix and data, with the checksum xored with the constant of the variant
fn reference(hrp: &[u8], data: &[u8], variant: u32) -> Vec<u8> {
    let bit = |i: usize| if i / 8 < data.len() { data[i / 8] >> (7 - i % 8) & 1 } else { 0 };
    // five bits at a time, padded with zeros
    let groups: Vec<u8> = (0..(data.len() * 8 + 4) / 5).map(|g| (0..5).fold(0, |a, b| a << 1 | bit(g * 5 + b))).collect();
    let mut v = expand(hrp);
    v.extend(&groups);
    v.extend([0; 6]);
    let sum = polymod(&v) ^ variant;
    let mut out = hrp.to_vec();
    out.push(b'1');
    out.extend(groups.iter().map(|x| CHARS[*x as usize]));
    out.extend((0..6).map(|i| CHARS[(sum >> (5 * (5 - i)) & 31) as usize]));
    out
}

const BECH32M: u32 = 0x2bc8_30a3;

//@ prop=B01
//@ time=60
//@ covers=empty|short|long
//@ bounds=data of 0 to 5 and of 33 bytes, one of which takes any value, under two prefixes (the solver enumerates the value)
#[no_mangle]
pub extern "C" fn h_bech_data() {
    let n = [0, 1, 2, 3, 4, 5, 33][sym::choose("length", 7)];
    let mut data: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
    if n > 0 {
        let at = [0, n - 1][sym::choose("place", 2)];
        data[at] = sym::concretize(sym::u8("byte") as u64) as u8;
    }
    sym::cover(if n == 0 { "empty" } else if n < 6 { "short" } else { "long" });
    let hrp = ["mtc", "m1t1"][sym::choose("prefix", 2)];
    let text = bech32m_encode(hrp, &data).unwrap();
    sym::check(text.as_bytes() == &reference(hrp.as_bytes(), &data, BECH32M)[..], "an address is the Bech32m text of its prefix and data");
    let back = bech32m_decode(&text).unwrap();
    sym::check(back.hrp() == hrp, "the prefix is read back");
    sym::check(back.data() == &data[..], "the data is read back");
    let upper = bech32m_decode(text.to_uppercase()).unwrap();
    sym::check(upper.data() == &data[..], "an address in capitals means the same");
    let old = String::from_utf8(reference(hrp.as_bytes(), &data, 1)).unwrap();
    sym::check(bech32m_decode(&old).is_err(), "the older checksum is refused");
}

//@ prop=B01
//@ time=120
//@ covers=changed|same
//@ bounds=any ASCII character at any position of two addresses of 1 and 5 bytes
#[no_mangle]
pub extern "C" fn h_bech_typo() {
    let (hrp, data): (&str, &[u8]) = [("mtc", &[7u8][..]), ("rpmt", &[0xff, 0, 0x80, 1, 0x55][..])][sym::choose("address", 2)];
    let good = bech32m_encode(hrp, data).unwrap();
    let mut b = good.clone().into_bytes();
    let at = sym::choose("place", b.len());
    let c = sym::u8("character");
    sym::assume(c < 0x80);
    let c = c;
    let same = b[at] == c;
    b[at] = c;
    let got = bech32m_decode(std::str::from_utf8(&b).unwrap());
    sym::cover(if same { "same" } else { "changed" });
    sym::check(got.is_ok() == same, "an address with one wrong character is refused");
}

//@ prop=B01
//@ time=60
//@ covers=lower|upper|refused
//@ bounds=prefixes of any ASCII character and one of 13 (the solver enumerates them)
#[no_mangle]
pub extern "C" fn h_bech_prefix() {
    let h = [sym::concretize(sym::range("prefix", 0, 127)) as u8, b"azAZ1!~ \x7f@[`{"[sym::choose("second", 13)]];
    let low = h.iter().any(|c| c.is_ascii_lowercase());
    let up = h.iter().any(|c| c.is_ascii_uppercase());
    let ok = h.iter().all(|c| (33..127).contains(c)) && !(low && up);
    sym::cover(if !ok { "refused" } else if up { "upper" } else { "lower" });
    let hrp = std::str::from_utf8(&h).unwrap();
    let got = bech32m_encode(hrp, [3u8]);
    sym::check(got.is_ok() == ok, "a prefix is of printable characters of one case");
    if let Ok(t) = got {
        let back = bech32m_decode(&t).unwrap();
        sym::check(back.hrp() == hrp.to_ascii_lowercase() || back.hrp() == hrp, "the prefix is read back");
        sym::check(back.data() == [3], "the data is read back");
        sym::check(t.as_bytes() == &reference(&h.map(|c| c.to_ascii_lowercase()), &[3], BECH32M)[..], "an address is written in lower case");
    }
}
