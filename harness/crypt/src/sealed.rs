use crypto::symkey::{key_size, Error, SymmetricKey, SymmetricKeyKind::XChacha20Poly1305 as K};
use std::convert::Infallible;

/// a generator whose successive outputs all differ
#[derive(Clone)]
pub struct Gen(pub u64);

impl randomness::TryRng for Gen {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        self.try_next_u64().map(|x| x as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        self.0 += 1;
        let mut z = self.0.wrapping_mul(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Infallible> {
        for b in d.iter_mut() {
            *b = self.try_next_u64()? as u8;
        }
        Ok(())
    }
}
impl randomness::TryCryptoRng for Gen {}

fn key(seed: u8) -> SymmetricKey {
    let k: Vec<u8> = (0..32u8).map(|i| i.wrapping_mul(7) ^ seed).collect();
    SymmetricKey::from_raw_key(K, &k).unwrap()
}

fn data(k: usize, v: &[u8]) -> Option<&[u8]> {
    match k {
        0 => None,
        k => Some(&v[..k - 1]),
    }
}

//@ prop=X03
//@ time=60
//@ covers=opened
//@ bounds=messages of up to 4, 63 to 65 and 130 bytes (up to 4 of them arbitrary), associated data absent or up to 3 arbitrary bytes
#[no_mangle]
pub extern "C" fn h_seal_open() {
    let n = [0, 1, 2, 3, 4, 63, 64, 65, 130][sym::choose("length", 9)];
    let free = sym::bytes::<4>("message");
    let mut m: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x5a).collect();
    for i in 0..n.min(4) {
        m[if i < 2 { i } else { n - 1 - (i - 2) }] = free[i];
    }
    let ad = sym::bytes::<3>("data");
    let k = sym::choose("data length", 5);
    let key = key(3);
    let mut g = Gen(5);
    let sealed = match key.encrypt(&m, &mut g, data(k, &ad)) {
        Ok(s) => s,
        Err(_) => return sym::fail("a message can be encrypted"),
    };
    sym::check(sealed.len() == n + 40, "the sealed text is the nonce, the message and the tag");
    let opened = key.decrypt(&sealed, data(k, &ad));
    sym::check(opened.as_deref() == Ok(&m[..]), "what was encrypted is what is decrypted");
    sym::cover("opened");
}

//@ prop=X03
//@ time=60
//@ covers=altered|other data|other key
//@ bounds=every single bit flipped in a sealed text of 0, 1, 20 or 70 message bytes; other or absent associated data; 8 other keys (enumerated)
#[no_mangle]
pub extern "C" fn h_seal_tamper() {
    let n = [0, 1, 20, 70][sym::choose("length", 4)];
    let m: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x5a).collect();
    let ad = [1u8, 2, 3];
    let k = sym::choose("data length", 3);
    let mut g = Gen(5);
    let sealed = key(3).encrypt(&m, &mut g, data(k, &ad)).unwrap();
    match sym::choose("what", 3) {
        0 => {
            let at = sym::concretize(sym::range("position", 0, (n + 39) as u64)) as usize;
            let d = 1u8 << sym::choose("bit", 8);
            let mut s = sealed.clone();
            s[at] ^= d;
            sym::cover("altered");
            sym::check(matches!(key(3).decrypt(&s, data(k, &ad)), Err(Error::DecryptionError(_))), "an altered text is not decrypted");
        }
        1 => {
            let j = sym::choose("other data", 4);
            sym::assume(data(j, &ad).unwrap_or(b"") != data(k, &ad).unwrap_or(b""));
            sym::cover("other data");
            sym::check(matches!(key(3).decrypt(&sealed, data(j, &ad)), Err(Error::DecryptionError(_))), "with other associated data nothing is decrypted");
        }
        _ => {
            let seed = 4 + sym::choose("key", 8) as u8;
            sym::cover("other key");
            sym::check(matches!(key(seed).decrypt(&sealed, data(k, &ad)), Err(Error::DecryptionError(_))), "with another key nothing is decrypted");
        }
    }
}

//@ prop=X03
//@ time=60
//@ covers=no nonce|no tag
//@ bounds=every text of 0 to 40 bytes, raw keys of 0 to 70 bytes
#[no_mangle]
pub extern "C" fn h_seal_short() {
    let n = sym::concretize(sym::range("length", 0, 40)) as usize;
    let s = sym::vec("text", n);
    let r = key(3).decrypt(&s, None);
    if n < 24 {
        sym::cover("no nonce");
        sym::check(r == Err(Error::CipherTextTooShort(n, 24)), "a text without room for a nonce is refused as too short");
    } else if n < 40 {
        sym::cover("no tag");
        sym::check(matches!(r, Err(Error::DecryptionError(_))), "a text without room for a tag is refused");
    }
    let l = sym::concretize(sym::range("key length", 0, 70)) as usize;
    let kb = vec![7u8; l];
    let r = SymmetricKey::from_raw_key(K, &kb);
    if l == key_size(K) {
        sym::check(r.is_ok(), "a raw key of the right length is taken");
    } else {
        sym::check(r.err() == Some(Error::WrongLenKeyBytes(l, key_size(K))), "a raw key of another length is refused");
    }
}

//@ prop=X03
//@ time=60
//@ bounds=eight texts sealed one after the other, from 8 states of a generator whose outputs differ
#[no_mangle]
pub extern "C" fn h_seal_nonce() {
    let mut g = Gen(sym::choose("seed", 8) as u64 * 1000);
    let n = sym::choose("length", 3) * 20;
    let m = vec![9u8; n];
    let k = key(3);
    let out: Vec<Vec<u8>> = (0..8).map(|_| k.encrypt(&m, &mut g, None).unwrap()).collect();
    for i in 0..8 {
        for j in 0..i {
            sym::check(out[i][..24] != out[j][..24], "no two texts share a nonce");
            sym::check(n == 0 || out[i][24..24 + n] != out[j][24..24 + n], "equal messages are sealed differently");
        }
    }
    for b in 0..24 {
        sym::check((1..8).any(|i| out[i][b] != out[0][b]), "every byte of the nonce comes from the generator");
    }
}
