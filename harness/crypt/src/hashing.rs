use blake2::Digest;
use crypto::hash::*;
use sym::choose;

fn fill(n: usize, seed: u8, s: [u8; 3]) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(seed)).collect();
    if n > 0 {
        v[0] = s[0];
        v[n / 2] = s[1];
        v[n - 1] = s[2];
    }
    v
}

const LEN: [usize; 10] = [0, 1, 3, 56, 64, 65, 128, 137, 200, 257];

fn whole<H: Hasher>(m: &[u8], want: &[u8]) {
    let got = hash::<H, _>(m);
    sym::check(got.as_slice() == want, "the hash of a message is the digest of the named algorithm");
}

/// message in pieces, after an earlier use of the same hasher
fn pieces<S: StreamHasher>(m: &[u8], other: &[u8], cut: [usize; 2], before: usize, want: &[u8]) {
    let mut h = S::new();
    match before {
        0 => {}
        1 => {
            h.write(other);
            h.reset();
        }
        2 => {
            h.write(other);
            let _ = h.finalize();
        }
        _ => {
            h.reset();
            let _ = h.finalize();
        }
    }
    h.write(&m[..cut[0]]).write(&m[cut[0]..cut[1]]);
    h.write(&m[cut[1]..]);
    let got = h.finalize();
    sym::check(got.as_slice() == want, "a message hashed in pieces gives the digest of the whole");
    h.write(m);
    let again = h.finalize();
    sym::check(again.as_slice() == want, "a hasher that has given its digest starts afresh");
}

fn message(fixed: bool) -> (Vec<u8>, Vec<u8>, [usize; 2]) {
    let n = LEN[choose("length", LEN.len())];
    // sums of many rotated words are slow to compare: SHA-1 runs on fixed bytes
    let free = if fixed { [3, 141, 59] } else { sym::bytes::<3>("message") };
    let m = fill(n, 7, free);
    let o = fill([1, 130][choose("earlier message", 2)], 91, if fixed { free } else { sym::bytes::<3>("earlier") });
    let at = |k: usize| [0, 1, n / 2, 64, 128, n][k].min(n);
    let (a, b) = [(0, 0), (1, 2), (2, 5), (3, 4), (5, 5)][choose("cuts", 5)];
    let mut c = [at(a), at(b)];
    c.sort();
    (m, o, c)
}

fn run(kind: usize) {
    let (m, o, cut) = message(kind == 2);
    let before = choose("before", 4);
    match kind {
        0 | 1 => {
            let d = blake2::Blake2b512::digest(&m);
            if kind == 0 {
                whole::<Blake2b>(&m, &d);
                pieces::<Blake2bStream>(&m, &o, cut, before, &d);
            } else {
                whole::<Blake2b32>(&m, &d[..32]);
                pieces::<Blake2b32Stream>(&m, &o, cut, before, &d[..32]);
            }
        }
        2 => {
            let d = sha1::Sha1::digest(&m);
            whole::<Sha1>(&m, &d);
            pieces::<Sha1Stream>(&m, &o, cut, before, &d);
        }
        3 => {
            let d = sha2::Sha256::digest(&m);
            whole::<Sha256>(&m, &d);
            pieces::<Sha256Stream>(&m, &o, cut, before, &d);
        }
        4 => {
            let d = sha3::Sha3_512::digest(&m);
            whole::<Sha3_512>(&m, &d);
            pieces::<Sha3_512Stream>(&m, &o, cut, before, &d);
        }
        5 => {
            let d = ripemd::Ripemd160::digest(&m);
            whole::<Ripemd160>(&m, &d);
            pieces::<Ripemd160Stream>(&m, &o, cut, before, &d);
        }
        _ => {
            let d = ripemd::Ripemd160::digest(sha2::Sha256::digest(&m));
            pieces::<Sha256Ripmd160Stream>(&m, &o, cut, before, &d);
        }
    }
}


//@ prop=X02
//@ time=80
//@ bounds=Blake2b (64 bytes): messages of 10 lengths up to 257 with three arbitrary bytes, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_blake2b() {
    run(0)
}

//@ prop=X02
//@ time=80
//@ bounds=Blake2b cut to 32 bytes: messages of 10 lengths up to 257 with three arbitrary bytes, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_blake2b32() {
    run(1)
}

//@ prop=X02
//@ time=80
//@ bounds=SHA-1: fixed messages of 10 lengths up to 257, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_sha1() {
    run(2)
}

//@ prop=X02
//@ time=80
//@ bounds=SHA-256: messages of 10 lengths up to 257 with three arbitrary bytes, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_sha256() {
    run(3)
}

//@ prop=X02
//@ time=80
//@ bounds=SHA3-512: messages of 10 lengths up to 257 with three arbitrary bytes, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_sha3() {
    run(4)
}

//@ prop=X02
//@ time=80
//@ bounds=RIPEMD-160: messages of 10 lengths up to 257 with three arbitrary bytes, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_ripemd() {
    run(5)
}

//@ prop=X02
//@ time=80
//@ bounds=RIPEMD-160 of SHA-256 (in pieces only): messages of 10 lengths up to 257 with three arbitrary bytes, cut in three pieces at 5 pairs of places (block edges among them), on a new hasher and one used before for 1 or 130 bytes and reset or finished
#[no_mangle]
pub extern "C" fn h_hash_sha256ripemd() {
    run(6)
}
