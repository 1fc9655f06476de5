use crate::sealed::Gen;
use crypto::kdf::argon2::Argon2Config;
use crypto::kdf::*;
use crypto::util::eq::SliceEqualityCheckMethod as M;
use serialization::{DecodeAll, Encode};

fn config(hash: usize, salt: usize) -> KdfConfig {
    config_of(hash, salt, 0)
}

const COST: [(u32, u32, u32); 3] = [(8, 1, 1), (700, 16, 2), (64, 3, 8)];

fn config_of(hash: usize, salt: usize, k: usize) -> KdfConfig {
    let (a, b, c) = COST[k];
    KdfConfig::Argon2id {
        config: Argon2Config::new(a, b, c),
        hash_length: hash.try_into().unwrap(),
        salt_length: salt.try_into().unwrap(),
    }
}

fn parts(r: &KdfResult) -> (&Argon2Config, &[u8], &[u8]) {
    match r {
        KdfResult::Argon2id { config, salt, hashed_password } => (config, salt, hashed_password),
    }
}

//@ prop=X05
//@ time=60
//@ covers=made|salt too short
//@ bounds=passwords of 0 to 3 arbitrary bytes, hashes of 4, 32 and 70 bytes, salts of 1, 8 and 20 bytes (three sets of Argon2 parameters)
//@ assumes=Argon2 is replaced by a stand-in that lays out its inputs
#[no_mangle]
pub extern "C" fn h_password_accepted() {
    let p = sym::vec("password", sym::choose("length", 4));
    let hash = [4, 32, 70][sym::choose("hash length", 3)];
    let salt = [1, 8, 20][sym::choose("salt length", 3)];
    let k = sym::choose("cost", 3);
    let r = match hash_password(&mut Gen(1), config_of(hash, salt, k), &p) {
        Ok(r) => r,
        Err(_) => {
            sym::cover("salt too short");
            return sym::check(salt < 8, "a password can be hashed");
        }
    };
    sym::cover("made");
    let (c, s, h) = parts(&r);
    sym::check(c == &Argon2Config::new(COST[k].0, COST[k].1, COST[k].2) && s.len() == salt && h.len() == hash, "the record has the lengths that were asked for");
    for m in [M::Normal, M::TimingResistant] {
        sym::check(verify_password(&p, &r, m) == Ok(true), "the right password is accepted");
    }
    sym::check(KdfResult::decode_all(&mut &r.encode()[..]) == Ok(r.clone()), "a record is read back as written");
    let q = r.clone().into_challenge();
    sym::check(KdfChallenge::decode_all(&mut &q.encode()[..]) == Ok(q.clone()), "a challenge is read back as written");
    sym::check(hash_from_challenge(q, &p) == Ok(r), "the challenge and the password give the key again");
}

//@ prop=X05
//@ time=60
//@ covers=other password|same
//@ bounds=every two passwords of 0 to 3 arbitrary bytes each, hashes of 32 and 64 bytes
//@ assumes=Argon2 maps different inputs to different hashes (a stand-in that lays out its inputs)
#[no_mangle]
pub extern "C" fn h_password_refused() {
    let a = sym::vec("password", sym::choose("length", 4));
    let b = sym::vec("other password", sym::choose("other length", 4));
    let n = [32, 64][sym::choose("hash length", 2)];
    let r = hash_password(&mut Gen(1), config(n, 8), &a).unwrap();
    let m = if sym::flag("resistant") { M::TimingResistant } else { M::Normal };
    let same = a == b;
    sym::cover(if same { "same" } else { "other password" });
    sym::check(verify_password(&b, &r, m) == Ok(same), "a password is accepted exactly if it is the one the record was made from");
    let key = hash_from_challenge(r.clone().into_challenge(), &b).unwrap();
    sym::check((parts(&key).2 == parts(&r).2) == same, "another password gives another key");
}

//@ prop=X05
//@ time=60
//@ covers=altered|untouched|no room
//@ bounds=a record with any one byte of the hash, of the salt or any one parameter changed to any value, and a hash cut short, lengthened or empty
//@ assumes=Argon2 maps different inputs to different hashes (a stand-in that lays out its inputs)
#[no_mangle]
pub extern "C" fn h_password_record() {
    let p = sym::bytes::<2>("password");
    let r = hash_password(&mut Gen(1), config(32, 8), &p).unwrap();
    let m = if sym::flag("resistant") { M::TimingResistant } else { M::Normal };
    let (c, s, h) = parts(&r);
    let (mut c, mut s, mut h) = (c.clone(), s.to_vec(), h.to_vec());
    let d = sym::u8("change");
    let mut same = d == 0;
    match sym::choose("what", 8) {
        0 => h[sym::choose("at", 32)] ^= d,
        1 => s[sym::choose("at", 8)] ^= d,
        2 => c.t_cost_iterations += d as u32,
        3 => c.m_cost_memory_size += d as u32,
        4 => {
            let n = sym::choose("cut", 32);
            h.truncate(n);
            same = false;
        }
        5 => {
            h.push(d);
            same = false;
        }
        6 => {
            s.push(d);
            same = false;
        }
        _ => {
            s.truncate(sym::choose("cut", 8));
            same = false;
        }
    }
    let n = (h.len(), s.len());
    let other = KdfResult::Argon2id { config: c, salt: s, hashed_password: h };
    let v = verify_password(&p, &other, m);
    if n.0 == 0 {
        return sym::check(v == Err(KdfError::InvalidHashSize), "a record without a hash is refused");
    }
    if n.0 < 4 || n.1 < 8 {
        sym::cover("no room");
        return sym::check(matches!(v, Err(KdfError::Argon2HashingFailed(_))), "a record too short to be checked is refused");
    }
    sym::cover(if same { "untouched" } else { "altered" });
    sym::check(v == Ok(same), "a password is accepted exactly by the untouched record");
}

//@ prop=X05
//@ time=30
//@ bounds=two records made one after the other from the same generator, 8 starting points
#[no_mangle]
pub extern "C" fn h_password_salt() {
    let mut g = Gen(sym::choose("seed", 8) as u64 * 777);
    let p = sym::bytes::<2>("password");
    let all: Vec<_> = (0..8).map(|_| hash_password(&mut g, config(32, 16), &p).unwrap()).collect();
    for i in 0..8 {
        for j in 0..i {
            sym::check(parts(&all[i]).1 != parts(&all[j]).1, "no two records share a salt");
            sym::check(parts(&all[i]).2 != parts(&all[j]).2, "equal passwords give different hashes");
        }
    }
    for b in 0..16 {
        sym::check((1..8).any(|i| parts(&all[i]).1[b] != parts(&all[0]).1[b]), "every byte of the salt comes from the generator");
    }
}
