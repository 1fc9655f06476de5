use crate::sealed::Gen;
use crypto::vrf::transcript::{no_rng::VRFTranscript, traits::SignableTranscript, with_rng::VRFTranscriptWithRng};
use crypto::key::hdkd::{child_number::ChildNumber, derivable::{Derivable, DerivationError}, derivation_path::DerivationPath, u31::U31};
use crypto::vrf::{SchnorrkelPublicKey, VRFError, VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn, ExtendedVRFPrivateKey};
use serialization::{DecodeAll, Encode};
use generic_array::typenum::U32;
use schnorrkel::context::SigningTranscript;

fn steps<T: SignableTranscript>(mut t: T, kinds: &[usize], v: &[u64], raw: &[u8]) -> T {
    for (i, k) in kinds.iter().enumerate() {
        t = match k {
            0 => t,
            1 => t.attach_u64(b"number", v[i]),
            2 => t.attach_raw_data(b"bytes", raw),
            _ => t.attach_u64(b"other", v[i]),
        };
    }
    t
}

fn challenge<T: SigningTranscript>(mut t: T) -> [u8; 32] {
    let mut o = [0; 32];
    t.challenge_bytes(b"challenge", &mut o);
    o
}

//@ prop=X04
//@ time=60
//@ bounds=every sequence of up to two attachments: 64-bit numbers under two labels, byte strings of up to 3 bytes; compared by the challenge they give
#[no_mangle]
pub extern "C" fn h_transcript_same() {
    let kinds = [sym::choose("first", 4), sym::choose("second", 4)];
    let v = [sym::u64("number"), sym::u64("other number")];
    let raw = sym::vec("bytes", sym::choose("length", 4));
    // the reference: the same messages put into a merlin transcript
    let mut m = merlin::Transcript::new(b"label");
    for i in 0..2 {
        match kinds[i] {
            0 => {}
            1 => m.append_message(b"number", &v[i].to_le_bytes()),
            2 => m.append_message(b"bytes", &raw),
            _ => m.append_message(b"other", &v[i].to_le_bytes()),
        }
    }
    let mut want = [0; 32];
    m.challenge_bytes(b"challenge", &mut want);
    let a = steps(VRFTranscript::new(b"label"), &kinds, &v, &raw);
    let b = steps(VRFTranscriptWithRng::new(b"label", Gen(1)), &kinds, &v, &raw);
    let c = steps(VRFTranscript::new(b"label"), &kinds[..1], &v, &raw).with_rng(Gen(2));
    let c = steps(c, &kinds[1..], &v[1..], &raw);
    sym::check(challenge(a.clone()) == want, "a transcript binds exactly what was attached");
    sym::check(challenge(b) == want, "a transcript with a generator binds the same");
    sym::check(challenge(c) == want, "a generator added on the way changes nothing");
}

fn text(k: usize) -> VRFTranscript {
    let t = VRFTranscript::new(if k & 1 == 0 { b"one" } else { b"two" });
    let t = t.attach_u64(b"number", 5 + (k >> 1 & 1) as u64);
    t.attach_raw_data(b"bytes", if k & 4 == 0 { [1u8, 2] } else { [1, 3] })
}

fn pair(seed: u8) -> (VRFPrivateKey, VRFPublicKey) {
    VRFPrivateKey::new_using_random_bytes(&[seed; 32], VRFKeyKind::Schnorrkel).unwrap()
}

fn produce(key: u8, t: usize, rng: u64) -> VRFReturn {
    pair(key).0.produce_vrf_data(text(t).with_rng(Gen(rng)))
}

fn accept(key: u8, t: usize) {
    let r = produce(key, t, 7);
    let other = [key, key ^ 3][sym::choose("verifying key", 2)];
    let t2 = t ^ [0, 1, 2, 4][sym::choose("verified transcript", 4)];
    let ok = pair(other).1.verify_vrf_data(text(t2), &r);
    if other == key && t2 == t {
        sym::cover("accepted");
        sym::check(ok.is_ok(), "an output verifies for the key and transcript it was made from");
        let VRFReturn::Schnorrkel(a) = &r;
        let r2 = produce(key, t, 99);
        let VRFReturn::Schnorrkel(b) = &r2;
        sym::check(a.vrf_preout() == b.vrf_preout(), "the output does not depend on the generator");
        let vk: SchnorrkelPublicKey = pair(key).1.try_into().unwrap();
        let raw = schnorrkel::PublicKey::from_bytes(&vk.as_bytes()).unwrap();
        let o = |x: &VRFReturn, k: usize| match x { VRFReturn::Schnorrkel(x) => x.calculate_vrf_output::<U32, _>(raw, text(k)).ok() };
        sym::check(o(&r, t).is_some() && o(&r, t) == o(&r2, t), "the final value does not depend on the generator");
        sym::check(o(&r, t) != o(&r, t ^ 2), "the final value depends on the transcript");
    } else {
        sym::cover("refused");
        sym::check(ok == Err(VRFError::VerificationError), "an output verifies for no other key or transcript");
    }
}

//@ prop=X04
//@ time=60
//@ covers=accepted|refused
//@ bounds=outputs for two keys and two transcripts, verified against either key and transcripts that differ in one part (enumerated: the curve arithmetic runs on fixed values)
#[no_mangle]
pub extern "C" fn h_vrf_accept() {
    let t = [0, 7][sym::choose("transcript", 2)];
    accept([1, 2][sym::choose("key", 2)], t)
}

//@ prop=X04
//@ time=60
//@ covers=altered|same
//@ bounds=one bit changed in one of 12 places of an encoded output, or none (enumerated)
#[no_mangle]
pub extern "C" fn h_vrf_altered() {
    let r = produce(1, 3, 7);
    let mut b = r.encode();
    let at = [0, 1, 8, 16, 31, 32, 33, 40, 63, 64, 80, 95, 96][sym::choose("place", 13)];
    let bit = if at == 0 { 0 } else { 1u8 << [0, 4][sym::choose("bit", 2)] };
    b[at] ^= bit;
    let back = VRFReturn::decode_all(&mut &b[..]);
    if bit == 0 {
        sym::cover("same");
        sym::check(back == Ok(r), "an output is read back as written");
        let k = pair(1);
        sym::check(VRFPrivateKey::decode_all(&mut &k.0.encode()[..]) == Ok(k.0.clone()), "a private key is read back as written");
        sym::check(VRFPublicKey::decode_all(&mut &k.1.encode()[..]) == Ok(k.1.clone()), "a public key is read back as written");
        sym::check(k.0.to_public_key() == k.1, "the private key knows its public key");
    } else {
        sym::cover("altered");
        sym::check(back.map_or(true, |x| pair(1).1.verify_vrf_data(text(3), &x).is_err()), "an altered output is not accepted");
    }
}

fn num(k: usize, hard: bool) -> ChildNumber {
    let u = U31::from_u32([0, 1, 256, 0x7fffffff][k]).unwrap();
    if hard { ChildNumber::from_hardened(u) } else { ChildNumber::from_normal(u) }
}

//@ prop=X04
//@ time=60
//@ covers=hardened|normal|below|elsewhere
//@ bounds=child keys one to three steps below a master key, four child numbers, plain or hardened (enumerated)
#[no_mangle]
pub extern "C" fn h_vrf_children() {
    let seed = [3u8; 40];
    let master = ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).unwrap();
    let again = ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).unwrap();
    sym::check(master == again, "a seed always gives the same master key");
    if sym::flag("paths") {
        let a = sym::choose("own", 3);
        let b = sym::choose("wanted", 4);
        let t = ["m", "m/1'", "m/1'/256", "m/1'/1"];
        let path = |k: usize| t[k].parse::<DerivationPath>().unwrap();
        let mine = if a == 0 { master } else { master.derive_absolute_path(&path(a)).unwrap() };
        sym::check(mine.get_derivation_path() == &path(a), "a key knows its path");
        let r = mine.derive_absolute_path(&path(b));
        if b > a && !(a == 2 && b == 3) {
            sym::cover("below");
            let public = |x: Result<ExtendedVRFPrivateKey, DerivationError>| x.map(|k| k.to_public_key());
            let r = public(r);
            sym::check(r == public(again.derive_absolute_path(&path(b))), "a key below another is the same however it is reached");
            let by_hand = [num(1, true), if b == 2 { num(2, false) } else { num(1, false) }];
            let mut w = ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).unwrap();
            for n in &by_hand[..b.min(2)] {
                w = w.derive_child(*n).unwrap();
            }
            sym::check(r.ok() == Some(w.to_public_key()), "an absolute path is followed step by step");
        } else {
            sym::cover("elsewhere");
            sym::check(r == Err(DerivationError::CannotDerivePath(path(b))), "a key above or beside cannot be derived");
        }
        return;
    }
    let (k, hard) = (sym::choose("number", 4), sym::flag("hard"));
    let n = num(k, hard);
    let public = master.to_public_key().derive_child(n);
    let private = master.derive_child(n).unwrap();
    let other = again.derive_child(num(k, !hard)).unwrap();
    sym::check(private.to_public_key().into_public_key() != other.to_public_key().into_public_key(), "hardened and plain children differ");
    if hard {
        sym::cover("hardened");
        sym::check(public == Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(n)), "a hardened child needs the private key");
    } else {
        sym::cover("normal");
        sym::check(public == Ok(private.to_public_key()), "public and private derivation meet");
        sym::check(private.get_derivation_path().as_slice() == &[n][..], "the child's path has the child's number");
    }
}
