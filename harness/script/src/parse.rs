use script::opcodes::{all, All};
use script::script::{Builder, Instruction};
use script::{Error, Script};

/// Reference reading of one instruction: Ok(Some((push?, data range / opcode, next position))).
enum Ref {
    End,
    Bad(Error),
    Push(usize, usize),
    Op(u8),
}

fn reference(b: &[u8], at: usize, minimal: bool) -> (Ref, usize) {
    if at >= b.len() {
        return (Ref::End, at);
    }
    let left = b.len() - at;
    let op = b[at];
    let (hdr, n, min) = match op {
        0..=75 => (1, op as usize, 0),
        0x4c if left >= 2 => (2, b[at + 1] as usize, 76),
        0x4d if left >= 3 => (3, b[at + 1] as usize | (b[at + 2] as usize) << 8, 256),
        0x4e if left >= 5 => (5, b[at + 1] as usize | (b[at + 2] as usize) << 8 | (b[at + 3] as usize) << 16 | (b[at + 4] as usize) << 24, 65536),
        0x4c..=0x4e => return (Ref::Bad(Error::EarlyEndOfScript), b.len()),
        _ => return (Ref::Op(op), at + 1),
    };
    if left < hdr + n {
        return (Ref::Bad(Error::EarlyEndOfScript), b.len());
    }
    if minimal && (n < min || (op == 1 && (b[at + 1] == 0x81 || (1..=16).contains(&b[at + 1])))) {
        return (Ref::Bad(Error::NonMinimalPush), b.len());
    }
    (Ref::Push(at + hdr, at + hdr + n), at + hdr + n)
}

fn compare(b: Vec<u8>, minimal: bool, max: usize) {
    let s = Script::from(b.clone());
    let mut it = if minimal { s.instructions_minimal() } else { s.instructions() };
    let mut at = 0;
    for _ in 0..max {
        sym::check(it.subscript() == &b[at..], "the rest of the script is what has not been read");
        let (want, next) = reference(&b, at, minimal);
        let got = it.next();
        match want {
            Ref::End => {
                sym::check(got.is_none(), "iteration ends with the script");
                break;
            }
            Ref::Bad(e) => {
                sym::cover("malformed");
                sym::check(got == Some(Err(e)), "a truncated or non-minimal push is an error");
                sym::check(it.next().is_none() && it.subscript().is_empty(), "nothing follows an error");
                break;
            }
            Ref::Push(i, j) => {
                sym::cover("push");
                sym::check(got == Some(Ok(Instruction::PushBytes(&b[i..j]))), "a push carries its data");
            }
            Ref::Op(o) => {
                sym::cover("opcode");
                sym::check(got == Some(Ok(Instruction::Op(All::from(o)))), "other bytes are opcodes");
            }
        }
        at = next;
    }
}

//@ prop=S02
//@ time=100
//@ ttime=900
//@ covers=push|opcode|malformed
//@ bounds=all scripts of up to 4 bytes, with and without minimal-push enforcement
#[no_mangle]
pub extern "C" fn h_parse_short() {
    let n = sym::choose("len", 5);
    compare(sym::vec("script", n), sym::flag("minimal"), 9);
}

//@ prop=S02
//@ tier=thorough
//@ time=900
//@ covers=push|opcode|malformed
//@ bounds=all scripts of 5 and 6 bytes, with and without minimal-push enforcement
#[no_mangle]
pub extern "C" fn h_parse_short6() {
    let n = 5 + sym::choose("len", 2);
    compare(sym::vec("script", n), sym::flag("minimal"), 9);
}

//@ prop=S02
//@ time=100
//@ covers=push|opcode|malformed
//@ bounds=scripts of 70..=80, 255..=262 or 65535..=65544 bytes starting with a symbolic push header (any of the three length-prefixed forms or a direct one); the first two instructions
#[no_mangle]
pub extern "C" fn h_parse_long() {
    let base = [70usize, 255, 65535][sym::choose("size", 3)];
    let n = base + sym::choose("extra", if base == 70 { 11 } else { 8 });
    let mut b = vec![0x61u8; n];
    b[0] = [75u8, 76, 77, 78][sym::choose("op", 4)];
    let h = sym::bytes::<4>("header");
    // lengths around the end of the script, the minimal lengths and zero
    let len = match sym::choose("length", 4) {
        0 => n - 8 + sym::choose("near end", 10),
        1 => 74 + sym::choose("76", 4),
        2 => 254 + sym::choose("256", 4),
        _ => 65534 + sym::choose("65536", 4),
    };
    let l = (len as u32).to_le_bytes();
    match b[0] {
        76 => {
            b[1] = l[0];
            b[2] = h[0];
        }
        77 => {
            b[1] = l[0];
            b[2] = l[1];
            b[3] = h[0];
        }
        78 => b[1..5].copy_from_slice(&l),
        _ => b[1] = h[0],
    }
    compare(b, sym::flag("minimal"), 2);
}

//@ prop=S02
//@ time=100
//@ bounds=data of 0..=3, 75..=77, 255..=257 and 65535..=65537 bytes, the first, second and last byte symbolic, pushed after an opcode and before another
#[no_mangle]
pub extern "C" fn h_push_slice() {
    let n = match sym::choose("size", 4) {
        0 => sym::choose("n", 4),
        1 => 75 + sym::choose("n", 3),
        2 => 255 + sym::choose("n", 3),
        _ => 65535 + sym::choose("n", 3),
    };
    let mut data = vec![7u8; n];
    if n > 0 {
        data[n - 1] = sym::u8("last");
        data[0] = sym::u8("first");
    }
    let minimal = sym::flag("minimal");
    let b = Builder::new().push_opcode(all::OP_NOP);
    let b = if minimal { b.push_slice_minimal(&data) } else { b.push_slice(&data) };
    let s = b.push_opcode(all::OP_DROP).into_script();
    let mut it = if minimal { s.instructions_minimal() } else { s.instructions() };
    sym::check(it.next() == Some(Ok(Instruction::Op(all::OP_NOP))), "the opcode before");
    match it.next() {
        Some(Ok(Instruction::PushBytes(x))) => sym::check(x == &data[..], "the pushed data reads back"),
        Some(Ok(Instruction::Op(o))) => {
            sym::cover("opcode");
            let o = o.into_u8();
            let want: Vec<u8> = match o {
                0x4f => vec![0x81],
                0x51..=0x60 => vec![o - 0x50],
                _ => vec![],
            };
            sym::check(minimal && data == want, "only small numbers are pushed by their opcode");
        }
        _ => sym::fail("a built push is well-formed and minimal"),
    }
    sym::check(it.next() == Some(Ok(Instruction::Op(all::OP_DROP))), "the opcode after");
    sym::check(it.next().is_none(), "and nothing else");
}

//@ prop=S02
//@ time=60
//@ bounds=every 64-bit number except the lowest
#[no_mangle]
pub extern "C" fn h_push_int() {
    let n = sym::i64("n");
    sym::assume(n != i64::MIN);
    let s = Builder::new().push_int(n).into_script();
    let mut it = s.instructions_minimal();
    match it.next() {
        Some(Ok(Instruction::PushBytes(x))) => {
            sym::cover("data");
            sym::check(x == &script::script::build_scriptint(n)[..], "other numbers are pushed as data");
        }
        Some(Ok(Instruction::Op(o))) => {
            sym::cover("opcode");
            let o = o.into_u8() as i64;
            sym::check((o == 0x4f && n == -1) || ((0x51..=0x60).contains(&o) && o - 0x50 == n), "-1 and 1..=16 have their own opcodes");
        }
        _ => sym::fail("a pushed number is well-formed and minimal"),
    }
    sym::check(it.next().is_none(), "and nothing else");
}

//@ prop=S02
//@ time=60
//@ covers=p2sh|p2pkh|p2pk|witness|unspendable
//@ bounds=all scripts of the lengths of the templates (22, 23, 25, 34, 35, 67 bytes) and 0..=5 bytes
#[no_mangle]
pub extern "C" fn h_templates() {
    let n = [0usize, 1, 3, 4, 5, 22, 23, 25, 34, 35, 42, 43, 67][sym::choose("len", 13)];
    let b = sym::vec("script", n);
    let s = Script::from(b.clone());
    sym::merge(true);
    let p2sh = s.is_p2sh();
    let p2pkh = s.is_p2pkh();
    let p2pk = s.is_p2pk();
    let wit = s.is_witness_program();
    let op = |i: usize, v: u8| b[i] == v;
    sym::check(p2sh == (n == 23 && op(0, 0xa9) & op(1, 20) & op(22, 0x87)), "pay to script hash");
    sym::check(p2pkh == (n == 25 && op(0, 0x76) & op(1, 0xa9) & op(2, 20) & op(23, 0x88) & op(24, 0xac)), "pay to public key hash");
    sym::check(p2pk == ((n == 67 && op(0, 65) & op(66, 0xac)) || (n == 35 && op(0, 33) & op(34, 0xac))), "pay to public key");
    sym::check(wit == (n >= 4 && n <= 42 && (op(0, 0) | ((b[0] >= 0x51) & (b[0] <= 0x60))) & (b[1] as usize == n - 2)), "witness program");
    sym::check(s.is_v0_p2wsh() == (n == 34 && op(0, 0) & op(1, 32)), "version 0 script hash");
    sym::check(s.is_v0_p2wpkh() == (n == 22 && op(0, 0) & op(1, 20)), "version 0 key hash");
    sym::check(s.is_op_return() == (n > 0 && op(0, 0x6a)), "OP_RETURN");
    sym::cover_if(p2sh, "p2sh");
    sym::cover_if(p2pkh, "p2pkh");
    sym::cover_if(p2pk, "p2pk");
    sym::cover_if(wit, "witness");
    let h20 = sym::bytes::<20>("hash");
    sym::check(Script::new_p2sh(&h20).is_p2sh(), "a built script hash output is one");
    sym::check(Script::new_p2pkh(&h20).is_p2pkh(), "a built key hash output is one");
    sym::check(Script::new_p2pk(&[3; 33]).is_p2pk() && Script::new_p2pk(&[4; 65]).is_p2pk(), "a built key output is one");
    sym::check(Script::new_op_return(&h20).is_op_return() && Script::new_op_return(&h20).is_provably_unspendable(), "a built data output is unspendable");
    sym::merge(false);
    if n == 1 && s.is_provably_unspendable() {
        sym::cover("unspendable");
        let c = crate::machine::Ctx { rules: 0 };
        sym::check(script::run_script(&c, &s, Default::default()).is_err(), "an unspendable script never succeeds");
    }
}

//@ prop=S02
//@ time=60
//@ bounds=every last opcode before a verify, with data pushed in between or not
#[no_mangle]
pub extern "C" fn h_push_verify() {
    let o = sym::u8("op");
    let fused = |o: u8| match o {
        0x87 => Some(0x88),
        0x9c => Some(0x9d),
        0xac => Some(0xad),
        0xae => Some(0xaf),
        _ => None,
    };
    let b = Builder::new().push_opcode(All::from(o));
    let data = sym::flag("data");
    let b = if data { b.push_slice(&[0x87]) } else { b };
    let s = b.push_verify().into_script();
    if data {
        sym::check(s.as_bytes() == &[o, 1, 0x87, 0x69], "data is not taken for an opcode");
    } else {
        match fused(o) {
            Some(v) => {
                sym::cover("fused");
                sym::check(s.as_bytes() == &[v], "the verifying form replaces the opcode");
            }
            None => sym::check(s.as_bytes() == &[o, 0x69], "otherwise a verify follows"),
        }
    }
    // continuing a script from its bytes
    sym::assume(o > 0x4e);
    let s = Builder::from(vec![2, 0xac, 0x87, o]).push_verify().into_script();
    match fused(o) {
        Some(v) => sym::check(s.as_bytes() == &[2, 0xac, 0x87, v], "continued scripts know their last opcode"),
        None => sym::check(s.as_bytes() == &[2, 0xac, 0x87, o, 0x69], "continued scripts get a verify"),
    }
    let s = Builder::from(vec![0x61, 1, 0xac]).push_verify().into_script();
    sym::check(s.as_bytes() == &[0x61, 1, 0xac, 0x69], "pushed data is not an opcode");
}
