use script::context::ParseResult;
use script::script::{build_scriptint, read_scriptbool};
use script::{run_pushdata, run_script, verify_witness_lock, Context, Script, Stack};
use std::borrow::Cow;

/// Small limits, so that they can be reached. rules: bit 0 minimal push, bit 1 minimal if.
pub struct Ctx {
    pub rules: u8,
}

impl Context for Ctx {
    const MAX_SCRIPT_ELEMENT_SIZE: usize = 6;
    const MAX_STACK_ELEMENTS: usize = 7;
    const MAX_PUBKEYS_PER_MULTISIG: usize = 3;
    const MAX_SCRIPT_SIZE: usize = 12;
    type Public = u8;
    type SignatureData = (u8, u8);

    /// keys of one byte: 0xff is malformed, 0xfe reserved
    fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<u8> {
        match pk {
            [0xfe] => ParseResult::Reserved,
            [x] if *x != 0xff => ParseResult::Ok(*x),
            _ => ParseResult::Err,
        }
    }
    /// signatures: the key, then the length of the script they are for and the separator's position
    fn parse_signature(&self, pk: u8, sig: &[u8]) -> Option<(u8, u8)> {
        match sig {
            [k, l] if *k == pk => Some((*k, *l)),
            _ => None,
        }
    }
    fn verify_signature(&self, s: &(u8, u8), subscript: &[u8], sep: u32) -> bool {
        s.1 as usize == subscript.len() * 16 + (sep as u8 & 15) as usize
    }
    fn check_lock_time(&self, t: i64) -> bool {
        t <= 1000
    }
    fn check_sequence(&self, t: i64) -> bool {
        t <= 2000
    }
    fn enforce_minimal_push(&self) -> bool {
        self.rules & 1 != 0
    }
    fn enforce_minimal_if(&self) -> bool {
        self.rules & 2 != 0
    }
}

type St = Vec<Vec<u8>>;

fn int(v: &[u8]) -> Option<i64> {
    script::script::read_scriptint(v).ok()
}

fn top(s: &St, i: usize) -> Option<Vec<u8>> {
    s.len().checked_sub(i + 1).map(|k| s[k].clone())
}

fn boolean(b: bool) -> Vec<u8> {
    if b {
        vec![1]
    } else {
        vec![]
    }
}

fn num1(s: &mut St, f: impl FnOnce(i64) -> i64) -> Option<()> {
    let x = int(&s.pop()?)?;
    s.push(build_scriptint(f(x)));
    Some(())
}

fn num2(s: &mut St, f: impl FnOnce(i64, i64) -> i64) -> Option<()> {
    let y = int(&s.pop()?)?;
    let x = int(&s.pop()?)?;
    s.push(build_scriptint(f(x, y)));
    Some(())
}

fn hash<T: crypto::hash::StreamHasher>(v: &[u8]) -> Vec<u8> {
    let mut h = T::new();
    h.write(v);
    h.finalize().to_vec()
}

fn take(s: &mut St, i: usize) -> Option<Vec<u8>> {
    let k = s.len().checked_sub(i + 1)?;
    Some(s.remove(k))
}

fn verify(s: &mut St) -> Option<()> {
    if read_scriptbool(&s.pop()?) {
        Some(())
    } else {
        None
    }
}

/// Does every signature have a key of its own, in the same order? None: a malformed key was met.
fn matched(sigs: &[Vec<u8>], keys: &[Vec<u8>], tag: u8) -> Option<bool> {
    let mut k = 0;
    for (i, s) in sigs.iter().enumerate() {
        loop {
            if keys.len() - k < sigs.len() - i {
                return Some(false);
            }
            let key = &keys[k];
            k += 1;
            if key.len() != 1 || key[0] == 0xff {
                return None;
            }
            if key[0] == 0xfe || (s.len() == 2 && s[0] == key[0] && s[1] == tag) {
                break;
            }
        }
    }
    Some(true)
}

/// The reference machine: one opcode, executed. Follows the documentation of Bitcoin script.
fn step(op: u8, s: &mut St, alt: &mut St, tag: u8) -> Option<()> {
    match op {
        0x4f => s.push(vec![0x81]),
        0x51..=0x60 => s.push(vec![op - 0x50]),
        0x61 | 0xb0 | 0xb3..=0xb9 => {}
        0x69 => verify(s)?,
        0x6b => alt.push(s.pop()?),
        0x6c => s.push(alt.pop()?),
        0x6d => {
            s.pop()?;
            s.pop()?;
        }
        0x6e => {
            let (a, b) = (top(s, 1)?, top(s, 0)?);
            s.extend([a, b]);
        }
        0x6f => {
            let (a, b, c) = (top(s, 2)?, top(s, 1)?, top(s, 0)?);
            s.extend([a, b, c]);
        }
        0x70 => {
            let (a, b) = (top(s, 3)?, top(s, 2)?);
            s.extend([a, b]);
        }
        0x71 => {
            top(s, 5)?;
            let (a, b) = (take(s, 5)?, take(s, 4)?);
            s.extend([a, b]);
        }
        0x72 => {
            top(s, 3)?;
            let (a, b) = (take(s, 3)?, take(s, 2)?);
            s.extend([a, b]);
        }
        0x73 => {
            let x = top(s, 0)?;
            if read_scriptbool(&x) {
                s.push(x);
            }
        }
        0x74 => s.push(build_scriptint(s.len() as i64)),
        0x75 => {
            s.pop()?;
        }
        0x76 => s.push(top(s, 0)?),
        0x77 => {
            top(s, 1)?;
            take(s, 1)?;
        }
        0x78 => s.push(top(s, 1)?),
        0x79 | 0x7a => {
            let i = int(&s.pop()?)?;
            if i < 0 || i >= s.len() as i64 {
                return None;
            }
            let x = if op == 0x79 { top(s, i as usize)? } else { take(s, i as usize)? };
            s.push(x);
        }
        0x7b => {
            let x = take(s, 2)?;
            s.push(x);
        }
        0x7c => {
            let x = take(s, 1)?;
            s.push(x);
        }
        0x7d => {
            top(s, 1)?;
            let x = top(s, 0)?;
            s.insert(s.len() - 2, x);
        }
        0x82 => {
            let n = top(s, 0)?.len();
            s.push(build_scriptint(n as i64));
        }
        0x87 | 0x88 => {
            let (a, b) = (s.pop()?, s.pop()?);
            s.push(boolean(a == b));
            if op == 0x88 {
                verify(s)?;
            }
        }
        0x8b => num1(s, |x| x + 1)?,
        0x8c => num1(s, |x| x - 1)?,
        0x8f => num1(s, |x| -x)?,
        0x90 => num1(s, |x| if x < 0 { -x } else { x })?,
        0x91 => num1(s, |x| (x == 0) as i64)?,
        0x92 => num1(s, |x| (x != 0) as i64)?,
        0x93 => num2(s, |x, y| x + y)?,
        0x94 => num2(s, |x, y| x - y)?,
        0x9a => num2(s, |x, y| (x != 0 && y != 0) as i64)?,
        0x9b => num2(s, |x, y| (x != 0 || y != 0) as i64)?,
        0x9c => num2(s, |x, y| (x == y) as i64)?,
        0x9d => {
            num2(s, |x, y| (x == y) as i64)?;
            verify(s)?;
        }
        0x9e => num2(s, |x, y| (x != y) as i64)?,
        0x9f => num2(s, |x, y| (x < y) as i64)?,
        0xa0 => num2(s, |x, y| (x > y) as i64)?,
        0xa1 => num2(s, |x, y| (x <= y) as i64)?,
        0xa2 => num2(s, |x, y| (x >= y) as i64)?,
        0xa3 => num2(s, |x, y| if x < y { x } else { y })?,
        0xa4 => num2(s, |x, y| if x > y { x } else { y })?,
        0xa5 => {
            let (h, l, x) = (int(&s.pop()?)?, int(&s.pop()?)?, int(&s.pop()?)?);
            s.push(boolean(l <= x && x < h));
        }
        0xa6 => {
            let x = hash::<crypto::hash::Ripemd160Stream>(&s.pop()?);
            s.push(x);
        }
        0xa7 => {
            let x = hash::<crypto::hash::Sha1Stream>(&s.pop()?);
            s.push(x);
        }
        0xa8 => {
            let x = hash::<crypto::hash::Sha256Stream>(&s.pop()?);
            s.push(x);
        }
        0xa9 => {
            let x = hash::<crypto::hash::Ripemd160Stream>(&hash::<crypto::hash::Sha256Stream>(&s.pop()?));
            s.push(x);
        }
        0xaa => {
            let x = hash::<crypto::hash::Sha256Stream>(&hash::<crypto::hash::Sha256Stream>(&s.pop()?));
            s.push(x);
        }
        0xac | 0xad => {
            let (k, g) = (s.pop()?, s.pop()?);
            let ok = matched(&[g], &[k], tag)?;
            s.push(boolean(ok));
            if op == 0xad {
                verify(s)?;
            }
        }
        0xae | 0xaf => {
            let n = int(&s.pop()?)?;
            if !(0..=3).contains(&n) || s.len() < n as usize {
                return None;
            }
            let keys = s.split_off(s.len() - n as usize);
            let m = int(&s.pop()?)?;
            if m < 0 || m > n || s.len() < m as usize {
                return None;
            }
            let sigs = s.split_off(s.len() - m as usize);
            let ok = matched(&sigs, &keys, tag)?;
            if !s.pop()?.is_empty() {
                return None;
            }
            s.push(boolean(ok));
            if op == 0xaf {
                verify(s)?;
            }
        }
        0xb1 | 0xb2 => {
            let x = script::script::read_scriptint_size(&top(s, 0)?, 5).ok()?;
            if x > if op == 0xb1 { 1000 } else { 2000 } {
                return None;
            }
        }
        _ => return None,
    }
    Some(())
}

fn stack_of(s: &St) -> Stack<'static> {
    s.iter().map(|v| Cow::Owned(v.clone())).collect::<Vec<Cow<'static, [u8]>>>().into()
}

fn same(got: &Stack, want: &St) {
    let n = want.len();
    sym::check(got.top(n).is_err() && (n == 0 || got.top(n - 1).is_ok()), "the stack has the reference's height");
    for i in 0..n {
        if let Ok(x) = got.top(i) {
            sym::check(&x[..] == &want[n - 1 - i][..], "each stack item is the reference's");
        }
    }
}

fn is_hash(op: u8) -> bool {
    (0xa6..=0xaa).contains(&op)
}

fn one_op(op: u8, s: St, rules: u8) {
    let sc = Script::from(vec![op]);
    let c = Ctx { rules };
    let got = run_script(&c, &sc, stack_of(&s));
    let mut want = s;
    let r = step(op, &mut want, &mut vec![], 16 + 15).filter(|_| want.len() <= 7);
    match r {
        Some(()) => {
            sym::cover("done");
            match got {
                Ok(g) => same(&g, &want),
                Err(_) => sym::fail("the opcode succeeds where the reference does"),
            }
        }
        None => {
            sym::cover("failed");
            sym::check(got.is_err(), "the opcode fails where the reference does");
        }
    }
}

//@ prop=S03
//@ time=150
//@ ttime=900
//@ covers=done|failed
//@ bounds=every single non-push, non-flow opcode but the hashes and signatures, on stacks of 0..=7 items; the three topmost items of one symbolic byte each or (topmost) empty
#[no_mangle]
pub extern "C" fn h_op_small() {
    let n = sym::choose("items", 8);
    let mut s: St = vec![];
    for i in 0..n {
        s.push(if i + 3 >= n { vec![sym::u8("item")] } else { vec![0x10 + i as u8, i as u8] });
    }
    if n > 0 && sym::flag("empty") {
        s[n - 1].clear();
    }
    let op = sym::u8("op");
    sym::assume(op > 0x4e && !(0x63..=0x68).contains(&op) && !(0xab..=0xaf).contains(&op) && !is_hash(op));
    let op = sym::concretize(op as u64) as u8;
    one_op(op, s, 3);
}

//@ prop=S03
//@ time=150
//@ ttime=900
//@ covers=done|failed
//@ bounds=the opcodes that read numbers, on one to three operands of 0..=5 symbolic bytes each (the topmost operands 4 or 5 bytes wide only for unary and binary ones)
#[no_mangle]
pub extern "C" fn h_op_numbers() {
    let op = sym::range("op", 0x8b, 0xb2) as u8;
    sym::assume(!is_hash(op) && !(0xab..=0xaf).contains(&op) && op != 0x8d && op != 0x8e && !(0x95..=0x99).contains(&op));
    let op = sym::concretize(op as u64) as u8;
    let s: St = match op {
        0xa5 => {
            let l = [1usize, 2, 4][sym::choose("len", 3)];
            (0..3).map(|_| sym::vec("operand", l)).collect()
        }
        0x93..=0xa4 => {
            let (l, m) = ([0usize, 1, 4, 5][sym::choose("len", 4)], [0usize, 2, 4, 5][sym::choose("len", 4)]);
            vec![sym::vec("operand", l), sym::vec("operand", m)]
        }
        _ => {
            let l = sym::choose("len", 7);
            vec![sym::vec("operand", l)]
        }
    };
    one_op(op, s, 3);
}

//@ prop=S03
//@ time=100
//@ bounds=each hash opcode on 0..=2 symbolic bytes
#[no_mangle]
pub extern "C" fn h_op_hash() {
    let op = 0xa6 + sym::choose("op", 5) as u8;
    let l = sym::choose("len", 3);
    let s = vec![sym::vec("data", l)];
    one_op(op, if l == 2 { vec![] } else { s }, 3);
}

//@ prop=S03
//@ time=150
//@ ttime=900
//@ covers=done|failed
//@ bounds=CHECKSIG and CHECKMULTISIG (and verifying forms) with 0..=4 one-byte keys, 0..=key count signatures of two symbolic bytes, any dummy
#[no_mangle]
pub extern "C" fn h_op_multisig() {
    let op = 0xac + sym::choose("op", 4) as u8;
    let mut s: St = vec![vec![9]];
    if op < 0xae {
        s.push(sym::vec("sig", 2));
        s.push(sym::vec("key", 1));
    } else {
        let n = sym::choose("keys", 5);
        let m = sym::choose("sigs", 4);
        sym::assume(m <= n + 1);
        s.push(match sym::choose("dummy", 3) {
            0 => vec![],
            _ => sym::vec("dummy", 1),
        });
        for _ in 0..m {
            s.push(sym::vec("sig", 2));
        }
        s.push(build_scriptint(m as i64));
        for _ in 0..n {
            s.push(sym::vec("key", 1));
        }
        s.push(build_scriptint(n as i64));
    }
    one_op(op, s, 3);
}

/// The reference for whole scripts: flow control around step().
fn reference(b: &[u8], mut s: St, rules: u8) -> Option<St> {
    if b.len() > 12 {
        return None;
    }
    let mut alt: St = vec![];
    let mut flow: Vec<bool> = vec![];
    let (mut at, mut n) = (0, 0u8);
    let (mut sub, mut sep) = (b.len(), 15u8);
    while at < b.len() {
        let op = b[at];
        at += 1;
        let on = flow.iter().all(|x| *x);
        if op <= 75 {
            let l = op as usize;
            if at + l > b.len() {
                return None;
            }
            let d = &b[at..at + l];
            at += l;
            if rules & 1 != 0 && l == 1 && (d[0] == 0x81 || (1..=16).contains(&d[0])) {
                return None;
            }
            if l > 6 {
                return None;
            }
            if on {
                s.push(d.to_vec());
            }
        } else {
            match op {
                0x63 | 0x64 => {
                    let mut c = false;
                    if on {
                        let x = s.pop()?;
                        if rules & 2 != 0 && !x.is_empty() && x != [1] {
                            return None;
                        }
                        c = read_scriptbool(&x) != (op == 0x64);
                    }
                    flow.push(c);
                }
                0x67 => {
                    let l = flow.len().checked_sub(1)?;
                    flow[l] = !flow[l];
                }
                0x68 => {
                    flow.pop()?;
                }
                0xab => {
                    sub = b.len() - at;
                    sep = n;
                }
                // disabled opcodes fail even where they are not executed
                0x65 | 0x66 | 0x7e..=0x81 | 0x83..=0x86 | 0x8d | 0x8e | 0x95..=0x99 => return None,
                _ if on => step(op, &mut s, &mut alt, (sub * 16) as u8 | (sep & 15))?,
                _ => {}
            }
        }
        if s.len() + alt.len() > 7 {
            return None;
        }
        n += 1;
    }
    if flow.is_empty() {
        Some(s)
    } else {
        None
    }
}

fn whole(b: Vec<u8>, s: St, rules: u8) {
    let c = Ctx { rules };
    let sc = Script::from(b.clone());
    let got = run_script(&c, &sc, stack_of(&s));
    match reference(&b, s, rules) {
        Some(w) => {
            sym::cover("done");
            match got {
                Ok(g) => same(&g, &w),
                Err(_) => sym::fail("the script succeeds where the reference does"),
            }
        }
        None => {
            sym::cover("failed");
            sym::check(got.is_err(), "the script fails where the reference does");
        }
    }
}

//@ prop=S04
//@ time=200
//@ ttime=1500
//@ covers=done|failed
//@ bounds=scripts of 5 opcodes of IF, NOTIF, ELSE, ENDIF, 1, DEPTH, RETURN, CAT (disabled) on a stack of two items of one symbolic byte
#[no_mangle]
pub extern "C" fn h_flow() {
    const OPS: [u8; 8] = [0x63, 0x64, 0x67, 0x68, 0x51, 0x74, 0x6a, 0x7e];
    let rules = if sym::flag("minimal if") { 3 } else { 1 };
    let b: Vec<u8> = (0..5).map(|_| OPS[sym::choose("op", OPS.len())]).collect();
    whole(b, vec![vec![sym::u8("x")], vec![sym::u8("y")]], rules);
}

//@ prop=S04
//@ time=150
//@ covers=done|failed
//@ bounds=three or four nested conditionals on symbolic items followed by 5 opcodes of ELSE, ENDIF, DEPTH and the missing ENDIFs
#[no_mangle]
pub extern "C" fn h_nested() {
    const OPS: [u8; 3] = [0x67, 0x68, 0x74];
    let mut b = vec![0x63u8; 3 + sym::choose("depth", 2)];
    b[1] = 0x64;
    let mut open = b.len();
    let s: St = (0..b.len()).map(|_| vec![sym::range("x", 0, 1) as u8]).collect();
    for _ in 0..5 {
        let o = OPS[sym::choose("op", 3)];
        if o == 0x68 {
            open = open.saturating_sub(1);
        }
        b.push(o);
    }
    while open > 0 && b.len() < 12 {
        b.push(0x68);
        open -= 1;
    }
    whole(b, s, 1);
}

//@ prop=S04
//@ time=250
//@ covers=done|failed
//@ bounds=scripts of 3 opcodes of TOALT, FROMALT, CODESEPARATOR, 3DUP, PICK, ROLL, NOP, CHECKSIG, DROP on 3..=5 items of one or two symbolic bytes
#[no_mangle]
pub extern "C" fn h_mixed() {
    mixed(3);
}

//@ prop=S04
//@ tier=thorough
//@ time=900
//@ covers=done|failed
//@ bounds=as h_mixed, scripts of 4 opcodes
#[no_mangle]
pub extern "C" fn h_mixed4() {
    mixed(4);
}

fn mixed(ops: usize) {
    const OPS: [u8; 9] = [0x6b, 0x6c, 0xab, 0x6f, 0x79, 0x7a, 0x61, 0xac, 0x75];
    let n = 3 + sym::choose("items", 3);
    let mut s: St = (0..n).map(|_| vec![3]).collect();
    s[n - 1] = sym::vec("key", 1);
    s[n - 2] = sym::vec("sig", 2);
    let b: Vec<u8> = (0..ops).map(|_| OPS[sym::choose("op", OPS.len())]).collect();
    whole(b, s, 3);
}

//@ prop=S04
//@ time=100
//@ covers=done|failed
//@ bounds=every script of up to 3 bytes that uses direct pushes, numbers, IF, ELSE, ENDIF and disabled opcodes, with all four rule sets
#[no_mangle]
pub extern "C" fn h_bytes() {
    let n = sym::choose("len", 4);
    bytes(n);
}

//@ prop=S04
//@ tier=thorough
//@ time=900
//@ covers=done|failed
//@ bounds=as h_bytes, scripts of 4 bytes
#[no_mangle]
pub extern "C" fn h_bytes4() {
    bytes(4);
}

fn bytes(n: usize) {
    let b = sym::vec("script", n);
    for &x in &b {
        sym::assume(x <= 8 || x == 0x51 || x == 0x63 || x == 0x67 || x == 0x68 || x == 0x7e || x == 0x81 || x == 0x4f);
    }
    whole(b, vec![], sym::choose("rules", 4) as u8);
}

//@ prop=S04
//@ time=100
//@ covers=accepted|rejected
//@ bounds=witness scripts of up to 9 items and 14 bytes and lock scripts of up to 14 bytes around every limit (sizes 6, 7 and 12 in the harness context)
#[no_mangle]
pub extern "C" fn h_limits() {
    let c = Ctx { rules: 3 };
    // witness: k times a small number, then a push of l bytes
    let k = [0usize, 1, 2, 4, 6, 7, 8, 12, 13][sym::choose("items", 9)];
    let l = [0usize, 2, 6, 7][sym::choose("push", 4)];
    let mut w = vec![0x52u8; k];
    if l > 0 {
        w.push(l as u8);
        w.extend(vec![0x55; l]);
    }
    let items = k + (l > 0) as usize;
    let ok = w.len() <= 12 && l <= 6 && items <= 7;
    let ws = Script::from(w.clone());
    let r = run_pushdata(&c, &ws);
    sym::check(r.is_ok() == ok, "pushes are bounded in size, number and total");
    if let Ok(s) = &r {
        sym::cover("accepted");
        sym::check(s.top(items).is_err() && (items == 0 || s.top(items - 1).is_ok()), "every push is on the stack");
    }
    // anything but a push is refused in a witness
    let o = sym::u8("op");
    sym::assume(o > 0x4e);
    let pushy = o == 0x4f || (0x51..=0x60).contains(&o);
    sym::check(run_pushdata(&c, &Script::from(vec![0x51, o])).is_ok() == pushy, "only pushes are allowed in a witness");
    // drops leave d items; a lock of d drops (and the rest of its length no-ops)
    let len = [0usize, 1, 7, 11, 12, 13][sym::choose("lock", 6)];
    let d = sym::choose("drops", 8);
    sym::assume(d <= len);
    let mut lock = vec![0x61u8; len - d];
    lock.extend(vec![0x75; d]);
    let v = verify_witness_lock(&c, &ws, &Script::from(lock));
    let want = ok && len <= 12 && d < items && items - d == 1;
    sym::check(v.is_ok() == want, "spending needs exactly one true item to be left");
    sym::cover_if(!want, "rejected");
    sym::check(verify_witness_lock(&c, &Script::from(vec![1, o]), &Script::from(vec![0x61])).is_ok() == (o != 0x80 && o != 0x81), "the item left must be true");
}
