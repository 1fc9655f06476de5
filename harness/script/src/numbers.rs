use script::script::{build_scriptint, read_scriptbool, read_scriptint, read_scriptint_size, read_uint};

//@ prop=S01
//@ time=60
//@ covers=negative|padded
//@ bounds=every 64-bit number except the lowest, which has no magnitude
#[no_mangle]
pub extern "C" fn h_num_build() {
    let n = sym::i64("n");
    sym::assume(n != i64::MIN);
    let v = build_scriptint(n);
    sym::check(v.is_empty() == (n == 0), "zero is the empty string");
    sym::check(v.len() <= 9, "at most nine bytes");
    if v.len() <= 8 {
        sym::check(read_scriptint_size(&v, 8) == Ok(n), "a number reads back as itself");
        sym::check(read_scriptbool(&v) == (n != 0), "a number is true unless zero");
    } else {
        sym::check(n.unsigned_abs() >> 63 == 0 && n.unsigned_abs() >> 55 != 0, "eight bytes are enough for 63 bits");
    }
    if !v.is_empty() {
        let l = v[v.len() - 1];
        sym::check(l & 0x7f != 0 || (v.len() > 1 && v[v.len() - 2] & 0x80 != 0), "the encoding is minimal");
        sym::check((l & 0x80 != 0) == (n < 0), "the sign is the top bit");
    }
    sym::check(read_scriptint(&v).is_ok() == (v.len() <= 4), "operands have at most four bytes");
    sym::cover_if(n < 0, "negative");
    sym::cover_if(n == 128, "padded");
}

//@ prop=S01
//@ time=60
//@ covers=read|too long|negative zero
//@ bounds=byte strings of 0..=9 bytes read with size limits 4, 5 and 8
#[no_mangle]
pub extern "C" fn h_num_read() {
    let n = sym::choose("len", 10);
    let v = sym::vec("v", n);
    let max = [4usize, 5, 8][sym::choose("max", 3)];
    let r = if max == 4 { read_scriptint(&v) } else { read_scriptint_size(&v, max) };
    if n > max {
        sym::cover("too long");
        sym::check(r.is_err(), "an overlong number is refused");
    } else {
        sym::cover("read");
        let mut mag = 0u64;
        let mut i = n;
        while i > 0 {
            i -= 1;
            let b = if i == n - 1 { v[i] & 0x7f } else { v[i] };
            mag = (mag << 8) | b as u64;
        }
        let neg = n > 0 && v[n - 1] & 0x80 != 0;
        let want = if neg { -(mag as i64) } else { mag as i64 };
        sym::check(r == Ok(want), "sign and magnitude, little-endian");
        sym::check(read_scriptbool(&v) == (mag != 0), "everything but zero and negative zero is true");
        sym::cover_if(neg && mag == 0, "negative zero");
    }
    let k = sym::choose("size", 5);
    match read_uint(&v, k) {
        Ok(u) => {
            let mut w = 0usize;
            for i in 0..k.min(n) {
                w |= (v[i] as usize) << (8 * i);
            }
            sym::check(k <= n && u == w, "unsigned lengths are little-endian");
        }
        Err(_) => sym::check(k > n, "a length that is there is read"),
    }
}
