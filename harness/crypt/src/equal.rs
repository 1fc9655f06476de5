use crypto::util::eq::SliceEqualityCheckMethod as M;

fn same<T: Eq + Copy + std::ops::BitXor>(a: &[T], b: &[T]) -> bool
where
    <T as std::ops::BitXor>::Output: Into<usize>,
{
    let mut d = a.len() != b.len();
    if !d {
        for i in 0..a.len() {
            d |= a[i] != b[i];
        }
    }
    sym::cover(if d { "different" } else { "equal" });
    let quick = M::Normal.are_equal(a, b);
    let slow = M::TimingResistant.are_equal(a, b);
    let direct = M::timing_resistant_equal(a, b);
    sym::check(quick == !d, "the plain comparison says whether the slices are the same");
    sym::check(slow == !d, "the constant-time comparison says whether the slices are the same");
    sym::check(direct == !d, "the constant-time comparison says whether the slices are the same");
    d
}

//@ prop=X01
//@ time=30
//@ covers=different|equal
//@ bounds=every pair of byte, 16-bit and word-sized slices of up to 5 elements each
#[no_mangle]
pub extern "C" fn h_slices() {
    let kind = sym::choose("element", 3);
    let a = sym::vec("a", sym::choose("a length", 6));
    let b = sym::vec("b", sym::choose("b length", 6));
    match kind {
        0 => {
            same(&a, &b);
        }
        1 => {
            let hi = sym::u8("high byte");
            let w = |v: &[u8], f: u8| v.iter().map(|x| (*x as u16) | ((x ^ f) as u16) << 8).collect::<Vec<_>>();
            same(&w(&a, 0), &w(&b, hi));
        }
        _ => {
            let (f, s) = (sym::u8("factor"), sym::choose("shift", 8) * 8);
            let w = |v: &[u8], f: u8| v.iter().map(|x| (*x as usize).rotate_left(s as u32) ^ f as usize).collect::<Vec<_>>();
            same(&w(&a, 0), &w(&b, f));
        }
    }
}

//@ prop=X01
//@ time=60
//@ covers=different|equal
//@ bounds=long byte slices (lengths around 16, 32, 64, 256, 512 and 65536, equal or apart by 1, 16, 256 or 65536), repeating a 1- to 3-byte pattern and with one byte changed anywhere among 10 places
#[no_mangle]
pub extern "C" fn h_slices_long() {
    const BASE: [usize; 9] = [1, 15, 16, 31, 32, 64, 255, 256, 512];
    let n = BASE[sym::choose("length", 9)];
    let far = sym::choose("other length", 9);
    // the largest distance only once or twice
    sym::assume(far != 8 || n == 1 || n == 32);
    let m = [n, n + 1, n + 16, n + 32, n + 64, n + 256, 2 * n, 3 * n, n + 65536][far];
    let period = 1 + if far == 8 { 0 } else { sym::choose("period", 3) };
    let pat = sym::bytes::<3>("pattern");
    let mut a: Vec<u8> = (0..m).map(|i| pat[i % period]).collect();
    let b: Vec<u8> = (0..n).map(|i| pat[i % period]).collect();
    let d = sym::u8("change");
    let at = [0, 1, n / 2, n - 1, m - 1, m / 2, m.saturating_sub(2), 7, 8, 31][if far == 8 { 3 } else { sym::choose("changed at", 10) }];
    if at < m {
        a[at] ^= d;
    }
    if sym::flag("swapped") {
        same(&b, &a);
    } else {
        same(&a, &b);
    }
}
