//! Ethiopic numerals (CSS Counter Styles 3, section 7.2).
use crate::sx;
use crate::util::*;
use nominals::*;

/// Decimal digits of which positions `lo..hi` are free.  Below them all digits
/// are 0 or 2 (or 1); above there is nothing, or a free leading digit followed
/// by digits that are all 0 or all 9 (or 1).  In the quick tier the length of
/// the part above is 1, 4 or the most the type allows.
pub fn windowed<T: Uint>(lo: usize, hi: usize) -> Num<T> {
    let more = sx::tier() as u64;
    let below = sx::pick(900, 0, 1 + more);
    let above = sx::pick(901, 0, 2 + more);
    let b = [0, 2, 1][below as usize];
    let a = [0, 0, 9, 1][above as usize];
    let mut top = 0;
    let mut m = T::MAX;
    while m > 0 {
        m /= 10;
        top += 1;
    }
    number_in::<T>(0, 10, u128::MAX, &|i, len| {
        if i >= hi && (above == 0 || more == 0 && len != hi + 1 && len != hi + 4 && len != top) {
            (2, 1)
        } else if len <= lo || len <= hi && above > 0 {
            (2, 1)
        } else if i < lo {
            (b, b)
        } else if i < hi {
            (0, 9)
        } else if i == len - 1 {
            (1, 9)
        } else {
            (a, a)
        }
    })
}

fn spec(x: &[u8], len: usize, t: &mut Text<200>) {
    // groups of two digits, most significant first
    let g = (len + 1) / 2;
    let mut i = g;
    while i > 0 {
        i -= 1;
        let tens = if 2 * i + 1 < len { x[2 * i + 1] } else { 0 };
        let ones = x[2 * i];
        let t0 = sx::fork((tens == 0) as u64) == 1;
        let o0 = sx::fork((ones == 0) as u64) == 1;
        let zero = t0 && o0;
        // a value of one is not written in the most significant group (unless it
        // is the only one) nor in an odd group
        let one = t0 && !o0 && sx::fork((ones == 1) as u64) == 1;
        let skip = zero || one && (i == g - 1 && g > 1 || i % 2 == 1);
        if !skip {
            if !t0 {
                t.cp(0x1372 + tens as u32 - 1);
            }
            if !o0 {
                t.cp(0x1369 + ones as u32 - 1);
            }
        }
        if i % 2 == 1 {
            if !zero {
                t.cp(0x137B);
            }
        } else if i > 0 {
            t.cp(0x137C);
        }
    }
}

fn judge<T: Uint>(x: &Num<T>) {
    let r = Ethiopic.try_format_nominal(x.n);
    if x.len == 1 && sx::fork((x.d[0] == 0) as u64) == 1 {
        return expect_err(&r, 0, x.n);
    }
    let mut t = Text::<200>::new();
    spec(&x.d, x.len, &mut t);
    expect_text(&r, t.bytes(), x.n)
}

fn full<T: Uint>() {
    judge(&number::<T>(0, 10, if sx::tier() == 0 { 9_999_999_999 } else { 999_999_999_999 }))
}
#[no_mangle]
pub fn h_ethiopic() {
    let t = sx::job(6);
    by_type!(t, full)
}

fn window<T: Uint>(w: usize) {
    let width = if sx::tier() == 0 { 4 } else { 6 };
    judge(&windowed::<T>(w, w + width))
}
#[no_mangle]
pub fn h_ethiopic_window() {
    let t = sx::job(2);
    if t == 0 {
        window::<u64>(sx::job(17) as usize)
    } else {
        window::<u128>(sx::job(36) as usize)
    }
}

/// Few digits that are not zero, or one run of zeros, in numbers of any length.
#[no_mangle]
pub fn h_ethiopic_shape() {
    match sx::job(3) {
        0 => judge(&shaped::<u64>()),
        1 => judge(&shaped::<u128>()),
        _ => judge(&shaped::<usize>()),
    }
}
