//! Enumerated systems.
use crate::sx;
use crate::util::*;
use nominals::*;

const LONG: &str = "0123456789012345678901234567890123456789012345678901234567890123456789";

fn judge<T: Uint>(s: &dyn NominalSystem<T>, zero: bool, count: usize, sym: &dyn Fn(usize, &mut Text<640>)) {
    // by decimal digits, and by bytes, where cutting off the upper ones shows
    let bytes = sx::job(2) == 1;
    let x = number::<T>(0, if bytes { 256 } else { 10 }, u128::MAX);
    let k = if !bytes {
        small(&x)
    } else if x.len == 1 && x.d[0] < 64 {
        Some(sx::fork(x.d[0] as u64) as usize)
    } else {
        None
    };
    let r = s.try_format_nominal(x.n);
    let shift = !zero as usize;
    match k {
        Some(0) if !zero => expect_err(&r, 0, x.n),
        Some(k) if k < count + shift => {
            let mut t = Text::<640>::new();
            sym(k - shift, &mut t);
            expect_text(&r, t.bytes(), x.n)
        }
        _ => expect_err(&r, 2, x.n),
    }
}

fn circled(k: usize, t: &mut Text<640>) {
    // in Unicode: 0, 1-20, 21-35, 36-50
    let k = k as u32;
    t.cp(if k == 0 {
        0x24EA
    } else if k <= 20 {
        0x2460 + k - 1
    } else if k <= 35 {
        0x3251 + k - 21
    } else {
        0x32B1 + k - 36
    })
}
fn double(k: usize, t: &mut Text<640>) {
    t.cp(0x24F5 + k as u32)
}
fn word(k: usize, t: &mut Text<640>) {
    t.str(WORDS[k])
}
const WORDS: [&str; 10] = ["zero", "", "z", "\u{1F600}", "four", LONG, "z", "VII", "é", "nine"];
fn words<const N: usize>() -> [&'static str; N] {
    let mut a = [""; N];
    let mut i = 0;
    while i < N {
        a[i] = WORDS[i];
        i += 1;
    }
    a
}

fn enumerated<T: Uint>(k: u32) {
    macro_rules! both {
        ($n:expr) => {
            if sx::pick(300, 0, 1) == 0 {
                judge::<T>(&EnumeratedSet::<$n, true>::new(words()), true, $n, &word)
            } else {
                judge::<T>(&EnumeratedSet::<$n, false>::zeroless(words()), false, $n, &word)
            }
        };
    }
    match k {
        0 => judge::<T>(&CircledNumber, true, 51, &circled),
        1 => judge::<T>(&DoubleCircledNumber, false, 10, &double),
        2 => both!(0),
        3 => both!(1),
        4 => both!(2),
        5 => both!(3),
        _ => both!(10),
    }
}

#[no_mangle]
pub fn h_enumerated() {
    let t = sx::job(6);
    let k = sx::job(7);
    by_type!(t, enumerated, k)
}

/// 300 different symbols: the number in two letters.
static PAIRS: [u8; 600] = {
    let mut a = [0; 600];
    let mut i = 0;
    while i < 300 {
        a[2 * i] = b'A' + (i / 20) as u8;
        a[2 * i + 1] = b'a' + (i % 20) as u8;
        i += 1;
    }
    a
};
/// More symbols than the smallest integer type has values, or a byte counts.
fn many<T: Uint>(zero: bool) {
    let mut a = [""; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(PAIRS.as_ptr().add(2 * i), 2)) };
        i += 1;
    }
    // any number below 131,072
    let hi = if T::MAX > 255 { sx::var(1, 0, 255) } else { 0 };
    let top = if T::MAX > 65_535 { sx::var(2, 0, 1) } else { 0 };
    let v = top * 65_536 + hi * 256 + sx::var(0, 0, 255);
    let n = T::of(v as u128);
    let r = if zero {
        EnumeratedSet::<300, true>::new(a).try_format_nominal(n)
    } else {
        EnumeratedSet::<300, false>::zeroless(a).try_format_nominal(n)
    };
    if v == 0 && !zero {
        return expect_err(&r, 0, n);
    }
    let k = v - !zero as u64;
    if k >= 300 {
        return expect_err(&r, 2, n);
    }
    let k = sx::fork(k);
    expect_text(&r, &[b'A' + (k / 20) as u8, b'a' + (k % 20) as u8], n)
}
#[no_mangle]
pub fn h_enumerated_many() {
    let t = sx::job(6);
    let k = sx::job(2);
    by_type!(t, many, k == 1)
}
