//! Additive systems: Roman, Armenian, Georgian, Japanese, Korean, Hebrew.
use crate::sx;
use crate::util::*;
use nominals::*;

type Tx = Text<2000>;

/// Repetitions of the largest symbol, around the limits of a byte.
const MANY: [u32; 14] = [38, 45, 52, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300];

fn run<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32, n: T) -> Res<T> {
    match k {
        0 => RomanUpper.try_format_nominal(n),
        1 => RomanLower.try_format_nominal(n),
        2 => ArmenianUpper.try_format_nominal(n),
        3 => ArmenianLower.try_format_nominal(n),
        4 => Georgian.try_format_nominal(n),
        5 => JapaneseFormal.try_format_nominal(n),
        6 => JapaneseInformal.try_format_nominal(n),
        7 => HangeulFormal.try_format_nominal(n),
        8 => HanjaInformal.try_format_nominal(n),
        _ => HanjaFormal.try_format_nominal(n),
    }
}

/// Roman letters for the digit `d` at a decimal place, given the letters worth
/// one, five and ten of that place; `over` puts a line over every letter.
fn roman_digit(t: &mut Tx, d: u8, one: u8, five: u8, ten: u8, over: bool) {
    // which letter (0 = one, 1 = five, 2 = ten) comes at each position
    const LEN: [u8; 10] = [0, 1, 2, 3, 2, 1, 2, 3, 4, 2];
    const WHICH: [[u8; 10]; 4] =
        [[0, 0, 0, 0, 0, 1, 1, 1, 1, 0], [0, 0, 0, 0, 1, 0, 0, 0, 0, 2], [0; 10], [0; 10]];
    let s = [one, five, ten];
    let len = sx::fork(LEN[d as usize] as u64) as usize;
    let mut i = 0;
    while i < len {
        t.push(s[WHICH[i][d as usize] as usize]);
        if over {
            t.cp(0x305);
        }
        i += 1;
    }
}

fn roman_text(t: &mut Tx, millions: usize, d: &[u8], lower: bool) {
    let l = b"IVXLCDM";
    let c = |i: usize| if lower { l[i] + 32 } else { l[i] };
    let mut i = 0;
    while i < millions {
        t.push(c(6));
        t.cp(0x305);
        i += 1;
    }
    roman_digit(t, d[5], c(4), c(5), c(6), true);
    roman_digit(t, d[4], c(2), c(3), c(4), true);
    // thousands: up to three plain M, overlined from four on
    let th = sx::fork(d[3] as u64) as u8;
    match th {
        0 => {}
        4 => roman_digit(t, 4, c(0), c(1), c(2), true),
        9 => roman_digit(t, 9, c(0), c(1), c(2), true),
        _ => {
            let mut k = th;
            if k >= 5 {
                roman_digit(t, 5, c(0), c(1), c(2), true);
                k -= 5;
            }
            while k > 0 {
                t.push(c(6));
                k -= 1;
            }
        }
    }
    roman_digit(t, d[2], c(4), c(5), c(6), false);
    roman_digit(t, d[1], c(2), c(3), c(4), false);
    roman_digit(t, d[0], c(0), c(1), c(2), false);
}

/// All numbers below 400,000 (1,000,000 in the thorough tier).
fn roman<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32) {
    let x = number::<T>(0, 10, if sx::tier() == 0 { 399_999 } else { 999_999 });
    let mut t = Tx::new();
    if x.len == 1 && sx::fork((x.d[0] == 0) as u64) == 1 {
        t.push(if k == 1 { b'n' } else { b'N' });
    } else {
        roman_text(&mut t, 0, &x.d, k == 1);
    }
    expect_text(&run(k, x.n), t.bytes(), x.n);
}
#[no_mangle]
pub fn h_roman() {
    let t = sx::job(6);
    let k = sx::job(2);
    by_type!(t, roman, k)
}

/// Larger numbers: `m` millions and a remainder of which a window of digits is
/// free and the others are zero.
fn roman_large<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32, w: usize) {
    let mmax = if sx::tier() == 0 { 24 } else { 130 };
    roman_of::<T>(k, w, sx::pick(1, 0, mmax) as usize)
}
fn roman_of<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32, w: usize, m: usize) {
    let width = if sx::tier() == 0 { 3 } else { 4 };
    let mut d = [0u8; 6];
    let mut i = w;
    let mut n = 0u32;
    while i < 6 && i < w + width {
        let x = sx::var(10 + i as u32, 0, 9);
        d[i] = x as u8;
        n += x as u32 * 10u32.pow(i as u32);
        i += 1;
    }
    if m == 0 && w < 4 {
        sx::assume(false);
    }
    let n = T::of(m as u128 * 1_000_000 + n as u128);
    let mut t = Tx::new();
    if m == 0 && sx::fork((d[4] == 0 && d[5] == 0) as u64) == 1 {
        sx::assume(false);
    }
    roman_text(&mut t, m, &d, k == 1);
    expect_text(&run(k, n), t.bytes(), n);
}
#[no_mangle]
pub fn h_roman_large() {
    let t = sx::job(4);
    let k = sx::job(2);
    let w = sx::job(5) as usize;
    by_type!(t + 2, roman_large, k, w)
}

#[no_mangle]
pub fn h_roman_many() {
    let t = sx::job(4);
    let k = sx::job(2);
    let m = MANY[sx::job(14) as usize] as usize;
    by_type!(t + 2, roman_of, k, sx::pick(2, 0, 4) as usize, m)
}

const ARM_UP: u32 = 0x531;
const ARM_LO: u32 = 0x561;
const GEO: [u32; 37] = [
    0x10D0, 0x10D1, 0x10D2, 0x10D3, 0x10D4, 0x10D5, 0x10D6, 0x10F1, 0x10D7, // 1..9
    0x10D8, 0x10D9, 0x10DA, 0x10DB, 0x10DC, 0x10F2, 0x10DD, 0x10DE, 0x10DF, // 10..90
    0x10E0, 0x10E1, 0x10E2, 0x10F3, 0x10E4, 0x10E5, 0x10E6, 0x10E7, 0x10E8, // 100..900
    0x10E9, 0x10EA, 0x10EB, 0x10EC, 0x10ED, 0x10EE, 0x10F4, 0x10EF, 0x10F0, // 1000..9000
    0x10F5, // 10000
];
/// digits 1-9, then the characters for ten, hundred, thousand
const CJK: [[u32; 12]; 5] = [
    // Japanese formal
    [0x58F1, 0x5F10, 0x53C2, 0x56DB, 0x4F0D, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x62FE, 0x767E, 0x9621],
    // Japanese informal
    [0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x5341, 0x767E, 0x5343],
    // Korean Hangeul formal
    [0xC77C, 0xC774, 0xC0BC, 0xC0AC, 0xC624, 0xC721, 0xCE60, 0xD314, 0xAD6C, 0xC2ED, 0xBC31, 0xCC9C],
    // Korean Hanja informal
    [0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x5341, 0x767E, 0x5343],
    // Korean Hanja formal
    [0x58F9, 0x8CB3, 0x53C3, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x62FE, 0x767E, 0x4EDF],
];
const ZERO: [u32; 5] = [0x96F6, 0x3007, 0xC601, 0x96F6, 0x96F6];

/// The symbol of digit `d` at the place 10^p.
fn place(t: &mut Tx, k: u32, d: u8, p: usize) {
    if sx::fork((d == 0) as u64) == 1 {
        return;
    }
    match k {
        2 => t.cp(ARM_UP + p as u32 * 9 + d as u32 - 1),
        3 => t.cp(ARM_LO + p as u32 * 9 + d as u32 - 1),
        4 => t.cp(GEO[p * 9 + d as usize - 1]),
        _ => {
            let c = &CJK[k as usize - 5];
            // the informal systems leave out a one before ten, hundred and thousand
            let omit = (k == 6 || k == 8) && p > 0 && sx::fork((d == 1) as u64) == 1;
            if !omit {
                t.cp(c[d as usize - 1]);
            }
            if p > 0 {
                t.cp(c[8 + p]);
            }
        }
    }
}

fn places<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32) {
    let top = if k == 4 { 10_000u32 } else { 9000 };
    let qmax = if sx::tier() == 0 { 34 } else { 110 };
    let qt = T::MAX / top as u128;
    repeated::<T>(k, top, sx::pick(1, 0, if qt < qmax { qt as u64 } else { qmax as u64 }) as usize)
}
/// n = top * q + r with r < top: q times the top symbol, then the digits of r
fn repeated<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32, top: u32, q: usize) {
    let max = T::MAX;
    let rmax = max - q as u128 * top as u128;
    let mut x = number::<T>(10, 10, if rmax < top as u128 - 1 { rmax } else { top as u128 - 1 });
    if q > 0 {
        x.n = T::of(q as u128 * top as u128).plus(x.n);
    }
    let n = x.n;
    let r = run(k, n);
    if q == 0 && x.len == 1 && sx::fork((x.d[0] == 0) as u64) == 1 {
        if k < 5 {
            return expect_err(&r, 0, n);
        }
        let mut t = Tx::new();
        t.cp(ZERO[k as usize - 5]);
        return expect_text(&r, t.bytes(), n);
    }
    let mut t = Tx::new();
    let mut i = 0;
    while i < q {
        if k == 4 {
            t.cp(GEO[36]);
        } else {
            place(&mut t, k, 9, 3);
        }
        i += 1;
    }
    let mut p = x.len;
    while p > 0 {
        p -= 1;
        place(&mut t, k, x.d[p], p);
    }
    expect_text(&r, t.bytes(), n);
}
#[no_mangle]
pub fn h_places() {
    let t = sx::job(6);
    let k = sx::job(8);
    by_type!(t, places, k + 2)
}

/// Many repetitions of the largest symbol.
#[no_mangle]
pub fn h_places_many() {
    let t = sx::job(4);
    let k = sx::job(8);
    let q = MANY[sx::job(14) as usize] as usize;
    by_type!(t + 2, repeated, k + 2, if k == 2 { 10_000 } else { 9000 }, q)
}

fn hebrew<T: Uint + TryFrom<u128> + TryFrom<u32>>() {
    let qmax = if sx::tier() == 0 { 36 } else { 200 };
    let qt = T::MAX / 400;
    hebrew_of::<T>(sx::pick(1, 0, if qt < qmax { qt as u64 } else { qmax as u64 }) as usize)
}
fn hebrew_of<T: Uint + TryFrom<u128> + TryFrom<u32>>(q: usize) {
    if T::MAX < q as u128 * 400 {
        sx::assume(false);
    }
    let rmax = T::MAX - q as u128 * 400;
    let mut x = number::<T>(10, 10, if rmax < 399 { rmax } else { 399 });
    if q > 0 {
        x.n = T::of(q as u128 * 400).plus(x.n);
    }
    let n = x.n;
    let r = Hebrew.try_format_nominal(n);
    // letters 1..9, 10..90, 100..400 in alphabetical order (skipping final forms)
    const L: [[u32; 9]; 3] = [
        [0x5D0, 0x5D1, 0x5D2, 0x5D3, 0x5D4, 0x5D5, 0x5D6, 0x5D7, 0x5D8],
        [0x5D9, 0x5DB, 0x5DC, 0x5DE, 0x5E0, 0x5E1, 0x5E2, 0x5E4, 0x5E6],
        [0x5E7, 0x5E8, 0x5E9, 0x5EA, 0, 0, 0, 0, 0],
    ];
    let mut t = Tx::new();
    let mut letters = q;
    let mut i = 0;
    while i < q {
        t.cp(0x5EA);
        i += 1;
    }
    let mut p = x.len;
    while p > 0 {
        p -= 1;
        let d = x.d[p];
        if p == 1 && sx::fork((d == 1) as u64) == 1 && sx::fork((x.d[0] == 5 || x.d[0] == 6) as u64) == 1 {
            // 9+6 or 9+7 instead of 10+5 or 10+6
            t.cp(0x5D8);
            t.cp(0x5F4);
            t.cp(L[0][x.d[0] as usize]);
            letters = 9;
            break;
        }
        if sx::fork((d == 0) as u64) == 0 {
            t.cp(L[p][d as usize - 1]);
            letters += 1;
        }
    }
    match letters {
        0 => return expect_err(&r, 0, n),
        1 => {
            t.front("׳".as_bytes());
            t.cp(0x5F4);
        }
        _ => {}
    }
    expect_text(&r, t.bytes(), n)
}
#[no_mangle]
pub fn h_hebrew() {
    let t = sx::job(6);
    by_type!(t, hebrew)
}
/// Many repetitions of the largest symbol.
#[no_mangle]
pub fn h_hebrew_many() {
    let t = sx::job(5);
    let q = MANY[sx::job(14) as usize] as usize;
    by_type!(t + 1, hebrew_of, q)
}

/// Up to 65,537 times the largest symbol, and any single digit after it.
#[cfg(feature = "alloc")]
fn tall<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32, q: u32) {
    let d = sx::var(1, 1, 9) as u8;
    let (top, mut sym) = match k {
        0 | 1 => (1_000_000, [if k == 0 { b'M' } else { b'm' } as u32, 0x305]),
        2 => (9000, [ARM_UP + 35, 0]),
        3 => (9000, [ARM_LO + 35, 0]),
        4 => (10_000, [GEO[36], 0]),
        10 => (400, [0x5EA, 0]),
        _ => (9000, [CJK[k as usize - 5][8], CJK[k as usize - 5][11]]),
    };
    if T::MAX < q as u128 * top + 9 {
        sx::assume(false);
    }
    let n = T::of(q as u128 * top).plus(T::of(d as u128));
    let r = if k == 10 { Hebrew.try_format_nominal(n) } else { run(k, n) };
    let b = match &r {
        Ok(s) => s.as_bytes(),
        Err(_) => {
            sx::check(false, 1);
            return;
        }
    };
    let mut one = Tx::new();
    let mut i = 0;
    while i < 100 {
        one.cp(sym[0]);
        if sym[1] != 0 {
            one.cp(sym[1]);
        }
        i += 1;
    }
    sym[0] = one.len as u32 / 100;
    let len = q as usize * sym[0] as usize;
    let mut end = Tx::new();
    match k {
        0 | 1 => roman_text(&mut end, 0, &[d, 0, 0, 0, 0, 0], k == 1),
        // 9 is written the same in every place
        10 => end.cp(0x5D0 + d as u32 - 1),
        _ => place(&mut end, k, d, 0),
    }
    sx::check(b.len() == len + end.len, 2);
    if b.len() != len + end.len {
        return;
    }
    let mut at = 0;
    while at < len {
        let m = if len - at < one.len { len - at } else { one.len };
        sx::eq(&b[at..at + m], &one.bytes()[..m], 3);
        at += m;
    }
    sx::eq(&b[len..], end.bytes(), 4);
    sx::emit(&b[len..]);
    sx::reach(1);
}
#[cfg(feature = "alloc")]
fn talls(k: u32) {
    let t = sx::job(4);
    const Q: [u32; 10] = [511, 1000, 4095, 32_768, 65_536, 65_537, 65_535, 70_001, 131_072, 300_000];
    let q = Q[sx::job(if sx::tier() == 0 { 6 } else { 10 }) as usize];
    by_type!(t + 2, tall, k, q)
}
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_roman_tall() {
    talls(sx::job(2))
}
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_places_tall() {
    talls(sx::job(8) + 2)
}
#[cfg(feature = "alloc")]
#[no_mangle]
pub fn h_hebrew_tall() {
    talls(10)
}

/// Without a heap: every number too large for any text to fit.
#[cfg(not(feature = "alloc"))]
mod huge {
    use super::*;

    fn one<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32) {
        let x = number::<T>(0, 10, u128::MAX);
        let n = x.n;
        let from: u128 = match k {
            0 | 1 => 21_000_000,
            10 => 12_800,
            _ => 310_000,
        };
        if n.wide() < from {
            sx::assume(false);
        }
        let mut d = Text::<40>::new();
        let mut i = x.len;
        while i > 0 {
            i -= 1;
            d.push(b'0' + x.d[i]);
        }
        let (r, a) = if k == 10 { (Hebrew.try_format_nominal(n), Hebrew.format_nominal(n)) } else { (run(k, n), always(k, n)) };
        expect_err(&r, 1, n);
        sx::emit(a.as_bytes());
        sx::eq(a.as_bytes(), d.bytes(), 6);
    }
    fn always<T: Uint + TryFrom<u128> + TryFrom<u32>>(k: u32, n: T) -> NominalString {
        match k {
            0 => n.to_nominal(&RomanUpper),
            1 => n.to_nominal(&RomanLower),
            2 => n.to_nominal(&ArmenianUpper),
            3 => n.to_nominal(&ArmenianLower),
            4 => n.to_nominal(&Georgian),
            5 => n.to_nominal(&JapaneseFormal),
            6 => n.to_nominal(&JapaneseInformal),
            7 => n.to_nominal(&HangeulFormal),
            8 => n.to_nominal(&HanjaInformal),
            _ => n.to_nominal(&HanjaFormal),
        }
    }
    pub fn all() {
        let k = sx::job(11);
        let t = sx::job(5) + 1;
        by_type!(t, one, k)
    }
}
#[cfg(not(feature = "alloc"))]
#[no_mangle]
pub fn h_additive_huge() {
    huge::all()
}
