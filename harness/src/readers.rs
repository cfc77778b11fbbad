//! Reading numerals back, by the published values of their symbols.
use crate::ethiopic::windowed;
use crate::forms::digits_for;
use crate::letters::alphabet;
use crate::sx;
use crate::systems::*;
use crate::util::*;

/// Code points of a text (the width of each is concrete).
struct Chars<'a> {
    b: &'a [u8],
    i: usize,
}
impl Chars<'_> {
    fn next(&mut self) -> Option<u32> {
        if self.i >= self.b.len() {
            return None;
        }
        let x = self.b[self.i];
        let w = sx::fork(1 + (x >= 0xC0) as u64 + (x >= 0xE0) as u64 + (x >= 0xF0) as u64) as usize;
        let c = |k: usize| (self.b[self.i + k] - 0x80) as u32;
        let r = match w {
            1 => x as u32,
            2 => (x - 0xC0) as u32 * 64 + c(1),
            3 => (x - 0xE0) as u32 * 4096 + c(1) * 64 + c(2),
            _ => (x - 0xF0) as u32 * 262144 + c(1) * 4096 + c(2) * 64 + c(3),
        };
        self.i += w;
        Some(r)
    }
}
fn chars(b: &[u8]) -> Chars<'_> {
    Chars { b, i: 0 }
}

/// Position of `c` in `set` counting from one, 0 if absent.
#[inline(never)]
fn find(c: u32, set: &[u32]) -> u32 {
    let mut v = 0;
    let mut i = 0;
    while i < set.len() {
        v |= (c == set[i]) as u32 * (i as u32 + 1);
        i += 1;
    }
    v
}
fn is(c: bool) -> bool {
    sx::fork(c as u64) == 1
}

const FIRST: [u32; 18] = [
    0x30, 0x660, 0x6F0, 0x9E6, 0x17E0, 0x966, 0xAE6, 0xA66, 0xCE6, 0xED0, 0xD66, 0x1810, 0x1040, 0xB66, 0xBE6, 0xC66,
    0xE50, 0xF20,
];
const CJK: [u32; 10] = [0x3007, 0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D];

fn positional<T: Uint>(k: u32, b: &[u8]) -> T {
    let mut v = T::from(0u8);
    let mut c = chars(b);
    while let Some(x) = c.next() {
        let (base, d) = match k {
            18 => (10, find(x, &CJK) - 1),
            19 => (16, x - 0x30 - (x >= 0x41) as u32 * 7),
            20 => (16, x - 0x30 - (x >= 0x61) as u32 * 39),
            _ => (10, x - FIRST[k as usize]),
        };
        sx::check(d < base, 20);
        v = v.mac(base, d);
    }
    v
}

fn letters<T: Uint>(k: u32, b: &[u8]) -> T {
    let mut a = [0; 48];
    let one = k >= 31;
    let n = alphabet(if one { k - 31 } else { k - 21 }, &mut a);
    let mut v = T::from(0u8);
    let mut c = chars(b);
    while let Some(x) = c.next() {
        let d = find(x, &a[..n]);
        sx::check(d > 0, 21);
        // counting from zero: the last letter weighs one less
        let last = c.i == b.len();
        v = v.mac(n as u32, if last && !one { d - 1 } else { d });
    }
    v
}

fn list<const N: usize>(s: &str) -> [u32; N] {
    let mut a = [0; N];
    let b = s.as_bytes();
    let mut i = 0;
    while i < N {
        a[i] = (b[3 * i] - 0xE0) as u32 * 4096 + (b[3 * i + 1] - 0x80) as u32 * 64 + (b[3 * i + 2] - 0x80) as u32;
        i += 1;
    }
    a
}
fn stems<T: Uint>(k: u32, b: &[u8]) -> T {
    if b.len() == 3 {
        let x = chars(b).next().unwrap();
        let d = if k % 2 == 1 {
            find(x, &list::<10>("甲乙丙丁戊己庚辛壬癸"))
        } else {
            find(x, &list::<12>("子丑寅卯辰巳午未申酉戌亥"))
        };
        if is(d > 0) {
            return T::of(d as u128);
        }
    }
    positional(18, b)
}

fn circled<T: Uint>(k: u32, b: &[u8]) -> T {
    let x = chars(b).next().unwrap();
    T::of(if k == 46 {
        x - 0x24F4
    } else if x == 0x24EA {
        0
    } else if x < 0x3000 {
        x - 0x245F
    } else if x < 0x3260 {
        x - 0x3251 + 21
    } else {
        x - 0x32B1 + 36
    } as u128)
}

/// Letter values add up; a letter before a larger one is subtracted; a line
/// over a letter multiplies it by a thousand.
fn roman<T: Uint>(k: u32, b: &[u8]) -> T {
    let s: [u32; 8] = if k == 47 {
        [0x4E, 0x49, 0x56, 0x58, 0x4C, 0x43, 0x44, 0x4D]
    } else {
        [0x6E, 0x69, 0x76, 0x78, 0x6C, 0x63, 0x64, 0x6D]
    };
    const V: [u32; 9] = [0, 0, 1, 5, 10, 50, 100, 500, 1000];
    let mut total = T::from(0u8);
    let mut last = 0;
    let mut c = chars(b);
    let mut x = c.next();
    while let Some(l) = x {
        let d = find(l, &s);
        sx::check(d > 0, 22);
        let mut v = V[d as usize];
        x = c.next();
        if x == Some(0x305) {
            v *= 1000;
            x = c.next();
        }
        // a pair: the smaller letter was held back
        if last != 0 {
            if is(last < v) {
                total = total.plus(T::of((v - last) as u128));
                last = 0;
                continue;
            }
            total = total.plus(T::of(last as u128));
        }
        last = v;
    }
    total.plus(T::of(last as u128))
}

const GEO: [u32; 37] = [
    0x10D0, 0x10D1, 0x10D2, 0x10D3, 0x10D4, 0x10D5, 0x10D6, 0x10F1, 0x10D7, 0x10D8, 0x10D9, 0x10DA, 0x10DB, 0x10DC,
    0x10F2, 0x10DD, 0x10DE, 0x10DF, 0x10E0, 0x10E1, 0x10E2, 0x10F3, 0x10E4, 0x10E5, 0x10E6, 0x10E7, 0x10E8, 0x10E9,
    0x10EA, 0x10EB, 0x10EC, 0x10ED, 0x10EE, 0x10F4, 0x10EF, 0x10F0, 0x10F5,
];
const HEB: [u32; 22] = [
    0x5D0, 0x5D1, 0x5D2, 0x5D3, 0x5D4, 0x5D5, 0x5D6, 0x5D7, 0x5D8, 0x5D9, 0x5DB, 0x5DC, 0x5DE, 0x5E0, 0x5E1, 0x5E2,
    0x5E4, 0x5E6, 0x5E7, 0x5E8, 0x5E9, 0x5EA,
];
/// Symbol values add up: the i-th symbol is worth (i mod 9 + 1) * 10^(i / 9).
fn sum<T: Uint>(k: u32, b: &[u8]) -> T {
    const W: [u32; 38] = {
        let mut w = [0; 38];
        let mut i = 0;
        while i < 37 {
            w[i + 1] = (i as u32 % 9 + 1) * 10u32.pow(i as u32 / 9);
            i += 1;
        }
        w
    };
    let mut v = T::from(0u8);
    let mut c = chars(b);
    while let Some(x) = c.next() {
        if k == 57 && (x == 0x5F3 || x == 0x5F4) {
            continue;
        }
        let i = match k {
            49 => x - 0x530,
            50 => x - 0x560,
            51 => find(x, &GEO),
            _ => find(x, &HEB),
        };
        sx::check(i > 0 && i < 38, 23);
        v = v.plus(T::of(W[i as usize] as u128));
    }
    v
}

/// A digit multiplies the place character that follows it.
fn cjk<T: Uint>(k: u32, b: &[u8]) -> T {
    let set = match k {
        52 => [0x96F6, 0x58F1, 0x5F10, 0x53C2, 0x56DB, 0x4F0D, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x62FE, 0x767E, 0x9621],
        53 => list::<13>("〇一二三四五六七八九十百千"),
        54 => list::<13>("영일이삼사오육칠팔구십백천"),
        55 => list::<13>("零一二三四五六七八九十百千"),
        _ => [0x96F6, 0x58F9, 0x8CB3, 0x53C3, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x62FE, 0x767E, 0x4EDF],
    };
    let mut v = T::from(0u8);
    let mut digit = 0;
    let mut have = false;
    let mut c = chars(b);
    while let Some(x) = c.next() {
        let i = find(x, &set);
        sx::check(i > 0, 24);
        if is(i > 10) {
            let m = [10, 100, 1000][i as usize - 11];
            v = v.plus(T::of(if have { digit } else { 1 } as u128 * m));
            have = false;
        } else {
            if have {
                v = v.plus(T::of(digit as u128));
            }
            digit = i - 1;
            have = true;
        }
    }
    if have {
        v = v.plus(T::of(digit as u128));
    }
    v
}
/// Ten-thousand marks separate parts below ten thousand, in which the hundred
/// mark separates hundreds from the rest; a leading or hundreds one is implied.
fn ethiopic<T: Uint>(b: &[u8]) -> T {
    let mut total = T::from(0u8);
    let mut part = 0;
    let mut cur = 0;
    let mut empty = true;
    let mut first = true;
    let mut c = chars(b);
    while let Some(x) = c.next() {
        if x == 0x137C {
            if first && empty {
                cur = 1;
            }
            total = total.mac(10_000, part + cur);
            part = 0;
            cur = 0;
            first = false;
            empty = true;
        } else if x == 0x137B {
            part = (if cur == 0 { 1 } else { cur }) * 100;
            cur = 0;
            empty = false;
        } else {
            let i = x - 0x1368;
            sx::check(i >= 1 && i <= 18, 25);
            const V: [u8; 19] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 30, 40, 50, 60, 70, 80, 90];
            cur += V[i as usize] as u32;
            empty = false;
        }
    }
    total.mac(10_000, part + cur)
}
/// Digits, place characters and large-number characters of the four scales.
fn chinese<T: Uint>(k: u32, b: &[u8]) -> T {
    let trad = matches!(k, 61 | 62 | 64);
    let small = match k {
        60 => list::<13>("零壹贰叁肆伍陆柒捌玖拾佰仟"),
        61 => list::<13>("零壹貳參肆伍陸柒捌玖拾佰仟"),
        _ => list::<13>("零一二三四五六七八九十百千"),
    };
    let large =
        if trad { list::<11>("萬億兆京垓秭穰溝澗正載") } else { list::<11>("万亿兆京垓秭穰沟涧正载") };
    let zero = T::from(0u8);
    // what was read so far below each kind of large character
    let mut at = [zero; 12];
    let mut cur = zero;
    let mut digit = 0;
    let mut have = false;
    let mut c = chars(b);
    while let Some(x) = c.next() {
        let i = find(x, &small);
        if is(i == 0) {
            let l = sx::fork(find(x, &large) as u64) as usize;
            sx::check(l > 0, 26);
            if have {
                cur = cur.plus(T::of(digit as u128));
                have = false;
            }
            let l = l - 1;
            let (mult, from) = match k {
                60 => (if l == 0 { 10_000u128 } else { 10u128.pow(8 * l as u32) }, l.min(1)),
                61 => (10u128.pow(4 << l), l),
                62 | 63 => (10u128.pow(4 + l as u32), 0),
                _ => (10u128.pow(4 * (l as u32 + 1)), 0),
            };
            let mut f = 0;
            while f < from {
                cur = cur.plus(at[f]);
                at[f] = zero;
                f += 1;
            }
            at[l] = at[l].plus(cur * T::of(mult));
            cur = zero;
        } else if is(i > 10) {
            let m = [10, 100, 1000][i as usize - 11];
            cur = cur.plus(T::of(if have { digit } else { 1 } as u128 * m));
            have = false;
        } else {
            digit = i - 1;
            have = true;
        }
    }
    if have {
        cur = cur.plus(T::of(digit as u128));
    }
    let mut i = 0;
    while i < 12 {
        cur = cur.plus(at[i]);
        i += 1;
    }
    cur
}

fn read<T: Uint>(k: u32, b: &[u8]) -> T {
    match k {
        0..=20 => positional(k, b),
        21..=40 => letters(k, b),
        41..=44 => stems(k, b),
        45 | 46 => circled(k, b),
        47 | 48 => roman(k, b),
        49..=51 | 57 => sum(k, b),
        52..=56 => cjk(k, b),
        58 => ethiopic(b),
        _ => chinese(k, b),
    }
}

fn back<T: Uint>(k: u32, n: T) {
    if let Ok(s) = Any(k).run(n) {
        sx::reach(1);
        sx::emit(s.as_bytes());
        let v: T = read(k, s.as_bytes());
        sx::num(v, n, 1);
    }
}
fn all<T: Uint>(k: u32) {
    let x = digits_for::<T>(k);
    back(k, x.n)
}
#[no_mangle]
pub fn h_read() {
    let k = sx::job(SYSTEMS);
    let t = sx::job(6);
    by_type!(t, all, k)
}
fn close<T: Uint>(k: u32) {
    let lim = Any(k).reasonable();
    let w = near(sx::pick(9, 0, BLOCKS as u64 - 1) as u32, if lim < T::MAX { lim } else { T::MAX });
    back(k, T::of(w))
}
#[no_mangle]
pub fn h_read_near() {
    let k = sx::job(SYSTEMS);
    let t = sx::job(6);
    by_type!(t, close, k)
}
fn window<T: Uint>(k: u32, w: usize) {
    let width = if sx::tier() == 0 { 3 } else { 5 };
    back(k, windowed::<T>(w, w + width).n)
}
#[no_mangle]
pub fn h_read_window() {
    let k = sx::job(7) + 58;
    if sx::job(2) == 0 {
        window::<u64>(k, sx::job(18) as usize)
    } else {
        window::<u128>(k, sx::job(37) as usize)
    }
}
#[no_mangle]
pub fn h_read_shape() {
    let k = sx::job(7) + 58;
    if sx::job(2) == 0 {
        back(k, shaped::<u64>().n)
    } else {
        back(k, shaped::<u128>().n)
    }
}
