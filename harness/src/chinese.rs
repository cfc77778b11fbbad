//! Chinese numerals on the four scales.
use crate::ethiopic::windowed;
use crate::sx;
use crate::util::*;
use nominals::*;

// simplified ordinary, simplified financial, traditional ordinary, traditional financial
const DIGITS: [[u32; 13]; 4] = [
    [0x96F6, 0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x5341, 0x767E, 0x5343],
    [0x96F6, 0x58F9, 0x8D30, 0x53C1, 0x8086, 0x4F0D, 0x9646, 0x67D2, 0x634C, 0x7396, 0x62FE, 0x4F70, 0x4EDF],
    [0x96F6, 0x4E00, 0x4E8C, 0x4E09, 0x56DB, 0x4E94, 0x516D, 0x4E03, 0x516B, 0x4E5D, 0x5341, 0x767E, 0x5343],
    [0x96F6, 0x58F9, 0x8CB3, 0x53C3, 0x8086, 0x4F0D, 0x9678, 0x67D2, 0x634C, 0x7396, 0x62FE, 0x4F70, 0x4EDF],
];
const LARGE: [[u32; 11]; 2] = [
    [0x4E07, 0x4EBF, 0x5146, 0x4EAC, 0x5793, 0x79ED, 0x7A70, 0x6C9F, 0x6DA7, 0x6B63, 0x8F7D],
    [0x842C, 0x5104, 0x5146, 0x4EAC, 0x5793, 0x79ED, 0x7A70, 0x6E9D, 0x6F97, 0x6B63, 0x8F09],
];

struct W<'a> {
    x: &'a [u8],
    len: usize,
    t: Text<700>,
    chars: &'a [u32; 13],
    large: &'a [u32; 11],
    informal: bool,
    /// A place was skipped since the last character.
    pending: bool,
    written: bool,
}
impl W<'_> {
    /// Whether the digit at `p` is zero (concrete).
    fn zero(&self, p: usize) -> bool {
        p >= self.len || sx::fork((self.x[p] == 0) as u64) == 1
    }
    fn skip(&mut self) {
        self.pending |= self.written
    }
    fn digit(&mut self, d: u8) {
        if self.pending {
            self.t.cp(self.chars[0]);
            self.pending = false;
        }
        self.t.cp(self.chars[d as usize]);
        self.written = true;
    }
    fn mark(&mut self, k: usize) {
        self.t.cp(self.large[k]);
        self.pending = false;
    }
    fn quad(&mut self, lo: usize) -> bool {
        let mut any = false;
        let mut p = 4;
        while p > 0 {
            p -= 1;
            if self.zero(lo + p) {
                self.skip();
                continue;
            }
            let d = self.x[lo + p];
            // informal: a number that starts with ten does not write the one
            if self.informal && !self.written && p == 1 && sx::fork((d == 1) as u64) == 1 {
                self.written = true;
            } else {
                self.digit(d);
            }
            if p > 0 {
                self.t.cp(self.chars[9 + p]);
            }
            any = true;
        }
        any
    }
    /// `width` digits starting at `lo`, halved recursively down to four.
    fn halves(&mut self, lo: usize, width: usize) -> bool {
        if lo >= self.len {
            return false;
        }
        if width == 4 {
            return self.quad(lo);
        }
        let half = width / 2;
        let hi = self.halves(lo + half, half);
        if hi {
            let mut k = 0;
            while 4 << k < half {
                k += 1;
            }
            self.mark(k);
        }
        self.halves(lo, half) || hi
    }
    fn myriad(&mut self) {
        let mut q = (self.len + 3) / 4;
        while q > 0 {
            q -= 1;
            if self.quad(4 * q) && q > 0 {
                self.mark(q - 1);
            }
        }
    }
    fn mid(&mut self) {
        let mut g = (self.len + 7) / 8;
        while g > 0 {
            g -= 1;
            if self.halves(8 * g, 8) && g > 0 {
                self.mark(g);
            }
        }
    }
    fn short(&mut self) {
        let mut p = self.len;
        while p > 4 {
            p -= 1;
            if self.zero(p) {
                self.skip();
            } else {
                self.digit(self.x[p]);
                self.t.cp(self.large[p - 4]);
            }
        }
        self.quad(0);
    }
}

macro_rules! variant {
    ($ty:ident, $fin:expr, $scale:expr, $n:expr) => {{
        let s = $ty::default();
        let s = if $fin { s.financial() } else { s };
        match $scale {
            0 => s.try_format_nominal($n),
            1 => s.mid_scale().try_format_nominal($n),
            2 => s.long_scale().try_format_nominal($n),
            _ => s.short_scale().try_format_nominal($n),
        }
    }};
}
/// The same with the options given in another order; the last scale counts.
macro_rules! tnairav {
    ($ty:ident, $fin:expr, $scale:expr, $n:expr) => {{
        let s = $ty::default();
        let s = match $scale {
            0 => s,
            1 => s.long_scale().mid_scale(),
            2 => s.short_scale().long_scale(),
            _ => s.mid_scale().short_scale(),
        };
        let s = if $fin { s.financial() } else { s };
        s.try_format_nominal($n)
    }};
}
pub fn run<T: Uint>(v: u32, scale: u32, n: T) -> Res<T> {
    let fin = v & 1 == 1;
    match v >> 1 {
        0 => variant!(SimplifiedChineseInformal, fin, scale, n),
        1 => variant!(SimplifiedChineseFormal, fin, scale, n),
        2 => tnairav!(TraditionalChineseInformal, fin, scale, n),
        _ => tnairav!(TraditionalChineseFormal, fin, scale, n),
    }
}

fn judge<T: Uint>(x: &Num<T>, v: u32, scale: u32) {
    let r = run(v, scale, x.n);
    if scale == 3 && x.len > 15 {
        return expect_err(&r, 2, x.n);
    }
    let (fin, trad) = (v & 1, v >> 2);
    let mut w = W {
        x: &x.d,
        len: x.len,
        t: Text::new(),
        chars: &DIGITS[(trad * 2 + fin) as usize],
        large: &LARGE[trad as usize],
        informal: v >> 1 & 1 == 0,
        pending: false,
        written: false,
    };
    if x.len == 1 && sx::fork((x.d[0] == 0) as u64) == 1 {
        w.t.cp(w.chars[0]);
    } else {
        match scale {
            0 => w.myriad(),
            1 => w.mid(),
            2 => {
                w.halves(0, 64);
            }
            _ => w.short(),
        }
    }
    expect_text(&r, w.t.bytes(), x.n)
}

fn full<T: Uint>(v: u32, scale: u32) {
    judge(&number::<T>(0, 10, if sx::tier() == 0 { 9_999_999_999 } else { 9_999_999_999_999 }), v, scale)
}
/// Default scale, all small numbers, all variants.
#[no_mangle]
pub fn h_myriad() {
    let t = sx::job(6);
    let v = sx::job(8);
    by_type!(t, full, v, 0)
}
/// The other scales.
#[no_mangle]
pub fn h_scales() {
    let t = sx::job(6);
    let v = sx::job(8);
    let s = sx::job(3) + 1;
    by_type!(t, full, v, s)
}

fn window<T: Uint>(v: u32, scale: u32, w: usize) {
    let width = if sx::tier() == 0 { 5 } else { 7 };
    judge(&windowed::<T>(w, w + width), v, scale)
}
fn windows(v: u32, scale: u32) {
    let t = sx::job(2);
    if t == 0 {
        window::<u64>(v, scale, sx::job(16) as usize)
    } else {
        window::<u128>(v, scale, sx::job(35) as usize)
    }
}
#[no_mangle]
pub fn h_myriad_window() {
    // one variant per character table and form
    let v = [0, 3, 5, 6][sx::job(4) as usize];
    windows(v, 0)
}
#[no_mangle]
pub fn h_scales_window() {
    let k = sx::job(6);
    windows([0, 7, 5, 2, 3, 4][k as usize], k % 3 + 1)
}

fn shapes(v: u32, scale: u32) {
    if sx::job(2) == 0 {
        judge(&shaped::<u64>(), v, scale)
    } else {
        judge(&shaped::<u128>(), v, scale)
    }
}
/// Few digits that are not zero, or one run of zeros, in numbers of any length.
#[no_mangle]
pub fn h_myriad_shape() {
    let v = [0, 3, 5, 6][sx::job(if sx::tier() == 0 { 2 } else { 4 }) as usize];
    shapes(v, 0)
}
#[no_mangle]
pub fn h_scales_shape() {
    let k = sx::job(if sx::tier() == 0 { 3 } else { 6 });
    shapes([0, 7, 5, 2, 3, 4][k as usize], k % 3 + 1)
}
