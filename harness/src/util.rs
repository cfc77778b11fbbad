use crate::sx;
use nominals::{Error, Nominal};

/// The unsigned types under test, with conversions the harness needs.
pub trait Uint: Nominal + core::fmt::Debug + TryFrom<u32> + TryFrom<u128> + Eq + 'static {
    const MAX: u128;
    fn of(x: u128) -> Self;
    fn wide(self) -> u128;
    fn mac(self, base: u32, d: u32) -> Self;
    fn plus(self, o: Self) -> Self;
}
macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Uint for $t {
            const MAX: u128 = <$t>::MAX as u128;
            #[inline(always)]
            fn of(x: u128) -> Self { x as $t }
            #[inline(always)]
            fn wide(self) -> u128 { self as u128 }
            #[inline(always)]
            fn plus(self, o: Self) -> Self { self + o }
            #[inline(always)]
            fn mac(self, base: u32, d: u32) -> Self { self * (base as $t) + (d as $t) }
        }
    )*};
}
uint!(u8, u16, u32, u64, u128, usize);

pub const MAXD: usize = 130;

/// A number given by its digits, least significant first in `d[..len]`.
pub struct Num<T> {
    pub n: T,
    pub d: [u8; MAXD],
    pub len: usize,
}

/// Every value of `T` (at most `limit`), exactly once, as a symbolic digit
/// vector in the given base: one family of paths per digit count, plus one per
/// position at which the value falls below the upper limit.
#[inline(never)]
pub fn number<T: Uint>(id: u32, base: u32, limit: u128) -> Num<T> {
    number_in(id, base, limit, &|_, _| (0, base as u64 - 1))
}

/// As `number`, with the digit at position `i` of a number of `len` digits
/// restricted to `range(i, len)` (the leading digit stays non-zero).
#[inline(never)]
pub fn number_in<T: Uint>(id: u32, base: u32, limit: u128, range: &dyn Fn(usize, usize) -> (u64, u64)) -> Num<T> {
    number_of(id, base, limit, 0, range)
}
/// As `number_in`, with `fixed` digits unless that is zero.
#[inline(never)]
fn number_of<T: Uint>(
    id: u32,
    base: u32,
    limit: u128,
    fixed: usize,
    range: &dyn Fn(usize, usize) -> (u64, u64),
) -> Num<T> {
    let max = if limit < T::MAX { limit } else { T::MAX };
    let mut m = [0u8; MAXD];
    let mut l = 0;
    let mut r = max;
    while r != 0 || l == 0 {
        m[l] = (r % base as u128) as u8;
        r /= base as u128;
        l += 1;
    }
    let len = if fixed > 0 { fixed } else { sx::pick(id, 1, l as u64) as usize };
    let mut d = [0u8; MAXD];
    let mut n = T::from(0u8);
    let mut tight = len == l;
    let mut i = len;
    while i > 0 {
        i -= 1;
        let (mut lo, hi) = range(i, len);
        if i == len - 1 && len > 1 && lo == 0 {
            lo = 1
        }
        if lo > hi {
            sx::assume(false);
        }
        let x = if lo == hi { lo } else { sx::var(id + 1 + i as u32, lo, hi) };
        if tight {
            if x > m[i] as u64 {
                sx::assume(false);
            }
            if x < m[i] as u64 {
                tight = false;
            }
        }
        d[i] = x as u8;
        n = n.mac(base, x as u32);
    }
    Num { n, d, len }
}

/// Decimal digits in the number of the largest value of `T`.
pub fn places<T: Uint>() -> usize {
    let mut l = 0;
    let mut m = T::MAX;
    while m > 0 {
        m /= 10;
        l += 1;
    }
    l
}
/// Numbers of `len` decimal digits of which at most three, at any positions,
/// are not zero.
#[inline(never)]
pub fn sparse<T: Uint>(len: usize) -> Num<T> {
    let top = len as u64 - 1;
    let p = sx::pick(901, 0, top) as usize;
    let q = if p < len - 1 { sx::pick(902, 0, p as u64) as usize } else { p };
    number_of::<T>(0, 10, u128::MAX, len, &|i, _| {
        if i == len - 1 || i == p || i == q {
            (1, 9)
        } else {
            (0, 0)
        }
    })
}
/// Numbers of `len` decimal digits whose zeros are all next to each other.
#[inline(never)]
pub fn dense<T: Uint>(len: usize) -> Num<T> {
    let p = sx::pick(901, 0, len as u64 - 1) as usize;
    let q = if p < len - 1 { sx::pick(902, 0, p as u64) as usize } else { len };
    number_of::<T>(0, 10, u128::MAX, len, &|i, _| {
        if i <= p && i >= q {
            (0, 0)
        } else {
            (1, 9)
        }
    })
}
/// One of the two, of any length the type allows; split into jobs.
pub fn shaped<T: Uint>() -> Num<T> {
    let f = sx::job(2);
    // the longest first
    let l = places::<T>();
    let len = l - sx::job(l as u32) as usize;
    if f == 0 {
        sparse::<T>(len)
    } else {
        dense::<T>(len)
    }
}

/// As `number`, in bijective base: the digits (1..=base) are those of the value
/// plus `shift` (0 or 1), so that with shift 1 zero is included and with shift
/// 0 it is not.
pub fn bijective<T: Uint>(id: u32, base: u32, shift: u32) -> Num<T> {
    bijective_to(id, base, shift, u128::MAX)
}
#[inline(never)]
pub fn bijective_to<T: Uint>(id: u32, base: u32, shift: u32, limit: u128) -> Num<T> {
    let mut m = [0u8; MAXD];
    let mut l = 0;
    let b = base as u128;
    let mut r = if limit < T::MAX { limit } else { T::MAX };
    // digits of the limit + shift
    let mut first = shift == 1;
    while first || r != 0 {
        if !first {
            r -= 1;
        }
        first = false;
        m[l] = (r % b + 1) as u8;
        r /= b;
        l += 1;
    }
    let len = sx::pick(id, 1, l as u64) as usize;
    let mut d = [0u8; MAXD];
    let mut n = T::from(0u8);
    let mut tight = len == l;
    let mut i = len;
    while i > 0 {
        i -= 1;
        let x = sx::var(id + 1 + i as u32, 1, base as u64);
        if tight {
            if x > m[i] as u64 {
                sx::assume(false);
            }
            if x < m[i] as u64 {
                tight = false;
            }
        }
        d[i] = x as u8;
        n = n.mac(base, if i == 0 { x as u32 - shift } else { x as u32 });
    }
    Num { n, d, len }
}

/// The number itself (concrete from here on) if it is below 100.
pub fn small<T>(x: &Num<T>) -> Option<usize> {
    match x.len {
        1 => Some(sx::fork(x.d[0] as u64) as usize),
        2 => Some(sx::fork(x.d[1] as u64 * 10 + x.d[0] as u64) as usize),
        _ => None,
    }
}

/// A text under construction; bytes past `len` stay uninitialised.
pub struct Text<const N: usize> {
    b: [core::mem::MaybeUninit<u8>; N],
    pub len: usize,
}
impl<const N: usize> Text<N> {
    pub fn new() -> Self {
        Text { b: [core::mem::MaybeUninit::uninit(); N], len: 0 }
    }
    pub fn push(&mut self, x: u8) {
        self.b[self.len].write(x);
        self.len += 1;
    }
    pub fn str(&mut self, s: &str) {
        self.bytes_of(s.as_bytes())
    }
    pub fn bytes_of(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.push(s[i]);
            i += 1;
        }
    }
    pub fn front(&mut self, s: &[u8]) {
        let mut i = self.len;
        while i > 0 {
            i -= 1;
            self.b[i + s.len()] = self.b[i];
        }
        let mut i = 0;
        while i < s.len() {
            self.b[i].write(s[i]);
            i += 1;
        }
        self.len += s.len();
    }
    /// Code point in UTF-8 with `w` bytes.
    pub fn cp(&mut self, c: u32) {
        if c < 0x80 {
            self.push(c as u8);
        } else if c < 0x800 {
            self.push(0xC0 + (c / 64) as u8);
            self.push(0x80 + (c % 64) as u8);
        } else if c < 0x10000 {
            self.push(0xE0 + (c / 4096) as u8);
            self.push(0x80 + (c / 64 % 64) as u8);
            self.push(0x80 + (c % 64) as u8);
        } else {
            self.push(0xF0 + (c / 262144) as u8);
            self.push(0x80 + (c / 4096 % 64) as u8);
            self.push(0x80 + (c / 64 % 64) as u8);
            self.push(0x80 + (c % 64) as u8);
        }
    }
    pub fn bytes(&self) -> &[u8] {
        assert!(self.len <= N);
        unsafe { core::slice::from_raw_parts(self.b.as_ptr().cast(), self.len) }
    }
    pub fn as_str(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(self.bytes()) }
    }
}

/// 0 = missing zero, 1 = out of memory, 2 = out of bounds.
pub fn err_kind<T: Uint>(e: &Error<T>) -> (u32, Option<T>) {
    match e {
        Error::NoZeroSymbol => (0, None),
        Error::OutOfMemory(n) => (1, Some(*n)),
        Error::OutOfBounds(n) => (2, Some(*n)),
        _ => (9, None),
    }
}

pub type Res<T> = Result<nominals::NominalString, Error<T>>;

/// Formatting `n` gave the text `want`; without a heap, an out-of-memory error
/// carrying `n` when `want` does not fit inline.
pub fn expect_text<T: Uint>(r: &Res<T>, want: &[u8], n: T) {
    if cfg!(not(feature = "alloc")) && want.len() > nominals::NominalString::INLINE_CAPACITY {
        return expect_err(r, 1, n);
    }
    match r {
        Ok(s) => {
            sx::reach(1);
            sx::emit(s.as_bytes());
            sx::eq(s.as_bytes(), want, 1);
        }
        Err(_) => sx::check(false, 2),
    }
}
/// Formatting `n` failed with an error of this kind.
pub fn expect_err<T: Uint>(r: &Res<T>, kind: u32, n: T) {
    match r {
        Ok(s) => {
            sx::emit(s.as_bytes());
            sx::check(false, 3)
        }
        Err(e) => {
            sx::reach(2 + kind);
            let (k, v) = err_kind(e);
            sx::check(k == kind, 4);
            if let Some(v) = v {
                sx::num(v, n, 5);
            }
        }
    }
}

#[macro_export]
macro_rules! by_type {
    ($j:expr, $f:ident $(, $a:expr)*) => {
        match $j {
            0 => $f::<u8>($($a),*),
            1 => $f::<u16>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            4 => $f::<u128>($($a),*),
            _ => $f::<usize>($($a),*),
        }
    };
}
