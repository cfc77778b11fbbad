//! Digit collections a user can build.
use crate::sx;
use crate::util::*;
use nominals::*;

/// A collection implemented outside the crate, every answer configurable.
#[derive(Clone, Copy)]
pub struct User<F> {
    pub len: usize,
    pub zero: bool,
    pub zb: bool,
    pub fixed: bool,
    pub first: u32,
    pub f: core::marker::PhantomData<F>,
}
impl<F: DigitCollection + Default> DigitCollection for User<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.fixed
    }
    fn has_zero_digit(&self) -> bool {
        self.zero
    }
    fn zero_based(&self) -> bool {
        self.zb
    }
    fn len(&self) -> usize {
        self.len
    }
    fn digit(&self, i: usize) -> char {
        assert!(i < self.len);
        unsafe { char::from_u32_unchecked(self.first + i as u32) }
    }
}

/// A fallback that has a fallback itself.
#[derive(Default)]
pub struct Stems;
impl DigitCollection for Stems {
    type Fallback = CjkDecimal;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn zero_based(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        CjkHeavenlyStem.len()
    }
    fn digit(&self, i: usize) -> char {
        CjkHeavenlyStem.digit(i)
    }
}

/// What a collection is expected to count like.
struct Cfg {
    cps: [u32; 24],
    len: usize,
    zero: bool,
    one: bool,
    fixed: bool,
    /// 0 none, 1 decimal, 2 letters, 3 stems
    fb: u32,
    /// Largest number tried.
    limit: u128,
}
impl Cfg {
    fn new() -> Self {
        Cfg { cps: [0; 24], len: 0, zero: false, one: false, fixed: false, fb: 0, limit: u128::MAX }
    }
    fn add<F>(&mut self, u: &User<F>) {
        let mut i = 0;
        while i < u.len {
            self.cps[self.len] = u.first + i as u32;
            self.len += 1;
            i += 1;
        }
    }
    fn flags<F>(&mut self, u: &User<F>) {
        self.zero = u.zero;
        self.one = !u.zero && !u.zb;
        self.fixed = u.fixed;
    }
    fn cut(&mut self, k: usize) {
        if k < self.len {
            self.len = k;
        }
    }
}

fn decimal(t: &mut Text<640>, d: &[u8; MAXD], len: usize) {
    let mut i = len;
    while i > 0 {
        i -= 1;
        t.push(b'0' + d[i]);
    }
}

/// Everything the collection does, for every number.
fn judge<T: Uint>(s: &dyn NominalSystem<T>, c: &Cfg) {
    let expressible = c.len >= 2 || (c.len == 1 && !c.zero);
    if c.fixed {
        return fixed::<T>(s, c);
    }
    if !expressible {
        let x = number::<T>(0, 10, c.limit);
        let r = s.try_format_nominal(x.n);
        let zero = x.len == 1 && sx::fork(x.d[0] as u64) == 0;
        if zero && c.len == 1 {
            let mut t = Text::<640>::new();
            t.cp(c.cps[0]);
            return expect_text(&r, t.bytes(), x.n);
        }
        if zero && c.one {
            // an empty one-based collection: either complaint is right
            return sx::check(matches!(r, Err(Error::NoZeroSymbol) | Err(Error::OutOfBounds(_))), 30);
        }
        return expect_err(&r, 2, x.n);
    }
    let mut t = Text::<640>::new();
    let n;
    if c.zero {
        let x = number::<T>(0, c.len as u32, c.limit);
        n = x.n;
        let mut i = x.len;
        while i > 0 {
            i -= 1;
            t.cp(c.cps[x.d[i] as usize]);
        }
    } else if c.len == 1 {
        let k = sx::pick(0, 0, 66);
        n = T::of(k as u128);
        if c.one && k == 0 {
            let r = s.try_format_nominal(n);
            return expect_err(&r, 0, n);
        }
        let mut i = if c.one { 0 } else { -1 };
        while i < k as i64 {
            t.cp(c.cps[0]);
            i += 1;
        }
    } else {
        if c.one && sx::pick(300, 0, 1) == 0 {
            n = T::of(0);
            let r = s.try_format_nominal(n);
            return expect_err(&r, 0, n);
        }
        let x = bijective_to::<T>(0, c.len as u32, if c.one { 0 } else { 1 }, c.limit);
        n = x.n;
        let mut i = x.len;
        while i > 0 {
            i -= 1;
            t.cp(c.cps[x.d[i] as usize - 1]);
        }
    }
    let r = s.try_format_nominal(n);
    expect_text(&r, t.bytes(), n);
}

fn fixed<T: Uint>(s: &dyn NominalSystem<T>, c: &Cfg) {
    let shift = c.one as u64;
    let mut t = Text::<640>::new();
    if sx::pick(300, 0, 1) == 0 {
        // inside
        if c.one && sx::pick(301, 0, 1) == 0 {
            let r = s.try_format_nominal(T::of(0));
            if c.len == 0 {
                return sx::check(matches!(r, Err(Error::NoZeroSymbol) | Err(Error::OutOfBounds(_))), 31);
            }
            return expect_err(&r, 0, T::of(0));
        }
        if c.len == 0 {
            return sx::assume(false);
        }
        let k = sx::pick(0, shift, c.len as u64 - 1 + shift);
        let n = T::of(k as u128);
        let r = s.try_format_nominal(n);
        t.cp(c.cps[(k - shift) as usize]);
        return expect_text(&r, t.bytes(), n);
    }
    // beyond
    let over = T::of((c.len as u64 + shift) as u128);
    let n;
    let mut some = true;
    if c.fb == 2 {
        let x = bijective_to::<T>(0, 26, 1, c.limit);
        n = x.n;
        let mut i = x.len;
        while i > 0 {
            i -= 1;
            t.push(b'a' + x.d[i] - 1);
        }
    } else {
        let x = number::<T>(0, 10, c.limit);
        n = x.n;
        if c.fb == 3 {
            let mut small = 1000;
            if x.len == 1 {
                small = sx::fork(x.d[0] as u64) as usize;
            } else if x.len == 2 && sx::fork(x.d[1] as u64) == 1 && sx::fork(x.d[0] as u64) == 0 {
                small = 10;
            }
            if small == 0 {
                some = false;
            } else if small <= 10 {
                t.cp([0x7532, 0x4E59, 0x4E19, 0x4E01, 0x620A, 0x5DF1, 0x5E9A, 0x8F9B, 0x58EC, 0x7678][small - 1]);
            } else {
                let mut i = x.len;
                while i > 0 {
                    i -= 1;
                    t.cp(crate::stems::CJK[x.d[i] as usize]);
                }
            }
        } else {
            decimal(&mut t, &x.d, x.len);
        }
    }
    sx::assume(n >= over);
    sx::reach(40 + c.fb);
    let r = s.try_format_nominal(n);
    if !some {
        expect_err(&r, 0, n)
    } else if c.fb == 0 {
        expect_err(&r, 2, n)
    } else {
        expect_text(&r, t.bytes(), n)
    }
}

fn user<F>(id: u32, lens: &[u8], first: u32) -> User<F> {
    let len = lens[sx::pick(id, 0, lens.len() as u64 - 1) as usize] as usize;
    let g = sx::pick(id + 1, 0, 2);
    User { len, zero: g == 0, zb: g != 2, fixed: false, first, f: core::marker::PhantomData }
}

fn sets<T: Uint>(k: u32) {
    let mut c = Cfg::new();
    macro_rules! set {
        ($n:expr) => {{
            let mut a = ['\0'; $n];
            let mut i = 0;
            // digits of one encoded length, any number; or mixed, small numbers
            let w = sx::pick(311, 0, 4) as usize;
            if w == 4 {
                c.limit = if sx::tier() == 0 { 40 } else { 400 };
            } else if w > 0 && sx::tier() == 0 {
                c.limit = 100_000;
            }
            while i < $n {
                let cp = [0x61, 0x3B1, 0x4E00, 0x1F600][if w == 4 { i % 4 } else { w }] + i as u32;
                a[i] = unsafe { char::from_u32_unchecked(cp) };
                c.cps[i] = cp;
                i += 1;
            }
            c.len = $n;
            match sx::pick(310, 0, 2) {
                0 => {
                    c.zero = true;
                    judge::<T>(&DigitSet::<$n, true>::new(a), &c)
                }
                1 => judge::<T>(&DigitSet::<$n, false>::zeroless(a), &c),
                _ => {
                    c.one = true;
                    judge::<T>(&DigitSet::<$n, false>::zeroless(a).one_based(), &c)
                }
            }
        }};
    }
    match k {
        0 => set!(0),
        1 => set!(1),
        2 => set!(2),
        3 => set!(3),
        4 => set!(7),
        5 => set!(12),
        _ => set!(20),
    }
}

fn adapters<T: Uint>(k: u32) {
    let mut c = Cfg::new();
    let small: &[u8] = if sx::tier() == 0 { &[0, 1, 2, 4] } else { &[0, 1, 2, 3, 4, 5, 7] };
    c.limit = if sx::tier() == 0 { 3000 } else { u32::MAX as u128 };
    match k {
        0 => {
            c.limit = u128::MAX;
            let u: User<NoFallback> = user(310, &[0, 1, 2, 3, 5, 10, 16], 0x61);
            c.flags(&u);
            c.add(&u);
            judge::<T>(&u, &c)
        }
        1 => {
            let a: User<NoFallback> = user(310, small, 0x61);
            let b: User<NoFallback> = user(320, small, 0x41);
            c.flags(&a);
            c.add(&a);
            c.add(&b);
            judge::<T>(&a.and(b), &c)
        }
        2 => {
            let a: User<NoFallback> = user(310, small, 0x61);
            let n = sx::pick(330, 0, 6) as usize;
            c.flags(&a);
            c.add(&a);
            c.cut(n);
            judge::<T>(&Restrict::new(n, a), &c)
        }
        3 => {
            c.limit = if sx::tier() == 0 { u64::MAX as u128 } else { u128::MAX };
            let a: User<NoFallback> = user(310, &[0, 1, 2, 3, 5, 10, 16], 0x61);
            c.flags(&a);
            c.add(&a);
            c.one = !a.zero;
            judge::<T>(&a.one_based(), &c)
        }
        4 => {
            c.limit = if sx::tier() == 0 { 100 } else { 3000 };
            let a: User<NoFallback> = user(310, small, 0x61);
            let b: User<NoFallback> = user(320, &[0, 2], 0x41);
            let n = sx::pick(330, 0, 5) as usize;
            c.flags(&a);
            c.add(&a);
            c.add(&b);
            c.cut(n);
            if sx::pick(331, 0, 1) == 0 {
                judge::<T>(&Restrict::new(n, Chain::new(a, b)), &c)
            } else {
                c.one = !a.zero;
                judge::<T>(&OneBased::new(Restrict::new(n, Chain::new(a, b))), &c)
            }
        }
        5 => {
            let a: User<NoFallback> = user(310, &[0, 2, 3], 0x61);
            let b: User<NoFallback> = user(320, &[0, 2, 3], 0x41);
            let n = sx::pick(330, 0, 3) as usize;
            c.flags(&a);
            c.add(&a);
            c.cut(n);
            c.add(&b);
            c.one = !a.zero;
            judge::<T>(&Chain::new(OneBased::new(Restrict::new(n, a)), b), &c)
        }
        6 => {
            let a: User<NoFallback> = user(310, &[1, 2, 3], 0x61);
            let b: User<NoFallback> = user(320, &[0, 2], 0x41);
            let d: User<NoFallback> = user(325, &[0, 1, 3], 0x30);
            c.flags(&a);
            c.add(&a);
            c.add(&b);
            c.add(&d);
            judge::<T>(&a.and(b).and(d), &c)
        }
        _ => {
            // built-in collections combined
            let n = sx::pick(330, 2, 24) as usize;
            let mut i = 0;
            while i < 24 {
                c.cps[i] = if i < 10 { 0x30 + i as u32 } else { 0x41 + i as u32 - 10 };
                i += 1;
            }
            c.len = n;
            c.zero = true;
            if sx::pick(331, 0, 1) == 0 {
                judge::<T>(&Restrict::new(n, Decimal.and(LetterUpper)), &c)
            } else {
                c.zero = false;
                let mut i = 0;
                while i < 24 {
                    c.cps[i] = if i < 20 { 0x61 + i as u32 } else { 0 };
                    i += 1;
                }
                c.cut(20);
                judge::<T>(&Restrict::new(c.len, LetterLower.and(Decimal)), &c)
            }
        }
    }
}

fn fixeds<T: Uint>(k: u32) {
    fn go<T: Uint, F: DigitCollection + Default>(fb: u32) {
        let mut c = Cfg::new();
        let mut a: User<F> = user(310, &[0, 1, 2, 5, 13], 0x4E00);
        a.fixed = true;
        c.flags(&a);
        c.add(&a);
        c.fb = fb;
        let form = sx::pick(332, 0, 3);
        if form != 0 && sx::tier() == 0 {
            c.limit = 40000;
        }
        match form {
            0 => judge::<T>(&a, &c),
            1 => {
                c.one = !a.zero;
                judge::<T>(&a.one_based(), &c)
            }
            2 => {
                let n = sx::pick(330, 0, 7) as usize;
                c.cut(n);
                judge::<T>(&Restrict::new(n, a), &c)
            }
            _ => {
                c.one = !a.zero;
                c.cut(3);
                judge::<T>(&OneBased::new(Restrict::new(3, a)), &c)
            }
        }
    }
    match k {
        0 => go::<T, NoFallback>(0),
        1 => go::<T, Decimal>(1),
        2 => go::<T, LetterLower>(2),
        _ => go::<T, Stems>(3),
    }
}

/// Collections with more digits than the integer type has values, or so many
/// that one digit is two symbolic bytes.
fn big<T: Uint>(bytes: u32) {
    let u: User<NoFallback> = {
        let l = sx::pick(310, 0, 2);
        let len = match (bytes, l) {
            (1, 0) => 256,
            (1, 1) => 300,
            (1, _) => 70000,
            (_, 0) => 65536,
            (_, 1) => 65537,
            (_, _) => 70000,
        };
        let g = sx::pick(311, 0, 2);
        let fx = sx::pick(312, 0, 1) == 1;
        User { len, zero: g == 0, zb: g != 2, fixed: fx, first: 0x20000, f: core::marker::PhantomData }
    };
    let one = !u.zero && !u.zb;
    let lo = sx::var(0, 0, 255);
    let hi = if bytes == 2 { sx::var(1, 0, 255) } else { 0 };
    let n = T::of((hi * 256 + lo) as u128);
    let r = match sx::pick(313, 0, 2) {
        0 => u.try_format_nominal(n),
        1 => Restrict::new(if bytes == 1 { 256 } else { 65536 }, u).try_format_nominal(n),
        _ => {
            if !one {
                sx::assume(false);
            }
            OneBased::new(u).try_format_nominal(n)
        }
    };
    let mut k = hi * 256 + lo;
    if one {
        if k == 0 {
            return expect_err(&r, 0, n);
        }
        k -= 1;
    }
    let mut t = Text::<640>::new();
    // all digits lie in the four-byte planes
    let cp = 0x20000 + k;
    t.push(0xF0);
    t.push(0x80 + (cp / 4096) as u8);
    t.push(0x80 + (cp / 64 % 64) as u8);
    t.push(0x80 + (cp % 64) as u8);
    expect_text(&r, t.bytes(), n);
}

/// Collections of more digits than a byte can count, on types that hold the
/// count: one and two places.
fn wide<T: Uint>(form: u32) {
    let len = [200usize, 255, 256, 257, 300, 511, 512, 600][sx::pick(310, 0, 7) as usize];
    let g = sx::pick(311, 0, 2);
    let part = |len: usize, at: usize| User::<NoFallback> {
        len,
        zero: g == 0,
        zb: g != 2,
        fixed: false,
        first: 0x20000 + at as u32,
        f: core::marker::PhantomData,
    };
    let digit = |id: u32| {
        let lo = sx::var(id, 0, 255);
        let k = sx::var(id + 1, 0, (len as u64 - 1) / 256) * 256 + lo;
        sx::assume(k < len as u64);
        k
    };
    let mut t = Text::<640>::new();
    let mut write = |k: u64| {
        // all digits lie in the four-byte planes
        let cp = 0x20000 + k;
        t.push(0xF0);
        t.push(0x80 + (cp / 4096) as u8);
        t.push(0x80 + (cp / 64 % 64) as u8);
        t.push(0x80 + (cp % 64) as u8);
    };
    let low = digit(0);
    let mut n = low;
    if sx::pick(312, 0, 1) == 1 {
        let high = digit(10);
        if g == 0 {
            sx::assume(high > 0);
            n += high * len as u64;
        } else {
            n += (high + 1) * len as u64;
        }
        write(high);
    }
    write(low);
    let one = g == 2 || g == 1 && form % 2 == 1;
    n += one as u64;
    sx::assume(n as u128 <= T::MAX);
    let n = T::of(n as u128);
    let r = match form {
        0 => part(len, 0).try_format_nominal(n),
        1 => OneBased::new(part(len, 0)).try_format_nominal(n),
        2 => Chain::new(part(len - 100, 0), part(100, len - 100)).try_format_nominal(n),
        3 => OneBased::new(Chain::new(part(50, 0), part(len - 50, 50))).try_format_nominal(n),
        4 => Restrict::new(len, part(len + 300, 0)).try_format_nominal(n),
        5 => Restrict::new(len, OneBased::new(part(len + 1, 0))).try_format_nominal(n),
        6 => Restrict::new(len, Chain::new(part(len - 1, 0), part(300, len - 1))).try_format_nominal(n),
        _ => OneBased::new(Restrict::new(len + 9, part(len, 0))).try_format_nominal(n),
    };
    expect_text(&r, t.bytes(), n);
}
#[no_mangle]
pub fn h_digit_wide() {
    let t = sx::job(5);
    let k = sx::job(8);
    by_type!(t + 1, wide, k)
}

#[no_mangle]
pub fn h_digit_sets() {
    let t = sx::job(6);
    let k = sx::job(7);
    by_type!(t, sets, k)
}
#[no_mangle]
pub fn h_digit_adapters() {
    let t = sx::job(6);
    let k = sx::job(8);
    by_type!(t, adapters, k)
}
#[no_mangle]
pub fn h_digit_fixed() {
    let t = sx::job(6);
    let k = sx::job(4);
    by_type!(t, fixeds, k)
}
#[no_mangle]
pub fn h_digit_big() {
    match sx::job(2) {
        0 => big::<u8>(1),
        _ => big::<u16>(2),
    }
}
